#include "h.h"
using namespace df;
static const char *A = "each item is visited once, in order";
static void seen(const Array &got, const Array &v, uint32_t k, uint32_t i) {
    sx_assert(got.size() == k, "the callback receives the whole item");
    for (uint32_t j = 0; j < k; j++) sx_assert_same(got[j], v[(size_t)k * i + j], "the callback receives the item");
}
template <class F> static int run(int form, F &&f, const Serie &s) {
    return sx_outcome([&] {
        if (form == 0) forEach(f, s);
        else if (form == 1) s.forEach(f);
        else make_forEach(f)(s);
    });
}
static void one(int form, int k, uint32_t n, int kind) {
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v);
    uint32_t calls = 0;
    int o, want;
    if (kind == 0) { // scalar callback
        o = run(form, [&](double x, uint32_t i) { sx_assert(i == calls++, A); sx_assert_same(x, v[i], "the callback receives the item"); }, s);
        want = k == 1 ? 0 : 1;
    } else if (kind == 1) { // array callback
        o = run(form, [&](const Array &x, uint32_t i) { sx_assert(i == calls++, A); seen(x, v, k, i); }, s);
        want = k != 1 ? 0 : 1;
    } else { // generic callback
        o = run(form, [&](const auto &x, uint32_t i) {
            sx_assert(i == calls++, A);
            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) { sx_assert(k == 1, "items with several components come as arrays"); sx_assert_same(x, v[i], "the callback receives the item"); }
            else { sx_assert(k != 1, "scalar items come as numbers"); seen(x, v, k, i); } }, s);
        want = 0;
    }
    sx_assert(o == want, "a callback of the wrong kind is rejected with invalid_argument, a matching one is not");
    sx_assert(calls == (o ? 0 : n), "every item is visited, or none when rejected");
    same_values(s, v, "input unchanged");
}
// BOUND single: itemSize 1,2,3,4,6,9, count 0..4, scalar, array and generic callbacks, free, member and make_ forms
SX_ENTRY(single, "") { Shape s = small_shape(0, 4); one((int)sx_choose("form", 0, 2), s.k, s.n, (int)sx_choose("kind", 0, 2)); }
// BOUND single_big: the shapes of big_shape (up to 1025 items)
SX_ENTRY(single_big, "shards=4") { Shape s = big_shape(); one((int)sx_choose("form", 0, 1), s.k, s.n, (int)sx_choose("kind", 0, 2)); }
static void several(uint32_t n, int three, const int *ks) {
    Array a = sx_vec("a", (size_t)ks[0] * n), b = sx_vec("b", (size_t)ks[1] * n), c = sx_vec("c", (size_t)ks[2] * n);
    Serie sa(ks[0], a), sb(ks[1], b), sc(ks[2], c);
    uint32_t calls = 0;
    if (three) forEach([&](const Array &x, const Array &y, const Array &z, uint32_t i) { sx_assert(i == calls++, A); seen(x, a, ks[0], i); seen(y, b, ks[1], i); seen(z, c, ks[2], i); }, sa, sb, sc);
    else forEach([&](const Array &x, const Array &y, uint32_t i) { sx_assert(i == calls++, A); seen(x, a, ks[0], i); seen(y, b, ks[1], i); }, sa, sb);
    sx_assert(calls == n, "every item is visited");
    same_values(sa, a, "input unchanged");
    same_values(sb, b, "input unchanged");
}
// BOUND series: two or three Series of itemSize 1..4, count 0..3
SX_ENTRY(series, "") {
    int ks[3] = {(int)sx_choose("k", 1, 4), (int)sx_choose("k", 1, 4), 2};
    int three = (int)sx_choose("three", 0, 1);
    if (three) ks[2] = (int)sx_choose("k", 1, 4);
    several((uint32_t)sx_choose("count", 0, 3), three, ks);
}
// BOUND series_big: itemSizes 3,1,6, counts 16,17,33,100,257
SX_ENTRY(series_big, "shards=2") {
    static const uint32_t ns[] = {16, 17, 33, 100, 257};
    int ks[3] = {3, 1, 6};
    several(ns[sx_choose("n", 0, 4)], (int)sx_choose("three", 0, 1), ks);
}
// BOUND counts: two or three Series with counts 0..4 each, not all equal
SX_ENTRY(counts, "") {
    int three = (int)sx_choose("three", 0, 1);
    uint32_t n[3];
    for (int i = 0; i < 2 + three; i++) n[i] = (uint32_t)sx_choose("n", 0, 4);
    sx_assume(n[0] != n[1] || (three && n[0] != n[2]));
    Serie a = sx_serie("a", 2, n[0]), b = sx_serie("b", 1, n[1]);
    bool called = false;
    int o;
    if (three) {
        Serie c = sx_serie("c", 3, n[2]);
        o = sx_outcome([&] { forEach([&](const Array &, const Array &, const Array &, uint32_t) { called = true; }, a, b, c); });
    } else o = sx_outcome([&] { forEach([&](const Array &, const Array &, uint32_t) { called = true; }, a, b); });
    sx_assert(o == 1, "different counts are rejected with invalid_argument");
    sx_assert(!called, "rejected before any call");
}
// BOUND throwing: a callback that throws at one place of a Serie of 1..5 items: the exception reaches the caller and later items are not visited
SX_ENTRY(throwing, "") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 5), at = (uint32_t)sx_choose("at", 0, 4);
    sx_assume(at < n);
    Serie s = sx_serie("v", 1, n), t = sx_serie("w", 2, n);
    uint32_t calls = 0;
    int o;
    switch (sx_choose("form", 0, 2)) {
    case 0: o = sx_outcome([&] { forEach([&](double, uint32_t i) { calls++; if (i == at) throw 7; }, s); }); break;
    case 1: o = sx_outcome([&] { forEach([&](const Array &, uint32_t i) { calls++; if (i == at) throw 7; }, t); }); break;
    default: o = sx_outcome([&] { forEach([&](const Array &, const Array &, uint32_t i) { calls++; if (i == at) throw 7; }, s, t); });
    }
    sx_assert(o == 3, "the exception of the callback reaches the caller");
    sx_assert(calls == at + 1, "nothing is visited after the exception");
}
// BOUND huge: 65541 items of 1 and 3 components (beyond 16-bit indices); free and member forms, one and two Series
SX_ENTRY(huge, "shards=6 max-steps=4000000000") {
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 5), calls = 0, bad = 0, k = form == 0 || form == 3 || form == 4 ? 1 : 3;
    Array a = huge_vec("a", k, n), b = huge_vec("b", 1, form == 2 || form == 3 ? n : 0), ga, gb;
    Serie sa((int)k, a), sb(1, b);
    auto put = [](Array &to, const Array &x) { to.insert(to.end(), x.begin(), x.end()); };
    if (form == 0) sa.forEach([&](double x, uint32_t i) { bad |= i ^ calls++; ga.push_back(x); });
    else if (form >= 4) forEach([&](const auto &x, uint32_t i) {
        bad |= i ^ calls++;
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) ga.push_back(x); else put(ga, x);
    }, sa);
    else if (form == 1) forEach([&](const Array &x, uint32_t i) { bad |= i ^ calls++; put(ga, x); }, sa);
    else if (form == 2) forEach([&](const Array &x, const Array &y, uint32_t i) { bad |= i ^ calls++; put(ga, x); put(gb, y); }, sa, sb);
    else forEach([&](const Array &x, const Array &y, uint32_t i) { bad |= i ^ calls++; put(ga, x); put(gb, y); }, sa, sb);
    sx_assert(bad == 0, A);
    sx_assert(calls == n, "every item is visited");
    huge_same(ga, a, "the callback receives the items");
    huge_same(gb, b, "the callback receives the items");
}
