#include "h.h"
#include <dataframe/functional/utils/apply.h>
using namespace df;
static const char *A = "each item is visited once, in order";
static const char *R = "item i of the result is what the callback returned for item i";
// the callback forms under test: free, member, make_map, apply, make_apply
template <class F> static Serie run(int form, const F &f, const Serie &s) {
    switch (form) {
    case 0: return map(f, s);
    case 1: return s.map(f);
    case 2: return make_map(f)(s);
    case 3: return utils::apply(f, s);
    default: return utils::make_apply(f)(s);
    }
}
static void seen(const Array &got, const Array &v, uint32_t k, uint32_t i) {
    sx_assert(got.size() == k, "the callback receives the whole item");
    for (uint32_t j = 0; j < k; j++) sx_assert_same(got[j], v[(size_t)k * i + j], "the callback receives the item");
}
static void scalar_forms(int form, uint32_t n, int kind) {
    Array v = sx_vec("v", n);
    Serie s(1, v);
    uint32_t calls = 0;
    Array want;
    Serie r;
    if (kind == 0) {
        r = run(form, [&](double x, uint32_t i) { sx_assert(i == calls++, A); sx_assert_same(x, v[i], "the callback receives the item"); return fn1("f", x, i); }, s);
        for (uint32_t i = 0; i < n; i++) want.push_back(fn1("f", v[i], i));
    } else if (kind == 1) { // integral result
        std::vector<int> ret;
        for (uint32_t i = 0; i < n; i++) ret.push_back((int)sx_u32("ret"));
        r = run(form, [&](double x, uint32_t i) { sx_assert(i == calls++, A); sx_assert_same(x, v[i], "the callback receives the item"); return ret[i]; }, s);
        for (uint32_t i = 0; i < n; i++) want.push_back((double)ret[i]);
    } else { // array result of 1..4 values
        int m = (int)sx_choose("out", 1, 4);
        r = run(form, [&](double x, uint32_t i) {
            sx_assert(i == calls++, A); sx_assert_same(x, v[i], "the callback receives the item");
            Array o; for (int j = 0; j < m; j++) o.push_back(fn1("f", x, i * 8 + j)); return o; }, s);
        for (uint32_t i = 0; i < n; i++) for (int j = 0; j < m; j++) want.push_back(fn1("f", v[i], i * 8 + j));
        sx_assert(calls == n, "every item is visited");
        if (n) same_serie(r, m, n, 3, want);
        else sx_assert(r.count() == 0 && r.asArray().empty(), "no items from no items");
        same_values(s, v, "input unchanged");
        return;
    }
    sx_assert(calls == n, "every item is visited");
    same_serie(r, 1, n, 3, want);
    same_values(s, v, "input unchanged");
}
// BOUND scalar: scalar Serie, count 0..5, callback returning double, int or an Array of 1..4 values, five calling forms
SX_ENTRY(scalar, "") {
    int form = (int)sx_choose("form", 0, 4);
    scalar_forms(form, (uint32_t)sx_choose("count", 0, 5), (int)sx_choose("kind", 0, 2));
}
// BOUND scalar_big: scalar Serie, count 6,7,10,14,16,17,22,30,31,64,100,257,1025, the same callbacks
SX_ENTRY(scalar_big, "shards=4") { scalar_forms((int)sx_choose("form", 0, 1), big_count(), (int)sx_choose("kind", 0, 2)); }

static void vector_forms(int form, int k, uint32_t n, int kind) {
    Array v = sx_vec("v", (size_t)k * n), want;
    Serie s(k, v), r;
    uint32_t calls = 0;
    if (kind == 0) {
        r = run(form, [&](const Array &x, uint32_t i) { sx_assert(i == calls++, A); seen(x, v, k, i); return fn("f", x, i); }, s);
        for (uint32_t i = 0; i < n; i++) want.push_back(fn("f", item_of(v, k, i), i));
        same_serie(r, 1, n, 3, want);
    } else {
        int m = (int)sx_choose("out", 1, 4);
        r = run(form, [&](const Array &x, uint32_t i) {
            sx_assert(i == calls++, A); seen(x, v, k, i);
            Array o; for (int j = 0; j < m; j++) o.push_back(fn("f", x, i * 8 + j)); return o; }, s);
        for (uint32_t i = 0; i < n; i++) for (int j = 0; j < m; j++) want.push_back(fn("f", item_of(v, k, i), i * 8 + j));
        if (n) same_serie(r, m, n, 3, want);
        else sx_assert(r.count() == 0 && r.asArray().empty(), "no items from no items");
    }
    sx_assert(calls == n, "every item is visited");
    same_values(s, v, "input unchanged");
}
// BOUND vector: itemSize 1,2,3,4,6,9 (array callback on scalar items too), count 0..4, callback returning double or an Array of 1..4 values, five calling forms
SX_ENTRY(vector, "shards=2") {
    Shape s = small_shape(0, 4);
    vector_forms((int)sx_choose("form", 0, 4), s.k, s.n, (int)sx_choose("kind", 0, 1));
}
// BOUND vector_big: {2,33},{3,33},{3,130},{5,7},{6,65},{7,40},{8,16},{9,20},{12,6},{16,5},{33,3},{260,3},{2,6},{2,11},{3,6},{3,7},{3,10},{4,14},{11,2}
SX_ENTRY(vector_big, "shards=4") {
    Shape s = big_vec_shape();
    vector_forms((int)sx_choose("form", 0, 1), s.k, s.n, (int)sx_choose("kind", 0, 1));
}
static void several(uint32_t n, int three, int kind, const int *ks, int form) {
    Array a = sx_vec("a", (size_t)ks[0] * n), b = sx_vec("b", (size_t)ks[1] * n), c = sx_vec("c", (size_t)ks[2] * n), want;
    Serie sa(ks[0], a), sb(ks[1], b), sc(ks[2], c), r;
    uint32_t calls = 0;
    int m = 1;
    auto res = [&](const Array &x, uint32_t i) { Array o; for (int j = 0; j < m; j++) o.push_back(fn("g", x, i * 8 + j)); return o; };
    auto two = [&](const Array &x, const Array &y, uint32_t i) { sx_assert(i == calls++, A); seen(x, a, ks[0], i); seen(y, b, ks[1], i); return fn("f", cat(x, y), i); };
    auto twoV = [&](const Array &x, const Array &y, uint32_t i) { sx_assert(i == calls++, A); seen(x, a, ks[0], i); seen(y, b, ks[1], i); return res(cat(x, y), i); };
    auto thr = [&](const Array &x, const Array &y, const Array &z, uint32_t i) { sx_assert(i == calls++, A); seen(x, a, ks[0], i); seen(y, b, ks[1], i); seen(z, c, ks[2], i); return fn("f", cat(cat(x, y), z), i); };
    auto thrV = [&](const Array &x, const Array &y, const Array &z, uint32_t i) { sx_assert(i == calls++, A); seen(x, a, ks[0], i); seen(y, b, ks[1], i); seen(z, c, ks[2], i); return res(cat(cat(x, y), z), i); };
    if (kind == 1) m = (int)sx_choose("out", 1, 3);
    if (!three) {
        if (kind == 0) r = form ? utils::apply(two, sa, sb) : map(two, sa, sb);
        else r = form ? utils::apply(twoV, sa, sb) : map(twoV, sa, sb);
    } else {
        if (kind == 0) r = form ? utils::apply(thr, sa, sb, sc) : map(thr, sa, sb, sc);
        else r = form ? utils::apply(thrV, sa, sb, sc) : map(thrV, sa, sb, sc);
    }
    for (uint32_t i = 0; i < n; i++) {
        Array x = cat(item_of(a, ks[0], i), item_of(b, ks[1], i));
        if (three) x = cat(x, item_of(c, ks[2], i));
        if (kind == 0) want.push_back(fn("f", x, i));
        else want = cat(want, res(x, i));
    }
    sx_assert(calls == n, "every item is visited");
    if (n) same_serie(r, m, n, 3, want);
    else sx_assert(r.count() == 0 && r.asArray().empty(), "no items from no items");
    same_values(sa, a, "input unchanged");
    same_values(sb, b, "input unchanged");
}
// BOUND series: two or three Series of itemSize 1..3 each, count 0..3, callback returning double or an Array of 1..3 values
SX_ENTRY(series, "shards=2") {
    int ks[3] = {(int)sx_choose("k", 1, 3), (int)sx_choose("k", 1, 3), 2};
    int three = (int)sx_choose("three", 0, 1);
    if (three) ks[2] = (int)sx_choose("k", 1, 3);
    several((uint32_t)sx_choose("count", 0, 3), three, (int)sx_choose("kind", 0, 1), ks, (int)sx_choose("form", 0, 1));
}
// BOUND series_big: two or three Series of itemSizes 3,1,6, count 16,17,33,100
SX_ENTRY(series_big, "shards=2") {
    static const uint32_t ns[] = {16, 17, 33, 100};
    int ks[3] = {3, 1, 6};
    several(ns[sx_choose("n", 0, 3)], (int)sx_choose("three", 0, 1), (int)sx_choose("kind", 0, 1), ks, 0);
}
// BOUND same_twice: the same Serie passed twice or three times
SX_ENTRY(same_twice, "") {
    int k = (int)sx_choose("k", 1, 3);
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    Array v = sx_vec("v", (size_t)k * n), want;
    Serie s(k, v);
    Serie r = sx_choose("three", 0, 1) ? map([&](const Array &x, const Array &y, const Array &z, uint32_t i) { return fn("f", cat(x, cat(y, z)), i); }, s, s, s)
                                       : map([&](const Array &x, const Array &y, uint32_t i) { return fn("f", cat(x, cat(y, y)), i); }, s, s);
    for (uint32_t i = 0; i < n; i++) { Array x = item_of(v, k, i); want.push_back(fn("f", cat(x, cat(x, x)), i)); }
    same_serie(r, 1, n, 3, want);
    same_values(s, v, "input unchanged");
}
// BOUND counts: two or three Series with counts 0..4 each, not all equal
SX_ENTRY(counts, "") {
    int three = (int)sx_choose("three", 0, 1);
    uint32_t n[3];
    for (int i = 0; i < 2 + three; i++) n[i] = (uint32_t)sx_choose("n", 0, 4);
    sx_assume(n[0] != n[1] || (three && n[0] != n[2]));
    Serie a = sx_serie("a", 2, n[0]), b = sx_serie("b", 1, n[1]);
    bool called = false;
    int o;
    if (three) {
        Serie c = sx_serie("c", 3, n[2]);
        o = sx_outcome([&] { map([&](const Array &, const Array &, const Array &, uint32_t) { called = true; return 1.0; }, a, b, c); });
    } else if (sx_choose("arr", 0, 1)) o = sx_outcome([&] { map([&](const Array &x, const Array &, uint32_t) { called = true; return x; }, a, b); });
    else o = sx_outcome([&] { map([&](const Array &, const Array &, uint32_t) { called = true; return 1.0; }, a, b); });
    sx_assert(o == 1, "different counts are rejected with invalid_argument");
    sx_assert(!called, "nothing is computed from Series of different counts");
}
// BOUND sizes: one or two Series of count 2..5, the callback returns an Array of another size (1..4) at one place
SX_ENTRY(sizes, "") {
    uint32_t n = (uint32_t)sx_choose("count", 2, 5), at = (uint32_t)sx_choose("at", 0, 4);
    sx_assume(at < n);
    uint32_t usual = (uint32_t)sx_choose("usual", 1, 4), other = (uint32_t)sx_choose("other", 0, 4);
    sx_assume(usual != other);
    Serie s1 = sx_serie("a", 1, n), s2 = sx_serie("b", 2, n);
    auto sz = [&](uint32_t i) { return Array(i == at ? other : usual, 1.0); };
    int o;
    switch (sx_choose("form", 0, 2)) {
    case 0: o = sx_outcome([&] { map([&](double, uint32_t i) { return sz(i); }, s1); }); break;
    case 1: o = sx_outcome([&] { map([&](const Array &, uint32_t i) { return sz(i); }, s2); }); break;
    default: o = sx_outcome([&] { map([&](const Array &, const Array &, uint32_t i) { return sz(i); }, s1, s2); });
    }
    sx_assert(o == 1 || o == 2, "returned arrays of differing sizes are reported by an exception");
}
// BOUND huge: 65541 items of 1 and 3 components (beyond 16-bit indices); scalar and array results, one and two Series
SX_ENTRY(huge, "shards=6 max-steps=4000000000") {
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 5), calls = 0, bad = 0, k = form == 0 || form == 3 || form == 5 ? 1 : 3;
    Array a = huge_vec("a", k, n), b = huge_vec("b", 1, form == 3 || form == 4 ? n : 0), want;
    Serie sa((int)k, a), sb(1, b), r;
    uint32_t m = form == 2 || form == 4 || form == 5 ? 2 : 1;
    if (form == 0) r = map([&](double x, uint32_t i) { bad |= i ^ calls++; return x; }, sa);
    else if (form == 1) r = sa.map([&](const Array &x, uint32_t i) { bad |= i ^ calls++; return x[2]; });
    else if (form == 2) r = make_map([&](const Array &x, uint32_t i) { bad |= i ^ calls++; return Array{x[2], (double)i}; })(sa);
    else if (form == 3) r = map([&](const Array &x, const Array &y, uint32_t i) { bad |= i ^ calls++; return i % 2 ? x[0] : y[0]; }, sa, sb);
    else if (form == 5) r = map([&](double x, uint32_t i) { bad |= i ^ calls++; return Array{x, (double)i}; }, sa);
    else r = map([&](const Array &x, const Array &y, uint32_t i) { bad |= i ^ calls++; return Array{x[2], y[0]}; }, sa, sb);
    sx_assert(bad == 0, A);
    sx_assert(calls == n, "every item is visited");
    for (uint32_t i = 0; i < n; i++) {
        want.push_back(form == 3 && i % 2 == 0 ? b[i] : a[(size_t)k * i + k - 1]);
        if (m == 2) want.push_back(form == 4 ? b[i] : i);
    }
    huge_serie(r, m, n, 3, want);
}
