#include "h.h"
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/partition.h>
using namespace df;
// the items whose predicate does not hold, in order (inverted by the callers for partition)
static Array kept(const Array &v, uint32_t k, uint32_t n, const std::vector<char> &p) {
    Array r;
    for (uint32_t i = 0; i < n; i++) if (!p[i]) r = cat(r, item_of(v, k, i));
    return r;
}
static uint32_t howmany(const std::vector<char> &p) { uint32_t c = 0; for (char x : p) c += x == 0; return c; }
template <class P> static Serie run(int form, const P &p, const Serie &s) {
    switch (form) {
    case 0: return utils::reject(p, s);
    case 1: return utils::make_reject(p)(s);
    case 2: return std::get<1>(utils::partition(p, s));
    default: { auto [m, u] = utils::partition(p, s); return u; }
    }
}
template <class D> static void one(int form, int k, uint32_t n, D decide) {
    Array v = sx_vec("v", (size_t)k * n);
    uint32_t dim = sx_u32("dim");
    Serie s(k, v, dim);
    std::vector<char> p(n, 0);
    std::vector<int> seen(n, 0);
    Serie r;
    if (k == 1 && sx_choose("scalar callback", 0, 1)) {
        auto f = [&](double x, uint32_t i) -> bool { sx_assert(i < n, "index in range"); sx_assert_same(x, v[i], "the predicate receives the item"); seen[i]++; return p[i] = decide(Array{x}, i); };
        r = run(form, f, s);
    } else {
        auto f = [&](const Array &x, uint32_t i) -> bool { sx_assert(i < n && x.size() == (size_t)k, "the predicate receives whole items"); for (int j = 0; j < k; j++) sx_assert_same(x[j], v[(size_t)k * i + j], "the predicate receives the item"); seen[i]++; return p[i] = decide(x, i); };
        r = run(form, f, s);
    }
    for (uint32_t i = 0; i < n; i++) sx_assert(seen[i] >= 1, "the predicate decides on every item");
    same_serie(r, k, howmany(p), dim, kept(v, k, n, p));
    same_values(s, v, "input unchanged");
}
// BOUND single: itemSize 1,2,3,4,6,9, count 0..4, every predicate, reject, make_reject and both readings of partition, scalar and array predicates
SX_ENTRY(single, "shards=2") {
    Shape s = small_shape(0, 4);
    one((int)sx_choose("form", 0, 3), s.k, s.n, [](const Array &x, uint32_t i) { return pr("p", x, i); });
}
// BOUND single_more: itemSize 1 or 2, count 5..7, every predicate
SX_ENTRY(single_more, "shards=2") {
    one((int)sx_choose("form#", 0, 1), (int)sx_choose("k", 1, 2), (uint32_t)sx_choose("count", 5, 7), [](const Array &x, uint32_t i) { return pr("p", x, i); });
}
// BOUND single_big: the shapes of big_shape with eight selection patterns (none, all, alternating, every third, first, last, half, one)
SX_ENTRY(single_big, "shards=6") {
    Shape s = big_shape();
    Mask m = mask_for(s.n);
    one((int)sx_choose("form", 0, 1) * 2, s.k, s.n, [m](const Array &, uint32_t i) { return m(i); });
}
template <class D> static void both(int k, uint32_t n, D decide) {
    Array v = sx_vec("v", (size_t)k * n), m, u;
    uint32_t dim = sx_u32("dim"), nm = 0;
    Serie s(k, v, dim);
    auto see = [&](const Array &x, uint32_t i) { sx_assert(i < n && x.size() == (size_t)k, "the predicate receives whole items"); for (int j = 0; j < k; j++) sx_assert_same(x[j], v[(size_t)k * i + j], "the predicate receives the item"); };
    std::vector<char> p(n, 0);
    Serie a, b;
    if (k == 1) std::tie(a, b) = utils::partition([&](double x, uint32_t i) -> bool { see(Array{x}, i); return p[i] = decide(Array{x}, i); }, s);
    else std::tie(a, b) = utils::partition([&](const Array &x, uint32_t i) -> bool { see(x, i); return p[i] = decide(x, i); }, s);
    for (uint32_t i = 0; i < n; i++) {
        if (p[i]) { m = cat(m, item_of(v, k, i)); nm++; }
        else u = cat(u, item_of(v, k, i));
    }
    same_serie(a, k, nm, dim, m);
    same_serie(b, k, n - nm, dim, u);
    same_values(s, v, "input unchanged");
}
// BOUND partition: itemSize 1,2,3,4,6,9, count 0..5, every predicate
SX_ENTRY(partition_all, "shards=2") { Shape s = small_shape(0, 5); both(s.k, s.n, [](const Array &x, uint32_t i) { return pr("p", x, i); }); }
// BOUND partition_big: the shapes of big_shape, eight patterns
SX_ENTRY(partition_big, "shards=4") { Shape s = big_shape(); Mask m = mask_for(s.n); both(s.k, s.n, [m](const Array &, uint32_t i) { return m(i); }); }
// BOUND wrong_kind: scalar predicate on Series of itemSize 2..4, count 0..3
SX_ENTRY(wrong_kind, "") {
    Serie s = sx_serie("v", (int)sx_choose("k", 2, 4), (uint32_t)sx_choose("n", 0, 3));
    sx_assert(sx_outcome([&] { utils::partition([](double, uint32_t) -> bool { return true; }, s); }) == 1, "scalar predicate on vector items is rejected");
}
template <class D> static void several(uint32_t n, int three, const int *ks, int form, D decide) {
    Array a = sx_vec("a", (size_t)ks[0] * n), b = sx_vec("b", (size_t)ks[1] * n), c = sx_vec("c", (size_t)ks[2] * n);
    unsigned da = sx_u32("dim"), db = sx_u32("dim");
    Serie sa(ks[0], a, da), sb(ks[1], b, db), sc(ks[2], c);
    std::vector<char> p(n, 0);
    uint32_t at = 0;
    auto see = [&](const Array &x, const Array &v, uint32_t k, uint32_t i) { sx_assert(i < n && x.size() == k, "the predicate receives whole items"); for (uint32_t j = 0; j < k; j++) sx_assert_same(x[j], v[(size_t)k * i + j], "the predicate receives the items of one index"); };
    Serie ra, rb, rc;
    if (form == 0 && !three) {
        auto t = utils::reject([&](const Array &x, const Array &y, uint32_t i) -> bool { at++; see(x, a, ks[0], i); see(y, b, ks[1], i); return p[i] = decide(cat(x, y), i); }, sa, sb);
        ra = std::get<0>(t); rb = std::get<1>(t);
    } else if (form == 0) {
        auto t = utils::reject([&](const Array &x, const Array &y, const Array &z, uint32_t i) -> bool { at++; see(x, a, ks[0], i); see(y, b, ks[1], i); see(z, c, ks[2], i); return p[i] = decide(cat(cat(x, y), z), i); }, sa, sb, sc);
        ra = std::get<0>(t); rb = std::get<1>(t); rc = std::get<2>(t);
    } else if (!three) {
        Series t = utils::rejectAll([&](const Array &x, const Array &y) -> bool { uint32_t i = at++; see(x, a, ks[0], i); see(y, b, ks[1], i); return p[i] = decide(cat(x, y), i); }, sa, sb);
        sx_assert(t.size() == 2, "one result per Serie");
        ra = t[0]; rb = t[1];
    } else {
        Series t = utils::rejectAll([&](const Array &x, const Array &y, const Array &z) -> bool { uint32_t i = at++; see(x, a, ks[0], i); see(y, b, ks[1], i); see(z, c, ks[2], i); return p[i] = decide(cat(cat(x, y), z), i); }, sa, sb, sc);
        sx_assert(t.size() == 3, "one result per Serie");
        ra = t[0]; rb = t[1]; rc = t[2];
    }
    sx_assert(at >= n, "the predicate decides on every index");
    same_serie(ra, ks[0], howmany(p), da, kept(a, ks[0], n, p));
    same_serie(rb, ks[1], howmany(p), db, kept(b, ks[1], n, p));
    if (three) same_serie(rc, ks[2], howmany(p), 3, kept(c, ks[2], n, p));
    same_values(sa, a, "input unchanged");
    same_values(sb, b, "input unchanged");
}
// BOUND series: two or three Series of itemSize 1..3, count 0..3, every predicate, reject and rejectAll
SX_ENTRY(series, "shards=4") {
    int ks[3] = {(int)sx_choose("k", 1, 3), (int)sx_choose("k", 1, 3), 2};
    int three = (int)sx_choose("three", 0, 1);
    if (three) ks[2] = (int)sx_choose("k", 1, 3);
    several((uint32_t)sx_choose("count", 0, 3), three, ks, (int)sx_choose("form", 0, 1), [](const Array &x, uint32_t i) { return pr("p", x, i); });
}
// BOUND series_big: itemSizes 3,1,6, counts 17, 33, 100, eight patterns
SX_ENTRY(series_big, "shards=4") {
    static const uint32_t ns[] = {17, 33, 100};
    int ks[3] = {3, 1, 6};
    uint32_t n = ns[sx_choose("n#", 0, 2)];
    Mask m = mask_for(n);
    several(n, (int)sx_choose("three", 0, 1), ks, (int)sx_choose("form", 0, 1), [m](const Array &, uint32_t i) { return m(i); });
}
// BOUND counts: two or three Series with counts 0..4 each, not all equal; reject and rejectAll
SX_ENTRY(counts, "") {
    int three = (int)sx_choose("three", 0, 1), all = (int)sx_choose("all", 0, 1);
    uint32_t n[3];
    for (int i = 0; i < 2 + three; i++) n[i] = (uint32_t)sx_choose("n", 0, 4);
    sx_assume(n[0] != n[1] || (three && n[0] != n[2]));
    Serie a = sx_serie("a", 2, n[0]), b = sx_serie("b", 1, n[1]), c = sx_serie("c", 3, three ? n[2] : 0);
    int o = sx_outcome([&] {
        if (three && all) utils::rejectAll([](const Array &, const Array &, const Array &) -> bool { return true; }, a, b, c);
        else if (three) utils::reject([](const Array &, const Array &, const Array &, uint32_t) -> bool { return true; }, a, b, c);
        else if (all) utils::rejectAll([](const Array &, const Array &) -> bool { return true; }, a, b);
        else utils::reject([](const Array &, const Array &, uint32_t) -> bool { return true; }, a, b);
    });
    sx_assert(o == 1, "different counts are rejected with invalid_argument");
}
// BOUND huge: 65541 items (beyond 16-bit indices), itemSizes 1, 2 and 3, reject, partition, reject and rejectAll of two Series; every other item matches, and the last ones
SX_ENTRY(huge, "shards=6 max-steps=4000000000") {
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 5), k = form == 1 || form == 2 ? 3 : 1, at = 0;
    Array a = huge_vec("a", k, n), b = huge_vec("b", 2, form == 3 || form == 4 ? n : 0), wa, wb, ma;
    Serie sa((int)k, a, 2), sb(2, b, 1), ra, rb, pa;
    auto match = [n](uint32_t i) { return i % 2 == 1 || i + 4 > n; };
    for (uint32_t i = 0; i < n; i++) {
        Array &to = match(i) ? ma : wa;
        for (uint32_t j = 0; j < k; j++) to.push_back(a[(size_t)k * i + j]);
        if ((form == 3 || form == 4) && !match(i)) { wb.push_back(b[2 * (size_t)i]); wb.push_back(b[2 * (size_t)i + 1]); }
    }
    if (form == 0) ra = utils::reject([&](double, uint32_t i) -> bool { return match(i); }, sa);
    else if (form == 1) ra = utils::reject([&](const Array &, uint32_t i) -> bool { return match(i); }, sa);
    else if (form == 5) { std::tie(pa, ra) = utils::partition([&](double, uint32_t i) -> bool { return match(i); }, sa); huge_serie(pa, k, (uint32_t)ma.size() / k, 2, ma); }
    else if (form == 2) { std::tie(pa, ra) = utils::partition([&](const Array &, uint32_t i) -> bool { return match(i); }, sa); huge_serie(pa, k, (uint32_t)ma.size() / k, 2, ma); }
    else if (form == 3) {
        auto t = utils::reject([&](const Array &, const Array &, uint32_t i) -> bool { return match(i); }, sa, sb);
        ra = std::get<0>(t); rb = std::get<1>(t);
    } else {
        Series t = utils::rejectAll([&](const Array &, const Array &) -> bool { return match(at++); }, sa, sb);
        sx_assert(t.size() == 2, "one result per Serie");
        ra = t[0]; rb = t[1];
    }
    huge_serie(ra, k, (uint32_t)wa.size() / k, 2, wa);
    if (form == 3 || form == 4) huge_serie(rb, 2, (uint32_t)wb.size() / 2, 1, wb);
}
// BOUND stateful: itemSize 1 or 2, count 0..3; partition with predicates that may answer differently every time they are asked
SX_ENTRY(stateful, "") {
    int k = (int)sx_choose("k", 1, 2);
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    Array v;
    for (uint32_t i = 0; i < n * k; i++) v.push_back(i + 1);
    Serie s(k, v), a, b;
    if (k == 1 && sx_choose("scalar callback", 0, 1)) std::tie(a, b) = utils::partition([&](double, uint32_t) -> bool { return sx_bool("answer"); }, s);
    else std::tie(a, b) = utils::partition([&](const Array &, uint32_t) -> bool { return sx_bool("answer"); }, s);
    sx_assert(a.count() + b.count() == n, "together the parts hold as many items as the Serie");
    uint32_t ia = 0, ib = 0; // each item, in order, is the next one of one of the parts
    for (uint32_t i = 0; i < n; i++) {
        if (ia < a.count() && a.asArray()[(size_t)ia * k] == v[(size_t)i * k]) ia++;
        else if (ib < b.count() && b.asArray()[(size_t)ib * k] == v[(size_t)i * k]) ib++;
    }
    sx_assert(ia + ib == n, "every item is in one of the parts, in order");
}
