#include "again.h"
#include <dataframe/functional/utils/apply.h>
using namespace df;
// calling forms: 0 map, 1 member, 2 make_map, 3 apply, 4 two Series, 5 and 6 map and make_map with a callback of values; the callback (index) -> one value, or two when `pairs`
template <class F> static Serie call(int form, F val, const Serie &s, bool pairs) {
    std::function<double(const Array &, uint32_t)> one = [&](const Array &, uint32_t i) -> double { return val(i, 0); };
    std::function<Array(const Array &, uint32_t)> two = [&](const Array &, uint32_t i) -> Array { return Array{val(i, 0), val(i, 1)}; };
    if (form >= 5) { // callbacks of values
        std::function<double(double, uint32_t)> d = [&](double, uint32_t i) -> double { return val(i, 0); };
        std::function<Array(double, uint32_t)> e = [&](double, uint32_t i) -> Array { return Array{val(i, 0), val(i, 1)}; };
        if (form == 5) return pairs ? map(e, s) : map(d, s);
        return pairs ? make_map(e)(s) : make_map(d)(s);
    }
    switch (form) {
    case 0: return pairs ? map(two, s) : map(one, s);
    case 1: return pairs ? s.map(two) : s.map(one);
    case 2: return pairs ? make_map(two)(s) : make_map(one)(s);
    case 3: return pairs ? utils::apply(two, s) : utils::apply(one, s);
    default:
        if (pairs) return map(std::function<Array(const Array &, const Array &, uint32_t)>([&](const Array &, const Array &, uint32_t i) -> Array { return Array{val(i, 0), val(i, 1)}; }), s, s);
        return map(std::function<double(const Array &, const Array &, uint32_t)>([&](const Array &, const Array &, uint32_t i) -> double { return val(i, 0); }), s, s);
    }
}
static void expect(const Serie &r, uint32_t n, bool pairs, const char *f) {
    items_shape(r, pairs ? 2 : 1, n);
    for (uint32_t i = 0; i < n; i++)
        for (uint32_t j = 0; j < (pairs ? 2u : 1u); j++) sx_assert_same(r.asArray()[pairs ? 2 * i + j : i], fn1(f, (double)j, i), "item i is what the callback returned for index i");
}
// BOUND reentrant: itemSize 1 and 2, 0..3 items: a callback that itself maps 0..3 other items, five forms each (seven for single values), callbacks of one type, one or two values per result item
SX_ENTRY(reentrant, "shards=2") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 3), m = (uint32_t)sx_choose("m", 0, 3);
    int f = (int)sx_choose("form", 0, k == 1 ? 6 : 4), g = (int)sx_choose("inner form", 0, k == 1 ? 6 : 4), a = (int)sx_choose("pairs", 0, 1), b = (int)sx_choose("inner pairs", 0, 1);
    Serie s = sx_serie("v", k, n), t = sx_serie("w", k, m);
    uint32_t calls = 0;
    Serie r = call(f, [&](uint32_t i, int j) {
        if (j == 0) { sx_assert(i == calls, "in order, each once"); calls++; expect(call(g, [&](uint32_t l, int q) { return fn1("g", q, l); }, t, b), m, b, "g"); }
        return fn1("f", j, i);
    }, s, a);
    sx_assert(calls == n, "once per item");
    expect(r, n, a, "f");
}
// BOUND recovers: a callback that throws at any item of 1..3: the exception reaches the caller, and later calls are not affected; five forms, itemSize 1 and 2
SX_ENTRY(recovers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 1, 3), at = (uint32_t)sx_choose("at", 0, n - 1);
    int f = (int)sx_choose("form", 0, k == 1 ? 6 : 4), a = (int)sx_choose("pairs", 0, 1);
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v);
    uint64_t heap = sx_live_heap();
    bool caught = false;
    try { call(f, [&](uint32_t i, int j) -> double { if (i == at) throw 7; return fn1("f", j, i); }, s, a); } catch (int e) { caught = e == 7; }
    sx_assert(caught, "the exception of the callback reaches the caller");
    sx_assert(sx_live_heap() == heap, "nothing is kept");
    same_values(s, v, "input unchanged");
    expect(call(f, [&](uint32_t i, int j) { return fn1("g", j, i); }, s, a), n, a, "g");
}
// BOUND reused: one make_map object and one named callback used on three Series of 0..3 items, itemSize 1 and 2
SX_ENTRY(reused, "") {
    int pairs = (int)sx_choose("pairs", 0, 1);
    int which = 0;
    static const char *fs[] = {"f", "g", "h"};
    auto one = make_map([&](const Array &, uint32_t i) -> double { return fn1(fs[which], 0, i); });
    auto two = make_map([&](const Array &, uint32_t i) -> Array { return Array{fn1(fs[which], 0, i), fn1(fs[which], 1, i)}; });
    Serie kept;
    uint32_t nk = 0;
    for (which = 0; which < 3; which++) {
        uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 3);
        Serie s = sx_serie("v", k, n);
        Serie r = pairs ? two(s) : one(s);
        expect(r, n, pairs, fs[which]);
        if (which == 0) { kept = r; nk = n; }
    }
    expect(kept, nk, pairs, "f");
}
