#include "again.h"
#include <dataframe/functional/find.h>
#include <dataframe/functional/utils/cut.h>
using namespace df;
static Serie run_(int form, const PredA &p, const Serie &s) {
    switch (form) {
    case 0: return filter(p, s);
    case 1: return s.filter(p);
    case 2: return make_filter(p)(s);
    case 3: return utils::cut(p, s);
    default: return findAll(p, s);
    }
}
template <class P> static Serie run(int form, const P &p, const Serie &s, bool scalar = false) {
    if (scalar) {
        PredD d = [&](double x, uint32_t i) -> bool { return p(Array{x}, i); };
        switch (form) {
        case 0: return filter(d, s);
        case 1: return s.filter(d);
        case 2: return make_filter(d)(s);
        case 3: return utils::cut(d, s);
        default: return findAll(d, s);
        }
    }
    PredA p_ = p;
    return run_(form, p_, s);
}
static void expect(const Serie &r, uint32_t k, const Array &w) { same_serie(r, k, (uint32_t)(w.size() / k), 3, w); }
// BOUND reentrant: itemSize 1 and 2, 0..2 items, every selection: a predicate that itself filters 1..2 other items (any of five forms, filterAll of two Series too; callbacks of one type, of values or of items)
SX_ENTRY(reentrant, "shards=2") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 2), m = (uint32_t)sx_choose("m", 1, 2);
    int f = (int)sx_choose("form", 0, 5), g = (int)sx_choose("inner form", 0, 5);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)k * m);
    Serie s(k, v), t(k, w);
    bool sc = k == 1 && sx_choose("scalar", 0, 1);
    auto p = decided("p", n), q = decided("q", m);
    Array iw = keep_where(w, k, q, true), ow = keep_where(v, k, p, true);
    auto inner = [&] {
        if (g == 5) {
            uint32_t j = 0;
            Series r = filterAll(PredAA0([&](const Array &, const Array &) -> bool { return q[j++] != 0; }), t, t);
            expect(r[0], k, iw); expect(r[1], k, iw);
        } else expect(run(g, [&](const Array &, uint32_t j) -> bool { return q[j] != 0; }, t, sc), k, iw);
    };
    if (f == 5) {
        uint32_t i = 0;
        Series r = filterAll(PredAA0([&](const Array &, const Array &) -> bool { inner(); return p[i++] != 0; }), s, s);
        expect(r[0], k, ow); expect(r[1], k, ow);
    } else expect(run(f, [&](const Array &, uint32_t i) -> bool { inner(); return p[i] != 0; }, s, sc), k, ow);
}
// BOUND recovers: a predicate that throws at any item of 1..3: the exception reaches the caller, and filtering afterwards is not affected; five forms and filterAll, itemSize 1 and 2
SX_ENTRY(recovers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 1, 3), at = (uint32_t)sx_choose("at", 0, n - 1);
    int f = (int)sx_choose("form", 0, 5);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)k * 2);
    Serie s(k, v), t(k, w);
    uint64_t heap = sx_live_heap();
    bool caught = false;
    try {
        if (f == 5) { uint32_t i = 0; filterAll([&](const Array &, const Array &) -> bool { if (i++ == at) throw 7; return true; }, s, s); }
        else run(f, [&](const Array &, uint32_t i) -> bool { if (i == at) throw 7; return true; }, s);
    } catch (int e) { caught = e == 7; }
    sx_assert(caught, "the exception of the predicate reaches the caller");
    sx_assert(sx_live_heap() == heap, "nothing is kept");
    same_values(s, v, "input unchanged");
    auto q = decided("q", 2);
    expect(run(f % 5, [&](const Array &, uint32_t j) -> bool { return q[j] != 0; }, t), k, keep_where(w, k, q, true));
}
// BOUND numbers: predicates that give any 32-bit number, where any but 0 means "holds" (where the library takes such predicates: findAll and filterAll), itemSize 1 and 2, 0..3 items
SX_ENTRY(numbers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 3);
    int f = (int)sx_choose("form", 0, 2);
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v);
    auto t = truths(n);
    Array want = keep_where(v, k, t, true);
    if (f == 0) {
        uint32_t i = 0;
        Series r = filterAll([&](const Array &, const Array &) -> int { return (int)t[i++]; }, s, s);
        expect(r[0], k, want);
        expect(r[1], k, want);
    } else if (f == 1) {
        sx_assume(k == 1);
        expect(findAll([&](double, uint32_t i) -> int { return (int)t[i]; }, s), k, want);
    } else expect(findAll([&](const Array &, uint32_t i) -> int { return (int)t[i]; }, s), k, want);
}
