#include "again.h"
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/partition.h>
using namespace df;
static void expect(const Serie &r, uint32_t k, const Array &w) { same_serie(r, k, (uint32_t)(w.size() / k), 3, w); }
// form 0: reject, 1: make_reject, 2: partition, 3: rejectAll, 4: reject of two Series
template <class P> static void go(int form, P p, const Serie &s, const Array &v, uint32_t k, const std::vector<uint32_t> &t) {
    Array no = keep_where(v, k, t, false), yes = keep_where(v, k, t, true);
    PredA f = [&](const Array &, uint32_t i) -> bool { return p(i); };
    if (form >= 5) {
        PredD d = [&](double, uint32_t i) -> bool { return p(i); };
        if (form == 5) expect(utils::reject(d, s), k, no);
        else { auto [a, b] = utils::partition(d, s); expect(a, k, yes); expect(b, k, no); }
        return;
    }
    switch (form) {
    case 0: expect(utils::reject(f, s), k, no); break;
    case 1: expect(utils::make_reject(f)(s), k, no); break;
    case 2: { auto [a, b] = utils::partition(f, s); expect(a, k, yes); expect(b, k, no); break; }
    case 3: {
        uint32_t i = 0;
        Series r = utils::rejectAll(PredAA0([&](const Array &, const Array &) -> bool { return p(i++); }), s, s);
        sx_assert(r.size() == 2, "one result per Serie");
        expect(r[0], k, no); expect(r[1], k, no);
        break;
    }
    default: {
        auto r = utils::reject(PredAA([&](const Array &, const Array &, uint32_t i) -> bool { return p(i); }), s, s);
        expect(std::get<0>(r), k, no); expect(std::get<1>(r), k, no);
    }
    }
}
// BOUND reentrant: itemSize 1 and 2, 0..2 items, every selection: a predicate that itself rejects or partitions 1..2 other items, five forms each (seven for single values), callbacks of one type
SX_ENTRY(reentrant, "shards=2") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 2), m = (uint32_t)sx_choose("m", 1, 2);
    int f = (int)sx_choose("form", 0, k == 1 ? 6 : 4), g = (int)sx_choose("inner form", 0, k == 1 ? 6 : 4);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)k * m);
    Serie s(k, v), t(k, w);
    auto p = decided("p", n), q = decided("q", m);
    go(f, [&](uint32_t i) { go(g, [&](uint32_t j) { return q[j] != 0; }, t, w, k, q); return p[i] != 0; }, s, v, k, p);
}
// BOUND recovers: a predicate that throws at any item of 1..3: the exception reaches the caller, and later calls are not affected; five forms, itemSize 1 and 2
SX_ENTRY(recovers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 1, 3), at = (uint32_t)sx_choose("at", 0, n - 1);
    int f = (int)sx_choose("form", 0, 4);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)k * 2);
    Serie s(k, v), t(k, w);
    std::vector<uint32_t> all(n, 1);
    bool caught = false;
    try { go(f, [&](uint32_t i) { if (i == at) throw 7; return i % 2 == 0; }, s, v, k, all); } catch (int e) { caught = e == 7; }
    sx_assert(caught, "the exception of the predicate reaches the caller");
    same_values(s, v, "input unchanged");
    auto q = decided("q", 2);
    go(f, [&](uint32_t j) { return q[j] != 0; }, t, w, k, q);
}
// BOUND numbers: predicates that give any 32-bit number, where any but 0 means "holds" (where the library takes such predicates: partition, rejectAll, reject of two Series), itemSize 1 and 2, 0..3 items
SX_ENTRY(numbers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 3);
    int f = (int)sx_choose("form", 0, 3);
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v);
    auto t = truths(n);
    Array no = keep_where(v, k, t, false), yes = keep_where(v, k, t, true);
    if (f == 0) {
        auto [a, b] = utils::partition([&](const Array &, uint32_t i) -> int { return (int)t[i]; }, s);
        expect(a, k, yes); expect(b, k, no);
    } else if (f == 1) {
        sx_assume(k == 1);
        auto [a, b] = utils::partition([&](double, uint32_t i) -> int { return (int)t[i]; }, s);
        expect(a, k, yes); expect(b, k, no);
    } else if (f == 2) {
        uint32_t i = 0;
        Series r = utils::rejectAll([&](const Array &, const Array &) -> int { return (int)t[i++]; }, s, s);
        expect(r[0], k, no); expect(r[1], k, no);
    } else {
        auto r = utils::reject([&](const Array &, const Array &, uint32_t i) -> int { return (int)t[i]; }, s, s);
        expect(std::get<0>(r), k, no); expect(std::get<1>(r), k, no);
    }
}
