#include "again.h"
#include <dataframe/functional/find.h>
using namespace df;
template <class R> static void expect(const R &r, const Array &v, uint32_t k, const std::vector<uint32_t> &t) {
    uint32_t at = 0;
    while (at < t.size() && !t[at]) at++;
    sx_assert(r.found == (at < t.size()), "found tells whether an item matches");
    if (!r.found) return;
    sx_assert(r.index == at, "the smallest matching index");
    Array x = as_item(r.value);
    sx_assert(x.size() == k, "a whole item");
    for (uint32_t j = 0; j < k; j++) sx_assert_same(x[j], v[(size_t)k * at + j], "the item at that index");
}
template <class P> static void go(int make, P p, const Serie &s, const Array &v, uint32_t k, const std::vector<uint32_t> &t) {
    PredD a = [&](double, uint32_t i) -> bool { return p(i); };
    PredA b = [&](const Array &, uint32_t i) -> bool { return p(i); };
    if (k == 1) { if (make) expect(makeFind(a)(s), v, k, t); else expect(find(a, s), v, k, t); }
    else { if (make) expect(makeFind(b)(s), v, k, t); else expect(find(b, s), v, k, t); }
}
// BOUND reused: one makeFind object used three times on two Series of 0..3 items, itemSize 1 and 2, every truth assignment, which may differ from call to call; no evaluation after a match
SX_ENTRY(reused, "shards=2") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 3), m = (uint32_t)sx_choose("m", 0, 3);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)k * m);
    Serie s(k, v), u(k, w);
    std::vector<uint32_t> t;
    uint32_t calls = 0;
    auto fa = makeFind([&](double, uint32_t i) -> bool { sx_assert(i == calls, "in order, each once"); calls++; return t[i] != 0; });
    auto fb = makeFind([&](const Array &, uint32_t i) -> bool { sx_assert(i == calls, "in order, each once"); calls++; return t[i] != 0; });
    for (int c = 0; c < 3; c++) {
        const Serie &x = c == 1 ? u : s;
        const Array &xv = c == 1 ? w : v;
        t = decided("t", x.count());
        calls = 0;
        if (k == 1) expect(fa(x), xv, k, t); else expect(fb(x), xv, k, t);
    }
}
// BOUND reentrant: itemSize 1 and 2, 0..2 items: a predicate that itself searches 1..2 other items, find and makeFind
SX_ENTRY(reentrant, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 2), m = (uint32_t)sx_choose("m", 1, 2);
    int f = (int)sx_choose("form", 0, 1), g = (int)sx_choose("inner form", 0, 1);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)k * m);
    Serie s(k, v), t(k, w);
    auto p = decided("p", n), q = decided("q", m);
    go(f, [&](uint32_t i) { go(g, [&](uint32_t j) { return q[j] != 0; }, t, w, k, q); return p[i] != 0; }, s, v, k, p);
}
// BOUND recovers: a predicate that throws at any item of 1..3: the exception reaches the caller, and later searches are not affected; itemSize 1 and 2
SX_ENTRY(recovers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 1, 3), at = (uint32_t)sx_choose("at", 0, n - 1);
    int f = (int)sx_choose("form", 0, 1);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)k * 2);
    Serie s(k, v), t(k, w);
    bool caught = false;
    try { go(f, [&](uint32_t i) { if (i == at) throw 7; return false; }, s, v, k, std::vector<uint32_t>(n, 0)); } catch (int e) { caught = e == 7; }
    sx_assert(caught, "the exception of the predicate reaches the caller");
    auto q = decided("q", 2);
    go(f, [&](uint32_t j) { return q[j] != 0; }, t, w, k, q);
}
// BOUND numbers: predicates that give any 32-bit number, where any but 0 means "holds"; itemSize 1 and 2, 0..3 items
SX_ENTRY(numbers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 3);
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v);
    auto t = truths(n);
    if (k == 1) expect(find([&](double, uint32_t i) -> int { return (int)t[i]; }, s), v, k, t);
    else expect(find([&](const Array &, uint32_t i) -> int { return (int)t[i]; }, s), v, k, t);
}
