#include "again.h"
using namespace df;
// forms: 0 forEach, 1 member, 2 make_forEach, 3 two Series
template <class F> static void call(int form, F f, const Serie &s) {
    std::function<void(const Array &, uint32_t)> g = [&](const Array &x, uint32_t i) { f(x, i); };
    std::function<void(double, uint32_t)> h = [&](double x, uint32_t i) { f(Array{x}, i); };
    switch (form) {
    case 0: if (s.itemSize() == 1) forEach(h, s); else forEach(g, s); break;
    case 1: if (s.itemSize() == 1) s.forEach(h); else s.forEach(g); break;
    case 2: if (s.itemSize() == 1) make_forEach(h)(s); else make_forEach(g)(s); break;
    default: forEach(std::function<void(const Array &, const Array &, uint32_t)>([&](const Array &x, const Array &y, uint32_t i) { for (size_t j = 0; j < y.size(); j++) sx_assert_same(x[j], y[j], "both Series"); f(x, i); }), s, s);
    }
}
struct Log {
    const Array &v; uint32_t k, calls = 0;
    void operator()(const Array &x, uint32_t i) {
        sx_assert(i == calls++ && x.size() == k, "in order, each once, whole items");
        for (uint32_t j = 0; j < k; j++) sx_assert_same(x[j], v[(size_t)k * i + j], "the callback receives the item");
    }
};
// BOUND reentrant: itemSize 1 and 2, 0..3 items: a callback that itself visits 0..3 other items, four forms each
SX_ENTRY(reentrant, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), l = (uint32_t)sx_choose("inner k", 1, 2), n = (uint32_t)sx_choose("n", 0, 3), m = (uint32_t)sx_choose("m", 0, 3);
    int f = (int)sx_choose("form", 0, 3), g = (int)sx_choose("inner form", 0, 3);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)l * m);
    Serie s(k, v), t(l, w);
    Log a{v, k};
    call(f, [&](const Array &x, uint32_t i) {
        a(x, i);
        Log b{w, l};
        call(g, [&](const Array &y, uint32_t j) { b(y, j); }, t);
        sx_assert(b.calls == m, "every item");
        for (uint32_t j = 0; j < k; j++) sx_assert_same(x[j], v[(size_t)k * i + j], "the item stays what it was");
    }, s);
    sx_assert(a.calls == n, "every item");
}
// BOUND recovers: after a callback that throws at any item of 1..3, later visits are not affected; four forms, itemSize 1 and 2
SX_ENTRY(recovers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 1, 3), at = (uint32_t)sx_choose("at", 0, n - 1), m = (uint32_t)sx_choose("m", 0, 3);
    int f = (int)sx_choose("form", 0, 3);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)k * m);
    Serie s(k, v), t(k, w);
    bool caught = false;
    uint64_t heap = sx_live_heap();
    try { call(f, [&](const Array &, uint32_t i) { if (i == at) throw 7; }, s); } catch (int e) { caught = e == 7; }
    sx_assert(caught, "the exception of the callback reaches the caller");
    sx_assert(sx_live_heap() == heap, "nothing is kept");
    Log b{w, k};
    call(f, [&](const Array &y, uint32_t j) { b(y, j); }, t);
    sx_assert(b.calls == m, "every item");
}
