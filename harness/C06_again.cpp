#include "again.h"
using namespace df;
template <class F> static double sc(int form, F f, Serie &s, double init) {
    std::function<double(double, double, uint32_t)> g = [&](double acc, double x, uint32_t i) -> double { return f(acc, x, i); };
    return form == 0 ? reduce(g, s, init) : form == 1 ? s.reduce(g, init) : make_reduce(g, init)(s);
}
template <class F> static Serie ar(int form, F f, Serie &s, const Array &init) {
    std::function<Array(const Array &, const Array &, uint32_t)> g = [&](const Array &acc, const Array &x, uint32_t i) -> Array { return f(acc, x, i); };
    return form == 0 ? reduce(g, s, init) : form == 1 ? s.reduce(g, init) : make_reduce(g, init)(s);
}
static Array step(const char *f, const Array &acc, const Array &x, uint32_t i) { Array c = cat(acc, x); return Array{fn(f, cat(c, Array{0}), i), fn(f, cat(c, Array{1}), i)}; }
static double fold(const char *f, double init, const Array &v) { for (uint32_t i = 0; i < v.size(); i++) init = fn2(f, init, v[i], i); return init; }
static Array foldA(const char *f, Array init, const Array &v, uint32_t k) { for (uint32_t i = 0; i < v.size() / k; i++) init = step(f, init, item_of(v, k, i), i); return init; }
static void item(const Serie &r, const Array &w) { same_shape(r, (uint32_t)w.size(), 1); same_values(r, w, "the left fold"); }
// BOUND reentrant: 0..3 scalars or pairs: a callback that itself reduces 0..2 other items, three forms each
SX_ENTRY(reentrant, "") {
    uint32_t n = (uint32_t)sx_choose("n", 0, 3), m = (uint32_t)sx_choose("m", 0, 2);
    int f = (int)sx_choose("form", 0, 2), g = (int)sx_choose("inner form", 0, 2), a = (int)sx_choose("arrays", 0, 1), b = (int)sx_choose("inner arrays", 0, 1);
    Array v = sx_vec("v", n * (a ? 2 : 1)), w = sx_vec("w", m * (b ? 2 : 1)), i2 = sx_vec("init", 2);
    Serie s(a ? 2 : 1, v), t(b ? 2 : 1, w);
    double z = sx_f64("z"), y = sx_f64("y");
    auto inner = [&] {
        if (b) item(ar(g, [](const Array &acc, const Array &x, uint32_t i) { return step("g", acc, x, i); }, t, i2), foldA("g", i2, w, 2));
        else sx_assert_same(sc(g, [](double acc, double x, uint32_t i) { return fn2("g", acc, x, i); }, t, y), fold("g", y, w), "the left fold");
    };
    if (a) item(ar(f, [&](const Array &acc, const Array &x, uint32_t i) { inner(); return step("f", acc, x, i); }, s, i2), foldA("f", i2, v, 2));
    else sx_assert_same(sc(f, [&](double acc, double x, uint32_t i) { inner(); return fn2("f", acc, x, i); }, s, z), fold("f", z, v), "the left fold");
}
// BOUND recovers: after a callback that throws at any item of 1..3 (the exception reaches the caller), later reductions are not affected; one make_reduce object used three times; scalars and pairs
SX_ENTRY(recovers, "") {
    uint32_t n = (uint32_t)sx_choose("n", 1, 3), at = (uint32_t)sx_choose("at", 0, n - 1), m = (uint32_t)sx_choose("m", 0, 3);
    int a = (int)sx_choose("arrays", 0, 1);
    Array v = sx_vec("v", n * (a ? 2 : 1)), w = sx_vec("w", m * (a ? 2 : 1)), i2 = sx_vec("init", 2);
    double z = sx_f64("z");
    Serie s(a ? 2 : 1, v), t(a ? 2 : 1, w);
    bool fail = true, caught = false;
    auto ms = make_reduce([&](double acc, double x, uint32_t i) -> double { if (fail && i == at) throw 7; return fn2("f", acc, x, i); }, z);
    auto ma = make_reduce([&](const Array &acc, const Array &x, uint32_t i) -> Array { if (fail && i == at) throw 7; return step("f", acc, x, i); }, i2);
    uint64_t heap = sx_live_heap();
    try { if (a) ma(s); else ms(s); } catch (int e) { caught = e == 7; }
    sx_assert(caught, "the exception of the callback reaches the caller");
    sx_assert(sx_live_heap() == heap, "nothing is kept");
    fail = false;
    for (int c = 0; c < 2; c++) {
        if (a) item(ma(c ? s : t), foldA("f", i2, c ? v : w, 2));
        else sx_assert_same(ms(c ? s : t), fold("f", z, c ? v : w), "the left fold");
    }
}
