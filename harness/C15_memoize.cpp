#include "h.h"
#include <dataframe/functional/utils/memoize.h>
using namespace df;
struct Arg { int k; uint32_t n; unsigned dim; Array v; };
static Serie ser(const Arg &a) { return Serie(a.k, a.v, a.dim); }
// an arbitrary function of the argument's shape, dimension and values; 1/x tells 0.0 from -0.0
static Serie call(const Serie &s) {
    Array in = s.asArray(), key = in;
    key.push_back(s.itemSize()); key.push_back(s.count()); key.push_back(s.dimension());
    for (double x : in) key.push_back(std::signbit(x) ? 1.0 : 0.0);
    Array r;
    size_t m = 1 + s.itemSize();
    for (size_t j = 0; j < m; j++) r.push_back(fn("f", key, j));
    return Serie((int)s.itemSize(), r, s.dimension() + 1);
}
static void same_result(const Serie &a, const Serie &b) {
    sx_assert(a.itemSize() == b.itemSize() && a.count() == b.count() && a.dimension() == b.dimension(), "the result has the shape the function gives");
    same_values(a, b.asArray(), "the result is what the function gives for this argument");
}
static const Shape shapes[] = {{1, 1}, {2, 1}, {1, 2}, {1, 0}, {2, 0}};
static Arg fresh(int kinds) {
    Shape s = shapes[sx_choose("shape#", 0, kinds - 1)];
    Arg a{s.k, s.n, 3, sx_vec("v", (size_t)s.k * s.n)};
    if (sx_choose("flat", 0, 1)) a.dim = 2;
    return a;
}
// BOUND history: 3 calls (4 in the thorough tier) with arbitrary Series of shape {1,1},{2,1},{1,2},{1,0},{2,0}, dimension 2 or 3, any values, cache cleared at an arbitrary moment or never
SX_ENTRY(history, "shards=8 wall=250") {
    int calls = 0;
    auto f = utils::memoize([&calls](const Serie &s) { calls++; return call(s); });
    std::vector<Arg> past;
    int n = 3 + sx_thorough();
    int clear = (int)sx_choose("clear#", 0, n - 1);
    for (int t = 0; t < n; t++) {
        Arg a = fresh(t == 0 ? 5 : 3);
        if (clear && t == clear) { f.clear_cache(); past.clear(); }
        int before = calls;
        Serie r = f(ser(a));
        same_result(r, call(ser(a)));
        sx_assert(calls <= before + 1, "one computation at most");
        past.push_back(a);
    }
}
// BOUND repeat: two Series of 0..3 items with itemSize 1..3, each repeated; a repeated argument is not recomputed until the cache is cleared, and is recomputed then
SX_ENTRY(repeat, "shards=2") {
    int calls = 0;
    auto f = utils::memoize([&calls](const Serie &s) { calls++; return call(s); });
    int k = (int)sx_choose("k", 1, 3);
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    Arg a{k, n, 3, sx_vec("v", (size_t)k * n)};
    Serie s = ser(a);
    Serie r1 = f(s), r2 = f(s), r3 = f(Serie(s));
    same_result(r1, call(s)); same_result(r2, call(s)); same_result(r3, call(s));
    sx_assert(calls == 1, "a repeated argument is not recomputed");
    Serie other(k, Array((size_t)k * (n + 1), 2.5));
    same_result(f(other), call(other));
    same_result(f(s), call(s));
    sx_assert(calls == 2, "a repeated argument is not recomputed");
    f.clear_cache();
    same_result(f(s), call(s));
    sx_assert(calls == 3, "after clearing the cache the function is used again");
}
// BOUND changed: a Serie of 1..4 values whose one value is changed between two calls; modifying the result or the argument does not touch the cache
SX_ENTRY(changed, "") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 4), at = (uint32_t)sx_choose("at", 0, 3);
    sx_assume(at < n);
    auto f = utils::memoize([](const Serie &s) { return call(s); });
    Array v = sx_vec("v", n);
    Serie s(1, v);
    Serie r = f(s), keep = r;
    r.setScalar(0, 77);
    same_result(f(s), keep);
    double x = sx_f64("x");
    s.setScalar(at, x);
    same_result(f(s), call(s));
    same_result(f(Serie(1, v)), call(Serie(1, v)));
}
// BOUND copies: a copy of a memoized function and a lambda holding one behave as the function
SX_ENTRY(copies, "") {
    auto f = utils::memoize([](const Serie &s) { return call(s); });
    Array v = sx_vec("v", 2), w = sx_vec("w", 2);
    Serie a(1, v), b(1, w);
    same_result(f(a), call(a));
    auto g = f;
    same_result(g(b), call(b));
    same_result(g(a), call(a));
    f.clear_cache();
    same_result(g(b), call(b));
    same_result(f(b), call(b));
}
// BOUND failing: the function throws for the first call with an argument: nothing is remembered
SX_ENTRY(failing, "") {
    bool bad = true;
    auto f = utils::memoize([&bad](const Serie &s) { if (bad) throw std::runtime_error("no"); return call(s); });
    Array v = sx_vec("v", 2);
    Serie a(1, v);
    sx_assert(sx_outcome([&] { f(a); }) == 2, "the exception reaches the caller");
    bad = false;
    same_result(f(a), call(a));
}
// BOUND nearly: all pairs of Series of two values out of NaN, -NaN, 0.0, -0.0, infinities, neighbouring doubles, very large and very small values
SX_ENTRY(nearly, "") {
    static const double c[] = {0.0, -0.0, 1.0, 1.0000000000000002, 1e-320, 2e-320, 1e300, INFINITY, -INFINITY, NAN, 123456.7, 123456.8};
    auto f = utils::memoize([](const Serie &s) { return call(s); });
    double a = c[sx_choose("a", 0, 11)], b = c[sx_choose("b", 0, 11)];
    Serie s(1, Array{a, b}), t(1, Array{b, a});
    same_result(f(s), call(s));
    same_result(f(t), call(t));
    same_result(f(s), call(s));
}
// BOUND ragged: two Series of itemSize 2 or 3 whose last item is incomplete (1..5 values), any values: told apart by every value they hold
SX_ENTRY(ragged, "") {
    auto f = utils::memoize([](const Serie &s) { return call(s); });
    int k = (int)sx_choose("k", 2, 3);
    uint32_t n = (uint32_t)sx_choose("n", 1, 5), m = (uint32_t)sx_choose("m", 1, 5);
    Serie a(k, sx_vec("v", n)), b(k, sx_vec("w", m));
    same_result(f(a), call(a));
    same_result(f(b), call(b));
    same_result(f(a), call(a));
}
// BOUND many: 300 different Series (values, itemSizes, dimensions and counts), one of them arbitrary, then the same again in another order: nothing is recomputed and nothing is mixed up
SX_ENTRY(many, "") {
    int calls = 0;
    auto f = utils::memoize([&calls](const Serie &s) { calls++; double t = s.itemSize() * 1000.0 + s.dimension() * 100.0; for (double x : s.asArray()) t = t * 3 + x; return Serie(1, Array{t, (double)s.count()}); });
    std::vector<Serie> args;
    for (int i = 0; i < 300; i++) {
        int k = 1 + i % 3;
        Array v((size_t)k * (1 + i % 5), 0.5 * (i / 15));
        v[i % v.size()] = 100.0 + i;
        args.push_back(Serie(k, v, 2 + i % 2));
    }
    double x = sx_f64("x");
    sx_assume(x < 100.0);
    args[123].setScalar(0, x);
    std::vector<Serie> first;
    for (auto &a : args) first.push_back(f(a));
    sx_assert(calls == 300, "every different argument is computed");
    for (int i = 0; i < 300; i++) {
        int j = (i * 7 + 11) % 300;
        same_result(f(args[j]), first[j]);
        sx_assert(calls == 300, "a repeated argument is not recomputed");
    }
}

// BOUND huge: Series of 65541 values that differ in one of the places 0, 255, 65535, 65536 and the last, there with any two values: told apart, remembered, and their results not mixed up
SX_ENTRY(huge, "shards=5 max-steps=8000000000") {
    static const uint32_t ps[] = {0, 255, 65535, 65536, HUGE_N - 1};
    uint32_t at = ps[sx_choose("place!", 0, 4)];
    int calls = 0;
    auto g = [&calls, at](const Serie &s) { calls++; Array v = s.asArray(); return Serie(1, Array{v[at], (double)v.size()}); };
    auto f = utils::memoize(g);
    double x = sx_f64("x"), y = sx_f64("y");
    Array v(HUGE_N, 2.5), w = v;
    v[at] = x; w[at] = y;
    Serie a(1, v), b(1, w);
    Array wa{x, (double)HUGE_N}, wb{y, (double)HUGE_N};
    same_values(f(a), wa, "the result is what the function gives for this argument");
    Serie rb = f(b);
    sx_assert_same(rb.asArray()[0], y, "the result is what the function gives for this argument");
    sx_assert_same(f(a).asArray()[0], x, "the result is what the function gives for this argument");
    sx_assert_same(f(b).asArray()[0], y, "the result is what the function gives for this argument");
    sx_assert(calls <= 2, "a repeated argument is not recomputed");
}
