#include "h.h"
using namespace df;
static const char *A = "every item enters once, in order";
static void scalar_fold(int form, uint32_t n) {
    Array v = sx_vec("v", n);
    Serie s(1, v);
    double init = sx_f64("init");
    uint32_t calls = 0;
    auto g = [&](double acc, double x, uint32_t i) { sx_assert(i == calls++, A); sx_assert_same(x, v[i], "the callback receives the item"); return fn2("g", acc, x, i); };
    double r;
    if (form == 0) r = reduce(g, s, init);
    else if (form == 1) r = s.reduce(g, init);
    else r = make_reduce(g, init)(s);
    double want = init;
    for (uint32_t i = 0; i < n; i++) want = fn2("g", want, v[i], i);
    sx_assert(calls == n, "every item enters");
    sx_assert_same(r, want, "the result is the left fold");
    same_values(s, v, "input unchanged");
}
// BOUND scalar: count 0..6, every initial value and callback, free, member and make_ forms
SX_ENTRY(scalar, "") { scalar_fold((int)sx_choose("form", 0, 2), (uint32_t)sx_choose("count", 0, 6)); }
// BOUND scalar_big: count 16..1025
SX_ENTRY(scalar_big, "") { scalar_fold((int)sx_choose("form", 0, 2), big_count()); }
static void vector_fold(int form, int k, uint32_t n, int m) {
    Array v = sx_vec("v", (size_t)k * n), init = sx_vec("init", m);
    Serie s(k, v);
    uint32_t calls = 0;
    auto g = [&](const Array &acc, const Array &x, uint32_t i) {
        sx_assert(i == calls++, A);
        sx_assert(x.size() == (size_t)k, "the callback receives the whole item");
        for (int j = 0; j < k; j++) sx_assert_same(x[j], v[(size_t)k * i + j], "the callback receives the item");
        Array o;
        for (int j = 0; j < m; j++) o.push_back(fn("g", cat(acc, x), i * 16 + j));
        return o;
    };
    Serie r;
    if (form == 0) r = reduce(g, s, init);
    else if (form == 1) r = s.reduce(g, init);
    else r = make_reduce(g, init)(s);
    Array want = init;
    for (uint32_t i = 0; i < n; i++) {
        Array o;
        for (int j = 0; j < m; j++) o.push_back(fn("g", cat(want, item_of(v, k, i)), i * 16 + j));
        want = o;
    }
    sx_assert(calls == n, "every item enters");
    same_serie(r, m, 1, 3, want);
    same_values(s, v, "input unchanged");
}
// BOUND vector: itemSize 1,2,3,4,6,9, count 0..4, accumulators of 1..4 values, free, member and make_ forms
SX_ENTRY(vector, "") { Shape s = small_shape(0, 4); vector_fold((int)sx_choose("form", 0, 2), s.k, s.n, (int)sx_choose("acc", 1, 4)); }
// BOUND vector_big: the shapes of big_vec_shape, accumulators of 1..3 values
SX_ENTRY(vector_big, "") { Shape s = big_vec_shape(); vector_fold((int)sx_choose("form", 0, 1), s.k, s.n, (int)sx_choose("acc", 1, 3)); }
// BOUND sum: sums, products, minima and maxima of 0..5 values (concrete callbacks)
SX_ENTRY(sum, "") {
    uint32_t n = (uint32_t)sx_choose("count", 0, 5);
    Array v = sx_vec("v", n);
    Serie s(1, v);
    double i0 = sx_f64("init"), w = i0;
    if (sx_choose("op", 0, 1)) {
        for (double x : v) w = w + x;
        sx_assert_num(reduce([](double a, double x, uint32_t) { return a + x; }, s, i0), w, "sum");
    } else {
        for (double x : v) w = w * x;
        sx_assert_num(s.reduce([](double a, double x, uint32_t) { return a * x; }, i0), w, "product");
    }
}
// BOUND huge: 65541 items of 1 and 3 components (beyond 16-bit indices)
SX_ENTRY(huge, "shards=2 max-steps=4000000000") {
    uint32_t n = HUGE_N, k = sx_choose("vec!", 0, 1) ? 3 : 1, calls = 0, bad = 0;
    Array v = huge_vec("v", k, n), got;
    Serie s((int)k, v);
    double init = sx_f64("init");
    if (k == 1) {
        double last = init;
        bool chain = true;
        uint64_t off = 0;
        auto bits = [](double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return u; };
        double r = reduce([&](double acc, double x, uint32_t i) { bad |= i ^ calls++; off |= bits(acc) ^ bits(last); got.push_back(x); return last = x; }, s, init);
        sx_assert(chain && off == 0, "each call receives what the previous one returned");
        sx_assert_same(r, v[n - 1], "the result is the left fold");
    } else {
        Serie r = reduce([&](const Array &acc, const Array &x, uint32_t i) { bad |= i ^ calls++; got.insert(got.end(), x.begin(), x.end()); return Array{acc[0] + 1.0, x[2]}; }, s, Array{0.0, init});
        same_serie(r, 2, 1, 3, Array{(double)n, v[(size_t)3 * n - 1]});
    }
    sx_assert(bad == 0, A);
    sx_assert(calls == n, "every item enters");
    huge_same(got, v, "the callback receives the items");
}
