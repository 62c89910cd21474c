#include "h.h"
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/covariance.h>
using namespace df;
static Array fin(const char *name, size_t n, double lim = 1e3) { Array v = sx_vec(name, n); for (double x : v) sx_assume(x >= -lim && x <= lim); return v; }
static double avg(const Array &v, int k, int j) { double t = 0; uint32_t n = 0; for (size_t i = j; i < v.size(); i += k, n++) t += v[i]; return t / n; }
static void means(Shape s, const Array &v) {
    Serie x(s.k, v, 2);
    Tuple m = stats::mean(x);
    sx_assert(m.isNumber == (s.k == 1), "a number for scalars, an array for vectors");
    if (s.k == 1) sx_assert_num(m.number, avg(v, 1, 0), "the sum divided by the count");
    else {
        sx_assert(m.array.size() == (size_t)s.k, "one mean per component");
        for (int j = 0; j < s.k; j++) sx_assert_num(m.array[j], avg(v, s.k, j), "the sum divided by the count, per component");
    }
    same_values(x, v, "input unchanged");
}
// BOUND mean: itemSize 1,2,3,4,6,9, count 1..6, any values
SX_ENTRY(mean, "") { Shape s = small_shape(1, 6); means(s, sx_vec("v", (size_t)s.k * s.n)); }
// BOUND mean_big: 28 shapes up to 1025 items and itemSize 260, any values
SX_ENTRY(mean_big, "shards=2") { Shape s = big_shape(); means(s, sx_vec("v", (size_t)s.k * s.n)); }
static double cov(const Array &x, const Array &y) {
    double a = avg(x, 1, 0), b = avg(y, 1, 0), t = 0;
    for (size_t i = 0; i < x.size(); i++) t += (x[i] - a) * (y[i] - b);
    return t / x.size();
}
// BOUND cov: covariance of two scalar Series of 1..6 values up to 1000 (real arithmetic), symmetric, and of one with itself
SX_ENTRY(cov, "mode=real") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 6);
    Array x = fin("x", n), y = fin("y", n);
    Serie X(1, x), Y(1, y);
    double c = stats::covariance(X, Y);
    sx_assert_num(c, cov(x, y), "the mean of the products of deviations");
    sx_assert_num(stats::covariance(Y, X), c, "symmetric");
    sx_assert_num(stats::covariance(X, X), cov(x, x), "the variance");
    same_values(X, x, "input unchanged");
    same_values(Y, y, "input unchanged");
}
// BOUND variance: the variance of 1..3 values is not negative, and zero for equal values; 17, 64 values with one or two arbitrary
SX_ENTRY(variance, "mode=real") {
    static const uint32_t ns[] = {1, 2, 3, 17, 64};
    uint32_t n = ns[sx_choose("n", 0, 4)];
    Array x = n <= 3 ? fin("x", n) : Array();
    if (n > 3) for (uint32_t i = 0; i < n; i++) x.push_back((i * 37 % 11) - 4.0);
    if (n > 3) { x[n / 2] = fin("x", 1)[0]; x[n - 1] = fin("y", 1)[0]; }
    Serie X(1, x);
    double c = stats::covariance(X, X);
    sx_assert(c >= 0, "a variance is not negative");
    sx_assert_num(c, cov(x, x), "the variance");
    double e = fin("e", 1)[0];
    sx_assert_num(stats::covariance(Serie(1, Array(n, e)), X), 0, "a constant does not vary with anything");
}
// BOUND cov_big: 17, 64, 257 pairs: one Serie fixed but for one value, the other fixed but for another
SX_ENTRY(cov_big, "mode=real") {
    static const uint32_t ns[] = {17, 64, 257};
    uint32_t n = ns[sx_choose("n", 0, 2)];
    Array x, y;
    for (uint32_t i = 0; i < n; i++) { x.push_back((i * 37 % 11) - 4.0); y.push_back((i * 53 % 17) * 0.5); }
    x[n - 1] = fin("x", 1)[0];
    y[sx_choose("at", 0, 1) ? n - 1 : n / 3] = fin("y", 1)[0];
    sx_assert_num(stats::covariance(Serie(1, x), Serie(1, y)), cov(x, y), "the mean of the products of deviations");
}
// BOUND bad: itemSize 1..3 and count 0..4 for both arguments
SX_ENTRY(bad, "") {
    int k = (int)sx_choose("k", 1, 3), l = (int)sx_choose("l", 1, 3);
    uint32_t n = (uint32_t)sx_choose("n", 0, 4), m = (uint32_t)sx_choose("m", 0, 4);
    Array x = sx_vec("x", (size_t)k * n), y = sx_vec("y", (size_t)l * m);
    Serie X(k, x), Y(l, y);
    sx_assert(sx_outcome([&] { stats::covariance(X, Y); }) == (k == 1 && l == 1 && n == m ? 0 : 1), "non-scalar or unequal Series are rejected");
    same_values(X, x, "input unchanged");
    same_values(Y, y, "input unchanged");
}
// BOUND huge: 65541 numbers and items of 2 components (beyond 16-bit indices), three of them symbolic: mean and covariance
SX_ENTRY(huge, "mode=real shards=3 max-steps=8000000000") {
    uint32_t n = HUGE_N, f = (uint32_t)sx_choose("form!", 0, 2), k = f == 1 ? 2 : 1;
    Array v;
    for (size_t i = 0; i < (size_t)k * n; i++) v.push_back((double)(i % 23) - 11.0);
    for (uint32_t i : {255u, 65535u, n - 1}) v[(size_t)k * i] = fin("v", 1)[0];
    if (f < 2) { means({(int)k, n}, v); return; }
    Array y;
    for (uint32_t i = 0; i < n; i++) y.push_back((double)(i * 5 % 7));
    sx_assert_num(stats::covariance(Serie(1, v), Serie(1, y)), cov(v, y), "the mean of the products of deviations");
}
// BOUND offset: 2..5 numbers at a large offset (1e6 to 1e9, exact integers) but for one arbitrary integer in [-8, 8] added to it: the variance in binary64 is not negative and right
SX_ENTRY(offset, "") {
    static const double os[] = {0, 1e6, 1e9, -1e9, 2147483648.0};
    double o = os[sx_choose("offset", 0, 4)];
    uint32_t n = 2 + (uint32_t)sx_choose("n", 0, 3), s = (uint32_t)sx_choose("step", 0, 8);
    Array x, y;
    for (uint32_t i = 0; i < n; i++) { x.push_back(o + (i + 1 == n ? (double)s - 4.0 : (double)(i % 3))); y.push_back(x.back() - o); }
    double c = stats::covariance(Serie(1, x), Serie(1, x)), w = cov(y, y);
    sx_assert(c >= 0, "a variance is not negative");
    sx_assert(std::fabs(c - w) <= 1e-6 * (1 + w), "the variance does not depend on where the values are");
    Tuple m = stats::mean(Serie(1, x));
    sx_assert(std::fabs(m.number - o - avg(y, 1, 0)) <= 1e-6, "the sum divided by the count");
}
// BOUND sign: the variance of one or two arbitrary doubles up to 1000 in exact binary64 arithmetic: never negative
SX_ENTRY(sign, "mode=exact") {
    uint32_t n = (uint32_t)sx_choose("n", 1, 2);
    Serie x(1, fin("x", n));
    sx_assert(!(stats::covariance(x, x) < 0), "a variance is not negative, rounding included");
}
