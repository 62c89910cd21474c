#include "h.h"
#include <dataframe/functional/stats/bins.h>
using namespace df;
static Array fin(const char *name, size_t n, double lim = 1e6) { Array v = sx_vec(name, n); for (double x : v) sx_assume(x >= -lim && x <= lim); return v; }
// every value counted once, in the bin whose interval holds it (decided path by path: c[b] is what the intervals say)
static void histogram(const Serie &h, const Array &v, uint32_t nb, double a, double z) {
    same_shape(h, 1, nb);
    double w = (z - a) / nb, total = 0;
    Array c(nb, 0.0);
    for (double x : v) {
        uint32_t b = 0;
        while (b + 1 < nb && (x - a) >= (b + 1) * w) b++;
        c[b]++;
    }
    for (uint32_t b = 0; b < nb; b++) {
        sx_assert_num(h.scalar(b), c[b], "the number of values in the bin");
        total += h.scalar(b);
    }
    sx_assert_num(total, (double)v.size(), "the counts add up to the number of values");
}
struct R { double a, z; };
// widths that binary64 holds exactly for 1..5 bins: the intervals of the oracle are then those of the statement
static const R ranges[] = {{0, 15}, {-7.5, 7.5}, {0, 0.9375}, {1000, 1003.75}, {-100, -99.0625}, {-30, 0}};
// BOUND range: 0..2 (3 for up to 2 bins) values at or above start (up to 1e6), six fixed ranges, 1..5 bins
SX_ENTRY(range, "mode=real shards=4") {
    R r = ranges[sx_choose("range#", 0, 5)];
    uint32_t nb = (uint32_t)sx_choose("nb#", 1, 5), n = (uint32_t)sx_choose("count", 0, 3);
    if (n == 3 && nb > 2) return;
    Array v = fin("v", n);
    for (double x : v) sx_assume(x >= r.a);
    Serie S(1, v);
    histogram(stats::bins(S, nb, r.a, r.z), v, nb, r.a, r.z);
    same_values(S, v, "input unchanged");
}
// BOUND anyrange: 1 value and 1..4 bins or 2 values and 1..2 bins, every range start < stop with |bounds| up to 1000
SX_ENTRY(anyrange, "mode=real shards=2") {
    uint32_t nb = (uint32_t)sx_choose("nb#", 1, 4), n = (uint32_t)sx_choose("count#", 1, 2);
    if (n == 2 && nb > 2) return;
    Array v = fin("v", n), r = fin("r", 2, 1000);
    sx_assume(r[0] + 0.001 <= r[1]);
    for (double x : v) sx_assume(x >= r[0]);
    histogram(stats::bins(Serie(1, v), nb, r[0], r[1]), v, nb, r[0], r[1]);
}
// BOUND autorange: 2..4 values, two of them the ends of one of the six ranges, the others anywhere between, 1..5 bins (4 values: up to 2 bins), the ends in any position
SX_ENTRY(autorange, "mode=real shards=4") {
    R r = ranges[sx_choose("range#", 0, 5)];
    uint32_t nb = (uint32_t)sx_choose("nb#", 1, 5), n = (uint32_t)sx_choose("count", 2, 4), at = (uint32_t)sx_choose("at", 0, n - 1);
    if (n == 4 && nb > 2) return;
    Array v = fin("v", n);
    for (double x : v) sx_assume(x >= r.a && x <= r.z);
    v[at] = r.z;
    v[(at + n - 1) % n] = r.a;
    Serie S(1, v);
    histogram(stats::bins(S, nb), v, nb, r.a, r.z);
    same_values(S, v, "input unchanged");
}
// BOUND autopair: any two values up to 1000, 1..3 bins: the smaller in the first bin and the larger in the last, or both in one
SX_ENTRY(autopair, "mode=real") {
    uint32_t nb = (uint32_t)sx_choose("nb", 1, 3);
    Array v = fin("v", 2, 1000);
    Serie h = stats::bins(Serie(1, v), nb);
    same_shape(h, 1, nb);
    double t = 0, m = 0;
    for (uint32_t b = 0; b < nb; b++) { t += h.scalar(b); if (h.scalar(b) > m) m = h.scalar(b); }
    sx_assert_num(t, 2, "both are counted");
    if (v[0] < v[1] || v[1] < v[0]) {
        if (nb > 1) { sx_assert_num(h.scalar(0), 1, "the smaller"); sx_assert_num(h.scalar(nb - 1), 1, "the larger"); }
    } else sx_assert_num(m, 2, "equal values are in one bin");
}
// BOUND constant: 1..5 times any one double, infinities and NaN excluded, 1..6 bins (exact arithmetic on equal values)
SX_ENTRY(constant, "") {
    uint32_t nb = (uint32_t)sx_choose("nb", 1, 6), n = (uint32_t)sx_choose("count", 1, 5);
    double x = sx_f64("x");
    sx_assume(sx_finite(x));
    Serie h = stats::bins(Serie(1, Array(n, x)), nb);
    same_shape(h, 1, nb);
    double t = 0, m = 0;
    for (uint32_t b = 0; b < nb; b++) { t += h.scalar(b); if (h.scalar(b) > m) m = h.scalar(b); }
    sx_assert(t == n && m == n, "all equal values are in one bin");
}
// BOUND ends: six fixed ranges, 1..5 bins: start and stop themselves, and every double at or beyond stop
SX_ENTRY(ends, "mode=real") {
    R r = ranges[sx_choose("range", 0, 5)];
    uint32_t nb = (uint32_t)sx_choose("nb", 1, 5);
    sx_assert_num(stats::bins(Serie(1, Array{r.a}), nb, r.a, r.z).scalar(0), 1, "start is in the first bin");
    sx_assert_num(stats::bins(Serie(1, Array{r.z}), nb, r.a, r.z).scalar(nb - 1), 1, "stop is in the last bin");
    double x = fin("x", 1, 1e300)[0];
    sx_assume(x >= r.z);
    sx_assert_num(stats::bins(Serie(1, Array{x}), nb, r.a, r.z).scalar(nb - 1), 1, "everything beyond stop is in the last bin");
}
// BOUND anyround: every double at or above start, infinity included, whatever the quotient rounds to (arithmetic uninterpreted); ranges whose widths are rounded; 3, 7 bins
SX_ENTRY(anyround, "shards=4") {
    static const R odd[] = {{0.1, 0.7}, {-1e-3, 1e3}, {1e300, 1.7e308}, {-5e-324, 1e-320}};
    R r = odd[sx_choose("range#", 0, 3)];
    uint32_t nb = sx_choose("nb", 0, 1) ? 3 : 7;
    double x = sx_f64("x");
    sx_assume(x >= r.a);
    Serie h = stats::bins(Serie(1, Array{x}), nb, r.a, r.z);
    same_shape(h, 1, nb);
    double t = 0;
    for (uint32_t b = 0; b < nb; b++) t += h.scalar(b);
    sx_assert(t == 1, "counted exactly once");
}
// BOUND big: 17, 64, 300 values, all but one fixed; 7, 10 (thorough: 64) bins; range [-3, 67]
SX_ENTRY(big, "mode=real shards=4") {
    static const uint32_t ns[] = {17, 64, 300}, nbs[] = {7, 10, 64};
    uint32_t n = ns[sx_choose("n#", 0, 2)], nb = nbs[sx_choose("nb#", 0, sx_thorough() ? 2 : 1)];
    Array v;
    for (uint32_t i = 0; i < n; i++) v.push_back((i * 37 % 101) * 0.625 - 2.9375);
    double x = fin("x", 1)[0];
    sx_assume(x >= -3);
    v[sx_choose("at", 0, 1) ? n - 1 : n / 2] = x;
    histogram(stats::bins(Serie(1, v), nb, -3, 67), v, nb, -3, 67);
}
// BOUND bad: every value below start or NaN, anywhere among 1..3; vector Series (itemSize 2..4)
SX_ENTRY(bad, "") {
    R r = ranges[sx_choose("range", 0, 5)];
    uint32_t nb = sx_choose("nb", 0, 1) ? 3 : 1, n = (uint32_t)sx_choose("count", 1, 3), at = (uint32_t)sx_choose("at", 0, n - 1);
    Array v(n, r.z);
    v[at] = sx_f64("v");
    sx_assume(!(v[at] >= r.a));
    Serie S(1, v);
    sx_assert(sx_outcome([&] { stats::bins(S, nb, r.a, r.z); }) == 1, "values below start are rejected");
    same_values(S, v, "input unchanged");
    int k = 2 + (n + at + nb) % 3;
    Serie T(k, sx_vec("t", (size_t)k));
    sx_assert(sx_outcome([&] { stats::bins(T, nb, r.a, r.z); }) == 1, "vector Series are rejected");
    sx_assert(sx_outcome([&] { stats::bins(T, nb); }) == 1, "vector Series are rejected without a range too");
}
// BOUND empty: an empty Serie, 0..6 bins, with and without a range
SX_ENTRY(empty, "") {
    uint32_t nb = (uint32_t)sx_choose("nb", 0, 6);
    Serie e(1, 0u);
    Serie a = stats::bins(e, nb, 0, 1), b = stats::bins(e, nb);
    sx_assert(a.count() == nb && b.count() == nb, "nb counts");
    for (uint32_t i = 0; i < nb; i++) { sx_assert_num(a.scalar(i), 0, "no value"); sx_assert_num(b.scalar(i), 0, "no value"); }
}
// BOUND huge: 65541 values, all but one in the same of 4 bins, or spread over 300 bins (beyond 8- and 16-bit counters and indices), one of them any value up to 1e6
SX_ENTRY(huge, "mode=real shards=3 max-steps=8000000000") {
    uint32_t n = HUGE_N, f = (uint32_t)sx_choose("form!", 0, 2), nb = f == 2 ? 66000 : f ? 300 : 4;
    double z = f == 2 ? 66000 : f ? 600 : 8;
    Array v, c(nb, 0.0);
    for (uint32_t i = 0; i < n; i++) v.push_back(f == 2 ? (double)i + 0.5 : f ? (double)(i * 7 % 599) + 0.5 : 2.5);
    for (uint32_t i = 0; i + 1 < n; i++) c[(size_t)(v[i] / (z / nb))]++;
    double x = f == 2 ? 65999.5 : fin("x", 1)[0];
    sx_assume(x >= z);
    if (f != 2) c[nb - 1]++; else c[65999]++;
    v[n - 1] = x;
    Serie h = stats::bins(Serie(1, v), nb, 0, z);
    same_shape(h, 1, nb);
    huge_same(h.asArray(), c, "the number of values in each bin");
}

// BOUND huge_auto: 65541 values, range taken from the values; the smallest and the largest are the last two, the first and the last, or at 65535 and 65536; 4 and 300 bins; with 4 and the latter, the last value anything between the two
SX_ENTRY(huge_auto, "mode=real shards=6 max-steps=8000000000") {
    uint32_t n = HUGE_N, f = (uint32_t)sx_choose("form!", 0, 5), nb = f % 2 ? 300 : 4;
    double a = -300, z = f % 2 ? 300 : 100, w = (z - a) / nb;
    uint32_t lo = f / 2 == 0 ? n - 2 : f / 2 == 1 ? 0 : 65536, hi = f / 2 == 2 ? 65535 : n - 1, at = n - 1;
    Array v, c(nb, 0.0);
    for (uint32_t i = 0; i < n; i++) v.push_back(i == lo ? a : i == hi ? z : (double)(i % 97) + 0.5);
    for (uint32_t i = 0; i < n; i++) if (i != at) c[std::min((uint32_t)((v[i] - a) / w), nb - 1)]++;
    if (f == 4) {
        double x = fin("x", 1)[0];
        sx_assume((int)(x > a + w) & (int)(x < a + 2 * w));
        v[at] = x;
        c[1]++;
    } else c[std::min((uint32_t)((v[at] - a) / w), nb - 1)]++;
    Serie h = stats::bins(Serie(1, v), nb);
    same_shape(h, 1, nb);
    huge_same(h.asArray(), c, "the number of values in each bin");
}
