#include "h.h"
#include <dataframe/functional/stats/quantile.h>
#include <limits>
using namespace df;
static Array sorted_(Array v) {
    for (size_t i = 1; i < v.size(); i++)
        for (size_t j = i; j > 0 && v[j] < v[j - 1]; j--) { double t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; }
    return v;
}
static double quant(const Array &s, double q) {
    double pos = (s.size() - 1) * q;
    size_t b = (size_t)pos;
    double r = pos - b;
    return b + 1 < s.size() ? s[b] + r * (s[b + 1] - s[b]) : s[b];
}
static Array fin(const char *name, size_t n, double lim = 1e6) { Array v = sx_vec(name, n); for (double x : v) sx_assume(x >= -lim && x <= lim); return v; }
static const double qs[] = {0, 0.1, 0.25, 1.0 / 3, 0.5, 0.6, 0.75, 0.9, 0.999, 1};
// BOUND order: 1..4 values up to 1e6 in every order, ten fixed q and the three named quantiles: interpolation of the order statistics, between smallest and largest, IQR
SX_ENTRY(order, "mode=real shards=2") {
    uint32_t n = (uint32_t)sx_choose("count#", 1, 4);
    Array v = fin("v", n), s = sorted_(v);
    Serie S(1, v);
    for (double q : qs) {
        double r = stats::quantile(S, q);
        sx_assert_num(r, quant(s, q), "linear interpolation between the order statistics");
        sx_assert(r >= s[0] && r <= s[n - 1], "between the smallest and the largest value");
    }
    sx_assert_num(stats::quantile(S, 0), s[0], "the smallest at 0");
    sx_assert_num(stats::quantile(S, 1), s[n - 1], "the largest at 1");
    sx_assert_num(stats::q25(S), quant(s, 0.25), "q25");
    sx_assert_num(stats::q50(S), quant(s, 0.5), "q50");
    sx_assert_num(stats::q75(S), quant(s, 0.75), "q75");
    sx_assert_num(stats::IQR(S), quant(s, 0.75) - quant(s, 0.25), "IQR = q75 - q25");
    same_values(S, v, "input unchanged");
}
// BOUND order5: 5 values in every order, q in {0, 0.1, 0.5, 0.9, 1} (thorough tier)
SX_ENTRY(order5, "mode=real shards=4 tier=thorough") {
    static const double q5[] = {0, 0.1, 0.5, 0.9, 1};
    double q = q5[sx_choose("q#", 0, 4)];
    Array v = fin("v", 5), s = sorted_(v);
    sx_assert_num(stats::quantile(Serie(1, v), q), quant(s, q), "linear interpolation between the order statistics");
}
// BOUND anyq: every real q and q' in [0,1], 1..4 values up to 1e6 in increasing order, or 2..3 in every order: interpolation, bounds, non-decreasing in q
SX_ENTRY(anyq, "mode=real shards=2") {
    uint32_t n = (uint32_t)sx_choose("count#", 1, 4);
    bool inc = sx_choose("increasing", 0, 1);
    if (n == 4 && !inc) return;
    Array v = fin("v", n);
    if (inc) for (uint32_t i = 1; i < n; i++) sx_assume(v[i - 1] <= v[i]);
    Array s = inc ? v : sorted_(v);
    double q = sx_f64("q"), p = sx_f64("p");
    sx_assume(q >= 0 && q <= 1 && p >= 0 && p <= q);
    Serie S(1, v);
    double r = stats::quantile(S, q), t = stats::quantile(S, p);
    sx_assert(r >= s[0] && r <= s[n - 1], "between the smallest and the largest value");
    sx_assert(t <= r, "non-decreasing in q");
    // r sits on the polyline through (i/(n-1), s[i])
    for (uint32_t i = 0; i + 1 < n; i++)
        if (q * (n - 1) >= i && q * (n - 1) <= i + 1)
            sx_assert_num(r, s[i] + (q * (n - 1) - i) * (s[i + 1] - s[i]), "linear interpolation at q*(count-1)");
}
// BOUND perm: two orders of the same 2..4 values give the same quantiles (all permutations of 2..3, rotations and reversal of 4)
SX_ENTRY(perm, "mode=real") {
    uint32_t n = (uint32_t)sx_choose("count", 2, 4);
    Array v = fin("v", n), w = v;
    uint32_t rot = (uint32_t)sx_choose("rotate", 0, n - 1);
    for (uint32_t i = 0; i < n; i++) w[i] = v[(i + rot) % n];
    if (sx_choose("reverse", 0, 1)) w = Array(w.rbegin(), w.rend());
    double q = qs[sx_choose("q", 2, 4)];
    sx_assert_num(stats::quantile(Serie(1, w), q), stats::quantile(Serie(1, v), q), "independent of the order of the values");
}
// BOUND big: 6, 7, 10, 12, 17, 40 (thorough: 64, 101) values, all but one fixed, the other any value up to 1e6; ten q
SX_ENTRY(big, "mode=real shards=4") {
    static const uint32_t ns[] = {6, 7, 10, 12, 17, 40, 64, 101};
    uint32_t n = ns[sx_choose("n#", 0, sx_thorough() ? 7 : 5)];
    Array v;
    for (uint32_t i = 0; i < n; i++) v.push_back((i * 37 % 23) - 9.0);
    v[sx_choose("at#", 0, 1) ? n - 1 : n / 3] = fin("x", 1)[0];
    Array s = sorted_(v);
    Serie S(1, v);
    for (double q : qs) sx_assert_num(stats::quantile(S, q), quant(s, q), "linear interpolation between the order statistics");
    sx_assert_num(stats::IQR(S), quant(s, 0.75) - quant(s, 0.25), "IQR");
}
static void split(const Array &v, double m) {
    uint32_t n = (uint32_t)v.size();
    Array s = sorted_(v);
    double a = quant(s, 0.25), b = quant(s, 0.75), lo = a - m * (b - a), hi = b + m * (b - a);
    Serie S(1, v), out = stats::outliers(S, m), in = stats::notOutliers(S, m), is = stats::isOutliers(S, m);
    Array wo, wi, mk;
    for (uint32_t i = 0; i < n; i++) {
        bool o = v[i] < lo || v[i] > hi;
        (o ? wo : wi).push_back(v[i]);
        mk.push_back(o ? 1 : 0);
    }
    sx_assert(out.count() == wo.size() && (wo.empty() || out.itemSize() == 1), "as many outliers as values beyond the fences");
    sx_assert(in.count() == wi.size() && (wi.empty() || in.itemSize() == 1), "the other values are not outliers");
    for (size_t i = 0; i < wo.size(); i++) sx_assert_num(out.scalar((uint32_t)i), wo[i], "outliers in order");
    for (size_t i = 0; i < wi.size(); i++) sx_assert_num(in.scalar((uint32_t)i), wi[i], "the others in order");
    same_shape(is, 1, n);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(is.scalar(i), mk[i], "isOutliers marks exactly the outliers");
    same_values(S, v, "input unchanged");
}
static const double ms[] = {1.5, 0, 0.25, 3};
// BOUND fences: 1..4 values up to 1e6 (4 in increasing order only), mustache 1.5, 0, 0.25, 3
SX_ENTRY(fences, "mode=real shards=4") {
    uint32_t n = (uint32_t)sx_choose("count#", 1, 4);
    double m = ms[sx_choose("m#", 0, 3)];
    Array v = fin("v", n);
    if (n == 4) for (uint32_t i = 1; i < n; i++) sx_assume(v[i - 1] <= v[i]);
    split(v, m);
}
// BOUND fences_big: 6, 7, 9, 17 (thorough: 40) values, all but two fixed, the others any value up to 1e6; mustache 1.5, 0, 0.25, 3
SX_ENTRY(fences_big, "mode=real shards=4") {
    static const uint32_t ns[] = {9, 17, 6, 7, 40};
    uint32_t n = ns[sx_choose("n", 0, sx_thorough() ? 4 : 3)];
    double m = ms[sx_choose("m#", 0, 3)];
    Array v;
    for (uint32_t i = 0; i < n; i++) v.push_back(i % 8 == 5 ? 100.0 : (i * 37 % 5) * 0.5);
    v[n / 2] = fin("x", 1)[0];
    if (n == 9) v[n - 1] = fin("y", 1)[0];
    split(v, m);
}
// BOUND fences_m: every mustache in [0, 10], 1..3 values; the default mustache of notOutliers is 1.5
SX_ENTRY(fences_m, "mode=real") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 3);
    Array v = fin("v", n);
    for (uint32_t i = 1; i < n; i++) sx_assume(v[i - 1] <= v[i]);
    double m = sx_f64("m");
    sx_assume(m >= 0 && m <= 10);
    split(v, m);
    Array six = {1, 2, 3, 4, 5, 100};
    Serie S(1, six);
    Serie d = stats::notOutliers(S), e = stats::notOutliers(S, 1.5);
    same_serie(d, e.itemSize(), e.count(), e.dimension(), e.asArray());
}
// BOUND bad: every q outside [0,1] and NaN; vector, empty and invalid Series
SX_ENTRY(bad, "") {
    double q = sx_f64("q"), m = sx_f64("m");
    int kind = (int)sx_choose("kind", 0, 5);
    Array v = sx_vec("v", 6);
    Serie S = kind == 0 ? Serie(1, Array(v.begin(), v.begin() + 2)) : kind == 1 ? Serie(2, v) : kind == 2 ? Serie(3, v) : kind == 3 ? Serie(6, v) : kind == 4 ? Serie(1, 0) : Serie();
    Array keep = S.asArray();
    if (kind == 0) {
        sx_assume(!(q >= 0 && q <= 1));
        sx_assert(sx_outcome([&] { stats::quantile(S, q); }) == 1, "q outside [0,1] is rejected");
    } else {
        sx_assert(sx_outcome([&] { stats::quantile(S, 0.5); }) == 1, "quantile rejects it");
        sx_assert(sx_outcome([&] { stats::quantile(S, q); }) == 1, "quantile rejects it whatever q");
        sx_assert(sx_outcome([&] { stats::q25(S); }) == 1, "q25 rejects it");
        sx_assert(sx_outcome([&] { stats::q50(S); }) == 1, "q50 rejects it");
        sx_assert(sx_outcome([&] { stats::q75(S); }) == 1, "q75 rejects it");
        sx_assert(sx_outcome([&] { stats::IQR(S); }) == 1, "IQR rejects it");
        sx_assert(sx_outcome([&] { stats::outliers(S, m); }) == 1, "outliers rejects it");
        sx_assert(sx_outcome([&] { stats::notOutliers(S, m); }) == 1, "notOutliers rejects it");
        sx_assert(sx_outcome([&] { stats::isOutliers(S, m); }) == 1, "isOutliers rejects it");
    }
    same_values(S, keep, "input unchanged");
}
// BOUND huge: 65541 numbers in a scattered order (beyond 16-bit indices): ten q, and the split by the fences
SX_ENTRY(huge, "mode=real shards=2 max-steps=8000000000 wall=400") {
    uint32_t n = HUGE_N;
    Array v, s;
    for (uint64_t i = 0; i < n; i++) { v.push_back((double)(i * 40507 % n)); s.push_back((double)i); }
    if (sx_choose("form!", 0, 1)) {
        for (uint32_t i : {255u, 65535u, 65536u, n - 1}) v[i] = 1e6;
        Array in, out;
        for (double x : v) (x > 5e5 ? out : in).push_back(x);
        Serie S(1, v), a = stats::outliers(S, 1.5), b = stats::notOutliers(S, 1.5);
        Array flag;
        for (double x : v) flag.push_back(x > 5e5 ? 1.0 : 0.0);
        Serie c = stats::isOutliers(S, 1.5);
        same_shape(c, 1, n);
        huge_same(c.asArray(), flag, "1 beyond the fences, 0 within");
        same_shape(a, 1, 4);
        same_values(a, out, "the values beyond the fences");
        same_shape(b, 1, n - 4);
        huge_same(b.asArray(), in, "the values within the fences");
        return;
    }
    Serie S(1, v);
    for (double q : {0.0, 0.1, 0.5, 0.75, 0.999, 1.0}) sx_assert_num(stats::quantile(S, q), quant(s, q), "linear interpolation between the order statistics");
}
