#include "h.h"
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/map.h>
#include <numeric>
#include <algorithm>
#include <dataframe/functional/math/normalize.h>
using namespace df;
static Array finite(const char *name, size_t n) { Array v = sx_vec(name, n); for (double x : v) sx_assume(std::isfinite(x)); return v; }
static void tight(const Serie &s, int k, const Array &v) {
    auto r = math::minMax(s);
    size_t n = v.size() / k;
    sx_assert(r.min.size() == (size_t)(n ? k : 0) && r.max.size() == r.min.size(), "one minimum and maximum per component");
    for (int j = 0; j < k && n; j++) {
        bool lo = false, hi = false;
        for (size_t i = 0; i < n; i++) {
            double x = v[i * k + j];
            sx_assert(r.min[j] <= x && x <= r.max[j], "every value lies between the minimum and the maximum");
            lo |= r.min[j] == x;
            hi |= r.max[j] == x;
        }
        sx_assert(lo, "the minimum occurs");
        sx_assert(hi, "the maximum occurs");
    }
    same_values(s, v, "input unchanged");
}
// BOUND scalars: 0..5 finite values (6 in the thorough tier)
SX_ENTRY(scalars, "wall=200") {
    uint32_t n = (uint32_t)sx_choose("count", 0, sx_thorough() ? 6 : 5);
    Array v = finite("v", n);
    tight(Serie(1, v, sx_u32("dim")), 1, v);
}
// BOUND vectors: itemSize 2,3,4,6,9; 1 or 2 items with four adjacent components arbitrary, 3 or 4 items with two (one) adjacent components arbitrary, the others fixed; finite values
SX_ENTRY(vectors, "shards=8 wall=200") {
    static const int ks[] = {2, 3, 4, 6, 9};
    int k = ks[sx_choose("k#", 0, 4)];
    uint32_t n = (uint32_t)sx_choose("count#", 0, 4);
    int fr = std::min(k, n <= 2 ? 4 : n == 3 ? 2 : 1), first = (int)sx_choose("first", 0, 8);
    sx_assume(first + fr <= k);
    Array v;
    for (uint32_t i = 0; i < n; i++)
        for (int j = 0; j < k; j++) v.push_back(j >= first && j < first + fr ? finite("v", 1)[0] : (double)((i * 5 + j * 3) % 7));
    tight(Serie(k, v), k, v);
}
// BOUND big: 13 shapes up to 257 items, all values fixed but those of one item (first, middle or last; any up to 11 items), which are arbitrary finite values (two components when the itemSize is larger)
SX_ENTRY(big, "shards=8 wall=200") {
    static const Shape b[] = {{1, 17}, {1, 64}, {1, 257}, {2, 33}, {3, 64}, {5, 7}, {6, 20}, {1, 6}, {1, 7}, {1, 10}, {2, 6}, {3, 7}, {3, 11}};
    Shape s = b[sx_choose("shape#", 0, 12)];
    Array v;
    uint32_t x = 7;
    for (size_t i = 0; i < (size_t)s.k * s.n; i++) { x = x * 1664525u + 1013904223u; v.push_back((int)(x >> 20) % 512 - 100.5); }
    uint32_t at[] = {0, s.n / 2, s.n - 1}, i = s.n <= 11 ? (uint32_t)sx_choose("at#", 0, s.n - 1) : at[sx_choose("at#", 0, 2)];
    int j0 = s.k > 2 ? (int)sx_choose("comp", 0, s.k - 2) : 0;
    for (int j = j0; j < s.k && j < j0 + 2; j++) v[i * s.k + j] = finite("x", 1)[0];
    tight(Serie(s.k, v), s.k, v);
}
// BOUND norm_scalars: normalize of 1..4 values in [-1e5, 1e5] whose range is at least 1e-3
SX_ENTRY(norm_scalars, "mode=real") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 4);
    Array v = sx_vec("v", n);
    double lo = 1e9, hi = -1e9;
    for (double x : v) { sx_assume(x >= -1e5 && x <= 1e5); lo = std::min(lo, x); hi = std::max(hi, x); }
    sx_assume(n == 1 || hi - lo >= 1e-3);
    Serie s(1, v, sx_u32("dim"));
    Serie r = math::normalize(s);
    same_shape(r, 1, n);
    if (n > 1) for (uint32_t i = 0; i < n; i++) {
        sx_assert_num(r.asArray()[i], (v[i] - lo) / (hi - lo), "(v-min)/(max-min)");
        if (v[i] == lo) sx_assert_num(r.asArray()[i], 0, "the smallest goes to 0");
        if (v[i] == hi) sx_assert_num(r.asArray()[i], 1, "the largest goes to 1");
    }
    same_values(s, v, "input unchanged");
}
// BOUND norm_long: normalize of 6, 7, 10, 22, 17, 64 or 257 values with one of them arbitrary in [-1e5, 1e5]
SX_ENTRY(norm_long, "mode=real shards=2") {
    static const uint32_t ns[] = {17, 64, 257, 6, 7, 10, 22};
    uint32_t n = ns[sx_choose("n#", 0, 6)];
    Array v;
    for (uint32_t i = 0; i < n; i++) v.push_back((int)(i * 7919 % 101) - 30);
    uint32_t at[] = {0, n / 2, n - 1};
    double x = sx_f64("x"), lo = -30, hi = 70;
    sx_assume(x >= -1e5 && x <= 1e5);
    v[at[sx_choose("at", 0, 2)]] = x;
    lo = hi = v[0];
    for (double y : v) { lo = std::min(lo, y); hi = std::max(hi, y); }
    Serie s(1, v);
    Serie r = math::normalize(s);
    same_shape(r, 1, n);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(r.asArray()[i], (v[i] - lo) / (hi - lo), "(v-min)/(max-min)");
}
// BOUND norm_vectors: normalize of 1..3 items of itemSize 2,3,4,6,9 and of 6, 7, 10, 16, 33, 100 items of 3 components, arbitrary values (each item at least 1e-3 long, components up to 1e4)
SX_ENTRY(norm_vectors, "shards=2") {
    static const Shape b[] = {{2, 1}, {2, 2}, {3, 1}, {3, 3}, {4, 2}, {6, 2}, {9, 1}, {3, 16}, {3, 33}, {3, 100}, {2, 100}, {3, 6}, {3, 7}, {2, 10}};
    Shape sh = b[sx_choose("shape#", 0, 13)];
    Array v = sx_vec("v", (size_t)sh.k * sh.n);
    Serie s(sh.k, v, 2);
    Serie r = math::normalize(s);
    same_shape(r, sh.k, sh.n);
    for (uint32_t i = 0; i < sh.n; i++) {
        double q = 0;
        for (int j = 0; j < sh.k; j++) { double x = v[i * sh.k + j]; sx_assume(x >= -1e4 && x <= 1e4); q += x * x; }
        sx_assume(q >= 1e-6);
        double l = std::sqrt(q);
        for (int j = 0; j < sh.k; j++) sx_assert_num(r.asArray()[i * sh.k + j], v[i * sh.k + j] * (1.0 / l), "the item divided by its length");
    }
    same_values(s, v, "input unchanged");
}
// BOUND edge: empty Series of itemSize 1..4 and invalid Series
SX_ENTRY(edge, "") {
    int k = (int)sx_choose("k", 1, 4);
    Serie e(k, Array());
    auto m = math::minMax(e);
    sx_assert(m.min.empty() && m.max.empty(), "no minimum nor maximum for an empty Serie");
    Serie r = math::normalize(e);
    sx_assert(r.count() == 0 && r.size() == 0, "an empty Serie gives an empty one");
    sx_assert(sx_outcome([] { math::minMax(Serie()); }) == 1, "an invalid Serie is rejected");
    sx_assert(sx_outcome([] { math::normalize(Serie()); }) == 1, "an invalid Serie is rejected");
}
// BOUND huge: 65541 items of 1 and 3 components (beyond 16-bit indices): minMax and normalize with the extremes at 255, 65535, 65536 or the last item
SX_ENTRY(huge, "shards=4 max-steps=4000000000") {
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 3), k = form == 2 ? 3 : 1;
    static const uint32_t at[] = {255, 65535, 65536, HUGE_N - 1};
    uint32_t lo = at[sx_choose("lo", 0, 3)], hi = lo == at[3] ? at[2] : at[3];
    Array v((size_t)k * n), w;
    for (size_t i = 0; i < v.size(); i++) v[i] = (double)((i * 7) % 1001);
    for (uint32_t j = 0; j < k; j++) { v[(size_t)lo * k + j] = -5.0 - j; v[(size_t)hi * k + j] = 2000.0 + j; }
    if (form == 3) std::swap(v[lo], v[hi]);
    Serie s((int)k, v);
    if (form == 0 || form == 2) {
        auto r = math::minMax(s);
        sx_assert(r.min.size() == k && r.max.size() == k, "one minimum and maximum per component");
        for (uint32_t j = 0; j < k; j++) sx_assert(r.min[j] == -5.0 - j && r.max[j] == 2000.0 + j, "the smallest and the largest value");
    } else {
        for (double x : v) w.push_back((x + 5.0) / 2005.0);
        huge_near(math::normalize(s), 1, n, w, "(v-min)/(max-min)");
    }
}
// BOUND norm_huge: 65541 items of 3 components: each divided by its length
SX_ENTRY(norm_huge, "max-steps=4000000000") {
    uint32_t n = HUGE_N;
    Array v, w;
    for (uint32_t i = 0; i < n; i++) { double x[3] = {1.0 + i % 9, (double)(i % 4), 2.0 - i % 5}, l = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); for (double y : x) { v.push_back(y); w.push_back(y / l); } }
    huge_near(math::normalize(Serie(3, v)), 3, n, w, "the item divided by its length");
}
