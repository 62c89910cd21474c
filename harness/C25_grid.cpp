#include "h.h"
#include <dataframe/functional/geo/cartesian_grid.h>
using namespace df;
using Dims = std::vector<uint32_t>;
static double lim(const char *n) { double x = sx_f64(n); sx_assume(x >= -1e4 && x <= 1e4); return x; }
static void evenly(const Serie &g, const Dims &d, const Array &a, const Array &b) {
    uint32_t n[3] = {1, 1, 1}, total = 1;
    for (size_t i = 0; i < d.size(); i++) { n[i] = d[i]; total *= d[i]; }
    same_shape(g, 3, total);
    const Array &v = g.asArray();
    uint32_t at = 0;
    for (uint32_t k = 0; k < n[2]; k++)
        for (uint32_t j = 0; j < n[1]; j++)
            for (uint32_t i = 0; i < n[0]; i++, at++) {
                uint32_t c[3] = {i, j, k};
                for (int x = 0; x < 3; x++) {
                    double t = n[x] > 1 ? (double)c[x] / (n[x] - 1) : 0;
                    sx_assert_num(v[at * 3 + x], a[x] + t * (b[x] - a[x]), "evenly spaced from corner to corner, x fastest");
                }
            }
}
static void both(const Dims &d) {
    Array a{lim("a"), lim("a"), lim("a")}, b{lim("b"), lim("b"), lim("b")};
    if (sx_choose("form", 0, 1)) evenly(grid::cartesian::from_points(d, a, b), d, a, b);
    else {
        Array lo, hi;
        for (int i = 0; i < 3; i++) { lo.push_back(a[i] - b[i] / 2); hi.push_back(a[i] + b[i] / 2); }
        evenly(grid::cartesian::from_dims(d, a, b), d, lo, hi);
    }
}
// BOUND small: one to three axes of 0..4 points, from_points and from_dims, any corners, centres and sizes up to 1e4 (reversed ones included)
SX_ENTRY(small, "mode=real shards=2") {
    int m = (int)sx_choose("axes#", 1, 3);
    Dims d;
    for (int i = 0; i < m; i++) d.push_back((uint32_t)sx_choose("n", 0, 4));
    both(d);
}
// BOUND big: 6, 7, 6x10, 17, 33x2, 10x5x4, 2x31, 1x1x40, 1x7x1, 101, 6x6x6
SX_ENTRY(big, "mode=real shards=4") {
    static const Dims ds[] = {{17}, {33, 2}, {10, 5, 4}, {2, 31}, {1, 1, 40}, {1, 7, 1}, {101}, {6, 6, 6}, {6}, {7}, {6, 10}};
    both(ds[sx_choose("dims#", 0, 10)]);
}
// BOUND bad: 0..5 axes and corners, centres and sizes of 0..5 components
SX_ENTRY(bad, "") {
    int m = (int)sx_choose("axes", 0, 5), a = (int)sx_choose("a", 0, 5), b = (int)sx_choose("b", 0, 5);
    Dims d((size_t)m, 2);
    bool ok = m >= 1 && m <= 3 && a == 3 && b == 3;
    sx_assert(sx_outcome([&] { grid::cartesian::from_points(d, Array(a, 0.0), Array(b, 1.0)); }) == (ok ? 0 : 1), "wrong numbers of dimensions or components are rejected");
    sx_assert(sx_outcome([&] { grid::cartesian::from_dims(d, Array(a, 0.0), Array(b, 1.0)); }) == (ok ? 0 : 1), "wrong numbers of dimensions or components are rejected");
    if (m >= 1 && m <= 3) evenly(grid::cartesian::from_dims(d), d, {-0.5, -0.5, -0.5}, {0.5, 0.5, 0.5});
}
// BOUND huge: 66049 points on one axis, 257 x 257 and 41 x 40 x 41 (beyond 16-bit indices), concrete corners, from_points and from_dims
SX_ENTRY(huge, "mode=real shards=6 max-steps=8000000000") {
    static const Dims ds[] = {{66049}, {257, 257}, {41, 40, 41}};
    uint32_t f = (uint32_t)sx_choose("dims!", 0, 5);
    Dims d = ds[f % 3];
    Array a{-1, 2, 0.5}, b{3, -7, 10};
    Serie g = f < 3 ? grid::cartesian::from_points(d, a, b) : grid::cartesian::from_dims(d, {1, -2.5, 5.25}, {4, -9, 9.5});
    uint32_t n[3] = {1, 1, 1}, bad = 0, at = 0;
    for (size_t i = 0; i < d.size(); i++) n[i] = d[i];
    same_shape(g, 3, n[0] * n[1] * n[2]);
    const Array &v = g.asArray();
    for (uint32_t k = 0; k < n[2]; k++) for (uint32_t j = 0; j < n[1]; j++) for (uint32_t i = 0; i < n[0]; i++, at++) {
        uint32_t c[3] = {i, j, k};
        for (int x = 0; x < 3; x++) bad |= !(std::fabs(v[3 * (size_t)at + x] - (a[x] + (n[x] > 1 ? (double)c[x] / (n[x] - 1) : 0) * (b[x] - a[x]))) < 1e-8);
    }
    sx_assert(bad == 0, "evenly spaced from corner to corner, x fastest");
}
