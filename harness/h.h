// Shared helpers of the harnesses (symbolic Series, shapes, item-wise comparison).
#pragma once
#include <dataframe/Serie.h>
#include "sx.h"
#include <cmath>
#include <vector>

struct Shape { int k; uint32_t n; };

// itemSizes 1..4, 6, 9 and counts lo..hi
inline Shape small_shape(uint32_t lo, uint32_t hi) {
    static const int ks[] = {1, 2, 3, 4, 6, 9};
    Shape s;
    s.k = ks[sx_choose("itemSize#", 0, 5)];
    s.n = (uint32_t)sx_choose("count", lo, hi);
    return s;
}
// counts and itemSizes beyond the usual unrolling, block and cache sizes
inline Shape big_shape() {
    static const Shape b[] = {{1, 17}, {1, 64}, {1, 100}, {1, 257}, {1, 1025}, {2, 33}, {3, 33}, {3, 130}, {5, 7}, {6, 65}, {7, 40}, {8, 16}, {9, 20}, {12, 6}, {16, 5}, {33, 3}, {260, 3},
                              {1, 6}, {1, 7}, {1, 10}, {1, 14}, {1, 23}, {2, 6}, {2, 11}, {3, 6}, {3, 7}, {3, 10}, {11, 2}};
    return b[sx_choose("shape#", 0, 27)];
}
inline Shape big_vec_shape() {
    static const Shape b[] = {{2, 33}, {3, 33}, {3, 130}, {5, 7}, {6, 65}, {7, 40}, {8, 16}, {9, 20}, {12, 6}, {16, 5}, {33, 3}, {260, 3},
                              {2, 6}, {2, 11}, {3, 6}, {3, 7}, {3, 10}, {4, 14}, {11, 2}};
    return b[sx_choose("vshape#", 0, 18)];
}
inline uint32_t big_count() {
    static const uint32_t b[] = {16, 17, 31, 64, 100, 257, 1025, 6, 7, 10, 14, 22, 30};
    return b[sx_choose("count#", 0, 12)];
}
inline df::Serie sx_serie(const char *name, int k, uint32_t n, unsigned dim = 3) {
    return df::Serie(k, sx_vec(name, (size_t)k * n), dim);
}
inline void same_shape(const df::Serie &s, uint32_t k, uint32_t n) {
    sx_assert(s.itemSize() == k, "result itemSize");
    sx_assert(s.count() == n, "result count");
    sx_assert(s.size() == k * n, "result size");
    sx_assert(s.asArray().size() == (size_t)k * n, "result storage size");
}
// the same, where an empty result need not know its itemSize (map of an empty Serie)
inline void items_shape(const df::Serie &s, uint32_t k, uint32_t n) {
    if (n) return same_shape(s, k, n);
    sx_assert(s.count() == 0 && s.size() == 0 && s.asArray().empty(), "an empty Serie gives an empty one");
}
// s holds exactly the doubles of v (same values passed through)
inline void same_values(const df::Serie &s, const Array &v, const char *label) {
    sx_assert(s.asArray().size() == v.size(), "number of values");
    for (size_t i = 0; i < v.size(); i++) sx_assert_same(s.asArray()[i], v[i], label);
}
inline void same_serie(const df::Serie &s, uint32_t k, uint32_t n, unsigned dim, const Array &v) {
    same_shape(s, k, n);
    sx_assert(s.dimension() == dim, "result dimension");
    same_values(s, v, "values");
}
inline Array item_of(const Array &v, uint32_t k, uint32_t i) {
    return Array(v.begin() + (size_t)k * i, v.begin() + (size_t)k * (i + 1));
}
inline double fn(const char *name, const Array &a, uint64_t idx) { return sx_fun_(name, a.data(), a.size(), idx); }
inline double fn1(const char *name, double x, uint64_t idx) { return sx_fun_(name, &x, 1, idx); }
inline double fn2(const char *name, double x, double y, uint64_t idx) { double a[2] = {x, y}; return sx_fun_(name, a, 2, idx); }
inline bool pr(const char *name, const Array &a, uint64_t idx) { return sx_pred_(name, a.data(), a.size(), idx) != 0; }
inline bool pr1(const char *name, double x, uint64_t idx) { return sx_pred_(name, &x, 1, idx) != 0; }
inline Array cat(const Array &a, const Array &b) { Array r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

// selection patterns for long Series (index based, one symbolic position)
struct Mask {
    uint32_t kind, n, j;
    bool operator()(uint32_t i) const {
        switch (kind) {
        case 0: return true;
        case 1: return false;
        case 2: return i % 2 == 1;
        case 3: return i % 3 == 0;
        case 4: return i + 1 == n;
        case 5: return i == 0;
        case 6: return i < n / 2;
        default: return i == j;
        }
    }
};
inline Mask mask_for(uint32_t n) { return Mask{(uint32_t)sx_choose("mask", 0, 7), n, n * 2 / 3}; }

// values at which algebraic identities (0*x = 0, x-x = 0, x*c/c = x) stop to hold
inline double special(const char *name) {
    static const double s[] = {0.0, -0.0, 1.0, -2.5, INFINITY, -INFINITY, NAN};
    return s[sx_choose(name, 0, 6)];
}

// More items than 8- and 16-bit indices can address. The values are concrete but for those around the limits of
// such indices, which are symbolic.
static const uint32_t HUGE_N = 65541;
inline bool huge_edge(uint64_t i, uint64_t n) { return i == 0 || i == 255 || i == 256 || i == 32768 || i == 65535 || i == 65536 || i + 1 == n; }
inline Array huge_vec(const char *name, uint32_t k, uint32_t n) {
    Array v((size_t)k * n);
    double x = 1.0;
    for (size_t i = 0, e = v.size(); i < e; i++, x += 0.5) v[i] = x;
    for (uint32_t i : {0u, 255u, 256u, 32768u, 65535u, 65536u, n - 1})
        if (i < n) v[(size_t)k * i + k - 1] = sx_f64(name);
    return v;
}
inline void huge_same(const Array &got, const Array &want, const char *label) {
    sx_assert(got.size() == want.size(), label);
    uint64_t bad = 0;
    const uint64_t *g = (const uint64_t *)got.data(), *w = (const uint64_t *)want.data();
    for (size_t i = 0, e = want.size(); i < e; i++) bad |= g[i] ^ w[i];
    sx_assert(bad == 0, label);
}
inline void huge_serie(const df::Serie &s, uint32_t k, uint32_t n, unsigned dim, const Array &v) {
    same_shape(s, k, n);
    sx_assert(s.dimension() == dim, "result dimension");
    huge_same(s.asArray(), v, "values");
}
// the same for computed values: equal but for rounding (items of m values)
inline void huge_near(const df::Serie &s, uint32_t m, uint32_t n, const Array &want, const char *label) {
    same_shape(s, m, n);
    const Array &got = s.asArray();
    uint32_t bad = 0;
    for (size_t i = 0, e = want.size(); i < e; i++) {
        if (huge_edge(i / m, n)) sx_assert_num(got[i], want[i], label);
        else bad |= !(std::fabs(got[i] - want[i]) <= 1e-9 * (1 + std::fabs(want[i])));
    }
    sx_assert(bad == 0, label);
}
