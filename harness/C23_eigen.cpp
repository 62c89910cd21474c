#include "h.h"
#include <tuple>
#include <dataframe/functional/algebra/eigen.h>
using namespace df;
struct System { Serie values, vectors; };
static System system(const Serie &s) { System r; std::tie(r.values, r.vectors) = algebra::eigenSystem(s); return r; }
static Array full(const Array &p, int m) {
    Array a(m * m);
    int k = 0;
    for (int i = 0; i < m; i++) for (int j = i; j < m; j++) a[i * m + j] = a[j * m + i] = p[k++];
    return a;
}
static Array pack(const Array &a, int m) { Array p; for (int i = 0; i < m; i++) for (int j = i; j < m; j++) p.push_back(a[i * m + j]); return p; }
// the eigen pairs of every item of s (packed symmetric m x m)
static void pairs(const Serie &s, int m, double tol, double unit = 1) { // unit: the magnitude of the entries, in which everything is compared
    auto sys = system(s);
    uint32_t n = s.count();
    same_shape(sys.values, m, n);
    same_shape(sys.vectors, m * m, n);
    for (uint32_t it = 0; it < n; it++) {
        Array a = full(s.value(it), m), l = sys.values.value(it), v = sys.vectors.value(it);
        double tr = 0, sum = 0;
        for (int i = 0; i < m; i++) { tr += a[i * m + i]; sum += l[i]; }
        sx_assert_num(sum / unit, tr / unit, "the eigenvalues add up to the trace");
        for (int i = 0; i + 1 < m; i++) sx_assert(l[i] >= l[i + 1], "eigenvalues in non-increasing order");
        for (int i = 0; i < m; i++)
            for (int j = i; j < m; j++) {
                double d = 0;
                for (int k = 0; k < m; k++) d += v[i * m + k] * v[j * m + k];
                sx_assert_num(d, i == j ? 1 : 0, i == j ? "eigenvectors have unit length" : "eigenvectors are mutually orthogonal");
            }
        for (int e = 0; e < m; e++)
            for (int i = 0; i < m; i++) {
                double x = 0;
                for (int k = 0; k < m; k++) x += a[i * m + k] * v[e * m + k];
                if (tol == 0) sx_assert_num(x / unit, l[e] * v[e * m + i] / unit, "A v = lambda v");
                else sx_assert(std::abs(x - l[e] * v[e * m + i]) <= tol, "A v = lambda v within the tolerance");
            }
    }
}
static void agree(const Serie &s, int m) {
    auto sys = system(s);
    Serie l = algebra::eigenValues(s), v = algebra::eigenVectors(s);
    same_shape(l, m, s.count());
    same_shape(v, m * m, s.count());
    for (size_t i = 0; i < l.asArray().size(); i++) sx_assert_num(l.asArray()[i], sys.values.asArray()[i], "the values-only and the joint function agree");
    for (size_t i = 0; i < v.asArray().size(); i++) sx_assert_num(v.asArray()[i], sys.vectors.asArray()[i], "the vectors-only and the joint function agree");
}
static double free1(const char *name, double lim) { double x = sx_f64(name); sx_assume(x >= -lim && x <= lim); return x; }
// BOUND two: every symmetric 2x2 matrix with entries up to 1000 (real arithmetic, exact trigonometric identities)
SX_ENTRY(two, "mode=real keep-trig wall=200") {
    Array a{free1("a", 1000), free1("b", 1000), free1("c", 1000)};
    Serie s(3, a, 2);
    pairs(s, 2, 0);
    same_values(s, a, "input unchanged");
}
// BOUND diagonal: two diagonal items of size 2 or 3 with arbitrary entries (ties included): exact
SX_ENTRY(diagonal, "mode=real") {
    int m = (int)sx_choose("m", 2, 3);
    Array v;
    for (int it = 0; it < 2; it++) { Array a(m * m, 0.0); for (int i = 0; i < m; i++) a[i * m + i] = it ? (double)((i * 2) % 3) : free1("d", 1000); v = cat(v, pack(a, m)); }
    Serie s(m == 2 ? 3 : 6, v, m);
    pairs(s, m, 0);
    agree(s, m);
}
// BOUND block: 3x3 matrices with one arbitrary off-diagonal pair (each of the three planes) and arbitrary diagonal, entries up to 1000
SX_ENTRY(block, "mode=real keep-trig shards=3 wall=300") {
    static const int pq[3][2] = {{0, 1}, {0, 2}, {1, 2}};
    const int *p = pq[sx_choose("plane#", 0, 2)];
    Array a(9, 0.0);
    for (int i = 0; i < 3; i++) a[i * 4] = free1("d", 1000);
    a[p[0] * 3 + p[1]] = a[p[1] * 3 + p[0]] = free1("b", 1000);
    pairs(Serie(6, pack(a, 3), 3), 3, 0);
}
// fixed full matrices (several rotations and sweeps)
static Array full_matrix(int w) {
    static const double m[8][6] = {{1, 2, 3, 4, 5, 6}, {2, -1, 0, 2, -1, 2}, {1, 1, 1, 1, 1, 1}, {4, 1, -2, 2, 0, 3}, {-5, 0.5, 7, 3, -2, 1}, {10, 0.01, 0.02, 20, 0.03, 30}, {1, 1000, 2, 3, 500, 4}, {0, 1, 2, 0, 3, 0}};
    if (w < 8) return Array(m[w], m[w] + 6);
    Array a;
    uint32_t x = 17 * w;
    for (int i = 0; i < 6; i++) { x = x * 1664525u + 1013904223u; a.push_back((int)(x >> 18) % 2001 / 8.0 - 100); }
    return a;
}
static double tolerance(const Array &p) { return 0.01 * std::sqrt(p[1] * p[1] + p[2] * p[2] + p[4] * p[4]) + 1e-9; }
// BOUND dense: 32 fixed full 3x3 matrices, alone (concrete arithmetic) and next to an item with an arbitrary diagonal
SX_ENTRY(dense, "mode=real shards=2") {
    Array p = full_matrix((int)sx_choose("which", 0, 31));
    pairs(Serie(6, p, 3), 3, tolerance(p));
    agree(Serie(6, p, 3), 3);
    double d = free1("d", 100);
    Array q{d, 0, 0, 1, 0, 2};
    Serie s(6, cat(cat(q, p), q), 3);
    auto sys = system(s), one = system(Serie(6, p, 3));
    same_shape(sys.values, 3, 3);
    same_values(Serie(3, sys.values.value(1)), one.values.asArray(), "an item's result does not depend on its neighbours");
    same_values(Serie(9, sys.vectors.value(1)), one.vectors.asArray(), "an item's result does not depend on its neighbours");
    for (int i = 0; i < 3; i++) sx_assert_num(sys.values.value(0)[i], sys.values.value(2)[i], "equal items give equal results");
    agree(s, 3);
}
// BOUND functions: the three functions on symmetric 2x2 items and 3x3 items with one off-diagonal pair, arbitrary entries
SX_ENTRY(functions, "mode=real keep-trig shards=4 wall=200") {
    int w = (int)sx_choose("plane#", 0, 3);
    if (w == 3) { agree(Serie(3, Array{free1("a", 1000), free1("b", 1000), free1("c", 1000)}, 2), 2); return; }
    static const int at[3] = {1, 2, 4};
    Array p{free1("a", 1000), 0, 0, free1("b", 1000), 0, free1("c", 1000)};
    p[at[w]] = free1("o", 1000);
    agree(Serie(6, p, 3), 3);
}
// BOUND bad: itemSize 1..9 with dimension 1..4; empty Series
SX_ENTRY(bad, "") {
    int k = (int)sx_choose("k", 1, 9);
    unsigned dim = (unsigned)sx_choose("dim", 1, 4);
    bool ok = (dim == 2 && k == 3) || (dim == 3 && k == 6);
    uint32_t n = (uint32_t)sx_choose("n", 0, 2);
    Array v((size_t)k * n, 0.0);
    for (size_t i = 0; i < v.size(); i++) v[i] = (double)(i % 3);
    Serie s(k, v, dim), r;
    int o = sx_outcome([&] { r = algebra::eigenValues(s); });
    sx_assert(ok ? o == 0 : o == 1 || o == 2, "inconsistent itemSize and dimension are reported by an exception");
    if (ok) sx_assert(r.count() == n, "one item per item");
    o = sx_outcome([&] { r = algebra::eigenVectors(s); });
    sx_assert(ok ? o == 0 : o == 1 || o == 2, "inconsistent itemSize and dimension are reported by an exception");
    if (ok) sx_assert(r.count() == n, "one item per item");
    System e;
    o = sx_outcome([&] { e = system(s); });
    sx_assert(ok ? o == 0 : o == 1 || o == 2 || (!e.values.isValid() && !e.vectors.isValid()), "inconsistent itemSize and dimension are reported");
    if (ok) sx_assert(e.values.count() == n && e.vectors.count() == n, "one item per item");
    same_values(s, v, "input unchanged");
}
static const double units[] = {1e-12, 1e-6, 1e8};
// BOUND scaled: entries of magnitude 1e-12, 1e-6 and 1e8: symmetric 2x2 matrices, 3x3 with one off-diagonal pair (real arithmetic, the eigen equation in units of that magnitude)
SX_ENTRY(scaled, "mode=real keep-trig shards=6 wall=300") {
    double u = units[sx_choose("unit#", 0, 2)];
    if (sx_choose("three#", 0, 1)) pairs(Serie(6, Array{free1("a", u), 0, free1("o", u), free1("b", u), 0, free1("c", u)}, 3), 3, 0, u);
    else pairs(Serie(3, Array{free1("a", u), free1("b", u), free1("c", u)}, 2), 2, 0, u);
}
// BOUND scaled_dense: 32 fixed full 3x3 matrices times 1e-12, 1e-6 and 1e8, next to an item of another magnitude with an arbitrary diagonal
SX_ENTRY(scaled_dense, "mode=real shards=2") {
    double u = units[sx_choose("unit", 0, 2)];
    Array p = full_matrix((int)sx_choose("which", 0, 31));
    double tol = tolerance(p) * u;
    for (double &x : p) x *= u;
    pairs(Serie(6, p, 3), 3, tol, u);
    Array q{free1("d", 100), 0, 0, 1, 0, 2};
    auto sys = system(Serie(6, cat(p, q), 3)), one = system(Serie(6, p, 3));
    same_values(Serie(3, sys.values.value(0)), one.values.asArray(), "an item's result does not depend on its neighbours");
    agree(Serie(6, p, 3), 3);
}
// BOUND huge: 65541 diagonal items of size 2 or 3 (beyond 16-bit indices), some of their entries symbolic
SX_ENTRY(huge, "mode=real shards=2 max-steps=8000000000") {
    int m = sx_choose("m!", 0, 1) ? 3 : 2;
    uint32_t n = HUGE_N, k = m == 2 ? 3 : 6;
    Array v((size_t)k * n, 0.0), w;
    for (uint32_t i = 0; i < n; i++) {
        bool sym = i == 255 || i == 65536 || i + 1 == n;
        double a = sym ? sx_f64("d") : 50.0 + i % 17;
        if (sym) sx_assume((int)(a >= 60) & (int)(a <= 1000));
        v[(size_t)k * i] = 1.0 + i % 5;
        v[(size_t)k * i + (m == 2 ? 2 : 3)] = a;
        if (m == 3) v[(size_t)k * i + 5] = -3.0;
        w.push_back(a); w.push_back(1.0 + i % 5); if (m == 3) w.push_back(-3.0);
    }
    Serie l = algebra::eigenValues(Serie((int)k, v, m));
    same_shape(l, m, n);
    uint32_t bad = 0;
    for (uint32_t i = 0; i < n; i++) for (int j = 0; j < m; j++) {
        double g = l.asArray()[(size_t)m * i + j], x = w[(size_t)m * i + j];
        if (i == 255 || i == 65536 || i + 1 == n) sx_assert_num(g, x, "the eigenvalues of a diagonal matrix");
        else bad |= !(std::fabs(g - x) < 1e-9);
    }
    sx_assert(bad == 0, "the eigenvalues of diagonal matrices");
    Serie e = algebra::eigenVectors(Serie((int)k, v, m));
    same_shape(e, m * m, n);
    for (uint32_t i = 0; i < n; i++) {
        int o[3] = {m == 2 ? 1 : 1, 0, 2}; // the entries are decreasing in the order second, first, third
        for (int j = 0; j < m; j++) for (int x = 0; x < m; x++) {
            double g = std::fabs(e.asArray()[(size_t)m * m * i + j * m + x]), u = x == o[j] ? 1 : 0;
            if (i == 255 || i == 65536 || i + 1 == n) sx_assert_num(g, u, "the eigenvectors of a diagonal matrix");
            else bad |= !(std::fabs(g - u) < 1e-9);
        }
    }
    sx_assert(bad == 0, "the eigenvectors of diagonal matrices");
}
