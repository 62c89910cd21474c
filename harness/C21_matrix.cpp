#include "h.h"
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/transpose.h>
using namespace df;
// packed symmetric storage (rows of the upper triangle) to full storage
static Array full(const Array &p, int m) {
    if ((int)p.size() == m * m) return p;
    Array a(m * m);
    int k = 0;
    for (int i = 0; i < m; i++) for (int j = i; j < m; j++) a[i * m + j] = a[j * m + i] = p[k++];
    return a;
}
static double leibniz(const Array &a, int m) {
    if (m == 2) return a[0] * a[3] - a[1] * a[2];
    return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
}
static const int sizes[] = {3, 4, 6, 9};
// BOUND det: itemSize 3 and 4 (dimension 2), 6 and 9 (dimension 3), 0..2, 5, 6, 7, 10 and 33 items, any values
SX_ENTRY(det, "") {
    int k = sizes[sx_choose("k", 0, 3)], m = k < 5 ? 2 : 3;
    static const uint32_t ns[] = {0, 1, 2, 5, 33, 6, 7, 10};
    uint32_t n = ns[sx_choose("n", 0, 7)];
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v, m);
    Serie d = algebra::det(s);
    items_shape(d, 1, n);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(d.asArray()[i], leibniz(full(item_of(v, k, i), m), m), "the determinant");
    same_values(s, v, "input unchanged");
}
// BOUND det_bad: every itemSize 1..10 with dimension 0..4 that is not a 2x2 or 3x3 matrix; invalid Series
SX_ENTRY(det_bad, "") {
    int k = (int)sx_choose("k", 1, 10);
    unsigned dim = (unsigned)sx_choose("dim", 0, 4);
    bool ok = (dim == 2 && (k == 3 || k == 4)) || (dim == 3 && (k == 6 || k == 9));
    Serie s(k, sx_vec("v", 2 * k), dim);
    int o = sx_outcome([&] { algebra::det(s); });
    sx_assert(ok ? o == 0 : o == 1, "a matrix is accepted, anything else is reported with invalid_argument");
    sx_assert(sx_outcome([] { algebra::det(Serie()); }) == 1, "an invalid Serie is reported");
}
static Array product(const Array &a, const Array &b, int m) {
    Array c(m * m, 0.0);
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) for (int l = 0; l < m; l++) c[i * m + j] += a[i * m + l] * b[l * m + j];
    return c;
}
// BOUND inv: one or two items of itemSize 6 or 9 with entries up to 100 whose determinant is at least 1e-3 in magnitude (real arithmetic)
SX_ENTRY(inv, "mode=real") {
    int k = sx_choose("sym", 0, 1) ? 6 : 9;
    uint32_t n = (uint32_t)sx_choose("n", 1, 2);
    Array v;
    for (uint32_t i = 0; i < n; i++) {
        Array a = sx_vec("a", k);
        for (double x : a) sx_assume(x >= -100 && x <= 100);
        double d = leibniz(full(a, 3), 3);
        sx_assume(d >= 1e-3 || d <= -1e-3);
        v = cat(v, a);
    }
    Serie s(k, v, 3), r;
    int o = sx_outcome([&] { r = algebra::inv(s); });
    sx_assert(o == 0, "a regular item is inverted");
    same_shape(r, k, n);
    for (uint32_t i = 0; i < n; i++) {
        Array c = product(full(item_of(v, k, i), 3), full(r.value(i), 3), 3);
        for (int j = 0; j < 9; j++) sx_assert_num(c[j], j % 4 == 0 ? 1.0 : 0.0, "the product with the item is the identity");
    }
    same_values(s, v, "input unchanged");
}
// BOUND inv_diagonal: 1..3, 6, 7, 10 and 33 items that are diagonal with arbitrary non-zero entries (any magnitude between 1e-3 and 1e3)
SX_ENTRY(inv_many, "mode=real") {
    static const uint32_t ns[] = {1, 2, 3, 33, 6, 7, 10};
    int k = sx_choose("sym", 0, 1) ? 6 : 9;
    uint32_t n = ns[sx_choose("n", 0, 6)];
    Array v;
    for (uint32_t i = 0; i < n; i++) {
        double a = sx_f64("a"), b = 1.0 + i, c = 2.5 - i;
        sx_assume(a >= 1e-3 && a <= 1e3);
        if (k == 6) v = cat(v, Array{a, 0, 0, b, 0, c}); else v = cat(v, Array{a, 0, 0, 0, b, 0, 0, 0, c});
    }
    Serie r = algebra::inv(Serie(k, v, 3));
    same_shape(r, k, n);
    for (uint32_t i = 0; i < n; i++) {
        Array x = full(r.value(i), 3);
        sx_assert_num(x[0] * full(item_of(v, k, i), 3)[0], 1, "the inverse of a diagonal matrix");
        sx_assert_num(x[4] * (1.0 + i), 1, "the inverse of a diagonal matrix");
        sx_assert_num(x[8] * (2.5 - i), 1, "the inverse of a diagonal matrix");
        for (int j : {1, 2, 3, 5, 6, 7}) sx_assert_num(x[j], 0, "the inverse of a diagonal matrix");
    }
}
// BOUND singular: the zero matrix, and items with a zero row and column or two equal rows (small integer entries), alone or after a regular item
SX_ENTRY(singular, "") {
    int k = sx_choose("sym", 0, 1) ? 6 : 9, which = (int)sx_choose("which", 0, 3);
    Array a = k == 6 ? (which == 0 ? Array{0, 0, 0, 0, 0, 0} : which == 1 ? Array{3, 2, 0, 5, 0, 0} : which == 2 ? Array{1, 2, 3, 4, 6, 9} : Array{2, 2, 1, 2, 1, 7})
                     : (which == 0 ? Array(9, 0.0) : which == 1 ? Array{1, 2, 0, 4, 5, 0, 7, 9, 0} : which == 2 ? Array{1, 2, 3, 1, 2, 3, 4, 4, 5} : Array{1, 2, 3, 4, 5, 6, 5, 7, 9});
    if (sx_choose("after", 0, 1)) a = cat(full({1, 0, 0, 1, 0, 1}, 3).size() == 9 && k == 9 ? Array{1, 0, 0, 0, 1, 0, 0, 0, 1} : Array{1, 0, 0, 1, 0, 1}, a);
    Serie s(k, a, 3);
    int o = sx_outcome([&] { algebra::inv(s); });
    sx_assert(o == 1 || o == 2, "a singular item is reported with an exception");
    same_values(s, a, "input unchanged");
}
// BOUND inv_bad: every itemSize 1..10 with dimension 1..4 but 6 and 9 with dimension 3; invalid Series
SX_ENTRY(inv_bad, "") {
    int k = (int)sx_choose("k", 1, 10);
    unsigned dim = (unsigned)sx_choose("dim", 1, 4);
    sx_assume(!(dim == 3 && (k == 6 || k == 9)) && !(dim == 2 && (k == 3 || k == 4)));
    Serie r;
    int o = sx_outcome([&] { r = algebra::inv(Serie(k, Array(2 * k, 1.5), dim)); });
    sx_assert(o == 1 || o == 2 || (o == 0 && !r.isValid()), "an unsupported itemSize is not computed");
    o = sx_outcome([&] { r = algebra::inv(Serie()); });
    sx_assert(o == 1 || o == 2 || (o == 0 && !r.isValid()), "an invalid Serie is not inverted");
}
// BOUND transpose: itemSize 4 and 9, 0..3, 6, 7, 10 and 33 items, any values; itemSizes 1..10 otherwise
SX_ENTRY(transpose, "") {
    int k = (int)sx_choose("k", 1, 10);
    static const uint32_t ns[] = {0, 1, 2, 3, 33, 6, 7, 10};
    uint32_t n = ns[sx_choose("n", 0, 7)];
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v, (unsigned)sx_choose("dim", 2, 3)), r;
    int o = sx_outcome([&] { r = algebra::transpose(s); });
    if (k != 4 && k != 9) { sx_assert(o == 1, "an unsupported itemSize is reported"); return; }
    sx_assert(o == 0, "accepted");
    int m = k == 4 ? 2 : 3;
    items_shape(r, k, n);
    for (uint32_t i = 0; i < n; i++)
        for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) sx_assert_same(r.asArray()[i * k + a * m + b], v[i * k + b * m + a], "rows and columns exchanged");
    if (n) same_values(algebra::transpose(r), v, "transposing twice gives the item back");
    same_values(s, v, "input unchanged");
}
// BOUND huge: 65541 matrices (beyond 16-bit indices): det of 3, 4, 6 and 9 components, transpose of 4 and 9, inv of 6 and 9
SX_ENTRY(huge, "shards=8 max-steps=4000000000") {
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 7);
    static const uint32_t ks[] = {3, 4, 6, 9, 4, 9, 6, 9};
    uint32_t k = ks[form];
    int m = k < 5 ? 2 : 3;
    Array v((size_t)k * n), w;
    for (size_t i = 0; i < v.size(); i++) v[i] = (double)((i * 7 + i / k) % 11) - 4.5;
    if (form > 5) for (uint32_t i = 0; i < n; i++) for (uint32_t j = 0; j < k; j++) if (k == 6 ? j == 0 || j == 3 || j == 5 : j % 4 == 0) v[(size_t)k * i + j] = 30.0 + (i + j) % 13;
    if (form < 6) for (uint32_t i : {0u, 255u, 256u, 65535u, 65536u, n - 1}) v[(size_t)k * i + 1] = sx_f64("v");
    Serie s((int)k, v, m);
    if (form < 4) {
        for (uint32_t i = 0; i < n; i++) w.push_back(leibniz(full(item_of(v, k, i), m), m));
        huge_near(algebra::det(s), 1, n, w, "the determinant");
    } else if (form < 6) {
        w.resize(v.size());
        for (uint32_t i = 0; i < n; i++) for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) w[(size_t)i * k + a * m + b] = v[(size_t)i * k + b * m + a];
        Serie r = algebra::transpose(s);
        same_shape(r, k, n);
        huge_same(r.asArray(), w, "rows and columns exchanged");
    } else {
        Serie r = algebra::inv(s);
        same_shape(r, k, n);
        uint32_t bad = 0;
        for (uint32_t i = 0; i < n; i++) {
            Array c = product(full(item_of(v, k, i), 3), full(item_of(r.asArray(), k, i), 3), 3);
            for (int j = 0; j < 9; j++) bad |= !(std::fabs(c[j] - (j % 4 == 0 ? 1.0 : 0.0)) < 1e-9);
        }
        sx_assert(bad == 0, "the product with the item is the identity");
    }
}
