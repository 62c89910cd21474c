#include "h.h"
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>
using namespace df;
static Array packed(const Array &a, int m) { Array p; for (int i = 0; i < m; i++) for (int j = i; j < m; j++) p.push_back(a[i * m + j]); return p; }
static Array unpack(const Array &p, int m) {
    Array a(m * m);
    int k = 0;
    for (int i = 0; i < m; i++) for (int j = i; j < m; j++) a[i * m + j] = a[j * m + i] = p[k++];
    return a;
}
static void entries(const Matrix &x, const Array &a, int m) {
    sx_assert(x.length() == (uint32_t)(m * m), "number of entries");
    double t = 0;
    for (int i = 0; i < m; i++) t += a[i * m + i];
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) sx_assert_same(x.at(i, j), a[i * m + j], "entry (i,j)");
    sx_assert_num(x.trace(), t, "the trace is the sum of the diagonal");
}
static bool symmetric(const Array &a, int m) { for (int i = 0; i < m; i++) for (int j = i; j < m; j++) if (!(a[i * m + j] == a[j * m + i])) return false; return true; }
static void packing(const Matrix &x, const Array &a, int m) {
    bool sym = symmetric(a, m);
    sx_assert(x.isSymmetric() == sym, "symmetric exactly when entry (i,j) equals entry (j,i)");
    Array want = sym ? packed(a, m) : a, got = x.array().array();
    sx_assert(got.size() == want.size(), "size of the packed storage");
    for (size_t i = 0; i < want.size(); i++) sx_assert_num(got[i], want[i], "packed storage");
}
static void products(const Matrix &x, const Array &a, int m) {
    Array v = sx_vec("v", m), b = sx_vec("b", m * m);
    Vector r = x.multVec(Vector(v));
    sx_assert(r.length() == (uint32_t)m, "length of the product");
    for (int i = 0; i < m; i++) { double w = 0; for (int j = 0; j < m; j++) w += a[i * m + j] * v[j]; sx_assert_num(r.at(i), w, "product with a vector"); }
    Matrix p = x.multMat(Matrix(b, m));
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double w = 0; for (int k = 0; k < m; k++) w += a[i * m + k] * b[k * m + j]; sx_assert_num(p.at(i, j), w, "product with a matrix"); }
    sx_assert(p.length() == (uint32_t)(m * m), "size of the product");
}
// BOUND square: squaredMatrix and Matrix(v, m) for m = 1..4, any entries; the source array is modified or destroyed afterwards
SX_ENTRY(square, "") {
    int m = (int)sx_choose("m", 1, 4);
    Array a = sx_vec("a", m * m);
    Array *src = new Array(a);
    Matrix x = sx_choose("ctor", 0, 1) ? Matrix(*src, m) : squaredMatrix(*src);
    if (sx_choose("destroy", 0, 1)) delete src; else { for (double &y : *src) y = -1; }
    entries(x, a, m);
    Matrix t = x.transpose();
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) sx_assert_same(t.at(i, j), a[j * m + i], "the transpose exchanges rows and columns");
    products(x, a, m);
    entries(x, a, m);
}
// BOUND packed: isSymmetric and array for m = 1..3 with any entries, m = 4 and 5 with entries equal by pairs but for one arbitrary entry
SX_ENTRY(packed, "shards=2") {
    int m = (int)sx_choose("m#", 1, 5);
    Array a;
    if (m <= 3) a = sx_vec("a", m * m);
    else {
        a = unpack(sx_vec("a", m * (m + 1) / 2), m);
        int at = (int)sx_choose("at", 0, m * m);
        if (at < m * m) a[at] = sx_f64("x");
    }
    packing(squaredMatrix(a), a, m);
}
// BOUND symmetric: symSquaredMatrix of 1, 3, 6, 10, 15 packed values (any), then trace, transpose, products, packing back
SX_ENTRY(symmetric, "") {
    int m = (int)sx_choose("m", 1, 5);
    Array p = sx_vec("p", m * (m + 1) / 2);
    Array src = p;
    Matrix x = symSquaredMatrix(src);
    src.assign(src.size(), 7.0);
    Array a = unpack(p, m);
    entries(x, a, m);
    entries(x.transpose(), a, m);
    products(x, a, m);
    for (double y : p) sx_assume(!std::isnan(y));
    sx_assert(x.isSymmetric(), "symmetric");
    Array got = x.array().array();
    sx_assert(got.size() == p.size(), "size of the packed storage");
    for (size_t i = 0; i < p.size(); i++) sx_assert_same(got[i], p[i], "packed storage gives the values back");
}
// BOUND mismatch: matrices of size 1..4 with vectors of 0..5 values and matrices of size 1..4
SX_ENTRY(mismatch, "") {
    int m = (int)sx_choose("m", 1, 4), n = (int)sx_choose("n", 0, 5);
    Matrix x(sx_vec("a", m * m), m);
    sx_assert(sx_outcome([&] { x.multVec(Vector(sx_vec("v", n))); }) == (m == n ? 0 : 1), "a vector of another size is rejected");
    if (n >= 1 && n <= 4) sx_assert(sx_outcome([&] { x.multMat(Matrix(sx_vec("b", n * n), n)); }) == (m == n ? 0 : 1), "a matrix of another size is rejected");
}
static void is(const Vector &v, const Array &w, const char *label) {
    sx_assert(v.length() == w.size() && v.array().size() == w.size(), "length");
    for (size_t i = 0; i < w.size(); i++) { sx_assert_num(v.at(i), w[i], label); sx_assert_same(v[i], v.at(i), "[] and at agree"); }
}
// BOUND vectors: 0..4 and 17 components, any values: construction, norm, dot, add, sub, mult by a number and by a vector, also with itself
SX_ENTRY(vectors, "") {
    static const uint32_t ns[] = {0, 1, 2, 3, 4, 17};
    uint32_t n = ns[sx_choose("n", 0, 5)];
    Array a = sx_vec("a", n), src = a, b = sx_vec("b", n), w = a;
    Vector v(src), u(b);
    src.assign(n, -3.0);
    bool self = sx_choose("self", 0, 1);
    const Array &o = self ? a : b;
    const Vector &ou = self ? v : u;
    double c = sx_f64("c"), q = 0;
    switch (sx_choose("op", 0, 6)) {
    case 0: for (size_t i = 0; i < n; i++) w[i] += o[i]; sx_assert(&v.add(ou) == &v, "returns itself"); is(v, w, "the sum"); break;
    case 1: for (size_t i = 0; i < n; i++) w[i] -= o[i]; sx_assert(&v.sub(ou) == &v, "returns itself"); is(v, w, "the difference"); break;
    case 2: for (size_t i = 0; i < n; i++) w[i] *= o[i]; sx_assert(&v.mult(ou) == &v, "returns itself"); is(v, w, "the product"); break;
    case 3: for (double &x : w) x *= c; sx_assert(&v.mult(c) == &v, "returns itself"); is(v, w, "the multiple"); break;
    case 4: for (size_t i = 0; i < n; i++) q += a[i] * o[i]; sx_assert_num(v.dot(ou), q, "the scalar product"); is(v, a, "unchanged"); break;
    case 5: for (double x : a) q += x * x; sx_assert_num(v.norm(), std::sqrt(q), "the norm"); is(v, a, "unchanged"); break;
    default: is(v, a, "the values it was given");
    }
    if (!self) is(u, b, "the operand is unchanged");
}
// BOUND normalize: 1..4 components, not all zero (at least 1e-3 long, up to 1e3): parallel to the vector and of length 1
SX_ENTRY(normalize, "mode=real") {
    uint32_t n = (uint32_t)sx_choose("n", 1, 4);
    Array a = sx_vec("a", n);
    double q = 0;
    for (double x : a) { sx_assume(x >= -1e3 && x <= 1e3); q += x * x; }
    sx_assume(q >= 1e-6);
    Vector v(a);
    sx_assert(&v.normalize() == &v, "returns itself");
    sx_assert(v.length() == n, "length");
    double l = std::sqrt(q);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(v.at(i) * l, a[i], "the components divided by the length");
}
// BOUND vector_mismatch: vectors of 0..4 components against 0..4
SX_ENTRY(vector_mismatch, "") {
    uint32_t n = (uint32_t)sx_choose("n", 0, 4), m = (uint32_t)sx_choose("m", 0, 4);
    Array a = sx_vec("a", n), b = sx_vec("b", m);
    Vector v(a), u(b);
    int o;
    switch (sx_choose("op", 0, 3)) {
    case 0: o = sx_outcome([&] { v.add(u); }); break;
    case 1: o = sx_outcome([&] { v.sub(u); }); break;
    case 2: o = sx_outcome([&] { v.mult(u); }); break;
    default: o = sx_outcome([&] { v.dot(u); });
    }
    sx_assert(o == (n == m ? 0 : 1), "a vector of another size is rejected");
    if (n != m) is(v, a, "unchanged");
    is(u, b, "unchanged");
}
// BOUND specials: one entry of each operand 0, -0, 1, -2.5, an infinity or NaN (the arithmetic of the processor): trace, transpose, products, symmetry, norm, dot, sum, difference, products of vectors
SX_ENTRY(specials, "shards=7") {
    int op = (int)sx_choose("op!", 0, 6), at = (int)sx_choose("at", 0, 3), bt = op == 4 ? 0 : (int)sx_choose("bt", 0, 3);
    Array a{1, 2, -3, 4}, b{-1, 0.5, 4, 3}, w;
    a[at] = special("a");
    if (op != 4) b[bt] = special("b");
    Matrix x(a, 2), y(b, 2);
    Vector v(a), u(b);
    const char *label = "infinities and NaN take part as in plain arithmetic";
    auto vec = [&](const Vector &r) { sx_assert(r.length() == w.size(), "length"); for (size_t i = 0; i < w.size(); i++) sx_assert_num(r.at(i), w[i], label); };
    switch (op) {
    case 0: {
        Matrix p = x.multMat(y);
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double s = 0; for (int k = 0; k < 2; k++) s += a[i * 2 + k] * b[k * 2 + j]; sx_assert_num(p.at(i, j), s, label); }
        break;
    }
    case 1: {
        Vector r = x.multVec(Vector(Array{b[0], b[1]}));
        for (int i = 0; i < 2; i++) { double s = 0; for (int k = 0; k < 2; k++) s += a[i * 2 + k] * b[k]; sx_assert_num(r.at(i), s, label); }
        break;
    }
    case 2: { double s = 0; for (int i = 0; i < 4; i++) s += a[i] * b[i]; sx_assert_num(v.dot(u), s, label); break; }
    case 3: w = a; for (int i = 0; i < 4; i++) w[i] += b[i]; v.add(u); vec(v); w = a; for (int i = 0; i < 4; i++) w[i] -= b[i]; { Vector z(a); z.sub(u); vec(z); } break;
    case 4: {
        double s = 0;
        for (double q : a) s += q * q;
        sx_assert_num(v.norm(), std::sqrt(s), label);
        sx_assert_num(x.trace(), a[0] + a[3], label);
        Matrix t = x.transpose();
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sx_assert_same(t.at(i, j), a[j * 2 + i], "the transpose moves any entry");
        sx_assert(x.isSymmetric() == ((a[1] == a[2]) & (a[0] == a[0]) & (a[3] == a[3])), "a matrix with a NaN is not symmetric, infinite ones may be");
        Matrix sy = symSquaredMatrix({a[0], a[1], a[3]});
        sx_assert_same(sy.at(0, 0), a[0], "entry"); sx_assert_same(sy.at(0, 1), a[1], "entry"); sx_assert_same(sy.at(1, 0), a[1], "entry"); sx_assert_same(sy.at(1, 1), a[3], "entry");
        break;
    }
    case 5: w = a; for (int i = 0; i < 4; i++) w[i] *= b[i]; v.mult(u); vec(v); break;
    default: w = a; for (int i = 0; i < 4; i++) w[i] *= b[bt]; v.mult(b[bt]); vec(v);
    }
}
