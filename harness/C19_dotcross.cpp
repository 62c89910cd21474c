#include "h.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/norm.h>
using namespace df;
static void is(const Serie &r, int k, uint32_t n, const Array &want, const char *label) {
    items_shape(r, k, n);
    for (size_t i = 0; i < want.size(); i++) sx_assert_num(r.asArray()[i], want[i], label);
}
static void dots(Shape sh) {
    Array a = sx_vec("a", (size_t)sh.k * sh.n), w(sh.n, 0.0);
    Serie s(sh.k, a, 2), r;
    int form = (int)sx_choose("form", 0, 3);
    Array b = form == 3 ? sx_vec("b", sh.k) : form == 2 ? a : sx_vec("b", a.size());
    for (size_t i = 0; i < a.size(); i++) w[i / sh.k] += a[i] * b[form == 3 ? i % sh.k : i];
    if (form == 3) r = algebra::dot(s, b);
    else if (form == 2) r = algebra::dot(s, s);
    else { Serie t(sh.k, b); r = form ? algebra::make_dot(s)(t) : algebra::dot(s, t); same_values(t, b, "input unchanged"); }
    is(r, 1, sh.n, w, "the sum of the products of corresponding components");
    same_values(s, a, "input unchanged");
}
// BOUND dot: with a Serie, with itself, with a fixed vector, make_dot; itemSize 1,2,3,4,6,9, count 0..4, any values
SX_ENTRY(dot, "") { dots(small_shape(0, 4)); }
// BOUND dot_big: the same in 28 shapes up to 1025 items and itemSize 260
SX_ENTRY(dot_big, "shards=2") { dots(big_shape()); }
static void norms(Shape sh) {
    Array a = sx_vec("a", (size_t)sh.k * sh.n), q(sh.n, 0.0), l;
    Serie s(sh.k, a, 2);
    for (size_t i = 0; i < a.size(); i++) q[i / sh.k] += a[i] * a[i];
    for (double x : q) l.push_back(std::sqrt(x));
    is(algebra::norm2(s), 1, sh.n, q, "the sum of the squares");
    is(algebra::norm(s), 1, sh.n, l, "the non-negative root of the sum of the squares");
    same_values(s, a, "input unchanged");
}
// BOUND norm: norm and norm2, itemSize 1,2,3,4,6,9, count 1..3, any values
SX_ENTRY(norm, "") { norms(small_shape(1, 3)); }
// BOUND norm_big: the same in 28 shapes up to 1025 items and itemSize 260
SX_ENTRY(norm_big, "shards=2") { norms(big_shape()); }
// BOUND norm_sign: norm of a scalar Serie is the magnitude (real arithmetic); norm of a 2 or 3 component item is not negative and its square is norm2
SX_ENTRY(norm_laws, "mode=real") {
    int k = (int)sx_choose("k", 1, 3);
    Array a = sx_vec("a", k);
    for (double x : a) sx_assume(x >= -100 && x <= 100);
    Serie s(k, a);
    double l = algebra::norm(s).scalar(0), q = algebra::norm2(s).scalar(0);
    sx_assert(l >= 0, "not negative");
    sx_assert_num(l * l, q, "the square of the norm is norm2");
    if (k == 1) sx_assert_num(l, std::abs(a[0]), "the magnitude");
    for (double x : a) sx_assert(l >= std::abs(x), "at least every component");
}
static void crosses(uint32_t n, int form) {
    Array a = sx_vec("a", 3 * n), b = form == 2 ? a : sx_vec("b", 3 * n), w;
    for (uint32_t i = 0; i < 3 * n; i += 3)
        for (int j = 0; j < 3; j++) { int p = (j + 1) % 3, q = (j + 2) % 3; w.push_back(a[i + p] * b[i + q] - a[i + q] * b[i + p]); }
    Serie s(3, a), t(3, b);
    Serie r = form == 2 ? algebra::cross(s, s) : form ? algebra::make_cross(s)(t) : algebra::cross(s, t);
    is(r, 3, n, w, "the right-handed cross product");
    same_values(s, a, "input unchanged");
    same_values(t, b, "input unchanged");
}
// BOUND cross: count 1..4 and 16..1025, with itself, make_cross, any values
SX_ENTRY(cross, "") { crosses((uint32_t)sx_choose("count", 1, 4), (int)sx_choose("form", 0, 2)); }
SX_ENTRY(cross_big, "") { crosses(big_count(), (int)sx_choose("form", 0, 2)); }
// BOUND laws: orthogonality, antisymmetry and the Lagrange identity of cross and dot for one item (real arithmetic, components up to 100)
SX_ENTRY(laws, "mode=real") {
    Array a = sx_vec("a", 3), b = sx_vec("b", 3);
    for (double x : a) sx_assume(x >= -100 && x <= 100);
    for (double x : b) sx_assume(x >= -100 && x <= 100);
    Serie A(3, a), B(3, b), C = algebra::cross(A, B), D = algebra::cross(B, A);
    auto at = [](const Serie &s) { return s.scalar(0); };
    sx_assert_num(at(algebra::dot(A, C)), 0, "orthogonal to the first");
    sx_assert_num(at(algebra::dot(C, B)), 0, "orthogonal to the second");
    for (int i = 0; i < 3; i++) sx_assert_num(C.asArray()[i], -D.asArray()[i], "antisymmetric");
    double ab = at(algebra::dot(A, B));
    sx_assert_num(at(algebra::norm2(C)), at(algebra::norm2(A)) * at(algebra::norm2(B)) - ab * ab, "Lagrange identity");
    Array x = algebra::cross(Serie(3, Array{1, 0, 0}), Serie(3, Array{0, 1, 0})).value(0);
    sx_assert(x[0] == 0 && x[1] == 0 && x[2] == 1, "right-handed");
}
// BOUND mismatch: itemSize 1..4 and count 0..3 for both Series, all combinations; invalid Series; dot with a vector of 0..4 numbers
SX_ENTRY(mismatch, "") {
    int k = (int)sx_choose("k", 1, 4), m = (int)sx_choose("m", 1, 4);
    uint32_t n = (uint32_t)sx_choose("n", 0, 3), p = (uint32_t)sx_choose("p", 0, 3);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)m * p);
    Serie s(k, v), t(m, w);
    switch (sx_choose("op", 0, 2)) {
    case 0: sx_assert(sx_outcome([&] { algebra::dot(s, t); }) == (k == m && n == p ? 0 : 1), "incompatible Series are rejected"); break;
    case 1: {
        int o = sx_outcome([&] { algebra::cross(s, t); });
        if (n && p) sx_assert(o == (k == 3 && m == 3 && n == p ? 0 : 1), "incompatible Series are rejected");
        else if (n != p || k != 3 || m != 3) sx_assert(o == 1, "incompatible Series are rejected");
        sx_assert(sx_outcome([&] { algebra::cross(Serie(), t); }) == 1 && sx_outcome([&] { algebra::cross(s, Serie()); }) == 1, "invalid Series are rejected");
        break;
    }
    default: {
        Array b = sx_vec("b", m);
        Serie r;
        int o = sx_outcome([&] { r = algebra::dot(s, b); });
        if (k != m) sx_assert(o == 1 || (o == 0 && !r.isValid()), "a vector of another size is refused");
        else sx_assert(o == 0, "accepted");
    }
    }
    same_values(s, v, "input unchanged");
    same_values(t, w, "input unchanged");
}
// BOUND huge: 65541 items of 3 components (beyond 16-bit indices): dot with a Serie and a vector, cross, norm2, norm; items of 300 components
SX_ENTRY(huge, "shards=6 max-steps=4000000000") {
    uint32_t form = (uint32_t)sx_choose("form!", 0, 5), k = form == 5 ? 300 : 3, n = form == 5 ? 2 : HUGE_N, m = form == 2 ? 3 : 1;
    Array a = huge_vec("a", k, n), b((size_t)k * n), w((size_t)m * n, 0.0);
    for (size_t i = 0; i < b.size(); i++) b[i] = 1.0 + i % 5;
    Serie s((int)k, a), t((int)k, b), r;
    if (form == 2) for (size_t i = 0; i < a.size(); i += 3) for (int j = 0; j < 3; j++) { int p = (j + 1) % 3, q = (j + 2) % 3; w[i + j] = a[i + p] * b[i + q] - a[i + q] * b[i + p]; }
    else for (size_t i = 0; i < a.size(); i++) w[i / k] += a[i] * (form == 1 ? b[i % 3] : form == 3 || form == 4 ? a[i] : b[i]);
    if (form == 4) for (double &x : w) x = std::sqrt(x);
    r = form == 1 ? algebra::dot(s, Array{b[0], b[1], b[2]}) : form == 2 ? algebra::cross(s, t) : form == 3 ? algebra::norm2(s) : form == 4 ? algebra::norm(s) : algebra::dot(s, t);
    huge_near(r, m, n, w, "item by item");
    if (form == 5) {
        Array q(n, 0.0);
        for (size_t i = 0; i < a.size(); i++) q[i / k] += a[i] * a[i];
        huge_near(algebra::norm2(s), 1, n, q, "item by item");
    }
}
// BOUND specials: one component 0, -0, 1, -2.5, an infinity or NaN in either operand (the arithmetic of the processor): dot with a Serie and a vector, cross, norm, norm2
SX_ENTRY(specials, "shards=5") {
    int op = (int)sx_choose("op!", 0, 4), at = (int)sx_choose("at", 0, 2), bt = (int)sx_choose("bt", 0, 2);
    Array a{1, 2, -3}, b{-1, 0.5, 4};
    a[at] = special("a");
    if (op < 3) b[bt] = special("b");
    Serie s(3, a), t(3, b);
    Array w;
    Serie r;
    double d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2], q = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
    switch (op) {
    case 0: r = algebra::dot(s, t); w = {d}; break;
    case 1: r = algebra::dot(s, b); w = {d}; break;
    case 2: r = algebra::cross(s, t); w = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; break;
    case 3: r = algebra::norm2(s); w = {q}; break;
    default: r = algebra::norm(s); w = {std::sqrt(q)};
    }
    for (size_t i = 0; i < w.size(); i++) sx_assert_num(r.asArray()[i], w[i], "infinities and NaN take part as in plain arithmetic");
}
