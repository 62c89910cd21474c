#include "h.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/geo/insar.h>
using namespace df;
static void projected(uint32_t n, const Array &u, const Array &l) {
    Serie x(3, u), r = geo::insar(x, l);
    items_shape(r, 1, n);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(r.asArray()[i], u[3 * i] * l[0] + u[3 * i + 1] * l[1] + u[3 * i + 2] * l[2], "the scalar product with the line of sight");
    same_values(x, u, "input unchanged");
}
// BOUND project: 0..6 displacements and any line of sight, any doubles
SX_ENTRY(project, "") {
    uint32_t n = (uint32_t)sx_choose("count", 0, 6);
    projected(n, sx_vec("u", 3 * n), sx_vec("l", 3));
}
// BOUND project_big: 6, 7, 10, 14, 16, 17, 22, 30, 31, 64, 100, 257, 1025 displacements
SX_ENTRY(project_big, "shards=2") {
    uint32_t n = big_count();
    projected(n, sx_vec("u", 3 * n), sx_vec("l", 3));
}
// BOUND bad: displacements of itemSize 1,2,4,6,9 or invalid, lines of sight of 0..5 components: an invalid Serie; fringes of itemSize 2,3,4,6,9 or invalid likewise
SX_ENTRY(bad, "") {
    static const int ks[] = {0, 1, 2, 3, 4, 6, 9};
    int k = ks[sx_choose("itemSize", 0, 6)];
    uint32_t n = (uint32_t)sx_choose("count", 0, 3), m = (uint32_t)sx_choose("los", 0, 5);
    Array u = sx_vec("u", (size_t)k * n), l = sx_vec("l", m);
    Serie x = k ? Serie(k, u) : Serie(), r, f;
    sx_assert(sx_outcome([&] { r = geo::insar(x, l); }) == 0, "no exception");
    if (k != 3 || m != 3) sx_assert(!r.isValid(), "wrong sizes give an invalid Serie");
    sx_assert(sx_outcome([&] { f = geo::fringes(x, 0.5); }) == 0, "no exception");
    if (k != 1) sx_assert(!f.isValid(), "fringes of vectors are invalid");
    else items_shape(f, 1, n);
    if (k) same_values(x, u, "input unchanged");
}
// values at least 1e-4 of a spacing away from its multiples, where wrapping jumps (see `multiples` for those)
static double between(double x, double s) {
    double f = x / s - std::floor(x / s);
    sx_assume((int)(x >= -1e6) & (int)(x <= 1e6) & (int)(f >= 1e-4) & (int)(f <= 1 - 1e-4));
    return x;
}
static void wrapped(const Array &v, double s) {
    Serie x(1, v), r = geo::fringes(x, s);
    items_shape(r, 1, (uint32_t)v.size());
    for (size_t i = 0; i < v.size(); i++) {
        double w = r.asArray()[i];
        sx_assert_num(w, v[i] - s * std::floor(v[i] / s), "the value less the whole spacings below it");
        sx_assert((int)(w >= 0) & (int)(w <= s), "between 0 and the spacing");
    }
    same_values(x, v, "input unchanged");
}
static const double sp[] = {1, 2, 0.5, 0.028, 3, 1000, 0.015625};
// BOUND wrap: 0..3 values up to 1e6 and off the multiples of the spacing by 1e-4 of it (real arithmetic), seven fixed spacings
SX_ENTRY(wrap, "mode=real shards=2") {
    double s = sp[sx_choose("spacing#", 0, 6)];
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    Array v = sx_vec("v", n);
    for (double x : v) between(x, s);
    wrapped(v, s);
}
// BOUND wrap_any: 1..2 values up to 1e6 off the multiples and every spacing in [1e-3, 1e3] (real arithmetic)
SX_ENTRY(wrap_any, "mode=real") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 2);
    Array v = sx_vec("v", n);
    double s = sx_f64("s");
    sx_assume(s >= 1e-3 && s <= 1e3);
    for (double x : v) between(x, s);
    wrapped(v, s);
}
// BOUND multiples: every whole multiple, up to a million, of the spacings 0.5, 1, 2, 3, 1000 wraps to 0
SX_ENTRY(multiples, "mode=real") {
    static const double ex[] = {0.5, 1, 2, 3, 1000};
    double s = ex[sx_choose("spacing", 0, 4)], m = sx_f64("m");
    sx_assume(m >= -1e6 && m <= 1e6);
    Serie r = geo::fringes(Serie(1, Array{std::floor(m) * s, 0.0}), s);
    sx_assert(r.asArray()[0] == 0, "a whole number of fringes wraps to 0");
    sx_assert(r.asArray()[1] == 0, "no displacement wraps to 0");
}
// BOUND whole: a value off the multiples and the same plus any whole number of spacings (up to a million) wrap to the same, seven fixed spacings (real arithmetic)
SX_ENTRY(whole, "mode=real") {
    double s = sp[sx_choose("spacing", 0, 6)], x = between(sx_f64("x"), s), m = sx_f64("m");
    sx_assume(m >= -1e6 && m <= 1e6);
    double k = std::floor(m);
    Serie r = geo::fringes(Serie(1, Array{x, x + k * s}), s);
    sx_assert_num(r.asArray()[1], r.asArray()[0], "values a whole number of fringes apart agree");
}
// BOUND wrap_big: 17, 64, 257, 1025 fixed values and one arbitrary up to 1e6 off the multiples (real arithmetic)
SX_ENTRY(wrap_big, "mode=real shards=2") {
    static const uint32_t ns[] = {17, 64, 257, 1025};
    uint32_t n = ns[sx_choose("count#", 0, 3)];
    Array v;
    for (uint32_t i = 0; i < n; i++) v.push_back((i * 37 % 101) * 0.3 - 6.01);
    v[sx_choose("at", 0, 1) ? n - 1 : n / 2] = between(sx_f64("v"), 0.5);
    wrapped(v, 0.5);
}
// BOUND wrap_bits: every double up to 1e300, in binary64 arithmetic: never below 0 and never above the spacing (spacings 1, 2, 0.5: exact division)
SX_ENTRY(wrap_bits, "mode=exact") {
    double s = sx_choose("s", 0, 2) * 0.5 + 0.5, x = sx_f64("x");
    if (s == 1.5) s = 2;
    sx_assume(x >= -1e300 && x <= 1e300);
    Serie r = geo::fringes(Serie(1, Array{x}), s);
    double w = r.asArray()[0];
    sx_assert((int)(w >= 0) & (int)(w <= s), "in [0, spacing] for every double");
}
// BOUND wrap_far: every double up to 1e300, in binary64 arithmetic: the value less the whole spacings below it (spacings 1, 2, 0.5: exact division)
SX_ENTRY(wrap_far, "mode=exact") {
    double s = sx_choose("s", 0, 2) * 0.5 + 0.5, x = sx_f64("x");
    if (s == 1.5) s = 2;
    sx_assume(x >= -1e300 && x <= 1e300);
    double w = geo::fringes(Serie(1, Array{x}), s).asArray()[0], q = x / s, want = s * (q - std::floor(q));
    sx_assert((int)(w == want) | (int)(std::fabs(w - want) <= 1e-9), "the value less the whole spacings below it");
}
// BOUND huge: 65541 displacements and displacements along the line of sight (beyond 16-bit indices)
SX_ENTRY(huge, "shards=2 max-steps=4000000000") {
    uint32_t n = HUGE_N;
    if (sx_choose("form!", 0, 1)) {
        Array l{0.5, -0.25, 0.75}, u = huge_vec("u", 3, n), w;
        for (uint32_t i = 0; i < n; i++) w.push_back(u[3 * (size_t)i] * l[0] + u[3 * (size_t)i + 1] * l[1] + u[3 * (size_t)i + 2] * l[2]);
        huge_near(geo::insar(Serie(3, u), l), 1, n, w, "the scalar product with the line of sight");
    } else {
        Array x, w;
        for (uint32_t i = 0; i < n; i++) { x.push_back((double)i * 0.25 - 5000.0); w.push_back(0.25 * ((i + 11) % 11)); }
        // spacing 2.75: -5000 = -1819 * 2.75 + 2.25
        for (uint32_t i = 0; i < n; i++) w[i] = 0.25 * ((i + 9) % 11);
        huge_near(geo::fringes(Serie(1, x), 2.75), 1, n, w, "the value reduced modulo the spacing");
    }
}
