#include "h.h"
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/div.h>
using namespace df;
static void is(const Serie &r, int k, uint32_t n, const Array &want, const char *label) {
    items_shape(r, k, n);
    for (size_t i = 0; i < want.size(); i++) sx_assert_num(r.asArray()[i], want[i], label);
}
static void number(Shape sh) {
    Array v = sx_vec("v", (size_t)sh.k * sh.n), w = v;
    Serie s(sh.k, v, sx_u32("dim"));
    double c = sx_f64("c");
    Serie r;
    switch (sx_choose("op", 0, 2)) {
    case 0: for (double &x : w) x *= c; r = math::mult(s, c); break;
    case 1: sx_assume(!(std::abs(c) < 1e-10)); for (double &x : w) x /= c; r = math::div(c, s); break;
    default: sx_assume(!(std::abs(c) < 1e-10)); for (double &x : w) x /= c; r = math::make_div(c)(s);
    }
    is(r, sh.k, sh.n, w, "every component is multiplied or divided by the number");
    same_values(s, v, "input unchanged");
}
// BOUND by_number: mult, div and make_div with any number (for div not smaller in magnitude than 1e-10): itemSize 1,2,3,4,6,9, count 0..4, any values
SX_ENTRY(by_number, "") { number(small_shape(0, 4)); }
// BOUND by_number_big: the same in 28 shapes up to 1025 items and itemSize 260
SX_ENTRY(by_number_big, "shards=2") { number(big_shape()); }
static void product(Shape sh) {
    Array v = sx_vec("v", (size_t)sh.k * sh.n), w = v;
    bool per = sh.k > 1 && sx_choose("per_item", 0, 1), self = !per && sx_choose("self", 0, 1);
    int mk = per ? 1 : sh.k;
    Array m = self ? v : sx_vec("m", (size_t)mk * sh.n);
    Serie s(sh.k, v), t(mk, m, 2);
    for (size_t i = 0; i < w.size(); i++) w[i] *= per ? m[i / sh.k] : m[i];
    Serie r = self ? math::mult(s, s) : sx_choose("make", 0, 1) ? math::make_mult(s)(t) : math::mult(s, t);
    is(r, sh.k, sh.n, w, "the product with the corresponding component or factor");
    same_values(s, v, "input unchanged");
    same_values(t, m, "multiplier unchanged");
}
// BOUND products: mult and make_mult by a Serie of the same itemSize or of per-item factors, also by itself: itemSize 1,2,3,4,6,9, count 0..4
SX_ENTRY(products, "") { product(small_shape(0, 4)); }
// BOUND products_big: the same in 28 shapes up to 1025 items and itemSize 260
SX_ENTRY(products_big, "shards=2") { product(big_shape()); }
static void quotient(Shape sh, uint32_t freeItems) {
    Array v = sx_vec("v", (size_t)sh.k * sh.n), d, w = v;
    for (uint32_t i = 0; i < sh.n; i++) d.push_back(i < freeItems || i + 1 == sh.n ? sx_f64("d") : i % 3 == 0 ? 1e-11 * i : i % 3 == 1 ? -1e-12 : 0.5 + i);
    Serie s(sh.k, v), t(1, d, 2);
    for (size_t i = 0; i < w.size(); i++) w[i] = std::abs(d[i / sh.k]) < 1e-10 ? 0.0 : w[i] / d[i / sh.k];
    Serie r = sx_choose("make", 0, 1) ? math::make_div(t)(s) : math::div(t, s);
    is(r, sh.k, sh.n, w, "the quotient by the divider's value for the item, 0 for a negligible divider");
    same_values(s, v, "input unchanged");
    same_values(t, d, "divider unchanged");
}
// BOUND quotients: div and make_div by a divider Serie with arbitrary values: itemSize 1,2,3,4,6,9, count 0..3
SX_ENTRY(quotients, "") { quotient(small_shape(0, 3), 3); }
// BOUND quotients_big: the same in 28 shapes up to 1025 items; dividers arbitrary for the first two items and the last, fixed (both negligible and not) elsewhere
SX_ENTRY(quotients_big, "shards=4") { quotient(big_shape(), 2); }
// BOUND scalar_div: dividing a scalar Serie by itself gives 1 where it is not negligible
SX_ENTRY(self_div, "") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 3);
    Array v = sx_vec("v", n);
    for (double x : v) sx_assume(std::isfinite(x));
    Serie s(1, v), r = math::div(s, s);
    same_shape(r, 1, n);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(r.asArray()[i], std::abs(v[i]) < 1e-10 ? 0.0 : 1.0, "x/x is 1");
}
// BOUND mismatch: itemSize 1..3 and count 0..3 for both Series, all combinations, and invalid Series
SX_ENTRY(mismatch, "") {
    int k = (int)sx_choose("k", 1, 3), m = (int)sx_choose("m", 1, 3);
    uint32_t n = (uint32_t)sx_choose("n", 0, 3), p = (uint32_t)sx_choose("p", 0, 3);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", (size_t)m * p);
    for (double x : w) sx_assume(!(std::abs(x) < 1e-10));
    Serie s(k, v), t(m, w);
    if (sx_choose("mult", 0, 1)) {
        int o = sx_outcome([&] { math::mult(s, t); });
        bool ok = n == p && (m == k || m == 1);
        if (n || !ok) if (n || n != p || k == 1) sx_assert(o == (ok ? 0 : 1), "incompatible counts or itemSizes are rejected");
    } else {
        int o = sx_outcome([&] { math::div(t, s); });
        sx_assert(o == (n == p && m == 1 ? 0 : 1), "incompatible counts or itemSizes are rejected");
        sx_assert(sx_outcome([&] { math::div(Serie(), s); }) == 1, "an invalid divider is rejected");
        sx_assert(sx_outcome([&] { math::div(t, Serie()); }) == 1, "an invalid Serie is rejected");
    }
    same_values(s, v, "input unchanged");
    same_values(t, w, "input unchanged");
}
// BOUND huge: 65541 items of 1 and 3 components (beyond 16-bit indices): products by a number, a Serie and per-item factors, quotients by a number and a Serie
SX_ENTRY(huge, "shards=7 max-steps=4000000000") {
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 6), k = form % 2 || form == 6 ? 3 : 1, mk = form == 1 || form == 5 ? 1 : k;
    Array a = huge_vec("a", k, n), m((size_t)mk * n), w = a;
    for (size_t i = 0; i < m.size(); i++) m[i] = 1.0 + i % 7;
    Serie s((int)k, a), t((int)mk, m), r;
    if (form == 4) { Array d(m); for (size_t i = 0; i < w.size(); i++) w[i] /= d[i]; r = math::div(t, s); }
    else if (form == 5) { for (size_t i = 0; i < w.size(); i++) w[i] /= m[i / 3]; r = math::div(t, s); }
    else if (form == 6) { for (size_t i = 0; i < w.size(); i++) w[i] *= m[i]; r = math::mult(s, t); }
    else if (form == 1) { for (size_t i = 0; i < w.size(); i++) w[i] *= m[i / 3]; r = math::mult(s, t); }
    else if (form == 0) { for (size_t i = 0; i < w.size(); i++) w[i] *= m[i]; r = math::mult(s, t); }
    else if (form == 2) { for (double &x : w) x *= 0.75; r = math::mult(s, 0.75); }
    else { for (double &x : w) x /= 0.75; r = math::div(0.75, s); }
    huge_near(r, k, n, w, "component by component");
}
// BOUND specials: values, factors and dividers each any of 0, -0, 1, -2.5, infinities and NaN (the arithmetic of the processor): mult and div, all forms
SX_ENTRY(specials, "shards=6") {
    int op = (int)sx_choose("op!", 0, 5);
    Array a{special("a"), 3.0, special("a"), -1.0};
    double c = special("c"), q[2] = {c, 0.5};
    Serie s(2, a), r;
    Array w = a;
    bool tiny = std::abs(c) < 1e-10;
    switch (op) {
    case 0: r = math::mult(s, c); for (double &x : w) x *= c; break;
    case 1: sx_assume(!tiny); r = math::div(c, s); for (double &x : w) x /= c; break;
    case 2: r = math::mult(s, Serie(1, {q[0], q[1]})); for (int i = 0; i < 4; i++) w[i] *= q[i / 2]; break;
    case 3: r = math::mult(s, Serie(2, {c, 2.0, c, 0.5})); w = {a[0] * c, 6.0, a[2] * c, -0.5}; break;
    case 4: r = math::div(Serie(1, {c, 0.5}), s); for (int i = 0; i < 4; i++) w[i] = i < 2 && tiny ? 0.0 : w[i] / q[i / 2]; break;
    default:
        s = Serie(1, {a[0], a[2], 3.0, -1.0});
        if (sx_choose("div", 0, 1)) { r = math::div(Serie(1, {c, 0.5, 2.0, 4.0}), s); w = {tiny ? 0.0 : a[0] / c, a[2] * 2.0, 1.5, -0.25}; }
        else { r = math::mult(s, Serie(1, {c, c, 2.0, 4.0})); w = {a[0] * c, a[2] * c, 6.0, -4.0}; }
    }
    for (int i = 0; i < 4; i++) sx_assert_num(r.asArray()[i], w[i], "infinities and NaN take part as in plain arithmetic");
}
