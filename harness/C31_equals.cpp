#include "h.h"
#include <dataframe/functional/math/equals.h>
#include <limits>
using namespace df;
static bool same_all(const Array &a, const Array &b) {
    bool r = a.size() == b.size();
    for (size_t i = 0; r && i < a.size(); i++) r = a[i] == b[i];
    return r;
}
static bool near_all(const Array &a, const Array &b, double e) {
    bool r = a.size() == b.size();
    for (size_t i = 0; r && i < a.size(); i++) r = std::fabs(a[i] - b[i]) <= e;
    return r;
}
// BOUND values: two Series of itemSize 1,2,3,4,6,9 and count 0..3, up to 9 values each, any values (NaN, infinities, signed zeros), any epsilon
SX_ENTRY(values, "shards=2") {
    Shape s = small_shape(0, 3);
    if (s.k * s.n > 9) return;
    Array a = sx_vec("a", (size_t)s.k * s.n), b = sx_vec("b", (size_t)s.k * s.n);
    double e = sx_f64("e");
    Serie x(s.k, a), y(s.k, b);
    bool q = math::equals(x, y), z = math::approximatelyEquals(x, y, e);
    sx_assert(q == same_all(a, b), "equal exactly when every value is");
    sx_assert(z == near_all(a, b, e), "approximately equal exactly when every difference is at most epsilon");
    sx_assert(math::equals(y, x) == q, "symmetric");
    sx_assert(math::equalsAll(x, y) == q, "equalsAll of two");
    sx_assert(math::approximatelyEquals(x, y) == near_all(a, b, std::numeric_limits<double>::epsilon() * 100), "the default epsilon is 100 machine epsilons");
    same_values(x, a, "input unchanged");
    same_values(y, b, "input unchanged");
}
// BOUND self: any Serie of up to 9 values equals itself and its copies exactly when it holds no NaN
SX_ENTRY(self, "") {
    Shape s = small_shape(0, 3);
    if (s.k * s.n > 9) return;
    Array a = sx_vec("a", (size_t)s.k * s.n);
    Serie x(s.k, a, 2), y = x, z = x.clone();
    bool ok = true;
    for (double v : a) ok = ok && v == v;
    sx_assert(math::equals(x, x) == ok && math::equals(x, y) == ok && math::equals(y, z) == ok, "a Serie without NaN equals itself and its copies");
}
static Serie odd(int i) { return i == 0 ? Serie() : i == 1 ? Serie(1, 0u) : i == 2 ? Serie(1, Array{1, 2, 3, 4, 5, 6}) : i == 3 ? Serie(2, Array{1, 2, 3, 4, 5, 6}) : i == 4 ? Serie(3, Array{1, 2, 3, 4, 5, 6}) : i == 5 ? Serie(6, Array{1, 2, 3, 4, 5, 6}) : i == 6 ? Serie(3, Array{1, 2, 3, 4, 5, 6}, 2) : i == 7 ? Serie(3, Array{1, 2, 3}) : Serie(1, Array{1, 2, 3, 4, 5}); }
// BOUND shapes: every pair of nine Series with the same leading values but differing validity, itemSize, count or dimension, any epsilon: equal only to themselves; masks reject different shapes
SX_ENTRY(shapes, "") {
    int i = (int)sx_choose("i", 0, 8), j = (int)sx_choose("j", 0, 8);
    Serie x = odd(i), y = odd(j);
    double e = sx_f64("e");
    sx_assume(e >= 0);
    bool want = i == j && i != 0;
    sx_assert(math::equals(x, y) == want, "equal only when valid and of the same itemSize, count and dimension");
    sx_assert(math::approximatelyEquals(x, y, e) == want, "approximately equal likewise");
    sx_assert(math::equalsAll(x, y) == want && math::equalsAll(x, y, x) == want, "equalsAll likewise");
    bool shape = i && j && x.itemSize() == y.itemSize() && x.count() == y.count();
    Serie m;
    sx_assert(sx_outcome([&] { m = math::equalityMask(x, y); }) == (shape ? 0 : 1), "equalityMask rejects different shapes");
    sx_assert(sx_outcome([&] { m = math::approximateEqualityMask(x, y, e); }) == (shape ? 0 : 1), "approximateEqualityMask rejects different shapes");
}
// BOUND all: 1..4 Series of 2 items (itemSize 1, 3), any values: equalsAll holds exactly when all neighbours are equal; approximatelyEqualsAll of one and two
SX_ENTRY(all, "shards=2") {
    int k = sx_choose("k#", 0, 1) ? 3 : 1, n = (int)sx_choose("series", 1, 4);
    uint32_t items = k == 1 ? 2 : 1;
    std::vector<Array> a;
    std::vector<Serie> s;
    for (int i = 0; i < n; i++) { a.push_back(sx_vec("a", (size_t)k * items)); s.push_back(Serie(k, a[i])); }
    double e = sx_f64("e");
    bool w = true, z = true;
    for (int i = 1; i < n; i++) w = w && same_all(a[i - 1], a[i]);
    bool got = n == 1 ? math::equalsAll(s[0]) : n == 2 ? math::equalsAll(s[0], s[1]) : n == 3 ? math::equalsAll(s[0], s[1], s[2]) : math::equalsAll(s[0], s[1], s[2], s[3]);
    sx_assert(got == w, "all neighbours are equal");
    if (n == 1) sx_assert(math::approximatelyEqualsAll(s[0], e), "one Serie is approximately equal to itself");
    if (n == 2) { z = near_all(a[0], a[1], e); sx_assert(math::approximatelyEqualsAll(s[0], s[1], e) == z, "both are approximately equal"); }
}
static void masks(const Serie &x, const Serie &y, int k, uint32_t n, const Array &a, const Array &b, double e) {
    Serie m = math::equalityMask(x, y), z = math::approximateEqualityMask(x, y, e);
    same_shape(m, 1, n);
    same_shape(z, 1, n);
    for (uint32_t i = 0; i < n; i++) {
        bool q = true, p = true;
        for (int j = 0; j < k; j++) { q = q && a[i * k + j] == b[i * k + j]; p = p && std::fabs(a[i * k + j] - b[i * k + j]) <= e; }
        sx_assert(m.scalar(i) == (q ? 1.0 : 0.0), "1 exactly for the items that are equal");
        sx_assert(z.scalar(i) == (p ? 1.0 : 0.0), "1 exactly for the items equal within epsilon in every component");
    }
}
// BOUND mask: itemSize 1,2,3,4,6,9, count 0..2 (scalars: 0..4), any values, any epsilon
SX_ENTRY(mask, "shards=2") {
    Shape s = small_shape(0, 4);
    if (s.n > (s.k == 1 ? 4u : s.k == 2 ? 2u : 1u)) return;
    Array a = sx_vec("a", (size_t)s.k * s.n), b = sx_vec("b", (size_t)s.k * s.n);
    Serie x(s.k, a), y(s.k, b);
    masks(x, y, s.k, s.n, a, b, sx_f64("e"));
    same_values(x, a, "input unchanged");
    same_values(y, b, "input unchanged");
}
// BOUND big: 28 shapes up to 1025 items and itemSize 260, equal but for one value, anywhere of four positions, which is any double; any epsilon
SX_ENTRY(big, "shards=4") {
    Shape s = big_shape();
    Array a, b;
    for (uint32_t i = 0; i < s.k * s.n; i++) a.push_back(i * 0.5);
    b = a;
    uint32_t n = (uint32_t)a.size(), at = 0;
    switch (sx_choose("at", 0, 3)) { case 0: at = 0; break; case 1: at = n - 1; break; case 2: at = n / 2; break; default: at = n - s.k; }
    b[at] = sx_f64("b");
    double e = sx_f64("e");
    sx_assume(e >= 0);
    Serie x(s.k, a), y(s.k, b);
    sx_assert(math::equals(x, y) == (a[at] == b[at]), "equal exactly when every value is");
    sx_assert(math::approximatelyEquals(x, y, e) == (std::fabs(a[at] - b[at]) <= e), "within epsilon exactly when every value is");
    masks(x, y, s.k, s.n, a, b, e);
    // the default epsilon of the mask
    Serie z = math::approximateEqualityMask(x, y);
    sx_assert(z.scalar(at / s.k) == (std::fabs(a[at] - b[at]) <= std::numeric_limits<double>::epsilon() * 100 ? 1.0 : 0.0), "the default epsilon is 100 machine epsilons");
}
// BOUND huge: 65541 items of 1 and 3 components (beyond 16-bit indices), equal but for one value at 255, 65535, 65536 or the last item, which is any double
SX_ENTRY(huge, "shards=4 max-steps=4000000000") {
    uint32_t n = HUGE_N, f = (uint32_t)sx_choose("at!", 0, 3), k = f % 2 ? 3 : 1;
    static const uint32_t ps[] = {255, 65535, 65536, HUGE_N - 1};
    uint32_t at = ps[f];
    Array a((size_t)k * n), b;
    for (size_t i = 0; i < a.size(); i++) a[i] = (double)(i % 1000) * 0.5;
    b = a;
    double y = b[(size_t)at * k + k - 1] = sx_f64("b"), x = a[(size_t)at * k + k - 1];
    Serie X((int)k, a), Y((int)k, b);
    bool eq = x == y, near = std::fabs(x - y) <= 0.25;
    sx_assert(math::equals(X, Y) == eq, "equal exactly when every value is");
    sx_assert(math::approximatelyEquals(X, Y, 0.25) == near, "within epsilon exactly when every value is");
    Array w(n, 1.0), z(n, 1.0);
    w[at] = eq ? 1.0 : 0.0;
    z[at] = near ? 1.0 : 0.0;
    Serie m = math::equalityMask(X, Y), q = math::approximateEqualityMask(X, Y, 0.25);
    same_shape(m, 1, n);
    same_shape(q, 1, n);
    huge_same(m.asArray(), w, "1 exactly for the items that are equal");
    huge_same(q.asArray(), z, "1 exactly for the items within epsilon");
}
