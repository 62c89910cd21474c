#include "h.h"
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/weightedSum.h>
using namespace df;
using S = const Serie &;
static void is(const Serie &r, int k, uint32_t n, const Array &want, const char *label) {
    items_shape(r, k, n);
    for (size_t i = 0; i < want.size(); i++) sx_assert_num(r.asArray()[i], want[i], label);
}
struct In { int m, k; uint32_t n; std::vector<Array> v; std::vector<Serie> s; };
static In make(int m, int k, uint32_t n) {
    In in{m, k, n};
    bool same = m > 1 && sx_choose("same", 0, 1); // the same Serie given several times
    for (int j = 0; j < m; j++) {
        in.v.push_back(same && j ? in.v[0] : sx_vec("v", (size_t)k * n));
        in.s.push_back(Serie(k, in.v[j], 3 - (j & 1)));
    }
    return in;
}
static void unchanged(const In &in) { for (int j = 0; j < in.m; j++) same_values(in.s[j], in.v[j], "input unchanged"); }
static Serie add_of(const std::vector<Serie> &s, int form) {
    int m = (int)s.size();
    if (form == 0) switch (m) {
        case 1: return math::add({s[0]});
        case 2: return math::add({s[0], s[1]});
        case 3: return math::add({s[0], s[1], s[2]});
        default: return math::add({s[0], s[1], s[2], s[3]});
    }
    switch (m) {
    case 1: return math::add(s[0]);
    case 2: return form == 1 ? math::add(s[0], s[1]) : math::make_add(s[0])(s[1]);
    case 3: return math::add(s[0], s[1], s[2]);
    default: return math::add(s[0], s[1], s[2], s[3]);
    }
}
static Serie sub_of(const std::vector<Serie> &s, int form) {
    int m = (int)s.size();
    if (form == 0) switch (m) {
        case 1: return math::sub({s[0]});
        case 2: return math::sub({s[0], s[1]});
        case 3: return math::sub({s[0], s[1], s[2]});
        default: return math::sub({s[0], s[1], s[2], s[3]});
    }
    switch (m) {
    case 1: return math::sub({s[0]});
    case 2: return form == 1 ? math::sub(s[0], s[1]) : math::make_sub(s[0])(s[1]);
    case 3: return math::sub(s[0], s[1], s[2]);
    default: return math::sub(s[0], s[1], s[2], s[3]);
    }
}
static Serie wsum_of(const std::vector<Serie> &s, const Array &w, int form) {
    if (form && s.size() == w.size()) switch (s.size()) {
        case 1: return math::weigthedSum({s[0]}, {w[0]});
        case 2: return math::weigthedSum({s[0], s[1]}, {w[0], w[1]});
        case 3: return math::weigthedSum({s[0], s[1], s[2]}, {w[0], w[1], w[2]});
        default: return math::weigthedSum({s[0], s[1], s[2], s[3]}, {w[0], w[1], w[2], w[3]});
    }
    switch (s.size()) {
    case 1: return math::weigthedSum({s[0]}, w);
    case 2: return math::weigthedSum({s[0], s[1]}, w);
    case 3: return math::weigthedSum({s[0], s[1], s[2]}, w);
    default: return math::weigthedSum({s[0], s[1], s[2], s[3]}, w);
    }
}
static void check_all(int m, int k, uint32_t n) {
    In in = make(m, k, n);
    int op = (int)sx_choose("op", 0, 2), form = (int)sx_choose("form", 0, 2);
    if (op == 0) {
        Array w = in.v[0];
        for (int j = 1; j < m; j++) for (size_t i = 0; i < w.size(); i++) w[i] += in.v[j][i];
        is(add_of(in.s, form), k, n, w, "the sum of the corresponding components");
    } else if (op == 1) {
        Array w = in.v[0];
        for (int j = 1; j < m; j++) for (size_t i = 0; i < w.size(); i++) w[i] -= in.v[j][i];
        is(sub_of(in.s, form), k, n, w, "the difference of the corresponding components");
    } else {
        Array c = sx_vec("weight", m), w((size_t)k * n, 0.0);
        for (int j = 0; j < m; j++) for (size_t i = 0; i < w.size(); i++) w[i] += in.v[j][i] * c[j];
        is(wsum_of(in.s, c, form), k, n, w, "the weighted sum of the corresponding components");
    }
    unchanged(in);
}
// BOUND small: add, sub, weigthedSum (list, variadic, make_ forms) of one to four Series, itemSize 1,2,3,4,6,9, count 0..3, arbitrary values, also one Serie given several times
SX_ENTRY(small, "shards=3") { Shape s = small_shape(0, 3); check_all((int)sx_choose("series", 1, 4), s.k, s.n); }
// BOUND big: the same for one to three Series in 28 shapes up to 1025 items and itemSize 260
SX_ENTRY(big, "shards=8") { Shape s = big_shape(); check_all((int)sx_choose("series", 1, 3), s.k, s.n); }
static void single(Shape sh) {
    Array v = sx_vec("v", (size_t)sh.k * sh.n), w = v;
    Serie s(sh.k, v, sx_u32("dim"));
    int op = (int)sx_choose("op", 0, 4);
    double c = sx_f64("c");
    Serie r;
    int o = sx_outcome([&] {
        switch (op) {
        case 0: for (double &x : w) x = -x; r = math::negate(s); break;
        case 1: for (double &x : w) x *= c; r = math::scale(s, c); break;
        case 2: {
            Array cs = sx_vec("cs", sh.k);
            for (size_t i = 0; i < w.size(); i++) w[i] *= cs[i % sh.k];
            r = math::scale(s, cs);
            break;
        }
        case 3: for (double &x : w) x += c; r = math::add(s, c); break;
        default: for (double &x : w) x -= c; r = math::sub(s, c);
        }
    });
    if (op >= 3 && sh.k != 1) sx_assert(o == 1, "adding a number to items of several components is rejected");
    else { sx_assert(o == 0, "accepted"); is(r, sh.k, sh.n, w, "every component is the opposite, the multiple, or shifted by the number"); }
    same_values(s, v, "input unchanged");
}
// BOUND one: negate, scale by a number or per component, add and sub of a number: itemSize 1,2,3,4,6,9, count 0..4
SX_ENTRY(one, "") { single(small_shape(0, 4)); }
// BOUND one_big: the same in 28 shapes up to 1025 items and itemSize 260
SX_ENTRY(one_big, "shards=2") { single(big_shape()); }
// BOUND mismatch: two or three Series of itemSize 1..3 and count 0..3, all combinations; 0..3 scales for itemSize 1..3; 0..4 weights; empty lists
SX_ENTRY(mismatch, "shards=2") {
    int what = (int)sx_choose("what#", 0, 3);
    if (what == 0) {
        int m = (int)sx_choose("series", 2, 3), op = (int)sx_choose("op", 0, 2), form = (int)sx_choose("form", 0, 2);
        std::vector<Serie> s;
        std::vector<Array> v;
        bool ok = true;
        for (int j = 0; j < m; j++) {
            int k = (int)sx_choose("k", 1, 3);
            uint32_t n = (uint32_t)sx_choose("n", 0, m == 3 ? 2 : 3);
            v.push_back(sx_vec("v", (size_t)k * n));
            s.push_back(Serie(k, v[j]));
            ok = ok && s[j].itemSize() == s[0].itemSize() && s[j].count() == s[0].count();
        }
        Serie r;
        int o = sx_outcome([&] { r = op == 0 ? add_of(s, form) : op == 1 ? sub_of(s, form) : wsum_of(s, Array(m, 1.5), form); });
        sx_assert(o == (ok ? 0 : 1), "Series of different itemSize or count are rejected with invalid_argument, others are accepted");
        for (int j = 0; j < m; j++) same_values(s[j], v[j], "input unchanged");
    } else if (what == 1) {
        int k = (int)sx_choose("k", 1, 3), m = (int)sx_choose("scales", 0, 4);
        uint32_t n = (uint32_t)sx_choose("n", 0, 2);
        Serie s(k, sx_vec("v", (size_t)k * n));
        int o = sx_outcome([&] { math::scale(s, sx_vec("c", m)); });
        sx_assert(o == (k == m ? 0 : 1), "a wrong number of scales is rejected");
    } else if (what == 2) {
        int m = (int)sx_choose("series", 1, 4), w = (int)sx_choose("weights", 0, 5);
        uint32_t n = (uint32_t)sx_choose("n", 0, 2);
        std::vector<Serie> s;
        for (int j = 0; j < m; j++) s.push_back(Serie(2, sx_vec("v", 2 * n)));
        int o = sx_outcome([&] { wsum_of(s, sx_vec("w", w), 0); });
        sx_assert(o == (m == w ? 0 : 1), "a wrong number of weights is rejected");
    } else {
        std::initializer_list<Serie> none;
        sx_assert(sx_outcome([&] { math::add(none); }) == 1, "an empty list is rejected");
        sx_assert(sx_outcome([&] { math::sub(none); }) == 1, "an empty list is rejected");
        sx_assert(sx_outcome([&] { math::weigthedSum(none, Array()); }) == 1, "an empty list is rejected");
        sx_assert(sx_outcome([&] { math::weigthedSum(none, Array{1.0}); }) == 1, "an empty list is rejected");
    }
}
// BOUND algebra: add is commutative and associative, sub undoes add, negate twice and scale by 1 are the identity (two components, two items, finite values up to 1e6)
SX_ENTRY(laws, "mode=real") {
    auto fin = [](const char *n) { Array a = sx_vec(n, 4); for (double x : a) sx_assume(x >= -1e6 && x <= 1e6); return a; };
    Array a = fin("a"), b = fin("b"), c = fin("c");
    Serie A(2, a), B(2, b), C(2, c);
    double t = sx_f64("t");
    sx_assume(t >= -1000 && t <= 1000);
    auto eq = [](S x, S y, const char *l) { same_shape(x, 2, 2); for (int i = 0; i < 4; i++) sx_assert_num(x.asArray()[i], y.asArray()[i], l); };
    eq(math::add(A, B), math::add(B, A), "commutative");
    eq(math::add(math::add(A, B), C), math::add(A, math::add(B, C)), "associative");
    eq(math::sub(math::add(A, B), B), A, "sub undoes add");
    eq(math::sub({A, B, C}), math::sub(A, math::add(B, C)), "sub of several is the first minus the sum of the others");
    eq(math::negate(math::negate(A)), A, "negate twice");
    eq(math::scale(A, 1), A, "scale by one");
    eq(math::scale(math::add(A, B), t), math::add(math::scale(A, t), math::scale(B, t)), "scale distributes");
    eq(math::weigthedSum({A, B}, {t, 1 - t}), math::add(math::scale(math::sub(A, B), t), B), "weighted sum");
}
// BOUND huge: 65541 items of 1 and 3 components (beyond 16-bit indices): add, sub, negate, scale, weightedSum
SX_ENTRY(huge, "shards=5 max-steps=4000000000") { // the other forms: huge_more
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 4), k = form % 2 ? 3 : 1;
    Array a = huge_vec("a", k, n), b = huge_vec("b", k, form < 2 || form == 4 ? n : 0), w = a;
    Serie s((int)k, a), t((int)k, b), r;
    for (size_t i = 0; i < a.size(); i++) w[i] = form == 0 ? a[i] + b[i] : form == 1 ? a[i] - b[i] : form == 2 ? -a[i] : form == 3 ? 0.5 * a[i] : 2.0 * a[i] + 0.25 * b[i];
    r = form == 0 ? math::add(s, t) : form == 1 ? math::sub(s, t) : form == 2 ? math::negate(s) : form == 3 ? math::scale(s, 0.5) : math::weigthedSum({s, t}, {2.0, 0.25});
    huge_near(r, k, n, w, "component by component");
}
// BOUND huge_more: the same for add and sub of a number, scale per component, lists and three Series
SX_ENTRY(huge_more, "shards=7 max-steps=4000000000") {
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 6), k = form < 2 ? 1 : 2;
    Array a = huge_vec("a", k, n), b((size_t)k * n), w = a;
    for (size_t i = 0; i < b.size(); i++) b[i] = (double)(i % 9);
    Serie s((int)k, a), t((int)k, b), r;
    for (size_t i = 0; i < a.size(); i++) switch (form) {
        case 0: w[i] = a[i] + 0.5; break;
        case 1: w[i] = a[i] - 0.5; break;
        case 2: w[i] = a[i] * (i % 2 ? -2.0 : 3.0); break;
        case 3: w[i] = a[i] + b[i] + b[i]; break;
        case 4: w[i] = a[i] - b[i] - b[i]; break;
        case 5: w[i] = a[i] + b[i]; break;
        default: w[i] = a[i] - b[i];
    }
    switch (form) {
    case 0: r = math::add(s, 0.5); break;
    case 1: r = math::sub(s, 0.5); break;
    case 2: r = math::scale(s, Array{3.0, -2.0}); break;
    case 3: r = math::add(s, t, t); break;
    case 4: r = math::sub(s, t, t); break;
    case 5: r = math::add({s, t}); break;
    default: r = math::sub({s, t});
    }
    huge_near(r, k, n, w, "component by component");
}
// BOUND specials: two items of two components and the number or weights, each any of 0, -0, 1, -2.5, infinities and NaN (the arithmetic of the processor): add, sub, negate, scale, weightedSum, all forms
SX_ENTRY(specials, "shards=8") {
    int op = (int)sx_choose("op!", 0, 7);
    Array a{special("a"), 3.0}, b{op == 3 || op == 4 ? 0.0 : special("b"), -1.0};
    double c = op == 3 || op == 4 || op >= 6 ? special("c") : 0;
    Serie A(2, a), B(2, b), r;
    Array w(2);
    switch (op) {
    case 0: r = math::add(A, B); w = {a[0] + b[0], 2.0}; break;
    case 1: r = math::sub(A, B); w = {a[0] - b[0], 4.0}; break;
    case 2: r = math::negate(A); w = {-a[0], -3.0}; break;
    case 3: r = sx_choose("list", 0, 1) ? math::scale(A, Array{c, 2.0}) : math::scale(A, c); w = {a[0] * c, r.asArray()[1]}; break;
    case 4: r = sx_choose("sub", 0, 1) ? math::sub(Serie(1, a), c) : math::add(Serie(1, a), -c); w = {a[0] - c, 3.0 - c}; break;
    case 5: r = sx_choose("three", 0, 1) ? math::add(A, B, B) : math::add({A, B, B}); w = {a[0] + b[0] + b[0], 1.0}; break;
    case 6: r = math::weigthedSum({A, B}, Array{c, 2.0}); w = {a[0] * c + b[0] * 2.0, 3.0 * c - 2.0}; break;
    default: r = math::weigthedSum({A, B}, {1.0, c}); w = {a[0] + b[0] * c, 3.0 - c};
    }
    for (int i = 0; i < 2; i++) sx_assert_num(r.asArray()[i], w[i], "infinities and NaN take part as in plain arithmetic");
}
