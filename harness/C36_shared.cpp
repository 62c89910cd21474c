// SX-FLAGS: -I@V@/rt/shadow
#include "ops.h"
#include <dataframe/functional/geo/cartesian_grid.h>
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>
#include <future>
#ifdef SX_REAL_THREADS
namespace sx { static inline void drain() {} }
#endif
// two jobs at once; the happens-before check reports any two unordered accesses of which one writes
template <class F, class G> static void both(F &&f, G &&g, Out &x, Out &y) {
    sx_race_on(1);
    {
        auto p = std::async(std::launch::async, [&] { x = f(); });
        auto q = std::async(std::launch::async, [&] { y = g(); });
        p.get();
        q.get();
    }
    sx_race_on(0);
    sx::drain();
}
static void shared(Op f, Op g, int k, uint32_t n, unsigned dim, const Array &va, const Array &vb) {
    Serie a(k, va, dim), b(k, vb, dim);
    Out x, y;
    both([&] { return f(a, b); }, [&] { return g(a, b); }, x, y);
    same_serie(a, k, n, dim, va);
    same_serie(b, k, n, dim, vb);
    same_out(x, f(a, b), "the result is the one a single thread gets");
    same_out(y, g(a, b), "the result is the one a single thread gets");
}
// other Series of the same shape in each thread: results do not get mixed up
static void apart(Op f, int k, uint32_t n, unsigned dim, const Array &va, const Array &vb) {
    Serie a(k, va, dim), b(k, vb, dim);
    Out x, y;
    both([&] { return f(a, a); }, [&] { return f(b, b); }, x, y);
    same_out(x, f(a, a), "the result is the one a single thread gets");
    same_out(y, f(b, b), "the result is the one a single thread gets");
}
static const int nAny = (int)(sizeof any / sizeof *any) - 1, nSca = sizeof scalars / sizeof *scalars, nVec = sizeof vectors / sizeof *vectors, nFix = sizeof fixed / sizeof *fixed;
static void run(const Op *t, int m, int k, uint32_t n, unsigned dim, const Array &a, const Array &b, int op) {
    int with = (int)sx_choose("with", 0, 2);
    if (with == 2) apart(t[op], k, n, dim, a, b);
    else shared(t[op], t[(op + with) % m], k, n, dim, a, b);
}
// BOUND general: 36 operations that take any itemSize, each beside itself and beside the next one on the same Series, and beside itself on other Series; itemSize 1 and 3, 1 and 2 items, any values, every order
SX_ENTRY(general, "shards=8") {
    int op = (int)sx_choose("op#", 0, nAny - 1), k = sx_choose("itemSize", 0, 1) ? 3 : 1;
    uint32_t n = (uint32_t)sx_choose("count", 1, 2);
    if (op >= 28 && op <= 31) { n = 1; if (k > 2) return; } // comparisons of many values: see C31
    run(any, nAny, k, n, 3, sx_vec("a", (size_t)k * n), sx_vec("b", (size_t)k * n), op);
}
// BOUND further: 25 further forms (several Series, numbers and lists of factors, pipelines, curried forms, Dataframes, copies), as in general, on itemSize 1 and 3, 1 and 2 items
SX_ENTRY(further, "shards=4") {
    const int m = sizeof more / sizeof *more;
    int op = (int)sx_choose("op#", 0, m - 1), k = sx_choose("itemSize", 0, 1) ? 3 : 1;
    uint32_t n = (uint32_t)sx_choose("count", 1, 2);
    run(more, m, k, n, 3, sx_vec("a", (size_t)k * n), sx_vec("b", (size_t)k * n), op);
}
// BOUND scalar: 17 operations on 3 scalars, two of them fixed (all three where the operation orders them), as in general
SX_ENTRY(scalar, "shards=4") {
    int op = (int)sx_choose("op#", 0, nSca - 1);
    bool order = (op >= 7 && op <= 11) || op >= 13; // decided by the order of the values: one of them fixed as well
    Array a = order ? Array{4.25} : sx_vec("a", 1), b = order ? Array{-3} : sx_vec("b", 1);
    for (double x : a) sx_assume(sx_finite(x));
    for (double x : b) sx_assume(sx_finite(x));
    a.push_back(2.5); a.push_back(-1); b.push_back(0.5); b.push_back(7);
    run(scalars, nSca, 1, 3, 3, a, b, op);
}
// BOUND vector: 11 operations on two 3-component vectors, as in general
SX_ENTRY(vector, "shards=4") {
    int op = (int)sx_choose("op#", 0, nVec - 1);
    Array a = sx_vec("a", 3), b = sx_vec("b", 3);
    for (double x : a) sx_assume(sx_finite(x));
    for (double x : b) sx_assume(sx_finite(x));
    a = cat(a, Array{1, -2, 0.5}); b = cat(b, Array{3, 1, -4});
    if (op == 7) { a = Array{a[0], 1, 2}; b = Array{b[0], -3, 2}; }
    run(vectors, nVec, 3, op == 7 ? 1 : 2, 3, a, b, op);
}
// BOUND matrix: eigen decomposition, determinant, inverse, transpose and sort of fixed matrices: 3x3 symmetric and full, 2x2 (dimension 2), as in general
SX_ENTRY(matrix, "shards=2") {
    int op = (int)sx_choose("op#", 0, nFix - 1), what = (int)sx_choose("what", 0, 2);
    if (op < 3) {
        if (what == 2) return;
        if (what) run(fixed, 3, 3, 2, 2, {4, 1, 2, -1, 0.5, 3}, {1, 0, 1, 2, 0, 2}, op);
        else run(fixed, 3, 6, 2, 3, {4, 1, 0.5, 3, -1, 2, 1, 0, 0, 2, 0, 3}, {1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 0, 1}, op);
    } else if (what == 2) run(fixed + 3, 4, 4, 2, 2, {4, 1, 2, -1, 0.5, 3, 1, 1}, {1, 0, 1, 2, 0, 2, 2, 1}, op - 3);
    else if (what) run(fixed + 3, 4, 9, 2, 3, {4, 1, 2, -1, 0.5, 3, 1, 1, 7, 1, 0, 0, 2, 3, 0, 1, 1, 2}, {1, 2, 0, 0, 1, 0, 0, 0, 1, 2, 0, 0, 0, 2, 0, 1, 0, 2}, op - 3);
    else run(fixed + 3, 2, 6, 2, 3, {4, 1, 0.5, 3, -1, 2, 1, 0, 0, 2, 0, 3}, {1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 0, 1}, (op - 3) % 2);
}
// BOUND reading: the accessors of one Serie and one Dataframe (present and missing names), copies and clones, views, a Manager of each thread's own with decomposers, in two threads
SX_ENTRY(reading, "shards=2") {
    int i = (int)sx_choose("i#", 0, 9), j = (int)sx_choose("j", 0, 9);
    Array v = sx_vec("v", 9);
    Serie s(3, v);
    Dataframe made;
    made.add("one", s);
    made.add("two", Serie(1, {1, 2, 3}));
    const Dataframe &d = made;
    const Serie &c = s;
    auto use = [&](int w) -> Out {
        switch (w) {
        case 0: return num(c.get<Array>(1)[2] + c.count() + c.itemSize() + c.dimension());
        case 1: return Out{Serie(3, c.value(2))};
        case 2: return Out{c, c.clone()};
        case 3: return Out{d.get("one"), d["two"]};
        case 4: return Out{d.get("missing"), d["none"]};
        case 5: return num((d.contains("one") ? 1 : 0) + (d.contains("no") ? 2 : 0) + (double)d.series().size());
        case 6: { Dataframe e = d; return Out{e.get("one")}; }
        case 9: { Manager m(d, {new Components(), new Coordinates({"x", "y", "z"}), new Normals("n"), new EigenValues()}); return Out{m.serie(1, "oney"), m.serie(3, "one"), m.serie(1, "x"), num((double)m.names(1).size())[0]}; }
        case 7: { double t = 0; c.forEach([&](const Array &x, uint32_t i) { t += x[1] * i; }); return num(t); }
        default: { double t = 0; for (const auto &p : d.series()) t += p.second.count(); return num(t + (double)Serie(c).scalar(0)); }
        }
    };
    Out x, y;
    both([&] { return use(i); }, [&] { return use(j); }, x, y);
    same_out(x, use(i), "the result is the one a single thread gets");
    same_out(y, use(j), "the result is the one a single thread gets");
}
// BOUND making: grids, random Series, meshes, bins, matrices and vectors, and calls that fail, in two threads
SX_ENTRY(making, "shards=2") {
    int i = (int)sx_choose("i#", 0, 8), j = (int)sx_choose("j", 0, 8);
    Serie p(3, {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1}), t(3, {0, 1, 2, 0, 2, 3}), v(1, {0.5, 1, 3, 3.5});
    auto use = [&](int w) -> Out {
        switch (w) {
        case 0: return Out{grid::cartesian::from_points({2, 2}, {0, 0, 0}, {1, 2, 3})};
        case 1: return Out{grid::cartesian::from_dims({3}, {0, 0, 0}, {1, 2, 3})};
        case 2: return Out{math::random(3, 2, -1, 1, 5)};
        case 3: return Out{geo::normals(p, t), geo::areas(p, t)};
        case 4: return Out{stats::bins(v, 2, 0, 4), stats::bins(v, 3)};
        case 5: { double o = sx_outcome([&] { math::add(p, v); }) + 10 * sx_outcome([&] { stats::quantile(v, 2); }); return num(o); }
        case 6: { Matrix m({1, 2, 3, 4}, 2); return Out{Serie(1, m.multMat(m.transpose()).array().array()), num(m.trace())[0]}; }
        case 7: { Vector x({1, 2, 2}); double l = x.norm(); x.normalize(); return Out{Serie(1, x.array()), num(l + x.dot(x))[0]}; }
        default: return Out{pipe(v, [](const Serie &s) { return math::add(s, 1.0); }, [](const Serie &s) { return math::negate(s); }), utils::compose([](const Serie &s) { return math::negate(s); }, [](const Serie &s) { return math::sub(s, 1.0); })(v)};
        }
    };
    Out x, y;
    both([&] { return use(i); }, [&] { return use(j); }, x, y);
    same_out(x, use(i), "the result is the one a single thread gets");
    same_out(y, use(j), "the result is the one a single thread gets");
}
