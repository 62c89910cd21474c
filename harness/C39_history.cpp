// SX-FLAGS: -I@V@/rt/shadow
#include "ops.h"
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>

#include <dataframe/attributes/EigenValues.h>

#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/functional/geo/cartesian_grid.h>
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/memoize.h>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>
// everything a result shows, and how the call ended
static Array flat(const std::function<Out()> &f) {
    Array d{0};
    Out o;
    d[0] = sx_outcome([&] { o = f(); });
    if (d[0]) return d;
    d.push_back((double)o.size());
    for (const Serie &s : o) {
        d.push_back(s.itemSize());
        d.push_back(s.count());
        d.push_back(s.dimension());
        d = cat(d, s.asArray());
    }
    return d;
}
static void same(const Array &got, const Array &want, const char *label) {
    sx_assert(got.size() == want.size(), label);
    for (size_t i = 0; i < got.size(); i++) sx_assert_same(got[i], want[i], label);
}
static Array other(size_t n, int seed) { // finite numbers that differ from call to call
    Array r(n);
    for (size_t i = 0; i < n; i++) r[i] = ((i * 7 + seed * 13) % 23) * 0.5 - 3.25 + seed;
    return r;
}
// the operation on (va, vb), after a history; ref is what it gives in a process that did nothing before
static void after(const Op *t, int m, int op, int k, uint32_t n, unsigned dim, const Array &va, const Array &vb) {
    const Serie a(k, va, dim), b(k, vb, dim);
    Op f = t[op];
    auto once = [&](const Serie &x, const Serie &y) { return flat([&] { return f(x, y); }); };
    int history = (int)sx_choose("history", 0, 8);
    if (history == 8) for (double &x : Q) x = sx_f64("q");
    Array ref = sx_fresh([&] { return once(a, b); });
    size_t size = (size_t)k * n;
    switch (history) {
    case 8: { // with other numbers in between
        double q[3] = {Q[0], Q[1], Q[2]};
        Q[0] = 4; Q[1] = -1; Q[2] = 0.25; alt = 1;
        once(a, b);
        once(b, a);
        for (int i = 0; i < 3; i++) Q[i] = q[i];
        alt = 0;
        same(once(a, b), ref, "after other numbers");
        break;
    }
    case 0: { // on the very same objects, changed in place in between
        Serie p(k, other(size, 1), dim), q(k, other(size, 2), dim);
        once(p, q);
        for (size_t i = 0; i < size; i++) { p.asArray()[i] = va[i]; q.asArray()[i] = vb[i]; }
        same(once(p, q), ref, "after a change in place");
        break;
    }
    case 1: { // assigned in between
        Serie p(k, other(size, 3), dim), q(k, other(size, 4), dim);
        once(p, q);
        p = a;
        same(once(p, b), ref, "after an assignment");
        once(p, q);
        q = b;
        same(once(p, q), ref, "after an assignment");
        break;
    }
    case 2: // on longer and shorter Series
        once(Serie(k, other(k * 20, 1), dim), Serie(k, other(k * 20, 2), dim));
        same(once(a, b), ref, "after longer Series");
        once(Serie(k, other(k, 1), dim), Serie(k, other(k, 2), dim));
        once(Serie(k, Array(), dim), Serie(k, Array(), dim));
        same(once(a, b), ref, "after shorter Series");
        break;
    case 3: // other itemSizes, Series that do not fit, invalid Series
        once(Serie(k + 1, other((k + 1) * n, 1), dim), Serie(k + 1, other((k + 1) * n, 2), dim));
        same(once(a, b), ref, "after another itemSize");
        once(a, Serie(k + 1, other((k + 1) * n, 1), dim));
        once(a, Serie(k, other(k * (n + 1), 1), dim));
        same(once(a, b), ref, "after Series that do not fit");
        once(Serie(), Serie());
        once(a, Serie());
        same(once(a, b), ref, "after invalid Series");
        break;
    case 4: // other operations on the same Series
        for (int d : {1, 2, 5}) flat([&] { return t[(op + d) % m](a, b); });
        same(once(a, b), ref, "after other operations on the same Series");
        flat([&] { return t[(op + m - 1) % m](b, a); });
        same(once(a, b), ref, "after other operations");
        break;
    case 5: { // many calls
        int calls = sx_thorough() ? 270 : 40;
        for (int i = 0; i < calls; i++) once(Serie(k, other(size, i), dim), Serie(k, other(size, i + 5), dim));
        same(once(a, b), ref, "after many calls");
        break;
    }
    case 6: { // arguments exchanged or equal
        once(b, a);
        same(once(a, b), ref, "after the exchanged arguments");
        once(a, a);
        same(once(a, b), ref, "after equal arguments");
        Serie p(k, other(size, 6), dim);
        once(a, p);
        same(once(a, b), ref, "after another second argument");
        once(p, b);
        same(once(a, b), ref, "after another first argument");
        break;
    }
    default: // the same again, and copies
        once(a, b);
        same(once(a, b), ref, "again");
        same(once(a.clone(), Serie(b)), ref, "on copies");
        break;
    }
}
static const int nAny = (int)(sizeof any / sizeof *any), nSca = sizeof scalars / sizeof *scalars, nVec = sizeof vectors / sizeof *vectors;
// BOUND general: 36 operations that take any itemSize, itemSize 1 and 3 (thorough 1, 2, 3, 6, 9), 1 and 3 items of any values, after each of 9 histories (the same objects changed in place or assigned, longer, shorter, unfitting and invalid Series, other operations, 40 calls (thorough 270), exchanged arguments, other numbers, the same again; the numbers the operation takes are any in the last but one)
SX_ENTRY(general, "shards=8") {
    static const int ks[] = {1, 3, 2, 6, 9};
    int op = (int)sx_choose("op#", 0, nAny - 2), k = ks[sx_choose("itemSize#", 0, sx_thorough() ? 4 : 1)];
    uint32_t n = sx_choose("count", 0, 1) ? 3 : 1;
    if (op >= 29 && op <= 31) { n = 1; if (k > 1) return; } // comparisons of many values: see C31
    after(any, nAny - 1, op, k, n, 3, sx_vec("a", (size_t)k * n), sx_vec("b", (size_t)k * n));
}
// BOUND further: 25 further forms (several Series, numbers and lists of factors, pipelines, curried forms, Dataframes, copies), itemSize 1 and 3, 1 and 3 items, as in general
SX_ENTRY(further, "shards=4") {
    const int m = sizeof more / sizeof *more;
    int op = (int)sx_choose("op#", 0, m - 1), k = sx_choose("itemSize#", 0, 1) ? 3 : 1;
    uint32_t n = sx_choose("count", 0, 1) ? 3 : 1;
    after(more, m, op, k, n, 3, sx_vec("a", (size_t)k * n), sx_vec("b", (size_t)k * n));
}
// BOUND jobs: parallel_execute on 3 items of any values after itself on other, longer, throwing and empty Series, every order of the jobs
SX_ENTRY(jobs, "shards=4") {
    int h = (int)sx_choose("h#", 0, 3);
    Array va = sx_vec("a", 3);
    const Serie a(1, va), w(1, other(4, 1));
    auto once = [](const Serie &s, uint32_t cores) { return flat([&] { return Out{utils::parallel_execute([](const Serie &p) { if (p.scalar(0) == 77) throw std::runtime_error("77"); return p.map([](double x, uint32_t) { return x * 2; }); }, s, cores)}; }); };
    sx_assume(va[0] != 77 && va[2] != 77);
    Array ref = sx_fresh([&] { return once(a, 2); });
    if (h == 0) once(w, 2);
    else if (h == 1) once(Serie(1, {77, 1, 2}), 2);
    else if (h == 2) { once(Serie(1, Array()), 2); once(a, 0); }
    else once(Serie(1, {5.5}), 1);
    same(once(a, 2), ref, "what a fresh process gives");
}
// BOUND scalar: 17 operations on 1 and 3 scalars (one of them any), after the same histories
SX_ENTRY(scalar, "shards=8") {
    int op = (int)sx_choose("op#", 0, nSca - 1);
    uint32_t n = sx_choose("count", 0, 1) ? 3 : 1;
    // one of three values any: other operations of the history order them
    Array a = sx_vec("a", 1), b = op >= 7 ? other(n, 3) : sx_vec("b", 1);
    for (double x : a) sx_assume(sx_finite(x));
    if (n == 3) a = cat(a, Array{2.5, -1});
    if (n == 3 && op < 7) b = cat(Array{0.5, 7}, b);
    after(scalars, nSca, op, 1, n, 3, a, b);
}
// BOUND vector: 11 operations on 1 and 2 3-component vectors, any finite values, after the same histories
SX_ENTRY(vector, "shards=4") {
    int op = (int)sx_choose("op#", 0, nVec - 1);
    uint32_t n = (uint32_t)sx_choose("count", 1, 2);
    if (op == 7) n = 1;
    Array a = sx_vec("a", 3 * n), b = sx_vec("b", 3 * n);
    for (double x : a) sx_assume(sx_finite(x));
    for (double x : b) sx_assume(sx_finite(x));
    after(vectors, nVec, op, 3, n, 3, a, b);
}
// BOUND matrix: eigen decomposition, determinant, inverse, transpose and sort of fixed matrices (3x3 symmetric and full, 2x2 symmetric and full), after the same histories; determinant and transpose of any full matrix
SX_ENTRY(matrix, "shards=4") {
    int op = (int)sx_choose("op#", 0, 6), what = (int)sx_choose("what#", 0, 3);
    if (op < 3) {
        if (what > 1) return;
        if (what) after(fixed, 3, op, 3, 2, 2, {4, 1, 2, -1, 0.5, 3}, {1, 0, 1, 2, 0, 2});
        else after(fixed, 3, op, 6, 2, 3, {4, 1, 0.5, 3, -1, 2, 1, 0, 0, 2, 0, 3}, {1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 0, 1});
    } else if (what == 3) { if (op == 3 || op == 5) after(fixed + 3, 4, op - 3, 9, 1, 3, sx_vec("a", 9), sx_vec("b", 9)); }
    else if (what == 2) after(fixed + 3, 4, op - 3, 4, 2, 2, {4, 1, 2, -1, 0.5, 3, 1, 1}, {1, 0, 1, 2, 0, 2, 2, 1});
    else if (what) after(fixed + 3, 4, op - 3, 9, 2, 3, {4, 1, 2, -1, 0.5, 3, 1, 1, 7, 1, 0, 0, 2, 3, 0, 1, 1, 2}, {1, 2, 0, 0, 1, 0, 0, 0, 1, 2, 0, 0, 0, 2, 0, 1, 0, 2});
    else if (op < 5) after(fixed + 3, 2, op - 3, 6, 2, 3, {4, 1, 0.5, 3, -1, 2, 1, 0, 0, 2, 0, 3}, {1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 0, 1});
}
// BOUND making: grids, random Series, meshes, histograms, matrices and vectors, Dataframes, Managers with all decomposers, memoized, composed and piped functions: each (13, with any parameter where it is a number) after any one other, after itself with other parameters twice, and after 40 calls of itself
SX_ENTRY(making, "shards=8") {
    int i = (int)sx_choose("i#", 0, 12), j = (int)sx_choose("j#", 0, 14);
    double x = sx_f64("x");
    sx_assume(sx_finite(x));
    auto use = [](int w, double x, int c) -> Out { // c: another call of the same kind
        Serie p(3, {x, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1.0 + c}), t(3, {0, 1, 2, 0, 2, 3}), v(1, {0.5, 1, 3, 3.5 + c});
        switch (w) {
        case 0: return Out{grid::cartesian::from_points({2, 2}, {0, x, 0}, {1, 2.0 + c, 3})};
        case 1: return Out{grid::cartesian::from_dims({3}, {x, 0, 0}, {1, 2.0 + c, 3})};
        case 2: return Out{math::random(3, 2, -1 - c, 1, 5 + c)};
        case 3: return Out{geo::normals(p, t), geo::areas(p, t)};
        case 4: return Out{stats::bins(v, 2 + c % 3, 0, 50), stats::bins(v, 3)};
        case 5: return Out{stats::isOutliers(Serie(1, {1, 2, 3, 4, 50.0 + c}), 1.5), num(stats::quantile(v, 0.1 + c * 0.01))[0]};
        case 6: { Matrix m({1, x, 3, 4.0 + c}, 2); return Out{Serie(1, m.multMat(m.transpose()).array().array()), num(m.trace())[0]}; }
        case 7: { Vector y({1, x, 2.0 + c}); double d = y.dot(y); y.add(y); return Out{Serie(1, y.array()), num(d)[0]}; }
        case 8: return Out{pipe(v, [x](const Serie &s) { return math::add(s, x); }, [](const Serie &s) { return math::negate(s); }), utils::compose([](const Serie &s) { return math::negate(s); }, [c](const Serie &s) { return math::sub(s, 1.0 + c); })(v)};
        case 9: { Dataframe d; d.add("p", p); if (c % 2) d.add("v", v); d.create("w", 2, 3); Out o{d.get("p"), d.get("w")}; const Dataframe &e = d; o.push_back(e.get("v")); o.push_back(num((double)d.series().size())[0]); return o; }
        case 10: {
            Dataframe d;
            d.add("positions", p);
            d.add("indices", t);
            d.add("S", Serie(6, {1, 0, 0, 2.0 + c, 0, 3, 4, 0, 0, 5, 0, 6}));
            d.add("u", Serie(2, {x, 1, 2, 3.0 + c}));
            Manager m(d, {new Components(), new Normals("n"), new Area("area"), new Valence("val"), new EigenValues()});
            Out o;
            for (const char *w : {"u1", "Sxx", "area", "S1", "n", "none"}) o.push_back(m.serie(1, w));
            o.push_back(m.serie(3, "n"));
            o.push_back(num((double)m.names(1).size())[0]);
            return o;
        }
        case 11: { auto m = utils::memoize([x](const Serie &s) { return math::add(s, x); }); Out o{m(v), m(p)}; o.push_back(m(v)); return o; }
        default: { Serie s(2, {x, 1, 2, 3.0 + c}); s.setValue(1, {5, 6}); s.setScalar(0, 7.0 + c); Serie r(1, s.asArray()); return Out{s, r, Serie(3, {x, 1, 2})}; }
        }
    };
    Array ref = sx_fresh([&] { return flat([&] { return use(i, x, 0); }); });
    if (j <= 12) flat([&] { return use(j, 0.25, j == i); });
    else if (j == 13) { flat([&] { return use(i, -2, 1); }); flat([&] { return use(i, 8, 2); }); }
    else for (int c = 1; c <= (sx_thorough() ? 270 : 40); c++) flat([&] { return use(i, c * 0.5, c); });
    same(flat([&] { return use(i, x, 0); }), ref, "what a fresh process gives");
}
