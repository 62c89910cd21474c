// SX-FLAGS: -I@V@/rt/shadow
#include "ops.h"
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/utils/nameOfSerie.h>
static void freeze(const Serie &s, bool on) {
    sx_freeze(&s, on);
    if (!s.asArray().empty()) sx_freeze(s.asArray().data(), on);
}
// the operation leaves its inputs alone, gives the same again, and shares nothing
static void pure(Op op, int k, uint32_t n, unsigned dim, const Array &va, const Array &vb) {
    Serie a(k, va, dim), b(k, vb, dim);
    freeze(a, true);
    freeze(b, true);
    Out r = op(a, b);
    freeze(a, false);
    freeze(b, false);
    same_serie(a, k, n, dim, va);
    same_serie(b, k, n, dim, vb);
    Out keep = r;
    same_out(op(a, b), keep, "the same arguments give the same result again");
    // one Serie passed twice
    Serie c(k, va, dim);
    Out t = op(a, a), u = op(a, c);
    same_out(t, u, "a Serie passed twice counts as two equal Series");
    same_serie(a, k, n, dim, va);
    // the result assigned over an input
    if (!r.empty()) {
        Serie x = a, y = b;
        x = op(x, b)[0];
        y = op(a, y)[0];
        same_out({x}, {keep[0]}, "assigned over the first input");
        same_out({y}, {keep[0]}, "assigned over the second input");
        Serie z = a;
        z = op(z, z)[0];
        same_out({z}, {t[0]}, "assigned over both inputs");
    }
    // changing the result changes no input, changing the inputs no result
    for (Serie &s : r) for (double &x : s.asArray()) x = -77;
    same_serie(a, k, n, dim, va);
    same_serie(b, k, n, dim, vb);
    for (double &x : a.asArray()) x = 99;
    for (double &x : b.asArray()) x = 98;
    for (Serie &s : r) for (double x : s.asArray()) sx_assert(x == -77, "the result is the caller's own");
    (void)u;
}
// BOUND general: 37 operations that take any itemSize, on itemSize 1, 2, 3, 6, 9 and two pairs of 1, 4 items each, any values
SX_ENTRY(general, "shards=8") {
    static const int ks[] = {1, 2, 3, 6, 9};
    int op = (int)sx_choose("op#", 0, (int)(sizeof any / sizeof *any) - 1), k = ks[sx_choose("itemSize", 0, 4)];
    uint32_t n = sx_choose("count", 0, 1) ? 4 : 1;
    if (op >= 29 && op <= 31) { n = 1; if (k > 2) return; } // comparisons of many values: see C31
    pure(any[op], k, n, 3, sx_vec("a", (size_t)k * n), sx_vec("b", (size_t)k * n));
}
// BOUND further: 25 further forms (several Series, numbers and lists of factors, pipelines, curried forms, Dataframes, copies), as in general, on itemSize 1, 3 and two pairs of 1 and 3 items
SX_ENTRY(further, "shards=4") {
    int op = (int)sx_choose("op#", 0, (int)(sizeof more / sizeof *more) - 1), k = sx_choose("itemSize", 0, 1) ? 3 : 1;
    uint32_t n = sx_choose("count", 0, 1) ? 3 : 1;
    pure(more[op], k, n, 3, sx_vec("a", (size_t)k * n), sx_vec("b", (size_t)k * n));
}
// BOUND scalar: 17 operations on scalars, on 1 and 3 items, any values (no NaN)
SX_ENTRY(scalar, "shards=8") {
    int op = (int)sx_choose("op#", 0, (int)(sizeof scalars / sizeof *scalars) - 1);
    uint32_t n = sx_choose("count", 0, 1) ? 3 : 1;
    Array a = sx_vec("a", n), b = sx_vec("b", n);
    for (double x : a) sx_assume(sx_finite(x));
    pure(scalars[op], 1, n, 3, a, b);
}
// BOUND vector: 11 operations on 3-component vectors, on 1 and 3 items, any finite values
SX_ENTRY(vector, "shards=4") {
    int op = (int)sx_choose("op#", 0, (int)(sizeof vectors / sizeof *vectors) - 1);
    uint32_t n = sx_choose("count", 0, 1) ? 3 : 1;
    Array a = sx_vec("a", n * 3), b = sx_vec("b", n * 3);
    for (double x : a) sx_assume(sx_finite(x));
    if (n == 3 && op == 7) { n = 2; a.resize(6); b.resize(6); }
    pure(vectors[op], 3, n, 3, a, b);
}
// BOUND matrix: eigen decomposition, determinant, inverse, transpose and sort of fixed matrices: 3x3 symmetric and full, 2x2 symmetric (dimension 2)
SX_ENTRY(matrix, "") {
    int op = (int)sx_choose("op", 0, (int)(sizeof fixed / sizeof *fixed) - 1), what = (int)sx_choose("what", 0, 2);
    if (op < 3) {
        if (what == 2) return;
        if (what) pure(fixed[op], 3, 2, 2, {4, 1, 2, -1, 0.5, 3}, {1, 0, 1, 2, 0, 2});
        else pure(fixed[op], 6, 2, 3, {4, 1, 0.5, 3, -1, 2, 1, 0, 0, 2, 0, 3}, {1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 0, 1});
    } else if (what == 2) pure(fixed[op], 4, 2, 2, {4, 1, 2, -1, 0.5, 3, 1, 1}, {1, 0, 1, 2, 0, 2, 2, 1});
    else if (what) pure(fixed[op], 9, 2, 3, {4, 1, 2, -1, 0.5, 3, 1, 1, 7, 1, 0, 0, 2, 3, 0, 1, 1, 1}, Array(18, 1.0));
    else if (op < 5) pure(fixed[op], 6, 2, 3, {4, 1, 0.5, 3, -1, 2, 1, 0, 0, 2, 0, 3}, Array(12, 1.0));
}
// BOUND meshes: normals and areas of two triangles over any four positions, also with one Serie as both positions and indices
SX_ENTRY(meshes, "") {
    bool areas = sx_choose("areas", 0, 1);
    Array vp = sx_vec("p", 12), vt = {0, 1, 2, 3, 2, 1};
    Serie p(3, vp), t(3, vt), self(3, {0, 1, 2, 2, 1, 0, 1, 1, 2});
    freeze(p, true); freeze(t, true);
    Serie r = areas ? geo::areas(p, t) : geo::normals(p, t);
    freeze(p, false); freeze(t, false);
    same_serie(p, 3, 4, 3, vp);
    same_serie(t, 3, 2, 3, vt);
    Array keep = r.asArray();
    Serie x = p;
    x = areas ? geo::areas(x, t) : geo::normals(x, t);
    same_values(x, keep, "assigned over an input");
    Serie s = areas ? geo::areas(self, self) : geo::normals(self, self), c = self.clone(), d = areas ? geo::areas(self, c) : geo::normals(self, c);
    same_values(s, d.asArray(), "a Serie passed twice counts as two equal Series");
    for (double &v : r.asArray()) v = 5;
    same_serie(p, 3, 4, 3, vp);
}
// BOUND histogram: bins of 1..3 values from a fixed range: input unchanged, equal results
SX_ENTRY(histogram, "") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 3);
    Array v = sx_vec("v", n);
    for (double x : v) sx_assume(x >= 0 && x <= 4);
    Serie a(1, v);
    freeze(a, true);
    Serie r = stats::bins(a, 2, 0, 4), q = stats::bins(Serie(1, {0, 1, 4}), 2);
    freeze(a, false);
    same_serie(a, 1, n, 3, v);
    (void)q;
    Serie x = a;
    x = stats::bins(x, 2, 0, 4);
    same_values(x, r.asArray(), "assigned over the input");
}
// BOUND frames: a Dataframe with a scalar, vector and matrix Serie (any values), positions and indices: looking up, asking for names, copying, all decomposers through a Manager: stored Series frozen, results the caller's own
SX_ENTRY(frames, "shards=2") {
    Array vs = sx_vec("s", 4), vv = sx_vec("v", 12), vp = {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1}, vt = {0, 1, 2, 3, 2, 1}, vm = {1, 0, 0, 2, 0, 3, 4, 0, 0, 5, 0, 6};
    Dataframe d;
    d.add("s", Serie(1, vs));
    d.add("v", Serie(3, vv));
    d.add("M", Serie(6, vm));
    d.add("positions", Serie(3, vp));
    d.add("indices", Serie(3, vt));
    const Dataframe &c = d;
    auto hold = [&](bool on) { for (const auto &p : c.series()) freeze(p.second, on); };
    int what = (int)sx_choose("what#", 0, 5), k = (int)sx_choose("k", 1, 3);
    if (what != 5 && k > 1) return;
    Out r;
    hold(true);
    {
        Manager m(c, {new Components(), new Normals("n"), new Area("area"), new Valence("val"), new EigenValues(), new EigenVectors(), new Coordinates({"x", "y", "z"})});
        switch (what) {
        case 0: r = {c.get("s"), c["v"], c.get("positions"), c.get("none")}; break;
        case 1: { Dataframe e = c; e.set("s", Serie(1, {7, 7, 7, 7})); e.del("v"); r = {e.get("s"), e.get("M")}; e.setCount(2); break; }
        case 2: { Dataframe e; e.add("x", Serie(1, {1})); e = c; for (double &x : e.get("s").asArray()) x = 5; r = {e.get("s")}; e.clear(); break; }
        case 3: sx_assert(c.contains("s") && !c.contains("t") && c.contains(c.get("v")) && !c.contains(Serie(1, vs)), "contains"); break;
        case 4: sx_assert(nameOfSerie(c, c.get("v")) == "v", "name of a stored Serie"); break;
        default: for (const String &w : m.names(k)) r.push_back(m.serie(k, w));
        }
        for (Serie &s : r) for (double &x : s.asArray()) x = -77;
    }
    hold(false);
    sx_assert(c.series().size() == 5, "the same Series are stored");
    same_serie(c.get("s"), 1, 4, 3, vs);
    same_serie(c.get("v"), 3, 4, 3, vv);
    same_serie(c.get("M"), 6, 2, 3, vm);
    same_serie(c.get("positions"), 3, 4, 3, vp);
    same_serie(c.get("indices"), 3, 2, 3, vt);
}
// BOUND failing: every operation above on Series of different or unusual shapes (8 x 8 pairs, empty and invalid included): whatever the outcome, the inputs are unchanged and no memory is kept
SX_ENTRY(failing, "shards=8") {
    int na = (int)(sizeof any / sizeof *any), ns = (int)(sizeof scalars / sizeof *scalars), nv = (int)(sizeof vectors / sizeof *vectors), nf = (int)(sizeof fixed / sizeof *fixed), nm = (int)(sizeof more / sizeof *more);
    int op = (int)sx_choose("op#", 0, na + ns + nv + nf + nm - 1), i = (int)sx_choose("a", 0, 7), j = (int)sx_choose("b", 0, 7);
    auto make = [](int i) -> Serie {
        switch (i) {
        case 0: return Serie();
        case 1: return Serie(1, 0u);
        case 2: return Serie(1, Array{3, 1, 2});
        case 3: return Serie(3, Array{3, 1, 2});
        case 4: return Serie(3, Array{3, 1, 2, 1, 0, 0, 2, 2, 5, 1, 1, 1});
        case 5: return Serie(2, Array{3, 1, 2, 7}, 2);
        case 6: return Serie(6, Array{3, 1, 2, 7, 0, 1}, 3);
        default: return Serie(5, Array{3, 1, 2, 7, 1, 1, 1, 1, 1, 4}, 4);
        }
    };
    if (op == na - 1) return; // parallel_execute: see C13
    Op f = op < na ? any[op] : op < na + ns ? scalars[op - na] : op < na + ns + nv ? vectors[op - na - ns] : op < na + ns + nv + nf ? fixed[op - na - ns - nv] : more[op - na - ns - nv - nf];
    Serie a = make(i), b = make(j);
    Serie ka = a, kb = b;
    freeze(a, true); freeze(b, true);
    uint64_t heap = sx_live_heap();
    int o = sx_outcome([&] { Out r = f(a, b); });
    sx_assert(sx_live_heap() == heap, "no memory is kept, whatever the outcome");
    freeze(a, false); freeze(b, false);
    sx_assert(o != 3, "only standard exceptions");
    same_out({a}, {ka}, "inputs unchanged, whatever the outcome");
    same_out({b}, {kb}, "inputs unchanged, whatever the outcome");
}
// BOUND big: 29 operations on a Serie of 257 scalars or 40 vectors of 3: frozen inputs, repeated, aliased and assigned over
SX_ENTRY(big, "shards=4") {
    int op = (int)sx_choose("op#", 0, 28), k = sx_choose("k", 0, 1) ? 3 : 1;
    uint32_t n = k == 1 ? 257 : 40;
    Array a = sx_vec("a", (size_t)k * n), b = sx_vec("b", (size_t)k * n);

    pure(any[op], k, n, 3, a, b);
}
