#include "h.h"
#include <dataframe/Dataframe.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Valence.h>
using namespace df;
struct Mesh { uint32_t nv, nt; Array pos, ids; bool bad; };
static Array normal(const Mesh &m, uint32_t t) {
    auto at = [&](int c, int j) { return m.pos[3 * (uint32_t)m.ids[3 * t + c] + j]; };
    double u[3], w[3];
    for (int j = 0; j < 3; j++) { u[j] = at(1, j) - at(0, j); w[j] = at(2, j) - at(0, j); }
    return {u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]};
}
static Dataframe frame(const Mesh &m) {
    Dataframe d;
    d.add("positions", Serie(3, m.pos));
    d.add("other", Serie(1, Array(m.nv, 4.0)));
    d.add("indices", Serie(3, m.ids));
    return d;
}
static void check_mesh(const Mesh &m) {
    Serie p(3, m.pos), t(3, m.ids), r;
    Dataframe d = frame(m);
    // 0,1: normals; 2,3: areas; 4: valence
    int what = (int)sx_choose("what", 0, 4);
    int o = sx_outcome([&] {
        switch (what) {
        case 0: r = geo::normals(p, t); break;
        case 1: r = Normals("n").serie(d, 3, "n"); break;
        case 2: r = geo::areas(p, t); break;
        case 3: r = Area("a").serie(d, 1, "a"); break;
        default: r = Valence("v").serie(d, 1, "v");
        }
    });
    if (m.bad) { sx_assert(o == 1, "an index outside the positions is reported with invalid_argument"); return; }
    sx_assert(o == 0, "a mesh with valid indices is accepted");
    if (what == 4) {
        Array w(m.nv, 0.0);
        for (double x : m.ids) w[(uint32_t)x] += 1;
        items_shape(r, 1, m.nv);
        for (uint32_t i = 0; i < m.nv; i++) sx_assert(r.asArray()[i] == w[i], "the valence is the number of times triangles refer to the vertex");
    } else {
        items_shape(r, what < 2 ? 3 : 1, m.nt);
        for (uint32_t i = 0; i < m.nt; i++) {
            Array n = normal(m, i);
            if (what < 2) for (int j = 0; j < 3; j++) sx_assert_num(r.asArray()[3 * i + j], n[j], "the normal is the cross product of the edges");
            else sx_assert_num(r.asArray()[i], std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) / 2, "the area is half the length of the normal");
        }
    }
    same_values(p, m.pos, "input unchanged");
    same_values(t, m.ids, "input unchanged");
    same_values(d["positions"], m.pos, "input unchanged");
    same_values(d["indices"], m.ids, "input unchanged");
}
static Mesh mesh(uint32_t nv, std::vector<uint32_t> ids) {
    Mesh m{nv, (uint32_t)ids.size() / 3, sx_vec("p", 3 * nv), Array(ids.begin(), ids.end()), false};
    for (auto i : ids) m.bad = m.bad || i >= nv;
    return m;
}
// BOUND one: one triangle over 1..4 vertices, every choice of three indices from 0 to the number of vertices (one past the end), any positions; functions and decomposers
SX_ENTRY(one, "shards=4") {
    uint32_t nv = (uint32_t)sx_choose("vertices#", 1, 4);
    std::vector<uint32_t> ids;
    for (int i = 0; i < 3; i++) { ids.push_back((uint32_t)sx_choose("id", 0, 4)); sx_assume(ids[i] <= nv); }
    check_mesh(mesh(nv, ids));
}
// BOUND two: two triangles over 4 vertices: the first (0,1,2) or (2,1,3), the second every choice of three indices up to 4 (one past the end), any positions
SX_ENTRY(two, "shards=4") {
    std::vector<uint32_t> ids = sx_choose("first#", 0, 1) ? std::vector<uint32_t>{0, 1, 2} : std::vector<uint32_t>{2, 1, 3};
    for (int i = 0; i < 3; i++) ids.push_back((uint32_t)sx_choose("id", 0, 4));
    check_mesh(mesh(4, ids));
}
// BOUND big: fans and strips of 5, 6, 7, 10, 17, 40 and 100 triangles, any positions; one index out of bounds (first, middle or last triangle, by one or by a million) or none; also a mesh without triangles
SX_ENTRY(big, "shards=4") {
    static const uint32_t ns[] = {0, 17, 40, 100, 5, 6, 7, 10};
    uint32_t nt = ns[sx_choose("triangles#", 0, 7)];
    bool fan = sx_choose("fan#", 0, 1);
    std::vector<uint32_t> ids;
    for (uint32_t i = 0; i < nt; i++) { std::vector<uint32_t> t = fan ? std::vector<uint32_t>{0, i + 1, i + 2} : std::vector<uint32_t>{i, i + 1 + i % 2, i + 2 - i % 2}; ids.insert(ids.end(), t.begin(), t.end()); }
    int where = (int)sx_choose("bad", 0, 6);
    sx_assume(nt || where == 0);
    uint32_t at[] = {0, 3 * (nt / 2) + 1, 3 * nt - 1};
    if (where) ids[at[(where - 1) % 3]] = where > 3 ? nt + 1000000 : nt + 2;
    check_mesh(mesh(nt + 2, ids));
}
// BOUND laws: moving a triangle does not change its normal and area, swapping two vertices reverses the normal, turning the three vertices keeps it (real arithmetic, coordinates up to 100)
SX_ENTRY(laws, "mode=real") {
    Array p = sx_vec("p", 9), q, m = sx_vec("m", 3);
    for (double x : p) sx_assume(x >= -100 && x <= 100);
    for (double x : m) sx_assume(x >= -100 && x <= 100);
    for (int i = 0; i < 9; i++) q.push_back(p[i] + m[i % 3]);
    Serie P(3, p), Q(3, q);
    Serie a = geo::normals(P, Serie(3, Array{0, 1, 2})), b = geo::normals(Q, Serie(3, Array{0, 1, 2})), c = geo::normals(P, Serie(3, Array{0, 2, 1})), d = geo::normals(P, Serie(3, Array{1, 2, 0}));
    for (int j = 0; j < 3; j++) {
        sx_assert_num(b.asArray()[j], a.asArray()[j], "translation invariant");
        sx_assert_num(c.asArray()[j], -a.asArray()[j], "reversed");
        sx_assert_num(d.asArray()[j], a.asArray()[j], "kept by a turn");
    }
    Array t = geo::areas(Serie(3, Array{0, 0, 0, 3, 0, 0, 0, 4, 0}), Serie(3, Array{0, 1, 2})).asArray();
    sx_assert(t.size() == 1 && std::abs(t[0] - 6) < 1e-9, "a right triangle");
}
// BOUND missing: Dataframes without positions or indices, invalid Series, indices or positions of another itemSize
SX_ENTRY(missing, "") {
    Dataframe d;
    int k = (int)sx_choose("k", 1, 4), l = (int)sx_choose("l", 1, 4);
    bool p = sx_choose("positions", 0, 1), i = sx_choose("indices", 0, 1);
    sx_assume(!(k == 3 && l == 3 && p && i));
    Serie ps(k, sx_vec("p", 4 * k)), is(l, Array(2 * l, 1.0)), r;
    if (p) d.add("positions", ps);
    if (i) d.add("indices", is);
    auto ok = [&](int o) { return o == 1 || (o == 0 && !r.isValid()); };
    sx_assert(ok(sx_outcome([&] { r = Normals("n").serie(d, 3, "n"); })), "no normals");
    sx_assert(ok(sx_outcome([&] { r = Area("n").serie(d, 1, "n"); })), "no areas");
    if (l != 3 || !p || !i) sx_assert(ok(sx_outcome([&] { r = Valence("n").serie(d, 1, "n"); })), "no valence");
    sx_assert(ok(sx_outcome([&] { r = geo::normals(p ? ps : Serie(), i ? is : Serie()); })), "no normals");
    sx_assert(ok(sx_outcome([&] { r = geo::areas(p ? ps : Serie(), i ? is : Serie()); })) || !r.count(), "no areas");
}
// BOUND huge: 65541 vertices and a strip of 65539 triangles (beyond 16-bit indices), seven vertices symbolic: normals, areas and valence, functions and decomposers; an index one past the end, alone
SX_ENTRY(huge, "shards=5 max-steps=4000000000") {
    uint32_t nv = HUGE_N, nt = nv - 2, what = (uint32_t)sx_choose("what!", 0, 4);
    bool bad = sx_choose("bad", 0, 1);
    Mesh m{nv, nt, Array(3 * (size_t)nv), {}, bad};
    for (size_t i = 0; i < m.pos.size(); i++) m.pos[i] = (double)((i * 13) % 97) * 0.25;
    for (uint32_t i : {0u, 255u, 256u, 32768u, 65535u, 65536u, nv - 1}) for (int j = 0; j < 3; j++) m.pos[3 * (size_t)i + j] = sx_f64("p");
    for (uint32_t i = 0; i < nt; i++) for (uint32_t j = 0; j < 3; j++) m.ids.push_back(i % 2 ? nv - 1 - i - j : i + j);
    if (bad) m.ids[3 * (size_t)nt - 2] = nv;
    Serie p(3, m.pos), t(3, m.ids), r;
    Dataframe d;
    d.add("positions", p);
    d.add("indices", t);
    int o = sx_outcome([&] { r = what == 0 ? geo::normals(p, t) : what == 1 ? Normals("n").serie(d, 3, "n") : what == 2 ? geo::areas(p, t) : what == 3 ? Area("a").serie(d, 1, "a") : Valence("v").serie(d, 1, "v"); });
    sx_assert(o == (bad ? 1 : 0), "an index outside the positions is reported, a valid mesh is accepted");
    if (bad) return;
    uint32_t wrong = 0;
    if (what == 4) {
        Array w(nv, 0.0);
        for (double x : m.ids) w[(uint32_t)x] += 1;
        same_shape(r, 1, nv);
        huge_same(r.asArray(), w, "the valence is the number of times triangles refer to the vertex");
        return;
    }
    uint32_t q = what < 2 ? 3 : 1;
    same_shape(r, q, nt);
    for (uint32_t i = 0; i < nt; i++) {
        Array x = normal(m, i);
        if (q == 1) x = Array{std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) / 2};
        bool sym = false;
        for (int c = 0; c < 3; c++) sym = sym || huge_edge((uint32_t)m.ids[3 * (size_t)i + c], nv);
        for (uint32_t j = 0; j < q; j++) {
            double g = r.asArray()[(size_t)q * i + j];
            if (sym) sx_assert_num(g, x[j], "the normal and the area follow from the positions");
            else wrong |= !(std::fabs(g - x[j]) <= 1e-9 * (1 + std::fabs(x[j])));
        }
    }
    sx_assert(wrong == 0, "the normals and areas follow from the positions");
}
