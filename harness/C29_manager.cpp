#include "h.h"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/functional/algebra/eigen.h>
#include <map>
#include <string>
using namespace df;
struct Stored { std::string name; int k; unsigned dim; Array v; };
using Want = std::map<std::string, Array>; // name -> values expected of it
static const uint32_t N = 2;               // items of every stored Serie
static Array column(const Array &v, int k, int at, int w = 1) {
    Array r;
    for (size_t i = 0; i < v.size() / k; i++) for (int j = 0; j < w; j++) r.push_back(v[i * k + at + j]);
    return r;
}
static std::vector<std::string> parts(int k, unsigned dim) {
    if (dim == 2 && k == 2) return {"x", "y"};
    if (dim == 2 && k == 3) return {"xx", "xy", "yy"};
    if (dim == 2 && k == 4) return {"xx", "xy", "yx", "yy"};
    if (dim != 2 && k == 3) return {"x", "y", "z"};
    if (dim != 2 && k == 6) return {"xx", "xy", "xz", "yy", "yz", "zz"};
    if (dim != 2 && k == 9) return {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"};
    std::vector<std::string> r;
    for (int i = 0; i < k; i++) r.push_back(std::to_string(i));
    return r;
}
static void components(Want &w, const Stored &s) {
    if (s.k == 1) return;
    auto p = parts(s.k, s.dim);
    for (int i = 0; i < s.k; i++) w.insert({s.name + p[i], column(s.v, s.k, i)});
}
static bool sym(const Stored &s) { return (s.dim == 2 && s.k == 3) || (s.dim == 3 && s.k == 6); }
// what is listed for the itemSize resolves to what it names, and nothing else is listed
static void listed(const Manager &m, uint32_t k, const Want &w, uint32_t items = N) {
    Strings got = m.names(k);
    sx_assert(got.size() == w.size(), "as many names as attributes");
    size_t i = 0;
    for (const auto &e : w) { // std::map: sorted, each once
        sx_assert(i < got.size() && got[i] == e.first, "the names, sorted, each once");
        i++;
        sx_assert(m.contains(k, e.first), "contains agrees with names");
        Serie s = m.serie(k, e.first);
        sx_assert(s.isValid(), "a listed name resolves");
        (void)items;
        same_shape(s, k, (uint32_t)(e.second.size() / k));
        same_values(s, e.second, "to exactly the values it names");
    }
}
static void unknown(const Manager &m, uint32_t k, const std::string &name) {
    sx_assert(!m.contains(k, name), "an unknown name is not contained");
    sx_assert(!m.serie(k, name).isValid(), "an unknown name gives an invalid Serie");
}
struct Kind { int k; unsigned dim; };
static const Kind kinds[] = {{1, 3}, {2, 3}, {3, 3}, {4, 3}, {5, 3}, {6, 3}, {9, 3}, {12, 3}, {1, 2}, {2, 2}, {3, 2}, {4, 2}, {6, 2}, {11, 2}};
// BOUND stored: one stored Serie of 14 itemSize/dimension kinds under 7 names, any values, a Manager of dimension 2 or 3 with Components before or after Coordinates or alone: every listed name for itemSizes 1..12, unknown names
SX_ENTRY(stored, "shards=4") {
    static const char *names[] = {"U", "displ", "x", "a b1", "positions2", "my indices", "Position"};
    Kind kd = kinds[sx_choose("kind#", 0, 13)];
    Stored s{names[sx_choose("name", 0, 6)], kd.k, kd.dim, sx_vec("v", (size_t)kd.k * N)};
    unsigned dim = sx_choose("dim", 0, 1) ? 3 : 2;
    int with = (int)sx_choose("with", 0, 3);
    Dataframe d;
    d.add(s.name, Serie(s.k, s.v, s.dim));
    Decomposers ds;
    if (with == 1) ds = {new Components()};
    if (with == 2) ds = {new Components(), new Coordinates()};
    if (with == 3) ds = {new Coordinates(), new Components()};
    Manager m(d, ds, dim);
    sx_assert(m.nbDecomposers() == ds.size(), "the decomposers are there");
    for (uint32_t k = 1; k <= 12; k++) {
        Want w;
        if (k == (uint32_t)s.k && dim == s.dim) w[s.name] = s.v;
        if (k == 1 && with) components(w, s);
        listed(m, k, w);
        unknown(m, k, "");
        unknown(m, k, "nope");
        unknown(m, k, s.name + "q");
        unknown(m, k, s.name + "99");
        unknown(m, k, "positions");
        if (k != (uint32_t)s.k) unknown(m, k, s.name);
    }
    same_serie(d[s.name], s.k, N, s.dim, s.v);
}
// BOUND mixed: a scalar, a vector and a symmetric matrix of fixed values stored with positions (itemSize 2 or 3) and indices (itemSize 3 or 4) or without, every one of the 128 combinations of the seven decomposers in two orders, Manager of dimension 2 or 3, any positions and vector values
SX_ENTRY(mixed, "shards=8") {
    int mask = (int)sx_choose("decomposers#", 0, 127);
    bool rev = sx_choose("reverse", 0, 1);
    int pk = (int)sx_choose("positions", 0, 2), ik = 3; // 0: none; 2D or 3D
    if (pk) pk++;
    if (pk == 3 && sx_choose("quads", 0, 1)) ik = 4;
    unsigned dim = rev ? 2 : 3; // of the Manager and of the matrix
    std::vector<Stored> st;
    st.push_back({"T", 1, dim, sx_vec("t", N)});
    st.push_back({"U", (int)dim, dim, sx_vec("u", dim * N)});
    if (dim == 2) st.push_back({"S", 3, 2, {2, 1, 5, -1, 0.5, 3}});
    else st.push_back({"S", 6, 3, {2, 1, 0, 5, 0, 7, -1, 0, 0.5, 3, 0, 4}});
    Dataframe d;
    for (auto &s : st) d.add(s.name, Serie(s.k, s.v, s.dim));
    Array p = sx_vec("p", (size_t)pk * 4), t = ik == 3 ? Array{0, 1, 2, 2, 1, 3, 0, 2, 3} : Array{0, 1, 2, 3};
    if (pk) { d.add("positions", Serie(pk, p)); d.add("indices", Serie(ik, t)); }
    uint64_t heap = sx_live_heap();
    {
        Decomposers ds;
        for (int b = 0; b < 7; b++) {
            int i = rev ? 6 - b : b;
            if (!(mask >> i & 1)) continue;
            switch (i) {
            case 0: ds.push_back(new Components()); break;
            case 1: ds.push_back(new Coordinates()); break;
            case 2: ds.push_back(new Normals()); break;
            case 3: ds.push_back(new Area()); break;
            case 4: ds.push_back(new Valence()); break;
            case 5: ds.push_back(new EigenValues()); break;
            default: ds.push_back(new EigenVectors());
            }
        }
        bool later = ds.size() > 1 && (mask & 1);
        Decomposer *last = later ? ds.back() : nullptr;
        if (later) ds.pop_back();
        Manager m(d, ds, dim);
        if (later) m.add(last);
        sx_assert(m.nbDecomposers() == ds.size() + (later ? 1 : 0), "the decomposers are there");
        bool mesh = pk == 3 && ik == 3;
        for (uint32_t k = 1; k <= 6; k++) {
            Want w;
            for (auto &s : st) {
                if (k == (uint32_t)s.k && s.dim == dim) w[s.name] = s.v;
                if (k == 1 && (mask & 1)) components(w, s);
                if (!sym(s)) continue;
                Serie S(s.k, s.v, s.dim);
                if (k == 1 && (mask & 32)) { Array e = algebra::eigenValues(S).asArray(); for (unsigned i = 0; i < dim; i++) w[s.name + std::to_string(i + 1)] = column(e, dim, i); }
                if (k == dim && (mask & 64)) { Array e = algebra::eigenVectors(S).asArray(); for (unsigned i = 0; i < dim; i++) w[s.name + std::to_string(i + 1)] = column(e, dim * dim, i * dim, dim); }
            }
            if (k == 1 && (mask & 2) && pk) for (int i = 0; i < pk; i++) w[std::string(1, "xyz"[i])] = column(p, pk, i);
            // normals and areas of the three triangles: C24 decides their values; here, that they are those of the decomposer
            if (k == 3 && (mask & 4) && mesh) w["normals"] = Normals().serie(d, 3, "normals").asArray();
            if (k == 1 && (mask & 8) && mesh) w["area"] = Area().serie(d, 1, "area").asArray();
            if (k == 1 && (mask & 16) && pk && ik == 3) w["val"] = {2, 2, 3, 2};
            listed(m, k, w);
            unknown(m, k, "nope");
            if (!(mask & 2)) unknown(m, k, "x");
            if (!(mask & 32) && k == 1) unknown(m, k, "S1");
        }
    }
    sx_assert(sx_live_heap() == heap, "the Manager releases its decomposers");
    for (auto &s : st) same_values(d[s.name], s.v, "the Dataframe is unchanged");
}
// BOUND dims: Series of dimensions 0..5 (or 17) and itemSizes 1..9 with the eigen decomposers and Components: every listed name resolves
SX_ENTRY(dims, "shards=2") {
    static const unsigned dm[] = {0, 1, 2, 3, 4, 5, 17};
    unsigned dim = dm[sx_choose("dim#", 0, 6)];
    int k = (int)sx_choose("itemSize", 1, 9);
    Array v;
    for (int i = 0; i < k; i++) v.push_back((i * 7 % 5) + 1.0);
    Dataframe d;
    d.add("S", Serie(k, v, dim));
    Manager m(d, {new EigenValues(), new EigenVectors(), new Components()}, dim);
    Stored s{"S", k, dim, v};
    for (uint32_t q = 1; q <= 9; q++) {
        Strings got = m.names(q);
        size_t n = 0;
        if (q == (uint32_t)k) n++;
        if (q == 1) n += (k > 1 ? k : 0) + (sym(s) ? dim : 0);
        if (sym(s) && q == dim) n += dim;
        sx_assert(got.size() == n, "as many names as attributes");
        for (size_t i = 0; i < got.size(); i++) {
            sx_assert(i == 0 || got[i - 1] < got[i], "sorted, each once");
            Serie r = m.serie(q, got[i]);
            sx_assert(r.isValid(), "a listed name resolves");
            same_shape(r, q, 1);
        }
        for (const char *u : {"S0q", "S7", "", "1", "xx"}) sx_assert(m.contains(q, u) || !m.serie(q, u).isValid(), "an unknown name gives an invalid Serie");
    }
}
// BOUND pairs: two stored Series of any two of the 14 kinds, one name a prefix of the other or not; stored Series win over components of the same name
SX_ENTRY(pairs, "shards=4") {
    Kind a = kinds[sx_choose("first#", 0, 13)], b = kinds[sx_choose("second", 0, 13)];
    static const char *pn[][2] = {{"A", "B"}, {"U", "Ux"}, {"U", "U0"}, {"U", "UU"}};
    int nm = (int)sx_choose("names", 0, 3);
    Stored s{pn[nm][0], a.k, a.dim, sx_vec("a", (size_t)a.k)}, t{pn[nm][1], b.k, b.dim, sx_vec("b", (size_t)b.k)};
    Dataframe d;
    if (sx_choose("order", 0, 1)) { d.add(t.name, Serie(t.k, t.v, t.dim)); d.add(s.name, Serie(s.k, s.v, s.dim)); }
    else { d.add(s.name, Serie(s.k, s.v, s.dim)); d.add(t.name, Serie(t.k, t.v, t.dim)); }
    Manager m(d, {new Components()}, 3);
    Want one, ca, cb;
    components(ca, s); components(cb, t);
    for (uint32_t k = 1; k <= 12; k++) {
        Want w;
        if (k == (uint32_t)s.k && s.dim == 3) w[s.name] = s.v;
        if (k == (uint32_t)t.k && t.dim == 3) w[t.name] = t.v;
        if (k == 1) {
            // a stored scalar of the same name wins, whatever its dimension
            for (auto &e : ca) { if (cb.count(e.first)) return; w[e.first] = t.k == 1 && e.first == t.name ? t.v : e.second; }
            for (auto &e : cb) w[e.first] = s.k == 1 && e.first == s.name ? s.v : e.second;
        }
        listed(m, k, w);
    }
}
// BOUND named: Coordinates, Normals, Area, Valence under other names, 1..4 coordinate names, positions with 1..4 components
SX_ENTRY(named, "shards=2") {
    int pk = (int)sx_choose("positions#", 1, 4), nn = (int)sx_choose("names", 1, 4);
    Strings cn;
    for (int i = 0; i < nn; i++) cn.push_back(std::string(1, "edhf"[i]) + "1");
    Array p = sx_vec("p", (size_t)pk * 3);
    Dataframe d;
    d.add("indices", Serie(3, {0, 1, 2}));
    d.add("positions", Serie(pk, p));
    Manager m(d, {new Coordinates(cn), new Normals("N"), new Area("A"), new Valence("x")});
    for (uint32_t k = 1; k <= 4; k++) {
        Want w;
        if (k == 1) {
            for (int i = 0; i < nn && i < pk; i++) w[cn[i]] = column(p, pk, i);
            w["x"] = {1, 1, 1};
            if (pk == 3) w["A"] = Area("A").serie(d, 1, "A").asArray();
        }
        if (k == 3 && pk == 3) w["N"] = Normals("N").serie(d, 3, "N").asArray();
        listed(m, k, w);
        unknown(m, k, "normals");
        unknown(m, k, "area");
        unknown(m, k, "val");
    }
}
// BOUND user: user-defined decomposers for itemSizes 1..3 from a stored Serie of any values, capturing state by value; also one whose callback gives nothing, and a name that a stored Serie has
SX_ENTRY(user, "") {
    int k = (int)sx_choose("itemSize", 1, 3);
    Array u = sx_vec("u", 3 * N), shift = sx_vec("s", 1);
    Dataframe d;
    d.add("U", Serie(3, u));
    uint64_t heap = sx_live_heap();
    {
        Manager m(d, {});
        Array a;
        for (uint32_t i = 0; i < N; i++) for (int j = 0; j < k; j++) a.push_back(u[3 * i + (j + 1) % 3]);
        {
            Array keep = shift; // lives shorter than the decomposer
            m.add(new UserDefinedDecomposer(k, "turned", [k, keep](const Dataframe &f) {
                if (keep.size() != 1) return Serie();
                return f["U"].map([k](const Array &x, uint32_t) { Array r; for (int j = 0; j < k; j++) r.push_back(x[(j + 1) % 3]); return r; });
            }));
        }
        m.add(new UserDefinedDecomposer(2, "none", [](const Dataframe &f) { return f["missing"]; }));
        m.add(new UserDefinedDecomposer(3, "U", [](const Dataframe &) { return Serie(3, {1, 2, 3}); }));
        sx_assert(m.nbDecomposers() == 3, "the decomposers are there");
        for (uint32_t q = 1; q <= 4; q++) {
            Want w;
            if (q == 3) w["U"] = u;
            if (q == (uint32_t)k) w["turned"] = a;
            listed(m, q, w);
            unknown(m, q, "none");
            if (q != (uint32_t)k) unknown(m, q, "turned");
        }
    }
    sx_assert(sx_live_heap() == heap, "the Manager releases its decomposers");
}
// BOUND live: the Manager sees what is added to the Dataframe, and changed in it, after its construction
SX_ENTRY(live, "") {
    Dataframe d;
    Manager m(d, {new Components()});
    listed(m, 1, {});
    unknown(m, 3, "U");
    Array u = sx_vec("u", 6), w = sx_vec("w", 6);
    d.add("U", Serie(3, u));
    Want c;
    components(c, {"U", 3, 3, u});
    listed(m, 1, c);
    listed(m, 3, {{"U", u}});
    Serie got = m.serie(3, "U");
    d.get("U") = Serie(3, w);
    same_values(got, u, "a resolved Serie is the reader's own");
    c.clear();
    components(c, {"U", 3, 3, w});
    listed(m, 1, c);
    d.del("U");
    listed(m, 1, {});
}
// BOUND huge: a stored vector of 65541 items (beyond 16-bit indices), also positions: its components and coordinates
SX_ENTRY(huge, "shards=2 max-steps=4000000000") {
    uint32_t n = HUGE_N;
    bool pos = sx_choose("pos!", 0, 1);
    Array v = huge_vec("v", 3, n);
    Dataframe d;
    d.add(pos ? "positions" : "U", Serie(3, v));
    Decomposers ds;
    if (pos) ds = {new Coordinates()}; else ds = {new Components()};
    Manager m(d, ds, 3);
    static const char *un[] = {"Ux", "Uy", "Uz"}, *pn[] = {"x", "y", "z"};
    for (int j = 0; j < 3; j++) {
        Serie s = m.serie(1, pos ? pn[j] : un[j]);
        same_shape(s, 1, n);
        huge_same(s.asArray(), column(v, 3, j), "exactly the values it names");
    }
}
