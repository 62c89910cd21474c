#include "h.h"
#include <dataframe/Dataframe.h>
#include <dataframe/utils/nameOfSerie.h>
#include <map>
using namespace df;
struct Entry { int k; uint32_t n; Array v; };
struct Model { std::map<std::string, Entry> m; uint32_t cnt = 0; };
static const char *NAMES[] = {"a", "ab", "", "b"};

static void check(Dataframe &d, const Model &m) {
    const Dataframe &c = d;
    sx_assert(c.series().size() == m.m.size(), "exactly the stored names are present");
    for (auto *nm : NAMES) {
        auto it = m.m.find(nm);
        sx_assert(c.contains(String(nm)) == (it != m.m.end()), "contains tells whether the name is stored");
        const Serie &s = c.get(nm), &t = c[nm];
        if (it == m.m.end()) {
            sx_assert(s.count() == 0 && s.asArray().empty() && !s.isValid(), "an absent name resolves to an empty invalid Serie");
            sx_assert(t.count() == 0 && t.asArray().empty() && !t.isValid(), "an absent name resolves to an empty invalid Serie");
            continue;
        }
        sx_assert(&s == &t, "get and operator[] resolve a name to the same Serie");
        sx_assert(s.itemSize() == (uint32_t)it->second.k && s.count() == it->second.n, "a name resolves to the shape last stored under it");
        same_values(s, it->second.v, "a name resolves to the values last stored under it");
        sx_assert(nameOfSerie(c, s) == nm, "a stored Serie is found under its own name");
        sx_assert(c.contains(s) == (nm[0] != 0), "a stored Serie is contained");
        Serie copy(s);
        sx_assert(nameOfSerie(c, copy).empty() && !c.contains(copy), "a copy is not a stored Serie");
    }
    sx_assert(c.series().size() == m.m.size(), "constant look-ups add no name");
}
static void step(Dataframe &d, Model &m, int names) {
    int op = (int)sx_choose("op#", 0, 6);
    std::string nm = op <= 2 || op >= 5 ? NAMES[sx_choose("name", 0, names - 1)] : "";
    auto put = [&](int k, uint32_t n, const Array &v) {
        if (m.cnt == 0) m.cnt = n;
        m.m[nm] = Entry{k, n, v};
    };
    switch (op) {
    case 0: { // add or set
        static const Shape sh[] = {{1, 0}, {2, 2}, {1, 3}};
        Shape s = sh[sx_choose("shape", 0, 2)];
        Array v = sx_vec("v", (size_t)s.k * s.n);
        if (s.k == 1) d.add(nm, Serie(s.k, v));
        else d.set(nm, Serie(s.k, v));
        put(s.k, s.n, v);
        break;
    }
    case 1: // create
        d.create(nm, 3, 2);
        put(3, 2, Array(6, 0.0));
        break;
    case 2: // delete
        d.del(nm);
        m.m.erase(nm);
        break;
    case 3:
        d.clear();
        m.m.clear();
        break;
    case 4: { // re-count
        static const uint32_t cs[] = {0, 2, 5};
        uint32_t c = cs[sx_choose("new count", 0, 2)];
        d.setCount(c);
        if (c > 0 && c != m.cnt) {
            m.cnt = c;
            for (auto &p : m.m) { p.second.n = c; p.second.v = Array((size_t)c * p.second.k, 0.0); }
        }
        break;
    }
    case 5: { // write through a look-up
        sx_assume(m.m.count(nm) && m.m[nm].n > 0);
        double x = sx_f64("x");
        Serie &s = sx_choose("by", 0, 1) ? d[nm] : d.get(nm);
        s.setScalar(0, x);
        m.m[nm].v[0] = x;
        break;
    }
    default: { // store a Serie that already lives in the Dataframe under another name
        std::string from = NAMES[sx_choose("from", 0, names - 1)];
        sx_assume(m.m.count(from));
        Entry e = m.m[from];
        d.set(nm, static_cast<const Dataframe &>(d)[from]);
        put(e.k, e.n, e.v);
        break;
    }
    }
}
// BOUND history: every history of 4 operations (5 in the thorough tier) out of add, set, create, del, clear, setCount, write through a look-up, re-store; 1, 2, 3, 4, 4 names allowed at step 1 to 5; shapes {1,0},{2,2},{1,3}; every content
SX_ENTRY(history, "shards=8 wall=200") {
    Dataframe d;
    Model m;
    int n = 4 + sx_thorough();
    for (int t = 0; t < n; t++) step(d, m, t < 3 ? t + 1 : 4);
    check(d, m);
}
// BOUND many: 24 names stored, then one replaced, one deleted and one re-stored, in every combination of the listed positions; every content
SX_ENTRY(many, "shards=2") {
    Dataframe d;
    std::map<std::string, Entry> m;
    auto name = [](int i) { return "s" + std::string(1, (char)('a' + (i * 7) % 24)); };
    for (int i = 0; i < 24; i++) {
        Array v = sx_vec("v", 2);
        d.add(name(i), Serie(1, v));
        m[name(i)] = Entry{1, 2, v};
    }
    static const int pos[] = {0, 3, 11, 12, 23};
    int a = pos[sx_choose("replace", 0, 4)], b = pos[sx_choose("delete", 0, 4)], c = pos[sx_choose("again", 0, 4)];
    Array v = sx_vec("w", 2);
    d.set(name(a), Serie(2, v));
    m[name(a)] = Entry{2, 1, v};
    d.del(name(b));
    m.erase(name(b));
    v = sx_vec("w", 3);
    d.add(name(c), Serie(1, v));
    m[name(c)] = Entry{1, 3, v};
    const Dataframe &cd = d;
    sx_assert(cd.series().size() == m.size(), "exactly the stored names are present");
    for (int i = 0; i < 24; i++) {
        auto it = m.find(name(i));
        sx_assert(cd.contains(name(i)) == (it != m.end()), "contains tells whether the name is stored");
        if (it == m.end()) continue;
        const Serie &s = cd.get(name(i));
        sx_assert(s.itemSize() == (uint32_t)it->second.k && s.count() == it->second.n, "shape last stored");
        same_values(s, it->second.v, "values last stored");
        sx_assert(nameOfSerie(cd, s) == name(i), "found by identity under its name");
    }
}
// BOUND independence: a Dataframe of two Series, its copy, its assignment and the source Series; a write to any one of them
SX_ENTRY(independence, "") {
    Array v = sx_vec("v", 4), w = sx_vec("w", 3);
    Serie sv(2, v), sw(1, w);
    Dataframe d;
    d.add("v", sv);
    d.add("w", sw);
    Dataframe e(d), f;
    f.add("old", sw);
    f = d;
    double x = sx_f64("x");
    int who = (int)sx_choose("who", 0, 4);
    Array ev = v, ew = w;
    if (who == 0) d["v"].setScalar(1, x);
    if (who == 1) e.get("v").setScalar(1, x);
    if (who == 2) f["v"].setScalar(1, x);
    if (who == 3) sv.setScalar(1, x);
    if (who == 4) d.del("v");
    ev[1] = x;
    const Dataframe &cd = d, &ce = e, &cf = f;
    if (who == 4) sx_assert(!cd.contains(String("v")), "deleted");
    else same_serie(cd["v"], 2, 2, 3, who == 0 ? ev : v);
    same_serie(ce["v"], 2, 2, 3, who == 1 ? ev : v);
    same_serie(cf["v"], 2, 2, 3, who == 2 ? ev : v);
    same_values(sv, who == 3 ? ev : v, "source");
    same_serie(cd["w"], 1, 3, 3, w);
    same_serie(ce["w"], 1, 3, 3, w);
    same_serie(cf["w"], 1, 3, 3, w);
    sx_assert(!cf.contains(String("old")), "assignment replaces the content");
}
// BOUND references: a reference obtained from a look-up stays valid and current while other names are added (up to 5), replaced and deleted
SX_ENTRY(references, "") {
    Dataframe d;
    Array v = sx_vec("v", 4);
    d.add("m", Serie(2, v));
    Serie &r = d["m"];
    const Serie &cr = static_cast<const Dataframe &>(d)["m"];
    int n = (int)sx_choose("others", 0, 5);
    for (int i = 0; i < n; i++) d.add(std::string(1, (char)('j' + 2 * i)), Serie(1, sx_vec("o", 2)));
    if (sx_choose("delete one", 0, 1)) d.del("j");
    double x = sx_f64("x");
    r.setScalar(3, x);
    v[3] = x;
    same_serie(static_cast<const Dataframe &>(d)["m"], 2, 2, 3, v);
    Array w = sx_vec("w", 3);
    d.set("m", Serie(1, w));
    same_serie(cr, 1, 3, 3, w);
}
