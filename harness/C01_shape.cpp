#include "h.h"
using namespace df;
// BOUND ctor_count: itemSize 0..10, count 0..5, any dimension
SX_ENTRY(ctor_count, "") {
    int k = (int)sx_choose("itemSize", 0, 10);
    uint32_t n = (uint32_t)sx_choose("count", 0, 5);
    uint32_t d = sx_u32("dimension");
    Serie s(k, n, d);
    same_shape(s, k, n);
    sx_assert(s.dimension() == d, "dimension kept");
    sx_assert(s.isValid() == (k > 0), "valid iff itemSize > 0");
    for (double v : s.asArray()) sx_assert_num(v, 0, "zero initialised");
    Serie dflt(k, n);
    sx_assert(dflt.dimension() == 3, "default dimension is 3");
    Serie e;
    sx_assert(!e.isValid() && e.count() == 0 && e.size() == 0 && e.asArray().empty(), "default Serie is empty and invalid");
}
// BOUND ctor_values: itemSize 1..10, 0..24 values of any value (also numbers of values that are no multiple of itemSize), any dimension
SX_ENTRY(ctor_values, "") {
    int k = (int)sx_choose("itemSize", 1, 10);
    uint32_t m = (uint32_t)sx_choose("values", 0, 24);
    uint32_t d = sx_u32("dimension");
    Array v = sx_vec("v", m);
    Serie s(k, v, d);
    sx_assert(s.itemSize() == (uint32_t)k, "itemSize");
    sx_assert(s.count() == m / k, "count is the number of complete items");
    sx_assert(s.dimension() == d, "dimension kept");
    sx_assert(s.isValid(), "valid");
    same_values(s, v, "values kept in order");
    v.assign(m, 7.0);
    Serie t = toSerie(k, s.asArray(), d);
    sx_assert(t.itemSize() == (uint32_t)k && t.count() == m / k && t.dimension() == d, "toSerie shape");
    same_values(t, s.asArray(), "toSerie values");
}
SX_ENTRY(ctor_values_zero_item, "") {
    uint32_t m = (uint32_t)sx_choose("values", 0, 6);
    Array v = sx_vec("v", m);
    int o = sx_outcome([&] { Serie s(0, v); sx_assert(!s.isValid() && s.count() == 0, "itemSize 0 is invalid and holds no item"); });
    sx_assert(o == 0 || o == 1, "itemSize 0 is reported or yields an invalid Serie");
}
// BOUND ctor_list: literal lists of 6 and 9 arbitrary values, itemSize 1..9
SX_ENTRY(ctor_list, "") {
    int k = (int)sx_choose("itemSize", 1, 9);
    uint32_t d = sx_u32("dimension");
    double a = sx_f64("a"), b = sx_f64("b"), c = sx_f64("c"), e = sx_f64("e"), f = sx_f64("f"), g = sx_f64("g");
    Serie s(k, {a, b, c, e, f, g}, d);
    sx_assert(s.count() == 6u / k && s.itemSize() == (uint32_t)k && s.dimension() == d, "shape");
    same_values(s, Array{a, b, c, e, f, g}, "values kept in order");
    Serie t(k, {g, f, e, c, b, a, a, b, c});
    sx_assert(t.count() == 9u / k && t.dimension() == 3, "shape");
    same_values(t, Array{g, f, e, c, b, a, a, b, c}, "values kept in order");
}
static void check_copies(int k, uint32_t n) {
    uint32_t d = sx_u32("dimension"), d2 = sx_u32("dimension2");
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v, d);
    Serie c(s);
    same_serie(c, k, n, d, v);
    Serie cl = s.clone();
    same_serie(cl, k, n, d, v);
    Serie a(2, sx_vec("w", 6), d2);
    a = s;
    same_serie(a, k, n, d, v);
    Serie m(std::move(c));
    same_serie(m, k, n, d, v);
    Serie b;
    b = Serie(k, v, d);
    same_serie(b, k, n, d, v);
    Series vec;
    for (int i = 0; i < 3; i++) vec.push_back(s);
    for (auto &x : vec) same_serie(x, k, n, d, v);
    Serie &self = a;
    a = self;
    same_serie(a, k, n, d, v);
    // independence: writing to one of them changes none of the others
    double y = sx_f64("y");
    if (n > 0) {
        uint32_t p = (uint32_t)k * n - 1;
        a.setScalar(p, y);
        cl.setScalar(0, y);
        vec[1].asArray()[p] = y;
        b.reCount(n + 2);
        Array v1 = v; v1[p] = y;
        Array v0 = v; v0[0] = y;
        same_serie(s, k, n, d, v);
        same_serie(m, k, n, d, v);
        same_serie(a, k, n, d, v1);
        same_serie(cl, k, n, d, v0);
        same_serie(vec[0], k, n, d, v);
        same_serie(vec[1], k, n, d, v1);
        same_serie(vec[2], k, n, d, v);
        s.setScalar(p, y);
        same_serie(m, k, n, d, v);
    }
}
// BOUND copies: itemSize 1,2,3,4,6,9, count 0..4, any values and dimensions
SX_ENTRY(copies, "") { Shape s = small_shape(0, 4); check_copies(s.k, s.n); }
// BOUND copies_big: 28 shapes up to 1025 items and itemSize 260
SX_ENTRY(copies_big, "wall=250") { Shape s = big_shape(); check_copies(s.k, s.n); }
// BOUND recount: itemSize 1..9, count 0..5, new count 0..6 and 300, twice in a row
SX_ENTRY(recount, "") {
    int k = (int)sx_choose("itemSize", 1, 9);
    uint32_t n = (uint32_t)sx_choose("count", 0, 5);
    uint32_t c = (uint32_t)sx_choose("newCount", 0, 7);
    if (c == 7) c = 300;
    uint32_t d = sx_u32("dimension");
    Serie s(k, sx_vec("v", (size_t)k * n), d);
    for (int t = 0; t < 2; t++) {
        s.reCount(c);
        same_shape(s, k, c);
        sx_assert(s.dimension() == d, "dimension kept");
        for (double v : s.asArray()) sx_assert_num(v, 0, "reCount zeroes the values");
        if (c) { s.setScalar(k * c - 1, 5.0); sx_assert_num(s.scalar(k * c - 1), 5.0, "writable up to the last value"); }
    }
}
// BOUND huge: 65541 items of 1 or 3 components (and the 196623 values as one Serie); constructed, copied, assigned, cloned, stored, re-counted from and to that count
SX_ENTRY(huge, "shards=3 max-steps=4000000000") {
    uint32_t form = (uint32_t)sx_choose("form!", 0, 2), k = form == 1 ? 3 : 1, n = form == 2 ? 3 * HUGE_N : HUGE_N, d = sx_u32("dimension");
    Array v = huge_vec("v", k, n);
    Serie s((int)k, v, d), c(s), a(2, sx_vec("w", 6), 1), cl = s.clone(), m(std::move(c));
    a = s;
    Series st;
    st.push_back(s);
    st.push_back(s);
    for (const Serie *x : {(const Serie *)&s, (const Serie *)&a, (const Serie *)&cl, (const Serie *)&m, (const Serie *)&st[0]}) huge_serie(*x, k, n, d, v);
    a.setScalar(k * n - 1, 5.0);
    a.setScalar(65536, 6.0);
    huge_serie(s, k, n, d, v);
    s.reCount(form == 1 ? 65536 : 70001);
    huge_serie(s, k, form == 1 ? 65536 : 70001, d, Array((size_t)k * (form == 1 ? 65536 : 70001), 0.0));
    Serie z((int)k, n, d);
    huge_serie(z, k, n, d, Array((size_t)k * n, 0.0));
    z.reCount(7);
    huge_serie(z, k, 7, d, Array((size_t)k * 7, 0.0));
}
