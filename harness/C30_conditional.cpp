#include "h.h"
#include <dataframe/functional/map.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
using namespace df;
// BOUND check_vector: itemSize 1,2,3,4,6,9, count 0..5, any predicate of (item, index), any values; array callback
SX_ENTRY(check_vector, "shards=2") {
    Shape s = small_shape(0, 5);
    Array v = sx_vec("v", (size_t)s.k * s.n);
    Serie x(s.k, v, 2);
    uint32_t calls = 0;
    Serie r = cond::check(x, [&](const Array &a, uint32_t i) {
        sx_assert(i == calls++, "called once per item, in order");
        sx_assert(a.size() == (size_t)s.k, "with the whole item");
        for (int j = 0; j < s.k; j++) sx_assert_same(a[j], v[s.k * i + j], "with the item");
        return pr("p", a, i);
    });
    sx_assert(calls == s.n, "called once per item");
    same_shape(r, 1, s.n);
    for (uint32_t i = 0; i < s.n; i++) sx_assert_num(r.scalar(i), pr("p", item_of(v, s.k, i), i) ? 1 : 0, "1 where the predicate holds, 0 elsewhere");
    same_serie(x, s.k, s.n, 2, v);
}
// BOUND check_scalar: scalar Series of 0..7 items, any predicate of (value, index), any values
SX_ENTRY(check_scalar, "") {
    uint32_t n = (uint32_t)sx_choose("count", 0, 7);
    Array v = sx_vec("v", n);
    Serie x(1, v);
    Serie r = cond::check(x, [&](double a, uint32_t i) { return pr1("p", a, i); });
    same_shape(r, 1, n);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(r.scalar(i), pr1("p", v[i], i) ? 1 : 0, "1 where the predicate holds, 0 elsewhere");
    same_values(x, v, "input unchanged");
}
// BOUND check_big: 28 shapes up to 1025 items and itemSize 260, 8 selection patterns, array and scalar callbacks
SX_ENTRY(check_big, "shards=4") {
    Shape s = big_shape();
    Mask m = mask_for(s.n);
    Array v = sx_vec("v", (size_t)s.k * s.n);
    Serie x(s.k, v);
    Serie r = s.k == 1 && sx_choose("scalar", 0, 1) ? cond::check(x, [&](double, uint32_t i) { return m(i); }) : cond::check(x, [&](const Array &, uint32_t i) { return m(i); });
    same_shape(r, 1, s.n);
    for (uint32_t i = 0; i < s.n; i++) sx_assert_num(r.scalar(i), m(i) ? 1 : 0, "1 where the predicate holds, 0 elsewhere");
    same_values(x, v, "input unchanged");
}
// BOUND if_vector: itemSize 1,2,3,4,6,9, count 1..4, any predicate of the item, any two functions of (item, index) to scalars or to 3 components
SX_ENTRY(if_vector, "shards=2") {
    Shape s = small_shape(1, 4);
    int out = sx_choose("out", 0, 1) ? 3 : 1;
    Array v = sx_vec("v", (size_t)s.k * s.n);
    Serie x(s.k, v, 2);
    auto make = [&](const char *f, const Array &a, uint32_t i) { Array r; for (int j = 0; j < out; j++) r.push_back(fn(f, a, i * 4 + j)); return r; };
    uint32_t calls = 0;
    Serie r = cond::if_then_else(x, [&](const Array &a) { return pr("p", a, 0); },
        [&](const Array &a, uint32_t i, const Serie &c) { calls++; sx_assert(&c == &x, "the whole Serie is passed"); return make("f", a, i); },
        [&](const Array &a, uint32_t i, const Serie &c) { calls++; sx_assert(&c == &x, "the whole Serie is passed"); return make("g", a, i); });
    sx_assert(calls == s.n, "one of the two functions, once per item");
    same_shape(r, out, s.n);
    for (uint32_t i = 0; i < s.n; i++) {
        Array a = item_of(v, s.k, i);
        bool b = pr("p", a, 0);
        for (int j = 0; j < out; j++) sx_assert_num(r.asArray()[i * out + j], fn(b ? "f" : "g", a, i * 4 + j), "the first function where the predicate holds, the second elsewhere");
    }
    same_serie(x, s.k, s.n, 2, v);
}
// BOUND if_scalar: scalar Series of 0..6 items, any predicate of the value, any two functions of (value, index)
SX_ENTRY(if_scalar, "") {
    uint32_t n = (uint32_t)sx_choose("count", 0, 6);
    Array v = sx_vec("v", n);
    Serie x(1, v);
    uint32_t calls = 0;
    Serie r = cond::if_then_else(x, [&](double a) { return pr1("p", a, 0); },
        [&](double a, uint32_t i, const Serie &c) { sx_assert(i == calls++, "in order"); sx_assert(&c == &x, "the whole Serie is passed"); return fn1("f", a, i); },
        [&](double a, uint32_t i, const Serie &c) { sx_assert(i == calls++, "in order"); sx_assert(&c == &x, "the whole Serie is passed"); return fn1("g", a, i); });
    sx_assert(calls == n, "one of the two functions, once per item");
    items_shape(r, 1, n);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(r.scalar(i), fn1(pr1("p", v[i], 0) ? "f" : "g", v[i], i), "the first function where the predicate holds, the second elsewhere");
    same_values(x, v, "input unchanged");
}
// BOUND if_big: 28 shapes up to 1025 items, 8 selection patterns, functions that use the index and the whole Serie
SX_ENTRY(if_big, "shards=4") {
    Shape s = big_shape();
    Mask m = mask_for(s.n);
    Array v = sx_vec("v", (size_t)s.k * s.n);
    Serie x(s.k, v);
    uint32_t at = 0;
    Serie r = cond::if_then_else(x, [&](const Array &) { return m(at); },
        [&](const Array &a, uint32_t i, const Serie &) { at++; return Array{a[0], double(i)}; },
        [&](const Array &a, uint32_t i, const Serie &c) { at++; return Array{c.value(s.n - 1 - i)[0], -double(i)}; });
    same_shape(r, 2, s.n);
    for (uint32_t i = 0; i < s.n; i++) {
        sx_assert_same(r.asArray()[2 * i], m(i) ? v[s.k * i] : v[s.k * (s.n - 1 - i)], "the value the chosen function gave");
        sx_assert_num(r.asArray()[2 * i + 1], m(i) ? double(i) : -double(i), "with its index");
    }
    same_values(x, v, "input unchanged");
}
// BOUND throws: a predicate or function that throws at any item of 4: the exception passes through, the input is unchanged, nothing is kept
SX_ENTRY(throws, "") {
    int k = sx_choose("k", 0, 1) ? 3 : 1;
    uint32_t at = (uint32_t)sx_choose("at", 0, 3);
    int what = (int)sx_choose("what", 0, 2);
    Array v = sx_vec("v", (size_t)k * 4);
    Serie x(k, v);
    uint64_t heap = sx_live_heap();
    int o = sx_outcome([&] {
        if (what == 0) cond::check(x, [&](const Array &, uint32_t i) { if (i == at) throw 7; return i % 2 == 0; });
        else cond::if_then_else(x, [&](const Array &a) { return pr("p", a, 0); },
            [&](const Array &a, uint32_t i, const Serie &) { if (i == at) throw 7; return a; },
            [&](const Array &a, uint32_t i, const Serie &) { if (i == at) throw 7; return a; });
    });
    sx_assert(o == 3, "the exception of the callback passes through");
    sx_assert(sx_live_heap() == heap, "nothing is kept");
    same_values(x, v, "input unchanged");
}
// BOUND huge: 65541 items of 1 and 3 components (beyond 16-bit indices): check and if_then_else
SX_ENTRY(huge, "shards=4 max-steps=4000000000") {
    uint32_t n = HUGE_N, f = (uint32_t)sx_choose("form!", 0, 3), k = f % 2 ? 3 : 1, at = 0, bad = 0;
    Array v = huge_vec("v", k, n), w;
    Serie x((int)k, v), r;
    auto p = [n](uint32_t i) { return i % 3 == 0 || i + 3 > n; };
    if (f == 0) r = cond::check(x, [&](double, uint32_t i) { bad |= i ^ at++; return p(i); });
    else if (f == 1) r = cond::check(x, [&](const Array &, uint32_t i) { bad |= i ^ at++; return p(i); });
    else if (f == 2) r = cond::if_then_else(x, [&](double) { return p(at); }, [&](double a, uint32_t i, const Serie &) { bad |= i ^ at++; return a; }, [&](double, uint32_t i, const Serie &) { bad |= i ^ at++; return (double)i; });
    else r = cond::if_then_else(x, [&](const Array &) { return p(at); }, [&](const Array &a, uint32_t i, const Serie &) { bad |= i ^ at++; return Array{a[2], 1.0}; }, [&](const Array &a, uint32_t i, const Serie &) { bad |= i ^ at++; return Array{(double)i, a[0]}; });
    for (uint32_t i = 0; i < n; i++) {
        if (f < 2) w.push_back(p(i) ? 1 : 0);
        else if (f == 2) w.push_back(p(i) ? v[i] : i);
        else { w.push_back(p(i) ? v[3 * (size_t)i + 2] : i); w.push_back(p(i) ? 1.0 : v[3 * (size_t)i]); }
    }
    sx_assert(at == n && bad == 0, "once per item, in order, with its index");
    same_shape(r, f == 3 ? 2 : 1, n);
    huge_same(r.asArray(), w, "decided item by item");
}
