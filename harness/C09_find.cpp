#include "h.h"
#include <dataframe/functional/find.h>
using namespace df;
template <class P> static auto run(int form, const P &p, const Serie &s) { return form ? makeFind(p)(s) : find(p, s); }
template <class D> static void scalar(uint32_t n, D decide) {
    Array v = sx_vec("v", n);
    Serie s(1, v);
    uint32_t last = 0, calls = 0;
    auto r = run((int)sx_choose("form", 0, 1), [&](double x, uint32_t i) -> bool { sx_assert(i < n, "index in range"); sx_assert_same(x, v[i], "the predicate receives the item"); last = i; calls++; return decide(Array{x}, i); }, s);
    uint32_t first = n;
    for (uint32_t i = 0; i < n && first == n; i++) if (decide(Array{v[i]}, i)) first = i;
    sx_assert(r.found == (first < n), "found exactly when an item matches");
    sx_assert((bool)r == r.found, "converts to found");
    if (first < n) {
        sx_assert(r.index == first, "the first matching index");
        sx_assert_same(r.value, v[first], "the first matching item");
        sx_assert(last == first && calls == first + 1, "not evaluated after the first match");
    }
    same_values(s, v, "input unchanged");
}
template <class D> static void vector(int k, uint32_t n, D decide) {
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v);
    uint32_t last = 0, calls = 0;
    auto r = run((int)sx_choose("form", 0, 1), [&](const Array &x, uint32_t i) -> bool { sx_assert(i < n && x.size() == (size_t)k, "the predicate receives whole items"); for (int j = 0; j < k; j++) sx_assert_same(x[j], v[(size_t)i * k + j], "the predicate receives the item"); last = i; calls++; return decide(x, i); }, s);
    uint32_t first = n;
    for (uint32_t i = 0; i < n && first == n; i++) if (decide(item_of(v, k, i), i)) first = i;
    sx_assert(r.found == (first < n), "found exactly when an item matches");
    sx_assert((bool)r == r.found, "converts to found");
    if (first < n) {
        sx_assert(r.index == first, "the first matching index");
        sx_assert(r.value.size() == (size_t)k, "the whole item is returned");
        for (int j = 0; j < k; j++) sx_assert_same(r.value[j], v[(size_t)first * k + j], "the first matching item");
        sx_assert(last == first && calls == first + 1, "not evaluated after the first match");
    }
    same_values(s, v, "input unchanged");
}
// BOUND scalar_all: 0..7 scalar items, every predicate
SX_ENTRY(scalar_all, "") { scalar((uint32_t)sx_choose("count", 0, 7), [](const Array &x, uint32_t i) { return pr("p", x, i); }); }
// BOUND vector_all: itemSize 2,3,4,6,9, 0..6 items, every predicate
SX_ENTRY(vector_all, "") {
    static const int ks[] = {2, 3, 4, 6, 9};
    int k = ks[sx_choose("k", 0, 4)];
    vector(k, (uint32_t)sx_choose("count", 0, 6), [](const Array &x, uint32_t i) { return pr("p", x, i); });
}
// BOUND big: the shapes of big_shape, first match at 0, 1, the middle, the last but one, the last, or nowhere; later items matching or not
SX_ENTRY(big, "shards=2") {
    Shape s = big_shape();
    uint32_t n = s.n;
    uint32_t at[] = {0, 1, n / 2, n - 2, n - 1, n};
    uint32_t f = at[sx_choose("first", 0, 5)];
    bool rest = sx_choose("rest", 0, 1);
    auto d = [=](const Array &, uint32_t i) { return rest ? i >= f : i == f; };
    if (s.k == 1) scalar(n, d);
    else vector(s.k, n, d);
}
// BOUND values: first of 0..5 scalar values above an arbitrary bound
SX_ENTRY(values, "") {
    uint32_t n = (uint32_t)sx_choose("count", 0, 5);
    Array v = sx_vec("v", n);
    double b = sx_f64("bound");
    auto r = find([b](double x, uint32_t) { return x > b; }, Serie(1, v));
    uint32_t f = 0;
    while (f < n && !(v[f] > b)) f++;
    sx_assert(r.found == (f < n), "found exactly when an item matches");
    if (f < n) { sx_assert(r.index == f, "the first matching index"); sx_assert_same(r.value, v[f], "the first matching item"); }
}
// BOUND wrong_kind: itemSize 1..4, count 0..3, a predicate of the other kind
SX_ENTRY(wrong_kind, "") {
    int k = (int)sx_choose("k", 1, 4);
    Serie s = sx_serie("v", k, (uint32_t)sx_choose("n", 0, 3));
    bool called = false;
    int o = k == 1 ? sx_outcome([&] { find([&](const Array &, uint32_t) -> bool { called = true; return true; }, s); })
                   : sx_outcome([&] { find([&](double, uint32_t) -> bool { called = true; return true; }, s); });
    sx_assert(o == 1 && !called, "a predicate of the wrong kind is rejected with invalid_argument");
}
// BOUND huge: 65541 items of 1 or 3 components; the first match at 65535, 65536, the last place or nowhere (beyond 16-bit indices)
SX_ENTRY(huge, "shards=2 max-steps=4000000000") {
    uint32_t n = HUGE_N, k = sx_choose("vec!", 0, 1) ? 3 : 1, calls = 0;
    static const uint32_t at[] = {65535, 65536, HUGE_N - 1, HUGE_N};
    Array v = huge_vec("v", k, n);
    Serie s((int)k, v);
    uint32_t first = at[sx_choose("at", 0, 3)];
    bool found;
    uint32_t index;
    Array value;
    if (k == 1) { auto r = find([&](double, uint32_t i) -> bool { calls++; return i >= first; }, s); found = r.found; index = r.index; value = Array{r.value}; }
    else { auto r = find([&](const Array &, uint32_t i) -> bool { calls++; return i >= first; }, s); found = r.found; index = r.index; value = r.value; }
    sx_assert(found == (first < n), "found exactly when an item matches");
    sx_assert(calls == (first < n ? first + 1 : n), "every item up to the first match is looked at once");
    if (first < n) {
        sx_assert(index == first, "the first matching index");
        sx_assert(value.size() == k, "the whole item is returned");
        for (uint32_t j = 0; j < k; j++) sx_assert_same(value[j], v[(size_t)first * k + j], "the first matching item");
    }
}
