#include "h.h"
#include <dataframe/functional/utils/sort.h>
using namespace df;
static Array noNaN(const char *name, size_t n) { Array v = sx_vec(name, n); for (double x : v) sx_assume(!std::isnan(x)); return v; }
static bool lexLess(const double *a, const double *b, int k) { for (int j = 0; j < k; j++) if (a[j] != b[j]) return a[j] < b[j]; return false; }
// the items of v in non-decreasing lexicographic order (insertion sort)
static Array oracle(const Array &v, int k) {
    Array r;
    for (size_t i = 0; i < v.size() / k; i++) {
        size_t at = r.size() / k;
        while (at > 0 && lexLess(&v[i * k], &r[(at - 1) * k], k)) at--;
        r.insert(r.begin() + at * k, v.begin() + i * k, v.begin() + (i + 1) * k);
    }
    return r;
}
static void natural(int k, const Array &v) {
    uint32_t n = (uint32_t)(v.size() / k), dim = sx_u32("dim");
    Serie s(k, v, dim);
    Serie r = utils::sort(s);
    same_shape(r, k, n);
    sx_assert(r.dimension() == dim, "result dimension");
    Array w = oracle(v, k);
    for (size_t i = 0; i < w.size(); i++) sx_assert(r.asArray()[i] == w[i], "the items in non-decreasing order");
    same_values(s, v, "input unchanged");
}
// BOUND scalars: 0..5 arbitrary numbers (6 in the thorough tier)
SX_ENTRY(scalars, "shards=8 wall=250") {
    uint32_t n = (uint32_t)sx_choose("count", 0, 5 + sx_thorough());
    natural(1, noNaN("v", n));
}
// BOUND vectors: 0..3 items of 2 components, 0..2 items of 3 or 4 components, arbitrary values
SX_ENTRY(vectors, "shards=4") {
    uint32_t n = (uint32_t)sx_choose("count#", 0, 3);
    int k = (int)sx_choose("k#", 2, 4);
    sx_assume(n < 3 || k == 2);
    natural(k, noNaN("v", (size_t)k * n));
}
static Array pattern(int p, uint32_t n) {
    Array v;
    uint32_t x = 12345;
    for (uint32_t i = 0; i < n; i++) {
        x = x * 1664525u + 1013904223u;
        switch (p) {
        case 0: v.push_back(i); break;
        case 1: v.push_back(n - i); break;
        case 2: v.push_back(3); break;
        case 3: v.push_back(i < n / 2 ? i : n - i); break;
        case 4: v.push_back((x >> 16) % 1000 - 500.0); break;
        case 5: v.push_back((x >> 20) % 4); break;
        default: v.push_back(i % 2 ? i : -(double)i); break;
        }
    }
    return v;
}
// BOUND long: 6, 7, 10, 16, 17, 33, 100 or 300 numbers in seven patterns (sorted, reversed, constant, organ pipe, two pseudo-random, alternating)
SX_ENTRY(long_, "shards=2") {
    static const uint32_t ns[] = {17, 33, 100, 300, 6, 7, 10, 16};
    natural(1, pattern((int)sx_choose("pattern", 0, 6), ns[sx_choose("n#", 0, 7)]));
}
// BOUND one_free: 7, 10, 17 or 24 numbers in seven patterns, one of them (first, middle or last) arbitrary
SX_ENTRY(one_free, "shards=4") {
    static const uint32_t ns[] = {17, 24, 7, 10};
    uint32_t n = ns[sx_choose("n", 0, 3)];
    Array v = pattern((int)sx_choose("pattern#", 0, 6), n);
    uint32_t at[] = {0, n / 2, n - 1};
    v[at[sx_choose("at", 0, 2)]] = noNaN("x", 1)[0];
    natural(1, v);
}
// BOUND long_vectors: 17 or 40 items of 2 or 3 components in seven patterns with many ties in the first component
SX_ENTRY(long_vectors, "shards=2") {
    uint32_t n = sx_choose("n", 0, 1) ? 40 : 17;
    int k = (int)sx_choose("k", 2, 3);
    Array a = pattern((int)sx_choose("pattern", 0, 6), n), b = pattern(4, n), v;
    for (uint32_t i = 0; i < n; i++) {
        v.push_back((double)((int)a[i] % 3));
        for (int j = 1; j < k; j++) v.push_back(j == 1 ? (double)((int)b[i] % 5) : a[i]);
    }
    natural(k, v);
}
static void by_keys(int k, uint32_t n, const Array &key, bool descending) {
    // component 0 identifies the item, the others are arbitrary
    Array v;
    for (uint32_t i = 0; i < n; i++) { v.push_back(i); for (int j = 1; j < k; j++) v.push_back(sx_f64("v")); }
    unsigned dim = sx_u32("dim");
    Serie s(k, v, dim), r;
    auto less = [&](double a, double b) { return descending ? key[(int)b] < key[(int)a] : key[(int)a] < key[(int)b]; };
    if (k == 1) r = utils::sort(s, [&](double a, double b) { return less(a, b); });
    else r = utils::sort(s, [&](const Array &a, const Array &b) { return less(a[0], b[0]); });
    same_shape(r, k, n);
    sx_assert(r.dimension() == dim, "result dimension");
    std::vector<int> seen(n, 0);
    const Array &o = r.asArray();
    for (uint32_t i = 0; i < n; i++) {
        int id = (int)o[i * k];
        sx_assert(id >= 0 && id < (int)n && !seen[id], "a permutation of the items");
        seen[id] = 1;
        for (int j = 1; j < k; j++) sx_assert_same(o[i * k + j], v[id * k + j], "components stay together");
        if (i) sx_assert(!less(o[i * k], o[(i - 1) * k]), "in the order of the comparator");
    }
    same_values(s, v, "input unchanged");
}
// BOUND comparator: 0..4 items of 1..3 components, comparators by arbitrary keys, ascending or descending
SX_ENTRY(comparator, "shards=8 wall=200") {
    uint32_t n = (uint32_t)sx_choose("count", 0, 4);
    int k = (int)sx_choose("k#", 1, 3);
    by_keys(k, n, noNaN("key", n), sx_choose("descending#", 0, 1));
}
// BOUND comparator_long: 17, 40, 100 items, keys in seven patterns
SX_ENTRY(comparator_long, "shards=4") {
    static const uint32_t ns[] = {17, 40, 100};
    uint32_t n = ns[sx_choose("n#", 0, 2)];
    by_keys((int)sx_choose("k", 1, 3), n, pattern((int)sx_choose("pattern", 0, 6), n), sx_choose("descending", 0, 1));
}
// BOUND greater: standard function object on 0..4 numbers, and on 0..2 items of 2 components
SX_ENTRY(greater, "shards=2") {
    bool vec = sx_choose("vec#", 0, 1);
    uint32_t n = (uint32_t)sx_choose("count", 0, vec ? 2 : 4);
    int k = vec ? 2 : 1;
    Array v = noNaN("v", (size_t)n * k);
    Serie r = utils::sort(Serie(k, v), std::greater<>{});
    same_shape(r, k, n);
    Array w = oracle(v, k);
    for (uint32_t i = 0; i < n; i++) for (int j = 0; j < k; j++) sx_assert(r.asArray()[i * k + j] == w[(n - 1 - i) * k + j], "the items in non-increasing order");
}
// BOUND huge: 65541 numbers, or items of 2 components whose second is symbolic around the limits of 8- and 16-bit indices, in a scattered order; natural order and comparator
SX_ENTRY(huge, "shards=4 max-steps=8000000000 wall=400") {
    uint32_t n = HUGE_N, form = (uint32_t)sx_choose("form!", 0, 3), k = form % 2 ? 2 : 1;
    Array v, want((size_t)k * n);
    for (uint64_t i = 0; i < n; i++) {
        uint64_t key = i * 40507 % n; // a permutation: 40507 and 65541 have no common divisor
        v.push_back((double)key);
        if (k == 2) v.push_back(huge_edge(i, n) ? sx_f64("v") : (double)i);
        uint64_t at = form < 2 ? key : n - 1 - key;
        for (uint32_t j = 0; j < k; j++) want[at * k + j] = v[i * k + j];
    }
    Serie s((int)k, v, 2), r;
    if (form == 0 || form == 1) r = utils::sort(s);
    else if (form == 2) r = utils::sort(s, [](double a, double b) { return a > b; });
    else r = utils::sort(s, [](const Array &a, const Array &b) { return a[0] > b[0]; });
    huge_serie(r, k, n, 2, want);
}
