#include "h.h"
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/concat.h>
using namespace df;
static void parts_of(const Series &p, uint32_t k, uint32_t n, unsigned dim, const Array &v) {
    uint32_t at = 0, lo = 0xffffffffu, hi = 0, prev = 0xffffffffu;
    for (auto &s : p) {
        uint32_t c = s.count();
        sx_assert(at + c <= n, "parts do not overlap");
        same_serie(s, k, c, dim, Array(v.begin() + (size_t)k * at, v.begin() + (size_t)k * (at + c)));
        sx_assert(c <= prev, "larger parts come first");
        prev = c;
        at += c;
        lo = std::min(lo, c);
        hi = std::max(hi, c);
    }
    sx_assert(at == n, "the parts cover the Serie");
    sx_assert(p.size() >= 1 && hi - lo <= 1, "sizes differ by at most one");
}
static void single(uint32_t parts, int k, uint32_t n) {
    Array v = sx_vec("v", (size_t)k * n);
    uint32_t dim = sx_u32("dim");
    Serie s(k, v, dim);
    Series p = utils::partition_n(parts, s);
    sx_assert(p.size() <= parts, "at most n parts");
    sx_assert(n < parts || p.size() == parts, "n parts when there are enough items");
    parts_of(p, k, n, dim, v);
    same_serie(utils::concat(p), k, n, dim, v);
    same_serie(s, k, n, dim, v);
}
// BOUND one: itemSize 1,2,3,4,6,9, count 0..7, 1..9 parts
SX_ENTRY(one, "shards=2") { Shape s = small_shape(0, 7); single((uint32_t)sx_choose("n", 1, 9), s.k, s.n); }
// BOUND one_big: the shapes of big_shape, 1,2,3,4,7,8,16,64 and count-1, count, count+1 parts
SX_ENTRY(one_big, "shards=4") {
    Shape s = big_shape();
    uint32_t ps[] = {1, 2, 3, 4, 7, 8, 16, 64, s.n - 1, s.n, s.n + 1};
    single(ps[sx_choose("n", 0, 10)], s.k, s.n);
}
// BOUND huge: 0..3 items split into 1000 parts at most
SX_ENTRY(huge, "") { single(1000, (int)sx_choose("k", 1, 3), (uint32_t)sx_choose("count", 0, 3)); }
static void several(uint32_t parts, uint32_t n, int three, const int *ks) {
    Array v[3];
    Series s;
    unsigned dim = sx_u32("dim");
    for (int i = 0; i < 2 + three; i++) { v[i] = sx_vec("v", (size_t)ks[i] * n); s.push_back(Serie(ks[i], v[i], dim)); }
    auto r = three ? utils::partition_n(parts, s[0], s[1], s[2]) : utils::partition_n(parts, s[0], s[1]);
    sx_assert(r.size() == s.size(), "one list of parts per Serie");
    for (size_t i = 0; i < s.size(); i++) {
        sx_assert(r[i].size() == parts, "exactly n parts of each Serie");
        parts_of(r[i], ks[i], n, dim, v[i]);
        for (uint32_t j = 0; j < parts; j++) sx_assert(r[i][j].count() == r[0][j].count(), "split at the same places");
    }
}
// BOUND more: two or three Series, itemSize 1..3, count 0..5, 1..6 parts
SX_ENTRY(more, "") {
    int ks[3] = {(int)sx_choose("k", 1, 3), (int)sx_choose("k", 1, 3), 2};
    several((uint32_t)sx_choose("n", 1, 6), (uint32_t)sx_choose("count", 0, 5), (int)sx_choose("three", 0, 1), ks);
}
// BOUND more_big: itemSizes 3,1,6; 17, 64, 100 items in 2, 3, 8, 16, 101 parts
SX_ENTRY(more_big, "") {
    int ks[3] = {3, 1, 6};
    static const uint32_t ns[] = {17, 64, 100}, ps[] = {2, 3, 8, 16, 101};
    several(ps[sx_choose("n", 0, 4)], ns[sx_choose("count", 0, 2)], (int)sx_choose("three", 0, 1), ks);
}
// BOUND bad: n = 0 for one to three Series; different counts 0..3
SX_ENTRY(bad, "") {
    Series s;
    for (int i = 0; i < 3; i++) s.push_back(sx_serie("v", i + 1, (uint32_t)sx_choose("count", 0, 3)));
    uint32_t n = (uint32_t)sx_choose("n", 0, 2);
    int m = (int)sx_choose("series", 1, 3);
    bool wrong = n == 0 || (m > 1 && s[0].count() != s[1].count()) || (m > 2 && s[0].count() != s[2].count());
    int o = sx_outcome([&] {
        if (m == 1) utils::partition_n(n, s[0]);
        else if (m == 2) utils::partition_n(n, s[0], s[1]);
        else utils::partition_n(n, s[0], s[1], s[2]);
    });
    sx_assert(o == (wrong ? 1 : 0), "n = 0 and different counts are rejected with invalid_argument");
}
// BOUND long_: 65541 items (beyond 16-bit indices) of 1 or 3 components in 2, 1000 and 257 parts, and two such Series in 3 and 1000 parts
SX_ENTRY(long_, "shards=5 max-steps=4000000000") {
    uint32_t form = (uint32_t)sx_choose("form!", 0, 4), k = form % 2 ? 3 : 1, n = HUGE_N;
    static const uint32_t ps[] = {2, 1000, 257, 3, 1000};
    uint32_t parts = ps[form];
    Array v = huge_vec("v", k, n), w = huge_vec("w", 2, form > 2 ? n : 0);
    Serie s((int)k, v, 2), t(2, w, 1);
    std::vector<Series> r;
    if (form < 3) r.push_back(utils::partition_n(parts, s));
    else { auto q = utils::partition_n(parts, s, t); for (auto &x : q) r.push_back(x); }
    for (size_t q = 0; q < r.size(); q++) {
        sx_assert(r[q].size() == parts, "exactly n parts");
        Array all;
        for (uint32_t i = 0; i < parts; i++) {
            const Serie &x = r[q][i];
            sx_assert(x.count() == n / parts + (i < n % parts ? 1 : 0), "sizes differ by at most one, the larger first");
            sx_assert(x.itemSize() == (q ? 2 : k) && x.dimension() == (q ? 1 : 2), "itemSize and dimension kept");
            all.insert(all.end(), x.asArray().begin(), x.asArray().end());
        }
        huge_same(all, q ? w : v, "the parts in order are the Serie");
    }
}
