#include "h.h"
#include <dataframe/functional/merge.h>
#include <dataframe/functional/utils/concat.h>
using namespace df;
static Array joined(const std::vector<Array> &v) { Array r; for (auto &a : v) r = cat(r, a); return r; }
static Array laced(const std::vector<Array> &v, uint32_t k) {
    Array r;
    for (uint32_t i = 0;; i++) {
        bool any = false;
        for (auto &a : v) if (i < a.size() / k) { r = cat(r, item_of(a, k, i)); any = true; }
        if (!any) return r;
    }
}
static void shape_values(const Serie &s, uint32_t k, const Array &v) { same_shape(s, k, (uint32_t)(v.size() / k)); same_values(s, v, "values"); }
static Serie run(int form, const Series &s) {
    switch (form) {
    case 0: return utils::concat(s);
    case 1: return s.size() == 1 ? utils::concat(s[0]) : s.size() == 2 ? utils::concat(s[0], s[1]) : s.size() == 3 ? utils::concat(s[0], s[1], s[2]) : utils::concat(s[0], s[1], s[2], s[3]);
    case 2: return s.size() == 1 ? merge(true, s[0]) : s.size() == 2 ? merge(true, s[0], s[1]) : s.size() == 3 ? merge(true, s[0], s[1], s[2]) : merge(true, s[0], s[1], s[2], s[3]);
    case 3: return s.size() == 1 ? merge(false, s[0]) : s.size() == 2 ? merge(false, s[0], s[1]) : s.size() == 3 ? merge(false, s[0], s[1], s[2]) : merge(false, s[0], s[1], s[2], s[3]);
    case 4: return merge(s[0], s[1]);
    case 5: return merge(s[0], s[1], true);
    case 6: return merge(s[0], s[1], false);
    default: return utils::make_concat(s[0])(s[1]);
    }
}
static void check(int form, uint32_t k, const std::vector<uint32_t> &ns) {
    std::vector<Array> v;
    Series s;
    for (uint32_t n : ns) { v.push_back(sx_vec("v", (size_t)k * n)); s.push_back(Serie((int)k, v.back())); }
    Serie r = run(form, s);
    bool lace = form == 3 || form == 6;
    shape_values(r, k, lace ? laced(v, k) : joined(v));
    for (size_t i = 0; i < s.size(); i++) shape_values(s[i], k, v[i]);
}
// BOUND small: one to three Series of itemSize 1..3 and 9, counts 0..3 each (four Series: counts 0..2), all calling forms
SX_ENTRY(small, "shards=4") {
    int m = (int)sx_choose("series#", 1, 4);
    static const uint32_t ks[] = {1, 2, 3, 9};
    uint32_t k = ks[sx_choose("k#", 0, 3)];
    int form = (int)sx_choose("form", 0, m == 2 ? 7 : 3);
    std::vector<uint32_t> ns;
    for (int i = 0; i < m; i++) ns.push_back((uint32_t)sx_choose("count", 0, m == 4 ? 2 : 3));
    check(form, k, ns);
}
// BOUND big: counts (16,1), (1,33), (17,16), (100,100), (0,64), (33,0,17), (5,65,20), (7,1,3,40), (6,7), (10,3), (14,6,7) with itemSize 1, 3, 6
SX_ENTRY(big, "shards=4") {
    static const uint32_t mix[11][5] = {{2, 16, 1}, {2, 1, 33}, {2, 17, 16}, {2, 100, 100}, {2, 0, 64}, {3, 33, 0, 17}, {3, 5, 65, 20}, {4, 7, 1, 3, 40}, {2, 6, 7}, {2, 10, 3}, {3, 14, 6, 7}};
    static const uint32_t ks[] = {1, 3, 6};
    const uint32_t *x = mix[sx_choose("mix#", 0, 10)];
    uint32_t k = ks[sx_choose("k", 0, 2)];
    int form = (int)sx_choose("form", 0, x[0] == 2 ? 6 : 3);
    check(form, k, std::vector<uint32_t>(x + 1, x + 1 + x[0]));
}
// BOUND twice: the same Serie given twice, itemSize 1..3, count 0..3
SX_ENTRY(twice, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 3), n = (uint32_t)sx_choose("count", 0, 3);
    Array v = sx_vec("v", (size_t)k * n);
    Serie s((int)k, v);
    int form = (int)sx_choose("form", 0, 7);
    Series two{s, s};
    Serie r;
    if (form == 0) r = utils::concat({s, s});
    else if (form == 1) r = utils::concat(s, s);
    else if (form == 2) r = merge(true, s, s);
    else if (form == 3) r = merge(false, s, s);
    else if (form == 6) r = merge(s, s, false);
    else r = merge(s, s);
    shape_values(r, k, form == 3 || form == 6 ? laced({v, v}, k) : cat(v, v));
}
// BOUND bad: one to three Series, itemSizes 0..3 each, counts 0..2 (invalid Series for concat only)
SX_ENTRY(bad, "shards=2") {
    int m = (int)sx_choose("series", 0, 3), form = (int)sx_choose("form", 0, 6);
    sx_assume(form == 0 || m > 0);
    sx_assume(form < 4 || m == 2);
    Series s;
    bool wrong = m == 0;
    for (int i = 0; i < m; i++) {
        int k = (int)sx_choose("k", form < 2 ? 0 : 1, 3);
        s.push_back(k ? sx_serie("v", k, (uint32_t)sx_choose("n", 0, 2)) : Serie(0, 0));
        if (k == 0 || (uint32_t)k != s[0].itemSize()) wrong = true;
    }
    Serie r;
    int o = sx_outcome([&] { r = run(form, s); });
    sx_assert(o == (wrong ? 1 : 0), "no Serie, invalid Series and different itemSizes are rejected with invalid_argument");
}
// BOUND huge: counts (65541, 3, 40000) and (3, 65541) (beyond 16-bit indices) with itemSize 1 and 3, concat, merge and interleaving of three Series and of two
SX_ENTRY(huge, "shards=7 max-steps=4000000000") {
    uint32_t form = (uint32_t)sx_choose("form!", 0, 6), k = form % 2 ? 3 : 1;
    if (form >= 4) { // two Series
        bool ahead = form == 6, apart = form == 4;
        uint32_t n0 = ahead ? HUGE_N : 3, n1 = ahead ? 3 : HUGE_N;
        Array a = huge_vec("v", k, n0), b = huge_vec("v", k, n1), want;
        auto put = [&](const Array &v, uint32_t i) { for (uint32_t j = 0; j < k; j++) want.push_back(v[(size_t)i * k + j]); };
        if (apart) want = cat(a, b);
        else for (uint32_t i = 0; i < HUGE_N; i++) { if (i < n0) put(a, i); if (i < n1) put(b, i); }
        Serie r = merge(Serie((int)k, a), Serie((int)k, b), apart);
        same_shape(r, k, n0 + n1);
        huge_same(r.asArray(), want, "values");
        return;
    }
    static const uint32_t ns[] = {HUGE_N, 3, 40000};
    Array v[3], want;
    Series s;
    for (int i = 0; i < 3; i++) { v[i] = huge_vec("v", k, ns[i]); s.push_back(Serie((int)k, v[i])); }
    auto put = [&](int q, uint32_t i) { for (uint32_t j = 0; j < k; j++) want.push_back(v[q][(size_t)i * k + j]); };
    if (form < 2) { for (int q = 0; q < 3; q++) for (uint32_t i = 0; i < ns[q]; i++) put(q, i); }
    else for (uint32_t i = 0; i < HUGE_N; i++) for (int q = 0; q < 3; q++) if (i < ns[q]) put(q, i);
    Serie r = form == 0 ? utils::concat(s) : form == 1 ? merge(true, s[0], s[1], s[2]) : merge(false, s[0], s[1], s[2]);
    same_shape(r, k, ns[0] + ns[1] + ns[2]);
    huge_same(r.asArray(), want, "values");
}
