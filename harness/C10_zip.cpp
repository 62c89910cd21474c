#include "h.h"
#include <dataframe/functional/utils/zip.h>
#include <dataframe/functional/utils/unzip.h>
using namespace df;
struct In { int m; uint32_t n; std::vector<uint32_t> ks; std::vector<Array> v; Series s; Array joined; uint32_t total; };
static In make(int m, uint32_t n, const uint32_t *ks) {
    In in{m, n};
    in.total = 0;
    for (int i = 0; i < m; i++) {
        in.ks.push_back(ks[i]);
        in.v.push_back(sx_vec("v", (size_t)ks[i] * n));
        in.s.push_back(Serie((int)ks[i], in.v[i]));
        in.total += ks[i];
    }
    for (uint32_t i = 0; i < n; i++)
        for (int j = 0; j < m; j++) in.joined = cat(in.joined, item_of(in.v[j], ks[j], i));
    return in;
}
static void shape_values(const Serie &s, uint32_t k, uint32_t n, const Array &v) { same_shape(s, k, n); same_values(s, v, "values"); }
static void round_trip(const In &in, int form) {
    Serie z;
    const Series &s = in.s;
    if (form == 0) z = utils::zipVector(s);
    else if (in.m == 1) z = utils::zip(s[0]);
    else if (in.m == 2) z = form == 2 ? utils::zip(s[0], s[1]) : utils::make_zip(s[0])(s[1]);
    else if (in.m == 3) z = utils::zip(s[0], s[1], s[2]);
    else z = utils::zip(s[0], s[1], s[2], s[3]);
    shape_values(z, in.total, in.n, in.joined);
    Series u = utils::unzip(z, in.ks);
    sx_assert(u.size() == (size_t)in.m, "one Serie per itemSize");
    for (int i = 0; i < in.m; i++) shape_values(u[i], in.ks[i], in.n, in.v[i]);
    for (int i = 0; i < in.m; i++) shape_values(s[i], in.ks[i], in.n, in.v[i]);
}
// BOUND small: one to four Series, itemSizes 1..3 (1..2 for four), count 0..3, vector, variadic and make_ forms
SX_ENTRY(small, "") {
    int m = (int)sx_choose("series", 1, 4);
    uint32_t ks[4];
    for (int i = 0; i < m; i++) ks[i] = (uint32_t)sx_choose("k", 1, m == 4 ? 2 : 3);
    int form = (int)sx_choose("form", 0, 2) + (m == 2 ? (int)sx_choose("make", 0, 1) : 0);
    if (form == 1) form = 0;
    round_trip(make(m, (uint32_t)sx_choose("count", 0, 3), ks), form);
}
// BOUND big: mixes (1,1), (3,1), (3,6), (1,9,2), (3,3,3), (2,1,3,1) with 6, 7, 10, 16, 17, 33, 100 items
SX_ENTRY(big, "shards=2") {
    static const uint32_t mix[6][5] = {{2, 1, 1}, {2, 3, 1}, {2, 3, 6}, {3, 1, 9, 2}, {3, 3, 3, 3}, {4, 2, 1, 3, 1}};
    static const uint32_t ns[] = {16, 17, 33, 100, 6, 7, 10};
    const uint32_t *x = mix[sx_choose("mix", 0, 5)];
    round_trip(make((int)x[0], ns[sx_choose("count", 0, 6)], x + 1), (int)sx_choose("form", 0, 1) * 2);
}
// BOUND regroup: unzip of a Serie of itemSize 1..6 (count 0..3) into every list of one to three itemSizes 1..6
SX_ENTRY(regroup, "shards=2") {
    uint32_t k = (uint32_t)sx_choose("itemSize", 1, 6), n = (uint32_t)sx_choose("count", 0, 3);
    int m = (int)sx_choose("parts", 0, 3);
    std::vector<uint32_t> ks;
    uint32_t sum = 0;
    for (int i = 0; i < m; i++) { ks.push_back((uint32_t)sx_choose("k", 1, 6)); sum += ks[i]; }
    Array v = sx_vec("v", (size_t)k * n);
    Serie s((int)k, v);
    Series u;
    int o = sx_outcome([&] { u = utils::unzip(s, ks); });
    if (m == 0 || sum != k) { sx_assert(o == 1, "itemSizes that do not sum to the itemSize are rejected with invalid_argument"); return; }
    sx_assert(o == 0 && u.size() == (size_t)m, "one Serie per itemSize");
    uint32_t at = 0;
    for (int i = 0; i < m; i++) {
        same_shape(u[i], ks[i], n);
        for (uint32_t r = 0; r < n; r++)
            for (uint32_t j = 0; j < ks[i]; j++) sx_assert_same(u[i].asArray()[r * ks[i] + j], v[r * k + at + j], "components of the part");
        at += ks[i];
    }
}
// BOUND bad: one to three Series, counts 0..3, one possibly invalid
SX_ENTRY(bad, "") {
    int m = (int)sx_choose("series", 0, 3), invalid = (int)sx_choose("invalid", 0, 3);
    Series s;
    bool wrong = m == 0;
    for (int i = 0; i < m; i++) {
        uint32_t n = (uint32_t)sx_choose("count", 0, 3);
        s.push_back(i + 1 == invalid ? Serie(0, 0) : sx_serie("v", i + 1, n));
        if (i + 1 == invalid || s[i].count() != s[0].count()) wrong = true;
    }
    int form = (int)sx_choose("form", 0, 1);
    sx_assume(form == 0 || m > 0);
    Serie z;
    int o = sx_outcome([&] {
        if (form == 0) z = utils::zipVector(s);
        else if (m == 1) z = utils::zip(s[0]);
        else if (m == 2) z = utils::zip(s[0], s[1]);
        else z = utils::zip(s[0], s[1], s[2]);
    });
    sx_assert(o == (wrong ? 1 : 0), "invalid Series, different counts and an empty list are rejected with invalid_argument");
}
// BOUND twice: the same Serie (itemSize 1..3, count 0..3) zipped with itself
SX_ENTRY(twice, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 3), n = (uint32_t)sx_choose("count", 0, 3);
    Array v = sx_vec("v", (size_t)k * n), w;
    Serie s((int)k, v);
    for (uint32_t i = 0; i < n; i++) w = cat(w, cat(item_of(v, k, i), item_of(v, k, i)));
    shape_values(utils::zip(s, s), 2 * k, n, w);
    shape_values(utils::zipVector({s, s}), 2 * k, n, w);
}
// BOUND huge: 65541 items (beyond 16-bit indices) of (1,2) and (1,1,1) components, all calling forms; a zipped itemSize of 300 (100, 200)
SX_ENTRY(huge, "shards=4 max-steps=4000000000") {
    uint32_t form = (uint32_t)sx_choose("form!", 0, 3), n = form == 3 ? 3 : HUGE_N;
    std::vector<uint32_t> ks = form == 3 ? std::vector<uint32_t>{100, 200} : form == 1 ? std::vector<uint32_t>{1, 1, 1} : std::vector<uint32_t>{1, 2};
    std::vector<Array> v;
    Series s;
    Array want;
    uint32_t total = 0;
    for (uint32_t k : ks) { v.push_back(huge_vec("v", k, n)); s.push_back(Serie((int)k, v.back())); total += k; }
    want.reserve((size_t)total * n);
    for (uint32_t i = 0; i < n; i++) for (size_t q = 0; q < ks.size(); q++) for (uint32_t j = 0; j < ks[q]; j++) want.push_back(v[q][(size_t)i * ks[q] + j]);
    Serie z = form == 0 || form == 3 ? utils::zipVector(s) : form == 1 ? utils::zip(s[0], s[1], s[2]) : utils::make_zip(s[0])(s[1]);
    same_shape(z, total, n);
    huge_same(z.asArray(), want, "values");
    Series u = utils::unzip(z, ks);
    sx_assert(u.size() == ks.size(), "one Serie per itemSize");
    for (size_t q = 0; q < ks.size(); q++) { same_shape(u[q], ks[q], n); huge_same(u[q].asArray(), v[q], "unzipped values"); }
}
