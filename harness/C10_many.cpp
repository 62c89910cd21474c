#include "many.h"
#include <dataframe/functional/utils/zip.h>
#include <dataframe/functional/utils/unzip.h>
using namespace df;
static auto zipped = [](const auto &...s) { return utils::zip(s...); };
static Serie zip_(const Series &s, int form) {
    if (form == 0) return utils::zipVector(s);
    switch (s.size()) {
    case 5: return args<5>(zipped, s);
    case 6: return args<6>(zipped, s);
    default: return args<9>(zipped, s);
    }
}
static Group make(int m, const std::vector<uint32_t> &ns) {
    static const int k[9] = {2, 1, 3, 1, 1, 2, 4, 1, 1};
    Group g;
    for (int i = 0; i < m; i++) {
        g.ks.push_back(k[i]);
        g.v.push_back(sx_vec("v", (size_t)k[i] * ns[i]));
        g.dim.push_back(3);
        g.s.push_back(Serie(k[i], g.v[i]));
    }
    return g;
}
static int howmany() { static const int ms[] = {5, 6, 9}; return ms[sx_choose("series", 0, 2)]; }
// BOUND many: five, six and nine Series of 1 to 4 components, 0..4 items, zip and zipVector, unzip of the result
SX_ENTRY(many, "") {
    int m = howmany(), form = (int)sx_choose("form", 0, 1);
    uint32_t n = (uint32_t)sx_choose("count", 0, 4), total = 0;
    Group g = make(m, std::vector<uint32_t>(m, n));
    Array want;
    for (uint32_t i = 0; i < n; i++) want = cat(want, row(g, i));
    for (int k : g.ks) total += k;
    Serie z = zip_(g.s, form);
    same_shape(z, total, n);
    same_values(z, want, "the items of one index, in the order of the Series");
    Series u = utils::unzip(z, std::vector<uint32_t>(g.ks.begin(), g.ks.end()));
    sx_assert(u.size() == (size_t)m, "one Serie per itemSize");
    for (int j = 0; j < m; j++) { same_shape(u[j], g.ks[j], n); same_values(u[j], g.v[j], "unzip gives the Series back"); }
    untouched(g);
}
// BOUND many_counts: five Series of 0..2 items each, six of 0..1, not all the same count, and nine, one of them with another count of 0..3
SX_ENTRY(many_counts, "") {
    int m = howmany(), form = (int)sx_choose("form", 0, 1);
    Group g = make(m, one_differs(m));
    sx_assert(sx_outcome([&] { zip_(g.s, form); }) == 1, "different counts are rejected with invalid_argument");
}
// BOUND many_parts: itemSize 7 and 12 (0..3 items) unzipped into 7 and 12 single components, and into 4 to 6 parts
SX_ENTRY(many_parts, "") {
    static const std::vector<uint32_t> ps[] = {{1, 1, 1, 1, 1, 1, 1}, {2, 1, 3, 1}, {1, 1, 1, 3, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 3, 1, 3, 2}, {4, 4, 2, 2}};
    const auto &p = ps[sx_choose("parts", 0, 5)];
    uint32_t k = 0, n = (uint32_t)sx_choose("count", 0, 3), at = 0;
    for (uint32_t x : p) k += x;
    Array v = sx_vec("v", (size_t)k * n);
    Series u = utils::unzip(Serie((int)k, v), p);
    sx_assert(u.size() == p.size(), "one Serie per itemSize");
    for (size_t q = 0; q < p.size(); q++) {
        same_shape(u[q], p[q], n);
        for (uint32_t i = 0; i < n; i++) for (uint32_t j = 0; j < p[q]; j++) sx_assert_same(u[q].asArray()[i * p[q] + j], v[i * k + at + j], "components of the part");
        at += p[q];
    }
}
