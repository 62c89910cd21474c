#include "many.h"
#include <dataframe/functional/merge.h>
#include <dataframe/functional/utils/concat.h>
using namespace df;
static Serie run(int form, const Series &s) {
    auto c = [](const auto &...x) { return utils::concat(x...); };
    auto m = [](const auto &...x) { return merge(true, x...); };
    auto l = [](const auto &...x) { return merge(false, x...); };
    switch (form) {
    case 0: return utils::concat(s);
    case 1: return s.size() == 5 ? args<5>(c, s) : s.size() == 6 ? args<6>(c, s) : args<9>(c, s);
    case 2: return s.size() == 5 ? args<5>(m, s) : s.size() == 6 ? args<6>(m, s) : args<9>(m, s);
    default: return s.size() == 5 ? args<5>(l, s) : s.size() == 6 ? args<6>(l, s) : args<9>(l, s);
    }
}
static int howmany() { static const int ms[] = {5, 6, 9}; return ms[sx_choose("series", 0, 2)]; }
// BOUND many: five, six and nine Series of itemSize 1..3 with counts 0..3 (eight patterns), concat, merge and interleaving
SX_ENTRY(many, "") {
    static const uint32_t pat[8][9] = {{1, 1, 1, 1, 1, 1, 1, 1, 1}, {0, 0, 0, 0, 1, 2, 0, 0, 3}, {2, 0, 3, 1, 0, 1, 2, 0, 1}, {3, 2, 1, 0, 3, 2, 1, 0, 3}, {0, 1, 2, 3, 2, 1, 0, 1, 2}, {0, 0, 0, 0, 0, 0, 0, 0, 0}, {2, 2, 2, 2, 3, 1, 2, 3, 3}, {3, 3, 1, 0, 0, 2, 3, 3, 0}};
    int m = howmany(), form = (int)sx_choose("form", 0, 3);
    const uint32_t *ns = pat[sx_choose("counts", 0, 7)];
    uint32_t k = (uint32_t)sx_choose("k", 1, 3), total = 0;
    std::vector<Array> v;
    Series s;
    Array want;
    for (int i = 0; i < m; i++) { v.push_back(sx_vec("v", (size_t)k * ns[i])); s.push_back(Serie((int)k, v[i])); total += ns[i]; }
    if (form < 3) for (auto &x : v) want = cat(want, x);
    else for (uint32_t i = 0; i < 3; i++) for (int j = 0; j < m; j++) if (i < ns[j]) want = cat(want, item_of(v[j], k, i));
    Serie r = run(form, s);
    same_shape(r, k, total);
    same_values(r, want, "all the items in order");
    for (int i = 0; i < m; i++) same_values(s[i], v[i], "input unchanged");
}
// BOUND many_sizes: five, six and nine Series, any one of which has another itemSize
SX_ENTRY(many_sizes, "") {
    int m = howmany(), form = (int)sx_choose("form", 0, 3), at = (int)sx_choose("at", 0, m - 1);
    int k = (int)sx_choose("k", 1, 3), other = (int)sx_choose("other", 1, 3);
    uint32_t n = (uint32_t)sx_choose("count", 0, 2);
    sx_assume(k != other);
    Series s;
    for (int i = 0; i < m; i++) s.push_back(sx_serie("v", i == at ? other : k, n));
    sx_assert(sx_outcome([&] { run(form, s); }) == 1, "different itemSizes are rejected with invalid_argument");
}
