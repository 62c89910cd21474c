#include "many.h"
#include <dataframe/functional/filter.h>
using namespace df;
static auto some = [](auto f, const auto &...s) { return listed(df::filter(f, s...)); };
static auto all = [](auto f, const auto &...s) { return df::filterAll(f, s...); };
template <size_t M> static void many(uint32_t n, int mix, int form) {
    Group g = sx_group(M, n, mix);
    std::vector<char> p(n, 0);
    uint32_t at = 0;
    auto ask = [&](const std::vector<Array> &x, uint32_t i) -> bool { sx_assert(i < n, "an item of the Series"); at++; whole_row(x, g, i); return p[i] = pr("p", row(g, i), i); };
    Series r = form ? spread0<M, bool>(all, [&](const std::vector<Array> &x) -> bool { return ask(x, at); }, g.s) : spread<M, bool>(some, ask, g.s);
    sx_assert(at == n, "the predicate decides on every index");
    sx_assert(r.size() == M, "one result per Serie");
    for (size_t j = 0; j < M; j++) {
        Array want;
        uint32_t c = 0;
        for (uint32_t i = 0; i < n; i++) if ((p[i] != 0) != (bool)0) { want = cat(want, item_of(g.v[j], g.ks[j], i)); c++; }
        same_serie(r[j], g.ks[j], c, g.dim[j], want);
    }
    untouched(g);
}
// BOUND many: four, five and six Series (itemSizes in four mixes of 1..6, 0..3 items), every predicate, filter and filterAll
SX_ENTRY(many, "shards=2") {
    int m = (int)sx_choose("series", 4, 6), mix = (int)sx_choose("mix", 0, 3), form = (int)sx_choose("form", 0, 1);
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    if (m == 4) many<4>(n, mix, form);
    else if (m == 5) many<5>(n, mix, form);
    else many<6>(n, mix, form);
}
template <size_t M> static void counts_(const Group &g, int form) {
    int o = sx_outcome([&] {
        if (form) spread0<M, bool>(all, [](const std::vector<Array> &) { return true; }, g.s);
        else spread<M, bool>(some, [](const std::vector<Array> &, uint32_t) { return true; }, g.s);
    });
    sx_assert(o == 1, "different counts are rejected with invalid_argument");
}
// BOUND many_counts: four and five Series of 0..2 items each, six of 0..1, not all the same count; filter and filterAll
SX_ENTRY(many_counts, "") {
    int m = (int)sx_choose("series", 4, 6), form = (int)sx_choose("form", 0, 1);
    Group g = sx_group(m, one_differs(m), 0);
    if (m == 4) counts_<4>(g, form);
    else if (m == 5) counts_<5>(g, form);
    else counts_<6>(g, form);
}
