#include "many.h"
#include <dataframe/functional/forEach.h>
using namespace df;
static auto each = [](auto f, const auto &...s) { forEach(f, s...); return 0; };
template <size_t M> static void many(uint32_t n, int mix) {
    Group g = sx_group(M, n, mix);
    uint32_t calls = 0;
    spread<M, void>(each, [&](const std::vector<Array> &x, uint32_t i) { sx_assert(i == calls, "each item is visited once, in order"); calls++; whole_row(x, g, i); }, g.s);
    sx_assert(calls == n, "every item is visited");
    untouched(g);
}
// BOUND many: four, five and six Series (itemSizes in four mixes of 1..6, 0..4 items)
SX_ENTRY(many, "") {
    int m = (int)sx_choose("series", 4, 6), mix = (int)sx_choose("mix", 0, 3);
    uint32_t n = (uint32_t)sx_choose("count", 0, 4);
    if (m == 4) many<4>(n, mix);
    else if (m == 5) many<5>(n, mix);
    else many<6>(n, mix);
}
template <size_t M> static void counts_(const Group &g) {
    bool called = false;
    int o = sx_outcome([&] { spread<M, void>(each, [&](const std::vector<Array> &, uint32_t) { called = true; }, g.s); });
    sx_assert(o == 1 && !called, "different counts are rejected with invalid_argument before any call");
}
// BOUND many_counts: four and five Series of 0..2 items each, six of 0..1, not all the same count
SX_ENTRY(many_counts, "") {
    int m = (int)sx_choose("series", 4, 6);
    Group g = sx_group(m, one_differs(m), 0);
    if (m == 4) counts_<4>(g);
    else if (m == 5) counts_<5>(g);
    else counts_<6>(g);
}
