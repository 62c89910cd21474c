#include "many.h"
#include <dataframe/functional/map.h>
#include <dataframe/functional/utils/apply.h>
using namespace df;
template <size_t M> static void many(uint32_t n, int mix, int form, int out) {
    Group g = sx_group(M, n, mix);
    uint32_t calls = 0;
    auto seen = [&](const std::vector<Array> &x, uint32_t i) { sx_assert(i == calls, "each item is visited once, in order"); calls++; whole_row(x, g, i); };
    auto one = [&](const std::vector<Array> &x, uint32_t i) -> double { seen(x, i); return fn("f", row(g, i), i); };
    auto arr = [&](const std::vector<Array> &x, uint32_t i) -> Array { seen(x, i); Array o; for (int j = 0; j < out; j++) o.push_back(fn("f", row(g, i), i * 8 + j)); return o; };
    auto m = [](auto f, const auto &...s) { return map(f, s...); };
    auto a = [](auto f, const auto &...s) { return utils::apply(f, s...); };
    Serie r;
    if (out == 0) r = form ? spread<M, double>(a, one, g.s) : spread<M, double>(m, one, g.s);
    else r = form ? spread<M, Array>(a, arr, g.s) : spread<M, Array>(m, arr, g.s);
    sx_assert(calls == n, "every item is visited");
    Array want;
    for (uint32_t i = 0; i < n; i++)
        for (int j = 0; j < (out ? out : 1); j++) want.push_back(fn("f", row(g, i), out ? i * 8 + j : i));
    items_shape(r, out ? out : 1, n);
    same_values(r, want, "item i of the result is what the callback returned for item i");
    untouched(g);
}
// BOUND many: four, five and six Series (itemSizes in four mixes of 1..6, 0..3 items), callbacks returning double or an Array of 1 or 3 values, map and apply
SX_ENTRY(many, "shards=2") {
    int m = (int)sx_choose("series", 4, 6), mix = (int)sx_choose("mix", 0, 3), form = (int)sx_choose("form", 0, 1);
    static const int outs[] = {0, 1, 3};
    int out = outs[sx_choose("out", 0, 2)];
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    if (m == 4) many<4>(n, mix, form, out);
    else if (m == 5) many<5>(n, mix, form, out);
    else many<6>(n, mix, form, out);
}
template <size_t M> static void counts_(const Group &g) {
    bool called = false;
    int o = sx_outcome([&] { spread<M, double>([](auto f, const auto &...s) { return map(f, s...); }, [&](const std::vector<Array> &, uint32_t) { called = true; return 0.0; }, g.s); });
    sx_assert(o == 1 && !called, "different counts are rejected with invalid_argument");
}
// BOUND many_counts: four and five Series of 0..2 items each, six of 0..1, not all the same count
SX_ENTRY(many_counts, "") {
    int m = (int)sx_choose("series", 4, 6);
    Group g = sx_group(m, one_differs(m), 0);
    if (m == 4) counts_<4>(g);
    else if (m == 5) counts_<5>(g);
    else counts_<6>(g);
}
