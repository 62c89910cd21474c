#include "many.h"
#include <dataframe/functional/utils/partition_n.h>
using namespace df;
template <size_t M> static auto parts(uint32_t n, const Series &s) { return args<M>([n](const auto &...x) { return utils::partition_n(n, x...); }, s); }
template <size_t M> static void many(uint32_t n, uint32_t cnt, int mix) {
    Group g = sx_group(M, cnt, mix);
    auto r = parts<M>(n, g.s);
    sx_assert(r.size() == M, "one list of parts per Serie");
    for (size_t j = 0; j < M; j++) {
        sx_assert(r[j].size() == n, "exactly n parts of each Serie");
        uint32_t at = 0;
        for (uint32_t q = 0; q < n; q++) {
            uint32_t c = cnt / n + (q < cnt % n ? 1 : 0);
            same_serie(r[j][q], g.ks[j], c, g.dim[j], Array(g.v[j].begin() + (size_t)g.ks[j] * at, g.v[j].begin() + (size_t)g.ks[j] * (at + c)));
            at += c;
        }
    }
    untouched(g);
}
// BOUND many: four, five and six Series (itemSizes in four mixes of 1..6, 0..5 items) in 1..4 parts
SX_ENTRY(many, "") {
    int m = (int)sx_choose("series", 4, 6), mix = (int)sx_choose("mix", 0, 3);
    uint32_t n = (uint32_t)sx_choose("parts", 1, 4), c = (uint32_t)sx_choose("count", 0, 5);
    if (m == 4) many<4>(n, c, mix);
    else if (m == 5) many<5>(n, c, mix);
    else many<6>(n, c, mix);
}
// BOUND many_counts: four and five Series of 0..2 items each, six of 0..1, not all the same count, in 0..2 parts
SX_ENTRY(many_counts, "") {
    int m = (int)sx_choose("series", 4, 6);
    uint32_t n = (uint32_t)sx_choose("parts", 0, 2);
    Group g = sx_group(m, one_differs(m), 0);
    int o = sx_outcome([&] {
        if (m == 4) parts<4>(n, g.s);
        else if (m == 5) parts<5>(n, g.s);
        else parts<6>(n, g.s);
    });
    sx_assert(o == 1, "different counts are rejected with invalid_argument");
}
