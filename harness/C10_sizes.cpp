#include "h.h"
#include <numeric>
#include <dataframe/functional/utils/unzip.h>
using namespace df;
// BOUND any_sizes: unzip of a Serie of itemSize 1..6 (count 0..2) with one to four itemSizes, any 32-bit numbers whose sum is not the itemSize
SX_ENTRY(any_sizes, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 6), n = (uint32_t)sx_choose("count", 0, 2);
    int m = (int)sx_choose("sizes", 1, 4);
    Array v = sx_vec("v", (size_t)k * n);
    Serie s((int)k, v);
    std::vector<uint32_t> sizes(m);
    uint64_t sum = 0;
    for (auto &x : sizes) { x = sx_u32("size"); sum += x; }
    sx_assume(sum != k);
    sx_assert(sx_outcome([&] { utils::unzip(s, sizes); }) == 1, "itemSizes that do not sum to the zipped itemSize are rejected");
    same_values(s, v, "input unchanged");
}
