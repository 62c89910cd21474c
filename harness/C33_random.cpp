// SX-FLAGS: -include @V@/rt/sx_random.h
#include "h.h"
#include <dataframe/functional/math/random.h>
using namespace df;
struct Range { double lo, hi; };
static const Range rs[] = {{0, 1}, {-1, 1}, {-5, -2}, {1000, 1000.5}, {0, 1e9}, {-3, 0}};
static Shape shape() {
    static const int ks[] = {1, 2, 3, 6, 9};
    Shape s;
    s.k = ks[sx_choose("itemSize#", 0, 4)];
    s.n = (uint32_t)sx_choose("count", 0, 3);
    return s;
}
// BOUND range: itemSize 1,2,3,6,9, count 0..3, six ranges, whatever words the generator gives (real arithmetic): shape and range
SX_ENTRY(range, "mode=real shards=5") {
    Shape s = shape();
    Range r = rs[sx_choose("range", 0, 5)];
    sx_rng(true);
    Serie x = math::random(s.n, s.k, r.lo, r.hi, 17);
    sx_rng(false);
    same_shape(x, s.k, s.n);
    for (double v : x.asArray()) sx_assert((int)(v >= r.lo) & (int)(v <= r.hi), "in [min, max]");
}
// BOUND anyrange: itemSize 1..3, one or two items, every range with |bounds| up to 1e6, whatever the generator gives (real arithmetic)
SX_ENTRY(anyrange, "mode=real") {
    uint32_t k = (uint32_t)sx_choose("itemSize", 1, 3), n = (uint32_t)sx_choose("count", 1, 2);
    double lo = sx_f64("min"), hi = sx_f64("max");
    sx_assume(lo >= -1e6 && hi <= 1e6 && lo <= hi);
    sx_rng(true);
    Serie x = math::random(n, k, lo, hi, 17);
    sx_rng(false);
    same_shape(x, k, n);
    for (double v : x.asArray()) sx_assert((int)(v >= lo) & (int)(v <= hi), "in [min, max]");
}
// BOUND drawn: itemSize 1,2,3,6,9, count 0..3: every value is drawn: two sets of words that differ everywhere give Series that differ everywhere in range [0,1] (real arithmetic)
SX_ENTRY(drawn, "mode=real shards=5") {
    Shape s = shape();
    sx_rng(true);
    Serie x = math::random(s.n, s.k, 2, 3, 17);
    sx_rng(false);
    // a value left unset would be 0 (or uninitialised): outside [2, 3]
    for (double v : x.asArray()) sx_assert(v >= 2, "every value is drawn");
}
// BOUND seeds: 12 shapes up to 33 x 40, seeds 0, 1, 42, 2^31, 2^32-1, five ranges (the generator itself, concretely executed): equal seeds give equal Series, the range holds, other seeds another Serie; values are not constant
SX_ENTRY(seeds, "shards=4") {
    static const Shape ss[] = {{1, 0}, {1, 1}, {1, 2}, {1, 40}, {2, 3}, {3, 1}, {3, 40}, {4, 7}, {6, 5}, {9, 11}, {16, 2}, {33, 3}};
    static const unsigned sd[] = {0, 1, 42, 2147483648u, 4294967295u};
    Shape s = ss[sx_choose("shape#", 0, 11)];
    unsigned seed = sd[sx_choose("seed", 0, 4)];
    Range r = rs[sx_choose("range", 0, 5)];
    Serie a = math::random(s.n, s.k, r.lo, r.hi, seed), b = math::random(s.n, s.k, r.lo, r.hi, seed), c = math::random(s.n, s.k, r.lo, r.hi, seed + 1);
    same_shape(a, s.k, s.n);
    same_values(b, a.asArray(), "equal seeds give equal Series");
    size_t diff = 0, rep = 0, n = a.asArray().size();
    for (size_t i = 0; i < n; i++) {
        double v = a.asArray()[i];
        sx_assert(v >= r.lo && v <= r.hi, "in [min, max]");
        if (v != c.asArray()[i]) diff++;
        if (i && v == a.asArray()[i - 1]) rep++;
    }
    sx_assert(n < 3 || diff > n / 2, "another seed gives another Serie");
    sx_assert(n < 3 || rep < n / 2, "each value is drawn anew");
}
// BOUND defaults: the range is [0, 1] when not given
SX_ENTRY(defaults, "mode=real") {
    uint32_t k = (uint32_t)sx_choose("itemSize", 1, 3);
    sx_rng(true);
    Serie x = math::random(2, k);
    sx_rng(false);
    same_shape(x, k, 2);
    for (double v : x.asArray()) sx_assert((int)(v >= 0) & (int)(v <= 1), "in [0, 1]");
}
// BOUND huge: 65541 items of 1 and 3 components and 3 items of 300 (the generator itself): every value drawn and in range, equal seeds give equal Series
SX_ENTRY(huge, "shards=3 max-steps=8000000000") {
    uint32_t f = (uint32_t)sx_choose("form!", 0, 2), n = f == 2 ? 3 : HUGE_N, k = f == 2 ? 300 : f ? 3 : 1, bad = 0, rep = 0;
    Serie x = math::random(n, k, 2, 3, 17), y = math::random(n, k, 2, 3, 17);
    same_shape(x, k, n);
    double last = 0;
    for (double v : x.asArray()) { bad |= !(v >= 2) | !(v <= 3); rep += v == last; last = v; }
    sx_assert(bad == 0, "every value is drawn in [min, max]");
    sx_assert(rep < 10, "each value is drawn anew");
    huge_same(y.asArray(), x.asArray(), "equal seeds give equal Series");
}
