#include "many.h"
#include <dataframe/functional/math/equals.h>
using namespace df;
static auto eq = [](const auto &...s) { return math::equalsAll(s...); };
static bool all(const Series &s) { return s.size() == 5 ? args<5>(eq, s) : s.size() == 6 ? args<6>(eq, s) : args<8>(eq, s); }
// BOUND many: five, six and eight equal Series but for any one value of any one of them, which is any double; itemSize 1..3, count 1..3
SX_ENTRY(many, "") {
    static const int ms[] = {5, 6, 8};
    int m = ms[sx_choose("series", 0, 2)], k = (int)sx_choose("k", 1, 3);
    uint32_t n = (uint32_t)sx_choose("count", 1, 3);
    int at = (int)sx_choose("serie", 0, m - 1), pos = (int)sx_choose("position", 0, k * n - 1);
    Series s;
    for (int i = 0; i < m; i++) {
        Array v;
        for (int j = 0; j < k * (int)n; j++) v.push_back(1.5 * j - 2);
        if (i == at) v[pos] = sx_f64("x");
        s.push_back(Serie(k, v));
    }
    bool same = s[at].asArray()[pos] == 1.5 * pos - 2;
    sx_assert(all(s) == same, "all are equal exactly when no value differs");
}
// BOUND many_shapes: five, six and eight Series, one of which has another itemSize, count or dimension, or is invalid
SX_ENTRY(many_shapes, "") {
    static const int ms[] = {5, 6, 8};
    int m = ms[sx_choose("series", 0, 2)], at = (int)sx_choose("serie", 0, m - 1), how = (int)sx_choose("how", 0, 4);
    Array v = {1, 2, 3, 4, 5, 6};
    Series s;
    for (int i = 0; i < m; i++) s.push_back(i != at || how == 4 ? Serie(2, v) : how == 0 ? Serie(3, v) : how == 1 ? Serie(2, Array{1, 2, 3, 4}) : how == 2 ? Serie(2, v, 2) : Serie(0, 0));
    sx_assert(all(s) == (how == 4), "Series of different shapes are not equal");
}
// BOUND many_objects: five, six and eight Series chosen among three objects, of which the first two are equal copies and the third differs by a value that is any double
SX_ENTRY(many_objects, "shards=2") {
    static const int ms[] = {5, 6, 8};
    int m = ms[sx_choose("series", 0, 2)];
    double x = sx_f64("x");
    const Serie o[3] = {Serie(2, Array{1, 2, 3, 4}), Serie(2, Array{1, 2, 3, 4}), Serie(2, Array{1, 2, 3, x})};
    const Serie *p[8];
    bool third = false, only = true;
    for (int i = 0; i < m; i++) {
        int j = m == 8 && i > 2 && i < 6 ? 0 : (int)sx_choose("object", 0, 2);
        p[i] = &o[j];
        third |= j == 2;
        only &= j == 2;
    }
    bool got = m == 5 ? math::equalsAll(*p[0], *p[1], *p[2], *p[3], *p[4])
             : m == 6 ? math::equalsAll(*p[0], *p[1], *p[2], *p[3], *p[4], *p[5])
                      : math::equalsAll(*p[0], *p[1], *p[2], *p[3], *p[4], *p[5], *p[6], *p[7]);
    if (!third) sx_assert(got, "equal Series");
    else if (only) sx_assert(got == (x == x), "a Serie equals itself unless it holds a NaN");
    else sx_assert(got == (x == 4), "all are equal exactly when no value differs");
}
