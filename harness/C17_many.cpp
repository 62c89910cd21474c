#include "many.h"
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/weightedSum.h>
using namespace df;
static auto plus = [](const auto &...s) { return math::add(s...); };
static auto minus = [](const auto &...s) { return math::sub(s...); };
template <size_t... I> static Serie list_(int op, const Series &s, const Array &w, std::index_sequence<I...>) {
    if (op == 0) return math::add({s[I]...});
    if (op == 1) return math::sub({s[I]...});
    if (op == 2) return math::weigthedSum({s[I]...}, w);
    return math::weigthedSum({s[I]...}, {w[I]...});
}
template <size_t M> static Serie run(int op, int form, const Series &s, const Array &w) {
    if (op < 2 && form) return op ? args<M>(minus, s) : args<M>(plus, s);
    return list_(op, s, w, std::make_index_sequence<M>());
}
static Serie run(int op, int form, const Series &s, const Array &w) { return s.size() == 5 ? run<5>(op, form, s, w) : s.size() == 6 ? run<6>(op, form, s, w) : run<8>(op, form, s, w); }
// BOUND many: add, sub and weigthedSum (lists, variadic forms) of five, six and eight Series, itemSize 1..3, count 0..3, arbitrary values and weights, one Serie possibly given twice
SX_ENTRY(many, "shards=2") {
    static const int ms[] = {5, 6, 8};
    int m = ms[sx_choose("series", 0, 2)], k = (int)sx_choose("k", 1, 3), op = (int)sx_choose("op", 0, 3), form = op < 2 ? (int)sx_choose("form", 0, 1) : 0, same = (int)sx_choose("same", 0, 1);
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    std::vector<Array> v;
    Series s;
    for (int i = 0; i < m; i++) {
        if (same && i == m - 1) { v.push_back(v[1]); s.push_back(s[1]); }
        else { v.push_back(sx_vec("v", (size_t)k * n)); s.push_back(Serie(k, v[i])); }
    }
    Array w = sx_vec("weight", m), want = v[0];
    for (size_t i = 0; i < want.size(); i++) {
        if (op >= 2) want[i] = 0.0;
        for (int j = op >= 2 ? 0 : 1; j < m; j++)
            if (op == 0) want[i] += v[j][i];
            else if (op == 1) want[i] -= v[j][i];
            else want[i] += v[j][i] * w[j];
    }
    Serie r = run(op, form, s, w);
    items_shape(r, k, n);
    for (size_t i = 0; i < want.size(); i++) sx_assert_num(r.asArray()[i], want[i], "component by component over all the Series");
    for (int i = 0; i < m; i++) same_values(s[i], v[i], "input unchanged");
}
// BOUND many_shapes: five, six and eight Series, any one of which has another count (0..3) or itemSize (1..3); too many and too few weights
SX_ENTRY(many_shapes, "") {
    static const int ms[] = {5, 6, 8};
    int m = ms[sx_choose("series", 0, 2)], op = (int)sx_choose("op", 0, 2), form = op < 2 ? (int)sx_choose("form", 0, 1) : 0, at = (int)sx_choose("at", 0, m - 1), wrong = (int)sx_choose("wrong", 0, 2);
    uint32_t n = (uint32_t)sx_choose("count", 0, 3), other = (uint32_t)sx_choose("other", 0, 3);
    int k = (int)sx_choose("k", 1, 3);
    sx_assume(wrong != 0 || n != other);
    sx_assume(wrong != 1 || k != (int)other + 1);
    sx_assume(wrong != 1 || other < 3);
    sx_assume(wrong != 2 || (op == 2 && (int)other != 0 && at == 0));
    Series s;
    for (int i = 0; i < m; i++) s.push_back(sx_serie("v", i == at && wrong == 1 ? (int)other + 1 : k, i == at && wrong == 0 ? other : n));
    Array w = sx_vec("weight", wrong == 2 ? (other == 1 ? m - 1 : other == 2 ? m + 1 : 0) : m);
    sx_assert(sx_outcome([&] { run(op, form, s, w); }) == 1, "different shapes and a wrong number of weights are rejected with invalid_argument");
}
