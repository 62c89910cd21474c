// Shared by the *_many harnesses: operations on four, five and six Series at once.
#pragma once
#include "h.h"
#include <utility>
struct Group { std::vector<Array> v; std::vector<int> ks; std::vector<unsigned> dim; df::Series s; };
// m Series, the itemSizes taken from a few mixes
inline Group sx_group(int m, const std::vector<uint32_t> &counts, int mix) {
    static const int k[4][6] = {{1, 1, 1, 1, 1, 1}, {1, 2, 3, 1, 2, 3}, {3, 1, 1, 4, 2, 1}, {2, 2, 1, 1, 3, 6}};
    Group g;
    for (int i = 0; i < m; i++) {
        g.ks.push_back(k[mix][i]);
        g.v.push_back(sx_vec("v", (size_t)k[mix][i] * counts[i]));
        g.dim.push_back(sx_u32("dim"));
        g.s.push_back(df::Serie(k[mix][i], g.v[i], g.dim[i]));
    }
    return g;
}
inline Group sx_group(int m, uint32_t n, int mix) { return sx_group(m, std::vector<uint32_t>(m, n), mix); }
// the items of index i of all the Series, one after the other
inline Array row(const Group &g, uint32_t i) { Array r; for (size_t j = 0; j < g.s.size(); j++) r = cat(r, item_of(g.v[j], g.ks[j], i)); return r; }
inline void untouched(const Group &g) {
    for (size_t j = 0; j < g.s.size(); j++) {
        sx_assert(g.s[j].dimension() == g.dim[j], "input dimension unchanged");
        same_values(g.s[j], g.v[j], "input unchanged");
    }
}
// what the callback received is row i
inline void whole_row(const std::vector<Array> &xs, const Group &g, uint32_t i) {
    sx_assert(xs.size() == g.s.size(), "one item of each Serie");
    for (size_t j = 0; j < xs.size(); j++) {
        sx_assert(xs[j].size() == (size_t)g.ks[j], "whole items");
        for (int q = 0; q < g.ks[j]; q++) sx_assert_same(xs[j][q], g.v[j][(size_t)g.ks[j] * i + q], "the items of one index, in the order of the Series");
    }
}
template <size_t> using Item = const Array &;
// op(callback, Series...) with a callback of M items and the index, respectively of M items only
template <class R, class Op, class F, size_t... I> auto spread_(Op op, F f, const df::Series &s, std::index_sequence<I...>) {
    return op([&](Item<I>... x, uint32_t i) -> R { return f(std::vector<Array>{x...}, i); }, s[I]...);
}
template <class R, class Op, class F, size_t... I> auto spread0_(Op op, F f, const df::Series &s, std::index_sequence<I...>) {
    return op([&](Item<I>... x) -> R { return f(std::vector<Array>{x...}); }, s[I]...);
}
template <size_t M, class R, class Op, class F> auto spread(Op op, F f, const df::Series &s) { return spread_<R>(op, f, s, std::make_index_sequence<M>()); }
template <size_t M, class R, class Op, class F> auto spread0(Op op, F f, const df::Series &s) { return spread0_<R>(op, f, s, std::make_index_sequence<M>()); }
// op(Series...)
template <class Op, size_t... I> auto args_(Op op, const df::Series &s, std::index_sequence<I...>) { return op(s[I]...); }
template <size_t M, class Op> auto args(Op op, const df::Series &s) { return args_(op, s, std::make_index_sequence<M>()); }
// a tuple of Series as a vector
template <class T> df::Series listed(const T &t) { return std::apply([](const auto &...x) { return df::Series{x...}; }, t); }
// counts of m Series which are not all the same: 0..2 each (more than five Series: 0..1; more than six: all but one of 0..3 the same)
inline std::vector<uint32_t> one_differs(int m) {
    if (m <= 6) {
        std::vector<uint32_t> r(m);
        bool same = true;
        for (auto &x : r) { x = (uint32_t)sx_choose("count", 0, m == 6 ? 1 : 2); same = same && x == r[0]; }
        sx_assume(!same);
        return r;
    }
    uint32_t n = (uint32_t)sx_choose("count", 0, 3), other = (uint32_t)sx_choose("other", 0, 3);
    sx_assume(n != other);
    std::vector<uint32_t> r(m, n);
    r[sx_choose("at", 0, m - 1)] = other;
    return r;
}
