#include "many.h"
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/utils/compose.h>
using namespace df;
static int order[64], done;
static Array step(int i, const Array &v) {
    Array r;
    for (size_t j = 0; j < v.size(); j++) r.push_back(fn("f", v, (uint64_t)i * 8 + j));
    return r;
}
static auto S(int i) { return [i](const Serie &s) { if (done < 64) order[done] = i; done++; return Serie(1, step(i, s.asArray())); }; }
template <class Op, size_t... I> static auto steps_(Op op, std::index_sequence<I...>) { return op(S((int)I)...); }
template <size_t M> static Serie run(int form, const Serie &s) {
    auto i = std::make_index_sequence<M>();
    switch (form) {
    case 0: return steps_([&](auto... f) { return pipe(s, f...); }, i);
    case 1: return steps_([&](auto... f) { return make_pipe(f...); }, i)(s);
    case 2: return steps_([&](auto... f) { return utils::compose(f...); }, i)(s);
    default: return steps_([&](auto... f) { return s.pipe(f...); }, i);
    }
}
// BOUND many: six, eight and twelve arbitrary steps on a Serie of 0..3 values; pipe, member pipe, make_pipe and compose
SX_ENTRY(many, "") {
    static const int ms[] = {6, 8, 12};
    int m = ms[sx_choose("steps", 0, 2)], form = (int)sx_choose("form", 0, 3);
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    Array v = sx_vec("v", n), want = v;
    Serie s(1, v);
    done = 0;
    Serie r = m == 6 ? run<6>(form, s) : m == 8 ? run<8>(form, s) : run<12>(form, s);
    sx_assert(done == m, "every step is applied exactly once");
    for (int i = 0; i < m; i++) {
        int at = form == 2 ? m - 1 - i : i;
        sx_assert(order[i] == at, "in the stated order");
        want = step(at, want);
    }
    same_shape(r, 1, n);
    same_values(r, want, "the steps one after the other");
    same_values(s, v, "input unchanged");
}
