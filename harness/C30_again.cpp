#include "again.h"
#include <dataframe/functional/map.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
using namespace df;
using Pred = std::function<bool(const Array &)>;
using Then = std::function<double(const Array &, uint32_t, const Serie &)>;
// BOUND numbers: predicates that give any 32-bit number, where any but 0 means "holds": check and if_then_else, scalar and array callbacks, itemSize 1 and 2, 0..3 items
SX_ENTRY(numbers, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 3);
    int what = (int)sx_choose("what", 0, 3);
    Array v = sx_vec("v", (size_t)k * n);
    Serie s((int)k, v), r;
    auto t = truths(n);
    sx_assume(k == 1 || what < 2);
    uint32_t at = 0;
    if (what == 0) r = cond::check(s, [&](const Array &, uint32_t i) -> int { return (int)t[i]; });
    if (what == 1) r = cond::if_then_else(s, [&](const Array &) -> int { return (int)t[at++]; }, [](const Array &, uint32_t, const Serie &) { return 1.0; }, [](const Array &, uint32_t, const Serie &) { return 0.0; });
    if (what == 2) r = cond::check(s, [&](double, uint32_t i) -> int { return (int)t[i]; });
    if (what == 3) r = cond::if_then_else(s, [&](double) -> int { return (int)t[at++]; }, [](double, uint32_t, const Serie &) { return 1.0; }, [](double, uint32_t, const Serie &) { return 0.0; });
    items_shape(r, 1, n);
    for (uint32_t i = 0; i < n; i++) sx_assert_num(r.scalar(i), t[i] != 0 ? 1 : 0, "1 where the predicate holds, 0 elsewhere");
}
// BOUND reentrant: itemSize 1 and 2, 0..2 items: a predicate, and the two functions, that themselves check and decide about 0..2 other items
SX_ENTRY(reentrant, "") {
    uint32_t k = (uint32_t)sx_choose("k", 1, 2), n = (uint32_t)sx_choose("n", 0, 2), m = (uint32_t)sx_choose("m", 0, 2);
    int what = (int)sx_choose("what", 0, 1), inside = (int)sx_choose("inside", 0, 1);
    Array v = sx_vec("v", (size_t)k * n), w = sx_vec("w", m);
    Serie s((int)k, v), t((int)k, cat(w, k == 2 ? w : Array{}));
    auto p = decided("p", n), q = decided("q", m);
    auto inner = [&] {
        uint32_t at = 0;
        Serie r = inside ? cond::check(t, PredA([&](const Array &, uint32_t i) { return q[i] != 0; }))
                         : cond::if_then_else(t, Pred([&](const Array &) { return q[at++] != 0; }), Then([](const Array &, uint32_t, const Serie &) { return 1.0; }), Then([](const Array &, uint32_t, const Serie &) { return 0.0; }));
        items_shape(r, 1, m);
        for (uint32_t i = 0; i < m; i++) sx_assert(r.scalar(i) == (q[i] ? 1 : 0), "1 where the predicate holds, 0 elsewhere");
    };
    uint32_t at = 0;
    Serie r = what ? cond::check(s, PredA([&](const Array &, uint32_t i) { inner(); return p[i] != 0; }))
                   : cond::if_then_else(s, Pred([&](const Array &) { inner(); return p[at++] != 0; }),
                                        Then([&](const Array &x, uint32_t i, const Serie &z) { inner(); sx_assert(&z == &s, "the whole Serie"); return x[0] + i; }),
                                        Then([&](const Array &x, uint32_t i, const Serie &) { inner(); return x[k - 1] - i; }));
    items_shape(r, 1, n);
    for (uint32_t i = 0; i < n; i++) {
        double want = what ? (p[i] ? 1.0 : 0.0) : p[i] ? v[(size_t)k * i] + i : v[(size_t)k * i + k - 1] - i;
        sx_assert_num(r.scalar(i), want, "decided item by item");
    }
}
