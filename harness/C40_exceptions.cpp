// SX-FLAGS: -I@V@/rt/shadow
#include "ops.h"
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/memoize.h>
#include <dataframe/functional/utils/sort.h>
#include <string>
// what callbacks throw: an exception of their own, standard ones and their descendants, things that are no exceptions
struct Mine : std::runtime_error { double x; Mine(double v) : std::runtime_error("mine"), x(v) {} };
struct Odd : std::invalid_argument { double x; Odd(double v) : std::invalid_argument("odd"), x(v) {} };
struct Far : std::out_of_range { double x; Far(double v) : std::out_of_range("far"), x(v) {} };
struct Bare { double x; };
static uint32_t calls, bomb;
static int kind;
static double load;
static void tick() {
    if (calls++ != bomb) return;
    switch (kind) {
    case 0: throw Mine(load);
    case 1: throw Odd(load);
    case 2: throw Far(load);
    case 3: throw Bare{load};
    case 4: throw load;
    default: throw std::string("text");
    }
}
// exactly what was thrown arrives
template <class F> static bool arrives(F &&f) {
    try { f(); }
    catch (const Mine &e) { sx_assert_same(e.x, load, "the value thrown"); sx_assert(std::string(e.what()) == "mine", "the text thrown"); return kind == 0; }
    catch (const Odd &e) { sx_assert_same(e.x, load, "the value thrown"); return kind == 1; }
    catch (const Far &e) { sx_assert_same(e.x, load, "the value thrown"); return kind == 2; }
    catch (const Bare &e) { sx_assert_same(e.x, load, "the value thrown"); return kind == 3; }
    catch (double e) { sx_assert_same(e, load, "the value thrown"); return kind == 4; }
    catch (const std::string &e) { return kind == 5 && e == "text"; }
    catch (...) { return false; }
    return false;
}
struct Use { Out (*f)(S, S); bool perItem; }; // perItem: once per item, in order
static Array arrT(const Array &x) { tick(); return x; }
static const Use uses[] = {
    {[](S a, S) { return Out{map([](const Array &x, uint32_t) { return arrT(x); }, a)}; }, true},
    {[](S a, S) { return Out{map([](const Array &x, uint32_t) { tick(); return x[0]; }, a)}; }, true},
    {[](S a, S b) { return Out{map([](const Array &x, const Array &, uint32_t) { return arrT(x); }, a, b)}; }, true},
    {[](S a, S) { return Out{a.map([](const Array &x, uint32_t) { return arrT(x); })}; }, true},
    {[](S a, S) { return Out{make_map([](const Array &x, uint32_t) { return arrT(x); })(a)}; }, true},
    {[](S a, S) { return Out{utils::apply([](const Array &x, uint32_t) { return arrT(x); }, a)}; }, true},
    {[](S a, S b) { forEach([](const Array &, const Array &, uint32_t) { tick(); }, a, b); return Out{}; }, true},
    {[](S a, S b) { forEach([](const Array &, uint32_t) { tick(); }, a.itemSize() > 1 ? a : utils::zip(a, b)); return Out{}; }, true},
    {[](S a, S b) { (a.itemSize() > 1 ? a : utils::zip(a, b)).forEach([](const Array &, uint32_t) { tick(); }); return Out{}; }, true},
    {[](S a, S) { return Out{reduce([](const Array &t, const Array &, uint32_t) { tick(); return t; }, a, Array{1.0})}; }, true},
    {[](S a, S) { return Out{filter([](const Array &, uint32_t) { tick(); return true; }, a)}; }, true},
    {[](S a, S b) { return two(filter([](const Array &, const Array &, uint32_t) { tick(); return true; }, a, b)); }, true},
    {[](S a, S b) { return filterAll([](const Array &, const Array &) { tick(); return true; }, a, b); }, true},
    {[](S a, S) { return Out{utils::reject([](const Array &, uint32_t) { tick(); return false; }, a)}; }, true},
    {[](S a, S b) { return two(utils::reject([](const Array &, const Array &, uint32_t) { tick(); return false; }, a, b)); }, true},
    {[](S a, S) { return Out{utils::cut([](const Array &, uint32_t) { tick(); return true; }, a)}; }, true},
    {[](S a, S) { return Out{findAll([](const Array &, uint32_t) { tick(); return true; }, a)}; }, true},
    {[](S a, S) { auto r = find([](const Array &, uint32_t) { tick(); return false; }, a); return Out{num(r ? 1 : 0)[0]}; }, true},
    {[](S a, S) { return two(utils::partition([](const Array &, uint32_t) { tick(); return true; }, a)); }, true},
    {[](S a, S) { return Out{cond::check(a, [](const Array &, uint32_t) { tick(); return true; })}; }, true},
    {[](S a, S) { return Out{cond::if_then_else(a, [](const Array &) { tick(); return true; }, [](const Array &x, uint32_t, S) { return x; }, [](const Array &x, uint32_t, S) { return x; })}; }, true},
    {[](S a, S) { return Out{cond::if_then_else(a, [](const Array &) { return true; }, [](const Array &x, uint32_t, S) { return arrT(x); }, [](const Array &x, uint32_t, S) { return x; })}; }, true},
    {[](S a, S) { return Out{cond::if_then_else(a, [](const Array &) { return false; }, [](const Array &x, uint32_t, S) { return x; }, [](const Array &x, uint32_t, S) { return arrT(x); })}; }, true},
    {[](S a, S) { return Out{utils::sort(a, [](const Array &x, const Array &y) { tick(); return x[0] < y[0]; })}; }, false},
    {[](S a, S) { return Out{pipe(a, [](const Serie &s) { tick(); return math::negate(s); }, [](const Serie &s) { tick(); return s; }, [](const Serie &s) { tick(); return s; })}; }, false},
    {[](S a, S) { return Out{make_pipe([](const Serie &s) { tick(); return math::negate(s); }, [](const Serie &s) { tick(); return s; })(a)}; }, false},
    {[](S a, S) { return Out{utils::compose([](const Serie &s) { tick(); return math::negate(s); }, [](const Serie &s) { tick(); return s; })(a)}; }, false},
    {[](S a, S) { return Out{utils::parallel_execute([](const Serie &s) { tick(); return s; }, a, 1)}; }, false},
};
static const int nUses = sizeof uses / sizeof *uses;
// BOUND callbacks: 28 functions that call back (mappers, visitors, reducers, predicates, branches, comparators, pipeline steps, jobs) on 1..3 items of any values with itemSize 1 and 2, thrown at any call, 6 kinds of exceptions carrying any value; then the same call without one
SX_ENTRY(callbacks, "shards=4") {
    int u = (int)sx_choose("use#", 0, nUses - 1), k = (int)sx_choose("k", 1, 2);
    uint32_t n = (uint32_t)sx_choose("n", 1, 3);
    kind = (int)sx_choose("kind", 0, 5);
    bomb = (uint32_t)sx_choose("at", 0, 2);
    load = sx_f64("x");
    Array va = u == 23 ? Array{3, 1, 2, 5, 4, 0} : sx_vec("a", (size_t)k * n), vb = sx_vec("b", (size_t)k * n);
    va.resize((size_t)k * n);
    if (k == 1 && (u == 23 || u == 17)) return; // comparators of scalars, and what find asks of them, take numbers
    const Serie a(k, va), b(k, vb);
    calls = 0;
    uint32_t at = bomb;
    bomb = ~0u;
    Out want = uses[u].f(a, b);
    uint32_t total = calls;
    if (at >= total) return;
    uint64_t heap = sx_live_heap();
    bomb = at;
    calls = 0;
    sx_assert(arrives([&] { uses[u].f(a, b); }), "what the callback throws reaches the caller as it was thrown");
    sx_assert(calls == at + 1, "the callback is not called again");
    if (uses[u].perItem) sx_assert(total == n, "once per item otherwise");
    sx_assert(sx_live_heap() == heap, "nothing is kept");
    same_serie(a, k, n, 3, va);
    same_serie(b, k, n, 3, vb);
    bomb = ~0u;
    calls = 0;
    same_out(uses[u].f(a, b), want, "the next call is not affected");
    sx_assert(calls == total, "the next call calls as often");
}
// BOUND numbers: callbacks of numbers: map, forEach, reduce (free, member, make_), filter, find, sort, on 1..3 scalars, in the same way
SX_ENTRY(numbers, "shards=2") {
    static const Use nums[] = {
        {[](S a, S) { return Out{map([](double x, uint32_t) { tick(); return x; }, a)}; }, true},
        {[](S a, S) { return Out{map([](double x, uint32_t) { tick(); return Array{x, x}; }, a)}; }, true},
        {[](S a, S b) { return Out{map([](const Array &x, const Array &, uint32_t) { tick(); return x[0]; }, a, b)}; }, true},
        {[](S a, S) { forEach([](double, uint32_t) { tick(); }, a); return Out{}; }, true},
        {[](S a, S) { a.forEach([](double, uint32_t) { tick(); }); return Out{}; }, true},
        {[](S a, S) { return Out{num(reduce([](double t, double, uint32_t) { tick(); return t; }, a, 1.0))[0]}; }, true},
        {[](S a, S) { return Out{num(Serie(a).reduce([](double t, double, uint32_t) { tick(); return t; }, 1.0))[0]}; }, true},
        {[](S a, S) { return Out{filter([](double, uint32_t) { tick(); return true; }, a)}; }, true},
        {[](S a, S) { return Out{utils::reject([](double, uint32_t) { tick(); return false; }, a)}; }, true},
        {[](S a, S) { return two(utils::partition([](double, uint32_t) { tick(); return true; }, a)); }, true},
        {[](S a, S) { auto r = find([](double, uint32_t) { tick(); return false; }, a); return Out{num(r ? 1 : 0)[0]}; }, true},
        {[](S a, S) { return Out{cond::check(a, [](double, uint32_t) { tick(); return true; })}; }, true},
        {[](S, S) { return Out{utils::sort(Serie(1, {3, 1, 2}), [](double x, double y) { tick(); return x < y; })}; }, false},
    };
    int u = (int)sx_choose("use#", 0, sizeof nums / sizeof *nums - 1);
    uint32_t n = (uint32_t)sx_choose("n", 1, 3);
    kind = (int)sx_choose("kind", 0, 5);
    uint32_t at = (uint32_t)sx_choose("at", 0, 2);
    load = sx_f64("x");
    Array va = sx_vec("a", n);
    const Serie a(1, va), b(1, va);
    calls = 0;
    bomb = ~0u;
    Out want = nums[u].f(a, b);
    uint32_t total = calls;
    if (at >= total) return;
    uint64_t heap = sx_live_heap();
    bomb = at;
    calls = 0;
    sx_assert(arrives([&] { nums[u].f(a, b); }), "what the callback throws reaches the caller as it was thrown");
    sx_assert(calls == at + 1, "the callback is not called again");
    sx_assert(sx_live_heap() == heap, "nothing is kept");
    same_serie(a, 1, n, 3, va);
    bomb = ~0u;
    calls = 0;
    same_out(nums[u].f(a, b), want, "the next call is not affected");
}
// BOUND remembered: a memoized function that throws: as thrown, nothing is stored, what was stored before stays, the next call computes; a Manager with a decomposer that throws
SX_ENTRY(remembered, "") {
    kind = (int)sx_choose("kind", 0, 5);
    load = sx_f64("x");
    Array va = sx_vec("a", 2);
    sx_assume(va[0] == va[0] && va[1] == va[1]);
    const Serie a(1, va), b(2, va);
    if (sx_choose("what", 0, 1)) {
        Dataframe d;
        d.add("a", a);
        auto cb = [](const Dataframe &f) { tick(); return f.get("a"); };
        bomb = ~0u;
        Manager m(d, {new UserDefinedDecomposer<decltype(cb)>(1, "u", std::move(cb))});
        same_serie(m.serie(1, "u"), 1, 2, 3, va);
        calls = 0;
        bomb = 0;
        sx_assert(arrives([&] { sx_choose("names", 0, 1) ? (void)m.names(1) : (void)m.serie(1, "u"); }), "what the callback throws reaches the caller as it was thrown");
        sx_assert(calls == 1, "the callback is not called again");
        bomb = ~0u;
        same_serie(m.serie(1, "u"), 1, 2, 3, va);
        return;
    }
    auto f = utils::memoize([](const Serie &s) { tick(); return math::negate(s); });
    calls = 0;
    bomb = ~0u;
    bool before = sx_choose("before", 0, 1);
    if (before) f(b);
    calls = 0;
    bomb = 0;
    sx_assert(arrives([&] { f(a); }), "what the callback throws reaches the caller as it was thrown");
    sx_assert(calls == 1, "the callback is not called again");
    bomb = ~0u;
    Serie r = f(a);
    sx_assert(calls == 2, "nothing was stored for the call that failed");
    same_serie(r, 1, 2, 3, Array{-va[0], -va[1]});
    if (before) { f(b); sx_assert(calls == 2, "what was stored before is still there"); }
}
