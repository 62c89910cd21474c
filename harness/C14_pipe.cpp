#include "h.h"
#include <dataframe/functional/utils/compose.h>
using namespace df;
// step number i: an arbitrary function of the whole Serie (kind 0: keeps the shape, 1: one item fewer components, 2: adds an item)
static Serie step(int i, const Serie &s) {
    static const char *names[] = {"f1", "f2", "f3", "f4", "f5"};
    Array r, v = s.asArray();
    size_t n = v.size() + (i % 2);
    for (size_t j = 0; j < n; j++) r.push_back(fn(names[i], v, j));
    return Serie(1, r);
}
static int calls[5], order[16], done;
static void reset() { for (int &c : calls) c = 0; done = 0; }
static Serie counted(int i, const Serie &s) { calls[i]++; if (done < 16) order[done] = i; done++; return step(i, s); }
static void once(int n, bool reversed, int times = 1) {
    for (int i = 0; i < n; i++) sx_assert(calls[i] == times, "every step is applied exactly once");
    sx_assert(done == n * times, "no other application");
    for (int t = 0; t < times; t++) for (int i = 0; i < n; i++) sx_assert(order[t * n + i] == (reversed ? n - 1 - i : i), "in the stated order");
}
static auto S(int i) { return [i](const Serie &s) { return counted(i, s); }; }
static Serie chain(int n, bool reversed, Serie x) {
    for (int i = 0; i < n; i++) x = step(reversed ? n - 1 - i : i, x);
    return x;
}
// BOUND serie: one to five arbitrary steps on a Serie of 0..4 values; pipe, member pipe, make_pipe used twice (on two Series), compose, nested pipes and compositions
SX_ENTRY(serie, "") {
    uint32_t cnt = (uint32_t)sx_choose("count", 0, 4);
    Array v = sx_vec("v", cnt), w = sx_vec("w", 2);
    Serie s(1, v), t(1, w);
    int n = (int)sx_choose("steps", 1, 5);
    reset();
    int form = (int)sx_choose("form", 0, 3);
    bool rev = form == 2;
    Serie r;
    if (form == 0) {
        if (n == 1) r = pipe(s, S(0));
        else if (n == 2) r = pipe(s, S(0), S(1));
        else if (n == 3) r = pipe(s, S(0), S(1), S(2));
        else if (n == 4) r = pipe(s, S(0), S(1), S(2), S(3));
        else r = pipe(s, S(0), S(1), S(2), S(3), S(4));
    } else if (form == 1) {
        auto go = [&](auto p) {
            Serie a = p(s);
            once(n, false);
            reset();
            Serie b = p(t);
            same_values(b, chain(n, false, t).asArray(), "a pipeline can be re-used on another Serie");
            once(n, false);
            reset();
            Serie c = p(s);
            same_values(c, a.asArray(), "a pipeline is not changed by running it");
            r = a;
        };
        if (n == 1) go(make_pipe(S(0)));
        else if (n == 2) go(make_pipe(S(0), S(1)));
        else if (n == 3) go(make_pipe(S(0), S(1), S(2)));
        else if (n == 4) go(make_pipe(S(0), S(1), S(2), S(3)));
        else go(make_pipe(S(0), S(1), S(2), S(3), S(4)));
    } else if (form == 2) {
        sx_assume(n >= 2);
        if (n == 2) r = utils::compose(S(0), S(1))(s);
        else if (n == 3) r = utils::compose(S(0), S(1), S(2))(s);
        else if (n == 4) r = utils::compose(S(0), S(1), S(2), S(3))(s);
        else r = utils::compose(S(0), S(1), S(2), S(3), S(4))(s);
    } else {
        sx_assume(n >= 2);
        if (n == 2) r = s.pipe(S(0), S(1));
        else if (n == 3) r = s.pipe(S(0), S(1), S(2));
        else if (n == 4) r = s.pipe(S(0), S(1), S(2), S(3));
        else r = s.pipe(S(0), S(1), S(2), S(3), S(4));
    }
    once(n, rev);
    same_values(r, chain(n, rev, Serie(1, v)).asArray(), "the result is that of the steps applied in order");
    same_values(s, v, "input unchanged");
}
// BOUND nested: pipelines and compositions used as steps of one another, four arbitrary steps
SX_ENTRY(nested, "") {
    Array v = sx_vec("v", 2);
    Serie s(1, v);
    reset();
    Serie r;
    bool rev = false;
    switch (sx_choose("form", 0, 3)) {
    case 0: r = pipe(s, make_pipe(S(0), S(1)), make_pipe(S(2), S(3))); break;
    case 1: r = make_pipe(make_pipe(S(0)), make_pipe(S(1), make_pipe(S(2), S(3))))(s); break;
    case 2: r = utils::compose(utils::compose(S(0), S(1)), utils::compose(S(2), S(3)))(s); rev = true; break;
    default: r = pipe(s, utils::compose(S(1), S(0)), utils::compose(S(3), S(2)));
    }
    once(4, rev);
    same_values(r, chain(4, rev, Serie(1, v)).asArray(), "the result is that of the steps applied in order");
}
struct P2 { double a, b; };
// BOUND values: one to four arbitrary steps on numbers, arrays and structures, ending in another type
SX_ENTRY(values, "") {
    double x = sx_f64("x");
    auto f = [](double a) { return fn1("f", a, 0); };
    auto g = [](double a) { return fn1("g", a, 0); };
    auto mk = [](double a) { return Array{a, fn1("h", a, 1)}; };
    auto un = [](const Array &a) { return P2{fn("k", a, 0), a[1]}; };
    auto sum = [](const P2 &p) { return fn2("m", p.a, p.b, 0); };
    Array m = mk(g(f(x)));
    P2 u = un(m);
    sx_assert_same(pipe(x, f), f(x), "one step");
    sx_assert_same(pipe(x, f, g), g(f(x)), "two steps");
    sx_assert_same(pipe(x, f, g, mk, un, sum), sum(u), "steps of different types");
    sx_assert_same(make_pipe(f, g, mk, un, sum)(x), sum(u), "steps of different types");
    sx_assert_same(utils::compose(sum, un, mk, g, f)(x), sum(u), "composition of different types");
    sx_assert_same(utils::compose(f, g)(x), f(g(x)), "composition of two");
    sx_assert_same(utils::compose(f, g, f)(x), f(g(f(x))), "composition of three");
    auto two = [](double a, double b) { return fn2("t", a, b, 0); };
    sx_assert_same(utils::compose(f, two)(x, 2.0), f(two(x, 2.0)), "the innermost function may take several arguments");
}
// BOUND state: a pipeline whose steps carry values keeps working after the originals are changed or gone
SX_ENTRY(state, "") {
    double x = sx_f64("x"), k = sx_f64("k");
    auto make = [](double a) {
        Array big(3, a);
        auto f = [big](double y) { return fn("f", cat(big, Array{y}), 0); };
        auto g = [a](double y) { return fn2("g", a, y, 0); };
        return sx_choose("compose", 0, 1) ? std::function<double(double)>(utils::compose(g, f)) : std::function<double(double)>(make_pipe(f, g));
    };
    auto p = make(k);
    double want = fn2("g", k, fn("f", Array{k, k, k, x}, 0), 0);
    sx_assert_same(p(x), want, "the pipeline keeps its own steps");
    sx_assert_same(p(x), want, "the pipeline can be re-used");
    auto inc = [c = k](double y) { return fn2("f", c, y, 0); };
    auto q = make_pipe(inc, inc);
    sx_assert_same(q(x), inc(inc(x)), "named steps stay usable");
}
// BOUND throwing: one of three steps throws: the exception reaches the caller, later steps do not run, the pipeline stays usable
SX_ENTRY(throwing, "") {
    int at = (int)sx_choose("at", 0, 2), ran[3] = {0, 0, 0};
    bool on = true;
    auto st = [&](int i) { return [&, i](const Serie &s) { if (on && i == at) throw std::runtime_error("step"); ran[i]++; return step(i, s); }; };
    Array v = sx_vec("v", 2);
    Serie s(1, v);
    auto p = make_pipe(st(0), st(1), st(2));
    sx_assert(sx_outcome([&] { p(s); }) == 2, "the exception reaches the caller");
    for (int i = 0; i < 3; i++) sx_assert(ran[i] == (i < at), "later steps do not run");
    on = false;
    same_values(p(s), chain(3, false, s).asArray(), "usable afterwards");
    same_values(s, v, "input unchanged");
}
// BOUND invalid: pipe, member pipe, make_pipe and compose of two to four steps on an invalid Serie, an empty one and one of several components; any step may give an invalid Serie: every step receives exactly what the previous one gave
SX_ENTRY(invalid, "shards=2") {
    auto in = [](uint64_t w) { return w == 0 ? Serie() : w == 1 ? Serie(0, 0) : w == 2 ? Serie(2, 0u, 2) : Serie(2, {1, 2, 3, 4}, 2); };
    auto same = [](const Serie &a, const Serie &b) { return a.itemSize() == b.itemSize() && a.count() == b.count() && a.dimension() == b.dimension() && a.asArray() == b.asArray(); };
    int form = (int)sx_choose("form", 0, 3), n = (int)sx_choose("steps", 2, 4);
    std::vector<Serie> give;
    for (int i = 0; i <= n; i++) give.push_back(in(sx_choose("what", 0, 3)));
    int at = 0;
    auto st = [&](int i) { return [&, i](const Serie &s) -> Serie { sx_assert(at == i, "in order, each once"); at++; sx_assert(same(s, give[i]), "a step receives what the previous one gave"); return give[i + 1]; }; };
    Serie s = give[0], r;
    auto a = st(0), b = st(1), c = st(2), d = st(3);
    switch (form * 3 + n - 2) {
    case 0: r = pipe(s, a, b); break;
    case 1: r = pipe(s, a, b, c); break;
    case 2: r = pipe(s, a, b, c, d); break;
    case 3: r = s.pipe(a, b); break;
    case 4: r = s.pipe(a, b, c); break;
    case 5: r = s.pipe(a, b, c, d); break;
    case 6: r = make_pipe(a, b)(s); break;
    case 7: r = make_pipe(a, b, c)(s); break;
    case 8: r = make_pipe(a, b, c, d)(s); break;
    case 9: r = utils::compose(b, a)(s); break;
    case 10: r = utils::compose(c, b, a)(s); break;
    default: r = utils::compose(d, c, b, a)(s);
    }
    sx_assert(at == n, "every step runs");
    sx_assert(same(r, give[n]), "the result is what the last step gave");
}
// BOUND single: one step alone (pipe, make_pipe) on an invalid, an empty and a valid Serie
SX_ENTRY(single, "") {
    Serie s = sx_choose("in", 0, 1) ? sx_choose("empty", 0, 1) ? Serie(3, 0u, 2) : Serie(2, {1, 2}) : Serie();
    double x = sx_f64("x");
    int calls = 0;
    auto f = [&](const Serie &t) { calls++; sx_assert(t.itemSize() == s.itemSize() && t.count() == s.count(), "the step receives the Serie"); return Serie(1, {x}); };
    Serie r = sx_choose("make", 0, 1) ? make_pipe(f)(s) : pipe(s, f);
    sx_assert(calls == 1, "the step runs once");
    same_serie(r, 1, 1, 3, Array{x});
}
