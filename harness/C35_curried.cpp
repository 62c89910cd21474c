#include "ops.h"
#include <dataframe/functional/find.h>
#include <dataframe/functional/pipe.h>
#include <functional>
static Out out(const Serie &s) { return {s}; }
static Out out(double d) { return num(d); }
static Out out(const Out &o) { return o; }
static void spoil(Serie &s) { for (double &v : s.asArray()) v = -77; s = Serie(2, Array{1, 2, 3, 4}); }
static void spoil(double &d) { d = -77; }
// an arbitrary function that owns memory, so that a form that does not keep its own copy is found out
struct Fun {
    Array own{7, 1, 2};
    Fun() = default;
    double value(const Array &x, uint32_t i) const { sx_assert(own.size() == 3, "the function of the form"); Array a = x; a.push_back(own[0]); return fn("f", a, (int)i); }
    bool holds(const Array &x, uint32_t i) const { sx_assert(own.size() == 3, "the function of the form"); Array a = x; a.push_back(own[0]); return sx_pred_("p", a.data(), a.size(), i) != 0; }
};
static Serie unlike(const Serie &s) { Serie r = s; for (size_t i = 0; i < r.asArray().size(); i++) r.asArray()[i] = 1.5 + (double)i; return r; }
static double unlike(double d) { return d + 1; }
template <class F> F unlike(const F &f) { F g = f; g.own[0] = 8; return g; }
static void spoil(Fun &f) { f.own.clear(); f.own.shrink_to_fit(); }
// what a form gives, with a first argument x and another argument s (the second Serie where it takes one)
template <class D, class M, class X, class A> static void form(D &&direct, M &&make, const X &x, const A &s, const A &t) {
    Out want = out(direct(x, s)), other = out(direct(x, t));
    const X keep = x;
    auto y = std::make_unique<X>(x);
    auto f = make(*y);
    same_out(out(f(s)), want, "what the direct call gives");
    y.reset(); // the caller's own is gone
    same_out(out(f(s)), want, "the form keeps its own argument");
    same_out(out(f(t)), other, "the form can be used again, with another argument");
    auto g = f;
    same_out(out(g(s)), want, "a copy of the form is one like it");
    auto h = std::move(g);
    same_out(out(h(t)), other, "a form can be moved");
    same_out(out(make(X(x))(s)), want, "made from a temporary");
    const X c = x;
    same_out(out(make(c)(t)), other, "made from a constant");
    same_out(out(f(s)), want, "repeated use changes nothing");
    // two forms of the same type, each with its own argument, used in turn
    const X x2 = unlike(x);
    Out second = out(direct(x2, s));
    auto e = make(x2), e2 = make(x);
    same_out(out(e(s)), second, "a form of another argument");
    same_out(out(e2(s)), want, "a form made after another");
    auto d = make(X(x)), d2 = make(X(x2));
    same_out(out(d(s)), want, "a form made before another");
    same_out(out(d2(s)), second, "a form of another argument");
    auto m = make(*std::make_unique<X>(x)), m2 = make(*std::make_unique<X>(x2));
    same_out(out(m(s)), want, "a form made before another");
    same_out(out(m2(s)), second, "a form of another argument");
    // the caller's own changes later on
    X z = x;
    auto w = make(z);
    z = X(keep);
    spoil(z);
    same_out(out(w(s)), want, "the form keeps its own argument");
}
// BOUND pairs: add, sub, mult, div, equals, approximatelyEquals, concat, zip of one Serie bound and another given; scalars and itemSize 2 and 3, 1 and 2 items, any values
SX_ENTRY(pairs, "shards=4") {
    int op = (int)sx_choose("op#", 0, 9), k = (int)sx_choose("k", 1, 3);
    uint32_t n = (uint32_t)sx_choose("n", 1, 2);
    if (op == 4 || op == 5) n = 1;
    if ((op == 2 || op == 3) && k > 1) return;
    if ((op == 8 || op == 9) && k != 3) return;
    if (op == 5 && k > 2) return;
    Serie x(k, sx_vec("x", (size_t)k * n)), s(k, sx_vec("s", (size_t)k * n)), t(k, Array((size_t)k * n, 2.5));
#define PAIR(i, ns, name) if (op == i) form([](S a, S b) { return ns::name(a, b); }, [](auto &&a) { return ns::make_##name(std::forward<decltype(a)>(a)); }, x, s, t)
    PAIR(0, math, add); PAIR(1, math, sub); PAIR(2, math, mult); PAIR(3, math, div); PAIR(4, math, equals); PAIR(5, math, approximatelyEquals);
    PAIR(6, utils, concat); PAIR(7, utils, zip); PAIR(8, algebra, dot); PAIR(9, algebra, cross);
}
// BOUND others: covariance, quantile, bins, scale, insar, fringes, areas, normals, outliers and notOutliers with the Serie bound, div with a number bound; any values where they do not steer
SX_ENTRY(others, "shards=2") {
    int op = (int)sx_choose("op#", 0, 10);
    Array v = sx_vec("v", 3);
    for (double x : v) sx_assume(sx_finite(x));
    Serie a(1, v), b(1, {2, -1, 4}), fix(1, {3, 1, 2, 40}), p(3, sx_vec("p", 9)), q(3, {0, 1, 2}), r(3, {2, 1, 0}), u(3, v);
#define BOUND_(i, ns, name, X, T, A1, A2) if (op == i) form([](S x, const T &y) { return ns::name(x, y); }, [](auto &&x) { return ns::make_##name(std::forward<decltype(x)>(x)); }, X, T(A1), T(A2))
    BOUND_(0, stats, covariance, a, Serie, b, Serie(1, {1, 0, 2}));
    BOUND_(1, stats, quantile, fix, double, 0.5, 0.1);
    BOUND_(2, stats, bins, fix, uint32_t, 3, 5);
    BOUND_(3, math, scale, a, double, 3.0, 0.5);
    if (op == 4) form([](S x, const Array &y) { return geo::insar(x, y); }, [](auto &&x) { return geo::make_insar(std::forward<decltype(x)>(x)); }, u, Array{1, 2, 3}, Array{0, -1, 0.5});
    BOUND_(5, geo, fringes, fix, double, 0.5, 0.3);
    BOUND_(6, geo, areas, p, Serie, q, r);
    BOUND_(7, geo, normals, p, Serie, q, r);
    BOUND_(8, stats, outliers, fix, double, 1.5, 0.1);
    BOUND_(9, stats, notOutliers, fix, double, 1.5, 0.1);
    if (op == 10) { double d = v[0]; sx_assume((d > 1 || d < -1)); form([](double x, S y) { return math::div(x, y); }, [](auto &&x) { return math::make_div(std::forward<decltype(x)>(x)); }, d, a, b); }
}
struct MapD : Fun { double operator()(double x, uint32_t i) const { return value({x}, i); } };
struct MapA : Fun { Array operator()(const Array &x, uint32_t i) const { return {value(x, i), x[0]}; } };
struct PredD_ : Fun { bool operator()(double x, uint32_t i) const { return holds({x}, i); } };
struct PredA_ : Fun { bool operator()(const Array &x, uint32_t i) const { return holds(x, i); } };
struct RedD : Fun { double operator()(double t, double x, uint32_t i) const { return value({t, x}, i); } };
struct RedA : Fun { Array operator()(const Array &t, const Array &x, uint32_t i) const { return {value(t, i), x[0]}; } };
struct EachD : Fun { std::vector<std::pair<Array, uint32_t>> *log; void operator()(double x, uint32_t i) const { sx_assert(own.size() == 3, "the function of the form"); log->push_back({{x}, i}); } };
// BOUND callbacks: map, filter, reject, cut, reduce, forEach and apply made from a function object that owns memory: scalars and itemSize 2, 0..2 items, any function
SX_ENTRY(callbacks, "shards=4") {
    int op = (int)sx_choose("op#", 0, 9);
    uint32_t n = (uint32_t)sx_choose("n", 0, 2);
    Serie s(1, sx_vec("s", n)), t(1, Array(2, 2.5)), v(2, sx_vec("v", 2 * n)), w(2, Array{1, 2, 3, 4});
#define MADE(i, call, make, F, X, Y) if (op == i) form([](const F &f, S x) { return call; }, [](auto &&f) { return make; }, F(), X, Y)
    MADE(0, df::map(f, x), make_map(std::forward<decltype(f)>(f)), MapD, s, t);
    MADE(1, df::map(f, x), make_map(std::forward<decltype(f)>(f)), MapA, v, w);
    MADE(2, filter(f, x), make_filter(std::forward<decltype(f)>(f)), PredD_, s, t);
    MADE(3, filter(f, x), make_filter(std::forward<decltype(f)>(f)), PredA_, v, w);
    MADE(4, utils::reject(f, x), utils::make_reject(std::forward<decltype(f)>(f)), PredD_, s, t);
    MADE(5, utils::reject(f, x), utils::make_reject(std::forward<decltype(f)>(f)), PredA_, v, w);
    MADE(6, utils::cut(f, x), utils::make_cut(std::forward<decltype(f)>(f)), PredD_, s, t);
    MADE(7, utils::apply(f, x), utils::make_apply(std::forward<decltype(f)>(f)), MapA, v, w);
    if (op == 8) {
        double init = sx_f64("init");
        form([=](const RedD &f, S x) { return reduce(f, x, init); }, [=](auto &&f) { double i = init; auto r = make_reduce(std::forward<decltype(f)>(f), i); i = -77; return r; }, RedD(), s, t);
    }
    if (op == 9) {
        Array init = sx_vec("init", 2);
        form([=](const RedA &f, S x) { return reduce(f, x, init); }, [=](auto &&f) { Array i = init; auto r = make_reduce(std::forward<decltype(f)>(f), i); i = Array(); return r; }, RedA(), v, w);
    }
}
struct By { int sign; bool operator()(double a, double b) const { return sign > 0 ? a < b : a > b; } bool operator()(const Array &a, const Array &b) const { return sign > 0 ? a[0] < b[0] : a[0] > b[0]; } };
template <class R> static Out found(const R &r) { Out o = num(r.found); if (r.found) { o.push_back(Serie(1, Array{(double)r.index})); if constexpr (std::is_same_v<std::decay_t<decltype(r.value)>, double>) o.push_back(Serie(1, Array{r.value})); else o.push_back(Serie(1, r.value)); } return o; }
// the form of one whose result is shown as Series
template <class G, class R> struct Shown { G g; R r; template <class T> Out operator()(const T &t) const { return r(g(t)); } };
template <class G, class R> static Shown<G, R> shown(G g, R r) { return {std::move(g), r}; }
// BOUND rest: sort and check with the Serie bound and another comparator or predicate given, makeFind and makeFindAll of a function object that owns memory: 2 or 3 items
SX_ENTRY(rest, "shards=2") {
    int op = (int)sx_choose("op#", 1, 7);
    Serie a(1, sx_vec("a", 2)), b(1, sx_vec("b", 2)), fix(1, {3, 1, 2}), vec(2, {3, 1, 2, 5, 9, 9}), v(2, sx_vec("v", 4));
    if (op == 1) form([](S x, const By &y) { return utils::sort(x, y); }, [](auto &&x) { return utils::make_sort(std::forward<decltype(x)>(x)); }, fix, By{1}, By{-1});
    if (op == 2) form([](S x, const By &y) { return utils::sort(x, y); }, [](auto &&x) { return utils::make_sort(std::forward<decltype(x)>(x)); }, vec, By{-1}, By{1});
    PredD_ p, p2; p2.own[0] = 9;
    PredA_ q, q2; q2.own[0] = 9;
    if (op == 3) form([](S x, const PredD_ &y) { return cond::check(x, y); }, [](auto &&x) { return cond::make_check(std::forward<decltype(x)>(x)); }, a, p, p2);
    if (op == 4) form([](const PredD_ &f, S x) { return found(find(f, x)); }, [](auto &&f) { return shown(makeFind(std::forward<decltype(f)>(f)), [](const auto &r) { return found(r); }); }, PredD_(), a, fix);
    if (op == 5) form([](const PredA_ &f, S x) { return found(find(f, x)); }, [](auto &&f) { return shown(makeFind(std::forward<decltype(f)>(f)), [](const auto &r) { return found(r); }); }, PredA_(), v, vec);
    if (op == 6) form([](const PredD_ &f, S x) { return findAll(f, x); }, [](auto &&f) { return makeFindAll(std::forward<decltype(f)>(f)); }, PredD_(), a, fix);
    if (op == 7) form([](const PredA_ &f, S x) { return findAll(f, x); }, [](auto &&f) { return makeFindAll(std::forward<decltype(f)>(f)); }, PredA_(), v, vec);
}
// BOUND each: forEach and multi-Serie forms of map, filter and reject: 0..2 items, any values
SX_ENTRY(each, "") {
    uint32_t n = (uint32_t)sx_choose("n", 0, 2);
    Serie s(1, sx_vec("s", n));
    std::vector<std::pair<Array, uint32_t>> log;
    auto e = std::make_unique<EachD>();
    e->log = &log;
    auto f = make_forEach(*e);
    e.reset();
    for (int round = 0; round < 2; round++) {
        log.clear();
        f(s);
        sx_assert(log.size() == n, "called once per item");
        for (uint32_t i = 0; i < log.size(); i++) { sx_assert(log[i].second == i, "in order"); sx_assert_same(log[i].first[0], s.asArray()[i], "with the value"); }
    }
    Serie a(2, sx_vec("a", 2 * n)), b(1, sx_vec("b", n));
    auto p = std::make_unique<PredA_>();
    auto pred = [q = *p](const Array &x, const Array &y, uint32_t i) -> bool { return q.holds(cat(x, y), i); };
    auto r = utils::make_reject(pred);
    p.reset();
    for (int round = 0; round < 2; round++) same_out(two(r(a, b)), two(utils::reject(pred, a, b)), "what the direct call gives");
}
// BOUND piped: forms as steps of a pipeline that is used twice: map, filter, map again, reduce-like add with a bound Serie; 0..2 items
SX_ENTRY(piped, "") {
    uint32_t n = (uint32_t)sx_choose("n", 0, 2);
    Serie s(1, sx_vec("s", n)), x(1, sx_vec("x", n)), x0 = x;
    auto pick = PredD_();
    auto go = [&] { Serie own(x); MapD m; PredD_ q; return make_pipe(math::make_add(own), make_map(m), make_filter(q), math::make_div(2.0)); }();
    spoil(x);
    Serie t = s.map([](double v, uint32_t) { return -v; });
    for (const Serie &in : {s, t, s}) {
        Serie want = math::div(2.0, filter(pick, df::map(MapD(), math::add(x0, in))));
        same_out({go(in)}, {want}, "the steps one after the other");
    }
}
