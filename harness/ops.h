// The operations of the library behind one type, for the properties that hold for all of them (C34, C36).
#pragma once
#include "h.h"
#include <dataframe/Dataframe.h>
#include <dataframe/functional/macros.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/merge.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/eigen.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/normalize.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/weightedSum.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>
using namespace df;
using Out = std::vector<Serie>;
using S = const Serie &;
using Op = Out (*)(S, S);
static double Q[3] = {1, 2, 3}; // the numbers the operations take besides their Series
static int alt = 0;               // 1: other numbers where they decide what is done
static Out num(double d) { return {Serie(1, Array{d})}; }
static Out tup(const Tuple &t) { return t.isNumber ? num(t.number) : Out{Serie(1, t.array)}; }
static Out arr(const math::MinMax &t) { return {Serie(1, t.min), Serie(1, t.max)}; }
template <class T> static Out two(const T &t) { return {std::get<0>(t), std::get<1>(t)}; }
static bool even(const Array &, uint32_t i) { return i % 2 == 0; }
static Array twice(const Array &a, uint32_t) { Array r = a; for (double &x : r) x *= 2; return r; }
// operations on any Serie, or pair of Series of one shape
static const Op any[] = {
    [](S a, S) { return Out{map([](const Array &x, uint32_t i) { return twice(x, i); }, a)}; },
    [](S a, S b) { return Out{map([](const Array &x, const Array &y, uint32_t) { Array r = x; for (size_t i = 0; i < r.size() && i < y.size(); i++) r[i] -= y[i]; return r; }, a, b)}; },
    [](S a, S) { return Out{a.map([](const Array &x, uint32_t i) { return twice(x, i); })}; },
    [](S a, S b) { return Out{utils::apply([](const Array &x, const Array &y, uint32_t) { Array r = x; for (size_t i = 0; i < r.size() && i < y.size(); i++) r[i] *= y[i]; return r; }, a, b)}; },
    [](S a, S) { return Out{filter([](const Array &x, uint32_t i) { return even(x, i); }, a)}; },
    [](S a, S b) { return two(filter([](const Array &x, const Array &, uint32_t i) { return even(x, i); }, a, b)); },
    [](S a, S b) { return filterAll([](const Array &x, const Array &) { return x.size() > 0; }, a, b); },
    [](S a, S) { return Out{utils::reject([](const Array &x, uint32_t i) { return even(x, i); }, a)}; },
    [](S a, S b) { return two(utils::reject([](const Array &x, const Array &, uint32_t i) { return even(x, i); }, a, b)); },
    [](S a, S) { return Out{utils::cut([](const Array &x, uint32_t i) { return even(x, i); }, a)}; },
    [](S a, S) { return Out{findAll([](const Array &x, uint32_t i) { return even(x, i); }, a)}; },
    [](S a, S) { return two(utils::partition([](const Array &x, uint32_t i) { return even(x, i); }, a)); },
    [](S a, S) { return utils::partition_n(2 + alt, a); },
    [](S a, S b) { return Out{utils::concat(a, b)}; },
    [](S a, S b) { return Out{utils::concat(std::vector<Serie>{a, b, a})}; },
    [](S a, S b) { return Out{merge(a, b)}; },
    [](S a, S b) { return Out{merge(a, b, false)}; },
    [](S a, S b) { return Out{utils::zip(a, b)}; },
    [](S a, S) { return Out{cond::check(a, [](const Array &x, uint32_t i) { return even(x, i); })}; },
    [](S a, S) { return Out{cond::if_then_else(a, [](const Array &x) { return x.size() == 1; }, [](const Array &x, uint32_t, S) { return x; }, [](const Array &x, uint32_t i, S) { return twice(x, i); })}; },
    [](S a, S b) { return Out{math::add(a, b)}; },
    [](S a, S b) { return Out{math::add({a, b, a})}; },
    [](S a, S b) { return Out{math::sub(a, b)}; },
    [](S a, S b) { return Out{math::sub({a, b, b})}; },
    [](S a, S) { return Out{math::mult(a, Q[2])}; },
    [](S a, S) { return Out{math::div(Q[2], a)}; },
    [](S a, S) { return Out{math::scale(a, Q[2])}; },
    [](S a, S) { return Out{math::negate(a)}; },
    [](S a, S b) { return Out{math::weigthedSum({a, b}, Array{Q[1], Q[2]})}; },
    [](S a, S b) { return Out{math::equalityMask(a, b)}; },
    [](S a, S b) { return Out{math::approximateEqualityMask(a, b, 0.5 + alt)}; },
    [](S a, S b) { return num(math::equals(a, b) + 2 * math::approximatelyEquals(a, b, 0.5 + alt)); },
    [](S a, S) { return tup(stats::mean(a)); },
    [](S a, S) { return Out{a.clone()}; },
    [](S a, S) { return Out{Serie(a)}; },
    [](S a, S) { double t = 0; forEach([&](const Array &x, uint32_t) { t += x[0]; }, utils::zip(a, a)); return num(t); },
    [](S a, S) { return Out{utils::parallel_execute([](const Serie &p) { return p.map([](const Array &x, uint32_t i) { return twice(x, i); }); }, a, 2)}; },
};
static Serie firsts(const Serie &a) { // the first component of every item
    Array r;
    for (uint32_t i = 0; i < a.count(); i++) r.push_back(a.asArray()[(size_t)i * a.itemSize()]);
    return Serie(1, r);
}
static Array kinds(const Serie &a) { return Array(a.itemSize(), Q[1]); }
// further forms of operations on any Serie, or pair of Series of one shape
static const Op more[] = {
    [](S a, S) { return Out{math::add(firsts(a), Q[2])}; },
    [](S a, S) { return Out{math::sub(firsts(a), Q[2])}; },
    [](S a, S b) { return Out{math::add(a, b, a)}; },
    [](S a, S b) { return Out{math::sub(a, b, b)}; },
    [](S a, S b) { return Out{math::mult(a, b)}; },
    [](S a, S b) { return Out{math::mult(a, firsts(b))}; },
    [](S a, S) { return Out{math::scale(a, kinds(a))}; },
    [](S a, S b) { return Out{math::weigthedSum({a, b, a}, {Q[0], Q[1], Q[2]})}; },
    [](S a, S b) { return Out{utils::concat(a, b, a)}; },
    [](S a, S b) { return Out{merge(true, a, b, a)}; },
    [](S a, S b) { return Out{merge(false, a, b, a)}; },
    [](S a, S b) { return Out{utils::zip(a, b, a)}; },
    [](S a, S b) { return Out{utils::zipVector({a, b})}; },
    [](S a, S b) { Out o; for (const auto &p : utils::partition_n(2 + alt, a, b)) for (const Serie &q : p) o.push_back(q); return o; },
    [](S a, S b) { return utils::rejectAll([](const Array &x, const Array &) { return x.empty(); }, a, b); },
    [](S a, S b) { return Out{map([](const Array &x, const Array &y, const Array &z, uint32_t i) { return cat(cat(x, y), Array{z[0] * i}); }, a, b, a)}; },
    [](S a, S b) { return Out{make_map([](const Array &x, uint32_t i) { return twice(x, i); })(a), make_filter([](const Array &x, uint32_t i) { return even(x, i); })(b)}; },
    [](S a, S) { return Out{make_reduce([](const Array &t, const Array &x, uint32_t i) { Array r = t; r[0] += x[0] * i; return r; }, Array{Q[0]})(a)}; },
    [](S a, S) { return Out{a.filter([](const Array &x, uint32_t i) { return even(x, i); }), a.pipe([](const Serie &s) { return math::negate(s); }, [](const Serie &s) { return math::scale(s, Q[1]); })}; },
    [](S a, S) { return Out{pipe(a, [](const Serie &s) { return math::negate(s); }, [](const Serie &s) { return math::scale(s, Q[0]); })}; },
    [](S a, S) { return Out{make_pipe(make_map([](const Array &x, uint32_t i) { return twice(x, i); }), [](const Serie &s) { return math::scale(s, Q[0]); })(a)}; },
    [](S a, S) { return Out{utils::compose([](const Serie &s) { return math::negate(s); }, [](const Serie &s) { return math::scale(s, Q[0]); })(a)}; },
    [](S a, S b) { Dataframe d; d.add("a", a); d.set("b", b); Dataframe e = d; e.del("a"); const Dataframe &c = e; return Out{d.get("a"), c.get("b"), c.get("a"), d["b"]}; },
    [](S a, S) { double t = 0; a.forEach([&](const auto &x, uint32_t i) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) t += x * i; else t += x.back() * i; }); return num(t); },
    [](S a, S b) { Serie c = a; c = b; Serie d(std::move(c)); return Out{d, toSerie(a.itemSize(), a.asArray())}; },
};
static const Op scalars[] = {
    [](S a, S) { return Out{math::sub(a, Q[2])}; },
    [](S a, S) { return Out{math::add(a, Q[2])}; },
    [](S a, S) { return Out{map([](double x, uint32_t i) { return x * i; }, a)}; },
    [](S a, S b) { return Out{map([](const Array &x, const Array &y, uint32_t) { return x[0] - y[0]; }, a, b)}; },
    [](S a, S) { return num(reduce([](double t, double x, uint32_t) { return t + x; }, a, Q[0])); },
    [](S a, S b) { return Out{math::div(a, b)}; },
    [](S a, S b) { return Out{math::mult(a, b)}; },
    [](S a, S) { return Out{utils::sort(a)}; },
    [](S a, S) { return Out{utils::sort(a, [](double x, double y) { return x > y; })}; },
    [](S a, S) { return num(stats::quantile(a, 0.3 + 0.2 * alt)); },
    [](S a, S) { return num(stats::IQR(a)); },
    [](S a, S) { return Out{stats::outliers(a, 1.5 + alt), stats::notOutliers(a, 1.5 + alt), stats::isOutliers(a, 1.5 + alt)}; },
    [](S a, S b) { return num(stats::covariance(a, b)); },
    [](S a, S) { return Out{geo::fringes(a, 0.5 + alt)}; },
    [](S a, S) { return arr(math::minMax(a)); },
    [](S a, S) { Out o; auto f = find([](double x, uint32_t i) { return i == 1 && x == x; }, a); if (f) o = num(f.value); return o; },
    [](S a, S) { return Out{math::normalize(a)}; },
};
static const Op vectors[] = {
    [](S a, S b) { return Out{algebra::dot(a, b)}; },
    [](S a, S) { return Out{algebra::dot(a, Array{Q[0], Q[1], Q[2]})}; },
    [](S a, S b) { return Out{algebra::cross(a, b)}; },
    [](S a, S) { return Out{algebra::norm(a)}; },
    [](S a, S) { return Out{algebra::norm2(a)}; },
    [](S a, S) { return Out{math::normalize(a)}; },
    [](S a, S) { return Out{math::scale(a, Array{Q[0], Q[1], Q[2]})}; },
    [](S a, S) { return arr(math::minMax(a)); },
    [](S a, S) { return Out{geo::insar(a, {Q[0], Q[1], Q[2]})}; },
    [](S a, S) { return utils::unzip(a, alt ? std::vector<uint32_t>{2, 1} : std::vector<uint32_t>{1, 2}); },
    [](S a, S) { return Out{reduce([](const Array &t, const Array &x, uint32_t) { Array r = t; r[0] += x.back(); return r; }, a, Array{Q[0]})}; },
};
static const Op fixed[] = { // symmetric 3x3, 2x2 (dimension 2) items; eigen decomposition, determinants, inverses
    [](S a, S) { return Out{algebra::eigenValues(a)}; },
    [](S a, S) { return Out{algebra::eigenVectors(a)}; },
    [](S a, S) { auto t = algebra::eigenSystem(a); return Out{std::get<0>(t), std::get<1>(t)}; },
    [](S a, S) { return Out{algebra::det(a)}; },
    [](S a, S) { return Out{algebra::inv(a)}; },
    [](S a, S) { return Out{algebra::transpose(a)}; },
    [](S a, S) { return Out{utils::sort(a)}; },
};
static void same_out(const Out &x, const Out &y, const char *label) {
    sx_assert(x.size() == y.size(), label);
    for (size_t i = 0; i < x.size(); i++) {
        sx_assert(x[i].count() == y[i].count() && x[i].itemSize() == y[i].itemSize() && x[i].dimension() == y[i].dimension(), label);
        same_values(x[i], y[i].asArray(), label);
    }
}
