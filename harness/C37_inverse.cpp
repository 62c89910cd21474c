// SX-FLAGS: -I@V@/rt/shadow
#include "ops.h"
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Components.h>
#ifdef SX_REAL_THREADS
namespace sx { static inline void drain() {} }
#endif
static Serie ser(int k, uint32_t n, unsigned dim = 3) { return Serie(k, sx_vec("v", (size_t)k * n), dim); }
static void back(const Serie &got, const Serie &was, const char *label) {
    sx_assert(got.itemSize() == was.itemSize() && got.count() == was.count(), label);
    same_values(got, was.asArray(), label);
}
static const int ks[] = {1, 2, 3, 6, 9};
// BOUND split: concat of partition_n: itemSize 1,2,3,6,9, count 0..9, 1..5 parts; and of the parts concatenated as a list
SX_ENTRY(split, "shards=2") {
    int k = ks[sx_choose("k#", 0, 4)];
    uint32_t n = (uint32_t)sx_choose("n", 0, 9), p = (uint32_t)sx_choose("parts", 1, 5);
    Serie s = ser(k, n);
    auto parts = utils::partition_n(p, s);
    uint32_t total = 0;
    for (const Serie &x : parts) total += x.count();
    sx_assert(total == n, "no item lost");
    if (n) back(utils::concat(parts), s, "the parts put together again");
}
// BOUND zipped: unzip of zip, two and three Series of itemSize 1..3, count 0..3
SX_ENTRY(zipped, "shards=2") {
    int i = (int)sx_choose("i#", 1, 3), j = (int)sx_choose("j", 1, 3), l = (int)sx_choose("l", 0, 3);
    uint32_t n = (uint32_t)sx_choose("n", 0, 3);
    Serie a = ser(i, n), b = ser(j, n);
    if (!l) {
        auto u = utils::unzip(utils::zip(a, b), {(uint32_t)i, (uint32_t)j});
        sx_assert(u.size() == 2, "as many as zipped");
        back(u[0], a, "unzipped"); back(u[1], b, "unzipped");
        back(utils::zip(u[0], u[1]), utils::zip(a, b), "zipped again");
        return;
    }
    Serie c = ser(l, n);
    auto u = utils::unzip(utils::zip(a, b, c), {(uint32_t)i, (uint32_t)j, (uint32_t)l});
    sx_assert(u.size() == 3, "as many as zipped");
    back(u[0], a, "unzipped"); back(u[1], b, "unzipped"); back(u[2], c, "unzipped");
}
// BOUND sides: filter and reject, partition, cut: the two sides hold every item once, in order; itemSize 1..3, count 0..4, any predicate
SX_ENTRY(sides, "shards=2") {
    int k = (int)sx_choose("k#", 1, 3);
    uint32_t n = (uint32_t)sx_choose("n", 0, 4);
    Serie s = ser(k, n);
    auto p = [](const Array &x, uint32_t i) -> bool { return sx_pred_("p", x.data(), x.size(), i) != 0; };
    Serie in = filter(p, s), out = utils::reject(p, s);
    auto two = utils::partition(p, s);
    back(std::get<0>(two), in, "the matched side");
    back(std::get<1>(two), out, "the other side");
    sx_assert(in.count() + out.count() == n, "every item on one side");
    Array w; // woven together again
    uint32_t a = 0, b = 0;
    for (uint32_t i = 0; i < n; i++) {
        Array x = item_of(s.asArray(), k, i);
        w = cat(w, p(x, i) ? item_of(in.asArray(), k, a++) : item_of(out.asArray(), k, b++));
    }
    same_values(s, w, "woven together again");
}
// BOUND twice: negate and transpose twice, sort of the sorted, map with the identity, a copy of a copy; itemSize 1,2,3,4,6,9, count 0..3
SX_ENTRY(twice_, "shards=2") {
    static const int kk[] = {1, 2, 3, 4, 6, 9};
    int k = kk[sx_choose("k#", 0, 5)];
    uint32_t n = (uint32_t)sx_choose("n", 1, 3);
    Serie s = ser(k, n);
    back(math::negate(math::negate(s)), s, "negated twice");
    if (k == 4 || k == 9) back(algebra::transpose(algebra::transpose(s)), s, "transposed twice");
    if (k <= 2 && n <= 2) { for (double x : s.asArray()) sx_assume(sx_finite(x)); Serie t = utils::sort(s); back(utils::sort(t), t, "sorted once and for all"); }
    back(df::map([](const Array &x, uint32_t) { return x; }, s), s, "the identity");
    back(s.clone().clone(), s, "cloned");
    back(Serie(k, s.asArray()), s, "from its values");
    Dataframe d;
    d.add("s", s);
    back(d.get("s"), s, "stored");
    back(utils::parallel_execute([](const Serie &q) { return q; }, s, 2), s, "passed through jobs");
    sx::drain();
}
// BOUND undone: add and sub, mult and div by a number and by a Serie, scale up and down, over the reals; itemSize 1 and 3, count 1 and 2, values up to 1e6, factors between 1e-3 and 1e3 in magnitude
SX_ENTRY(undone, "mode=real shards=2") {
    int op = (int)sx_choose("op#", 0, 5), k = sx_choose("k", 0, 1) ? 3 : 1;
    uint32_t n = (uint32_t)sx_choose("n", 1, 2);
    if ((op == 3 || op == 4) && k == 3) return;
    Serie a = ser(k, n), b = ser(k, n);
    for (double x : a.asArray()) sx_assume((int)(x >= -1e6) & (int)(x <= 1e6));
    for (double x : b.asArray()) sx_assume((int)(x >= 1e-3) & (int)(x <= 1e3));
    double f = sx_f64("f");
    sx_assume((int)(f >= 1e-3) & (int)(f <= 1e3));
    Serie r;
    switch (op) {
    case 0: r = math::sub(math::add(a, b), b); break;
    case 1: r = math::add(math::sub(a, b), b); break;
    case 2: r = math::div(f, math::mult(a, f)); break;
    case 3: r = math::div(b, math::mult(a, b)); break;
    case 4: r = math::sub(math::add(a, f), f); break;
    default: r = math::scale(math::scale(a, f), 1 / f); break;
    }
    sx_assert(r.count() == n && (int)r.itemSize() == k, "the shape");
    for (size_t i = 0; i < a.asArray().size(); i++) sx_assert_num(r.asArray()[i], a.asArray()[i], "undone");
}
// BOUND inverted: the inverse of the inverse and the determinant of the inverse, over the reals: 3x3 items with one off-diagonal pair (stored as 6 or 9 values), entries up to 10, determinant of the block at least 0.1
SX_ENTRY(inverted, "mode=real shards=2") {
    bool full = sx_choose("full#", 0, 1);
    Array v = sx_vec("v", 3);
    for (double x : v) sx_assume((int)(x >= -10) & (int)(x <= 10));
    double d = v[0] * v[2] - v[1] * v[1];
    sx_assume(d >= 0.1);
    Serie s = full ? Serie(9, {v[0], v[1], 0, v[1], v[2], 0, 0, 0, 2}) : Serie(6, {v[0], v[1], 0, v[2], 0, 2});
    Serie i = algebra::inv(s), j = algebra::inv(i);
    sx_assert_num(algebra::det(i).scalar(0) * (2 * d), 1, "the determinant of the inverse");
    sx_assert(j.itemSize() == s.itemSize() && j.count() == 1, "the shape");
    for (size_t x = 0; x < s.asArray().size(); x++) sx_assert_num(j.asArray()[x], s.asArray()[x], "the inverse of the inverse");
}
// BOUND big: split and zipped with 257 items, 7 and 64 parts; filter and reject of 65 items
SX_ENTRY(big, "") {
    uint32_t p = sx_choose("parts", 0, 1) ? 64 : 7;
    Serie a = ser(3, 257), b = ser(1, 257);
    back(utils::concat(utils::partition_n(p, a)), a, "the parts put together again");
    auto u = utils::unzip(utils::zip(a, b), {3, 1});
    back(u[0], a, "unzipped"); back(u[1], b, "unzipped");
    auto odd = [](const Array &, uint32_t i) { return i % 3 == 1; };
    Serie in = filter(odd, a), out = utils::reject(odd, a);
    Array w;
    uint32_t x = 0, y = 0;
    for (uint32_t i = 0; i < 257; i++) w = cat(w, i % 3 == 1 ? item_of(in.asArray(), 3, x++) : item_of(out.asArray(), 3, y++));
    same_values(a, w, "woven together again");
}
// BOUND zipped_many: four and five Series of itemSize 1..3 (the same twice in a row included), and one Serie given several times, count 0..2; zipVector and its repeated zipping
SX_ENTRY(zipped_many, "shards=4") {
    int m = (int)sx_choose("series", 4, 5);
    uint32_t n = (uint32_t)sx_choose("count", 0, 2);
    std::vector<uint32_t> ks;
    Series s;
    for (int i = 0; i < m; i++) {
        ks.push_back((uint32_t)sx_choose(i == 0 ? "k#" : i == 1 ? "kk#" : "k", 1, 3));
        if (m == 5 && i >= 2 && ks[i] == 3) return;
        s.push_back(sx_serie("v", (int)ks[i], n));
    }
    Serie z = utils::zipVector(s);
    Series u = utils::unzip(z, ks);
    sx_assert(u.size() == (size_t)m, "as many as zipped");
    for (int i = 0; i < m; i++) back(u[i], s[i], "unzipped");
    back(utils::zipVector(u), z, "zipped again");
    Serie t = utils::zip(s[0], s[1], s[0], s[0]);
    Series w = utils::unzip(t, {ks[0], ks[1], ks[0], ks[0]});
    sx_assert(w.size() == 4, "as many as zipped");
    back(w[0], s[0], "unzipped"); back(w[1], s[1], "unzipped"); back(w[2], s[0], "unzipped"); back(w[3], s[0], "unzipped");
}
