#include "h.h"
#include <dataframe/Dataframe.h>
#include <dataframe/functional/utils/print.h>
#include <dataframe/view/Vector.h>
using namespace df;
namespace df { void print(const Array &); }
// the numbers written to a stream, in order: these, and nothing on the others
static void shows(const void *o, const Array &want, const char *label) {
    double got[64];
    uint64_t n = sx_printed(o, got, 64);
    sx_assert(n == want.size(), "as many numbers as there are");
    for (uint64_t i = 0; i < n && i < 64 && i < want.size(); i++) sx_assert_same(got[i], sx_shown(want[i], 0), label);
}
static void quiet(const void *o) { sx_assert(sx_written(o) == 0, "nothing on a stream that was not given"); }
static Array head(const Serie &s) { return {(double)s.itemSize(), (double)s.count(), (double)s.dimension()}; }
static Array plus(Array a, const Array &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static uint32_t some_dim() { return sx_choose("dim", 0, 1) ? 2 : 3; }
// BOUND stream_serie: itemSize 0..4, 6, 9, 0..3 items and up to 2 further values, any values, two dimensions; stream of its own, cout and cerr
SX_ENTRY(stream_serie, "shards=4") {
    static const int ks[] = {0, 1, 2, 3, 4, 6, 9};
    int k = ks[sx_choose("itemSize#", 0, 6)];
    uint32_t n = (uint32_t)sx_choose("count", 0, 3), more = k > 1 ? (uint32_t)sx_choose("more", 0, k > 2 ? 2 : 1) : 0;
    Array v = sx_vec("v", (size_t)k * n + more);
    Serie s = k ? Serie(k, v, some_dim()) : Serie(0, n);
    const Array before = s.asArray();
    std::ostream &own = *(std::ostream *)sx_stream();
    int to = (int)sx_choose("to", 0, 2);
    std::ostream &o = to == 0 ? own : to == 1 ? std::cout : std::cerr;
    std::ostream &r = o << s;
    sx_assert(&r == &o, "the stream is returned, so that output can be chained");
    if (s.size() > 0) shows(&o, plus(head(s), v), "the shape, then every value in order");
    else shows(&o, head(s), "the shape");
    if (to != 0) quiet(&own);
    if (to != 1) quiet(&std::cout);
    if (to != 2) quiet(&std::cerr);
    same_values(s, before, "printing changes nothing");
}
// BOUND stream_others: an Array of 0..4 values, 0..3 Series of different shapes, 0..3 names; stream of its own, cout and cerr
SX_ENTRY(stream_others, "") {
    std::ostream &own = *(std::ostream *)sx_stream();
    int to = (int)sx_choose("to", 0, 2), what = (int)sx_choose("what", 0, 2);
    std::ostream &o = to == 0 ? own : to == 1 ? std::cout : std::cerr;
    if (what == 0) {
        Array a = sx_vec("a", sx_choose("n", 0, 4));
        o << a;
        shows(&o, a, "every value in order");
        if (a.empty()) sx_assert(sx_written(&o) > 0, "an empty Array is shown as well");
    } else if (what == 1) {
        uint32_t n = (uint32_t)sx_choose("n", 0, 3);
        Series all;
        Array want{(double)n};
        for (uint32_t i = 0; i < n; i++) {
            all.push_back(sx_serie("s", (int)i + 1, 2 - i % 2, 3 - i % 2));
            want = plus(plus(want, head(all[i])), all[i].asArray());
        }
        o << all;
        shows(&o, want, "every Serie in order");
    } else {
        uint32_t n = (uint32_t)sx_choose("n", 0, 3);
        const char *names[] = {"stress", "a longer name than fits in place", "Uxy"};
        Strings all(names, names + n);
        o << all;
        uint64_t at = 0;
        for (uint32_t i = 0; i < n; i++) {
            uint64_t p = sx_printed_at(&o, names[i], at);
            sx_assert(p != ~0ull, "every name in order");
            at = p + all[i].size();
        }
    }
    if (to != 0) quiet(&own);
    if (to != 1) quiet(&std::cout);
    if (to != 2) quiet(&std::cerr);
}
static Array dumped(const Serie &s, bool index) {
    Array r;
    for (uint32_t i = 0; i < s.count(); i++) { if (index) r.push_back(i); r = plus(r, s.get<Array>(i)); }
    return r;
}
// BOUND print_serie: print of one Serie, on the standard output: itemSize 0..4, 6, 9, 0..4 items (and a last one that is not complete), any values
SX_ENTRY(print_serie, "shards=2") {
    static const int ks[] = {0, 1, 2, 3, 4, 6, 9};
    int k = ks[sx_choose("itemSize#", 0, 6)];
    uint32_t n = (uint32_t)sx_choose("count", 0, 4), more = k > 1 ? (uint32_t)sx_choose("more", 0, 1) : 0;
    Array v = sx_vec("v", (size_t)k * n + more);
    Serie s = k ? Serie(k, v, some_dim()) : Serie(0, n);
    utils::print(s);
    shows(&std::cout, plus(head(s), k ? dumped(s, false) : Array()), "the shape, then every item in order");
    quiet(&std::cerr);
    same_values(s, v, "printing changes nothing");
}
// BOUND print_many: print of two or three Series of different shapes, 0..2 items each
SX_ENTRY(print_many, "shards=2") {
    uint32_t n = (uint32_t)sx_choose("n#", 0, 2), m = (uint32_t)sx_choose("m#", 0, 2);
    Serie a = sx_serie("a", 1, n), b = sx_serie("b", 3, m), c = sx_serie("c", 2, n, 2);
    bool three = sx_choose("three", 0, 1);
    if (three) utils::print(a, b, c); else utils::print(b, a);
    auto part = [](double i, const Serie &s) { return plus(plus({i}, head(s)), dumped(s, false)); };
    Array want = three ? plus(plus(part(1, a), part(2, b)), part(3, c)) : plus(part(1, b), part(2, a));
    shows(&std::cout, want, "every Serie in order");
    quiet(&std::cerr);
    sx_printed_clear(&std::cout);
    if (three) utils::print(a, b, c); else utils::print(b, a);
    shows(&std::cout, want, "printed again: the same");
}
// BOUND dump: Serie::dump on the standard error: itemSize 0..4, 6, 9, 0..4 items, any values; print of an Array of 0..4 values
SX_ENTRY(dump, "shards=2") {
    static const int ks[] = {0, 1, 2, 3, 4, 6, 9};
    int k = ks[sx_choose("itemSize#", 0, 6)];
    uint32_t n = (uint32_t)sx_choose("count", 0, 4);
    Array v = sx_vec("v", (size_t)k * n);
    if (sx_choose("array", 0, 1)) {
        if (k > 1) return;
        df::print(v);
        shows(&std::cerr, v, "every value in order");
    } else {
        const Serie s = k ? Serie(k, v, some_dim()) : Serie(0, n);
        int o = sx_outcome([&] { s.dump(); });
        sx_assert(o == 0, "any Serie can be dumped");
        shows(&std::cerr, dumped(s, true), "every item with its index, in order");
        same_values(s, v, "printing changes nothing");
        sx_printed_clear(&std::cerr);
        s.dump();
        shows(&std::cerr, dumped(s, true), "dumped again: the same");
    }
    quiet(&std::cout);
}
// BOUND dump_dataframe: Dataframe::dump on the standard error: 0..3 Series of different shapes, in the order of their names
SX_ENTRY(dump_dataframe, "") {
    uint32_t n = (uint32_t)sx_choose("n", 0, 3), c = (uint32_t)sx_choose("count", 0, 2);
    const char *names[] = {"stress", "a name longer than fits in place", "U"};
    const int order[] = {2, 1, 0}; // "U" < "a..." < "stress"
    Dataframe d;
    for (uint32_t i = 0; i < n; i++) d.add(names[i], sx_serie("s", (int)i + 1, c + i));
    const Dataframe &k = d;
    k.dump();
    Array want;
    uint64_t at = 0;
    for (int i : order) {
        if (i >= (int)n) continue;
        uint64_t p = sx_printed_at(&std::cerr, names[i], at);
        sx_assert(p != ~0ull, "every name, in order");
        at = p;
        want = plus(want, {(double)i + 1, (double)(c + i)});
    }
    shows(&std::cerr, want, "itemSize and count of every Serie");
    sx_printed_clear(&std::cerr);
    k.dump();
    shows(&std::cerr, want, "dumped again: the same");
    quiet(&std::cout);
}
// BOUND text: Vector::toString of 0..4 components of any value
SX_ENTRY(text, "") {
    Array v = sx_vec("v", sx_choose("n", 0, 4));
    Vector x(v);
    String t = x.toString();
    double got[8];
    uint64_t n = sx_numbers(t.data(), t.size(), got, 8);
    sx_assert(n == v.size(), "as many numbers as components");
    for (uint64_t i = 0; i < n && i < 8; i++) sx_assert_same(got[i], sx_shown(v[i], 1), "every component in order");
    for (uint32_t i = 0; i < v.size(); i++) sx_assert_same(x.array()[i], v[i], "nothing changed");
}
