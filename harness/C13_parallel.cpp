// SX-FLAGS: -I@V@/rt/shadow
#include "h.h"
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/parallel_execute.h>
#ifdef SX_REAL_THREADS
namespace sx { static inline void drain() {} }
#endif
using namespace df;
// an arbitrary item-wise function: out items of m values from items of k values, independent of the position in the Serie
static Serie itemwise(const Serie &s, int m) {
    Array r;
    for (uint32_t i = 0; i < s.count(); i++) {
        Array x;
        for (uint32_t j = 0; j < s.itemSize(); j++) x.push_back(s.asArray()[(size_t)i * s.itemSize() + j]);
        for (int j = 0; j < m; j++) r.push_back(fn("f", x, j));
    }
    return Serie(m, r, s.dimension());
}
static void check(int k, uint32_t n, uint32_t cores, int m) {
    Array v = sx_vec("v", (size_t)k * n);
    unsigned dim = sx_u32("dim");
    Serie s(k, v, dim);
    Serie want = itemwise(s, m);
    sx_race_on(1);
    uint64_t heap = sx_live_heap();
    {
        Serie got = utils::parallel_execute([m](const Serie &p) { return itemwise(p, m); }, s, cores);
        same_serie(got, m, n, dim, want.asArray());
        same_serie(s, k, n, dim, v);
    }
    sx_race_on(0);
    sx::drain();
    (void)heap;
}
// BOUND all_orders: itemSize 1..3, count 0..5, 1..4 cores, results of itemSize 1 or 2, every order in which the jobs run (at launch or while waiting)
SX_ENTRY(all_orders, "shards=4") {
    int k = (int)sx_choose("k#", 1, 3);
    uint32_t cores = (uint32_t)sx_choose("cores#", 1, 4);
    check(k, (uint32_t)sx_choose("count", 0, 5), cores, (int)sx_choose("out", 1, 2));
}
// BOUND more_cores: 5 cores and 6 items, 6 cores and 4 items; every order
SX_ENTRY(more_cores, "shards=4 max-paths=20000") {
    bool b = sx_choose("which#", 0, 1);
    check(2, b ? 6 : 4, b ? 5 : 6, 1);
}
// BOUND big: counts 6, 7, 10, 17, 100, 257 with 2, 3, 4 cores; every order
SX_ENTRY(big, "shards=4") {
    static const uint32_t ns[] = {17, 100, 257, 6, 7, 10};
    uint32_t n = ns[sx_choose("count#", 0, 5)];
    check((int)sx_choose("k", 0, 1) * 2 + 1, n, (uint32_t)sx_choose("cores#", 2, 4), 1);
}
// BOUND failing: count 1..5, 1..4 cores, the function throws (three kinds of exception) on an arbitrary set of jobs, every order
SX_ENTRY(failing, "shards=4") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 5), cores = (uint32_t)sx_choose("cores", 1, 4);
    Array v = sx_vec("v", n);
    Serie s(1, v);
    uint32_t bad = (uint32_t)sx_choose("bad#", 1, 31); // items whose job fails
    sx_assume(bad < (1u << n));
    int kind = (int)sx_choose("kind", 0, 2);
    // position of a job is found from its first value, which stands for the index here
    for (uint32_t i = 0; i < n; i++) v[i] = i;
    s = Serie(1, v);
    sx_race_on(1);
    int o = sx_outcome([&] {
        utils::parallel_execute([bad, kind](const Serie &p) {
            for (double x : p.asArray())
                if (bad >> (int)x & 1) {
                    if (kind == 0) throw std::runtime_error("job");
                    if (kind == 1) throw std::invalid_argument("job");
                    throw std::out_of_range("job");
                }
            return Serie(p);
        }, s, cores);
    });
    sx_race_on(0);
    sx_assert(o == 1 || o == 2, "a job that throws is reported as an exception");
    sx::drain();
    same_values(s, v, "input unchanged");
}
// BOUND wrong_count: count 1..5, 2..4 cores, an arbitrary set of jobs returns one item more or less than it was given, every order
SX_ENTRY(wrong_count, "shards=2") {
    uint32_t n = (uint32_t)sx_choose("count", 1, 5), cores = (uint32_t)sx_choose("cores", 2, 4);
    Array v;
    for (uint32_t i = 0; i < n; i++) v.push_back(i);
    Serie s(1, v);
    uint32_t who = (uint32_t)sx_choose("items#", 1, 31);
    sx_assume(who < (1u << n));
    int how = (int)sx_choose("how", 0, 2); // one less, one more, alternating (total unchanged)
    int o = sx_outcome([&] {
        utils::parallel_execute([who, how](const Serie &p) {
            Array r = p.asArray();
            int first = (int)r[0];
            if (who >> first & 1) {
                if (how == 0 || (how == 2 && first % 2)) r.pop_back();
                else r.push_back(7);
            }
            return Serie(1, r);
        }, s, cores);
    });
    bool expect = false;
    // first item of each job
    uint32_t parts = std::min(cores, n), at = 0;
    for (uint32_t p = 0; p < parts; p++) { if (who >> at & 1) expect = true; at += n / cores + (p < n % cores ? 1 : 0); }
    sx_assert(!expect || o == 1 || o == 2, "a job that returns another number of items is reported as an exception");
    sx_assert(expect || o == 0, "jobs that return what they were given succeed");
    sx::drain();
}
// BOUND zero: zero cores, count 0..3
SX_ENTRY(zero, "") {
    Serie s = sx_serie("v", (int)sx_choose("k", 1, 2), (uint32_t)sx_choose("n", 0, 3));
    bool called = false;
    int o = sx_outcome([&] { utils::parallel_execute([&](const Serie &p) { called = true; return Serie(p); }, s, 0); });
    sx_assert(o == 1 && !called, "zero cores is rejected with invalid_argument");
}
// BOUND nested: parallel_execute inside the jobs of parallel_execute, count 4, 2 cores each; every order
SX_ENTRY(nested, "") {
    Array v = sx_vec("v", 4);
    Serie s(1, v);
    sx_race_on(1);
    Serie got = utils::parallel_execute([](const Serie &p) { return utils::parallel_execute([](const Serie &q) { return itemwise(q, 2); }, p, 2); }, s, 2);
    sx_race_on(0);
    same_serie(got, 2, 4, 3, itemwise(s, 2).asArray());
    sx::drain();
}
// BOUND huge: 65541 items (beyond 16-bit indices), 2 cores, every order
SX_ENTRY(huge, "max-steps=8000000000") {
    uint32_t n = HUGE_N, cores = 2;
    Array v = huge_vec("v", 2, n), w;
    for (uint32_t i = 0; i < n; i++) w.push_back(v[2 * (size_t)i + 1]);
    Serie got = utils::parallel_execute([](const Serie &p) {
        Array r;
        for (uint32_t i = 0; i < p.count(); i++) r.push_back(p.asArray()[2 * (size_t)i + 1]);
        return Serie(1, r, p.dimension());
    }, Serie(2, v), cores);
    same_shape(got, 1, n);
    huge_same(got.asArray(), w, "the sequential result");
    sx::drain();
}
// BOUND own_state: a function object with work memory of its own (a scratch array it refills for its items, a counter of what it was given), count 1..5, 1..4 cores, every order: the jobs do not see each other's
SX_ENTRY(own_state, "shards=4") {
    struct Fn {
        mutable Array work;
        mutable uint32_t given = 0;
        Serie operator()(const Serie &p) const {
            given++;
            for (uint32_t i = 0; i < p.count(); i++) work.push_back(p.asArray()[i]);
            Array r;
            for (uint32_t i = 0; i < p.count(); i++) r.push_back(fn("f", Array{work[i]}, (int)given));
            return Serie(1, r, p.dimension());
        }
    };
    uint32_t n = (uint32_t)sx_choose("count#", 1, 5), cores = (uint32_t)sx_choose("cores#", 1, 4);
    Array v = sx_vec("v", n), w;
    for (double x : v) w.push_back(fn("f", Array{x}, 1));
    Fn f;
    Serie s(1, v);
    sx_race_on(1);
    Serie got = utils::parallel_execute(f, s, cores);
    sx_race_on(0);
    same_serie(got, 1, n, 3, w);
    sx::drain();
}
