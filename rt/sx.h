// Harness interface. The same harness source is executed symbolically (LLVM IR, engine/) and
// natively (rt/native.cpp) when a counterexample is replayed against the real code.
#pragma once
#include <cstdint>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" {
double sx_f64(const char *name);                 // arbitrary binary64, NaN and infinities included
uint64_t sx_u64(const char *name);
uint32_t sx_u32(const char *name);
int sx_bool_(const char *name);
uint64_t sx_choose(const char *name, uint64_t lo, uint64_t hi); // every value, one path each
uint64_t sx_pick(uint64_t v);                    // split on every feasible value
void sx_assume_(int c);
void sx_assert_(int c, const char *label);
void sx_assert_num(double got, double want, const char *label);  // equal as numbers, or both NaN
void sx_assert_same(double got, double want, const char *label); // same double passed through untouched
void sx_fail_(const char *label);
void sx_cover(const char *label);
void sx_flush();
int sx_pred_(const char *name, const double *args, uint64_t n, uint64_t idx);   // arbitrary predicate
double sx_fun_(const char *name, const double *args, uint64_t n, uint64_t idx); // arbitrary function
void sx_freeze(const void *p, uint64_t on);      // any write to the object holding p is an error
void sx_print(const char *label, double v);
void *sx_stream();                               // a std::ostream of its own
uint64_t sx_printed(const void *stream, double *out, uint64_t max); // the numbers written to it so far, in order; how many
uint64_t sx_printed_at(const void *stream, const char *text, uint64_t from); // where this was written, or ~0
uint64_t sx_written(const void *stream);         // how much was written to it
void sx_printed_clear(const void *stream);
uint64_t sx_numbers(const char *text, uint64_t n, double *out, uint64_t max); // the numbers in a text
double sx_shown(double v, int fixed);            // v as it reads when printed (fixed: by std::to_string)
uint64_t sx_live_heap();
void sx_race_on(uint64_t on);                    // unsynchronised sharing between tasks becomes an error
uint64_t sx_race_pause(uint64_t on);
int sx_fresh_begin();                            // what follows happens in a process of its own,
int sx_fresh_end(const double *d, uint64_t n);   // whose answer is d
uint64_t sx_fresh_get(double *out, uint64_t max);
int sx_task_spawn();
int sx_task_enter(int t);
void sx_task_leave(int prev);
void sx_task_join(int t);
int sx_symbolic();                               // 1 in the engine, 0 natively
int sx_thorough();                               // 1 in the thorough tier
}
#define sx_assume(c) sx_assume_((c) ? 1 : 0)
#define sx_assert(c, label) sx_assert_(static_cast<int>(static_cast<bool>(c)), label)
#define SX_ENTRY(name, opts) extern "C" void sxe_##name()

// outcome of a call: 0 returned, 1 std::invalid_argument, 2 other std::exception, 3 anything else
template <class F> inline int sx_outcome(F &&f) {
    try { f(); return 0; }
    catch (const std::invalid_argument &) { return 1; }
    catch (const std::exception &) { return 2; }
    catch (...) { return 3; }
}
// the numbers f gives when it is the next thing the process does; nothing it leaves behind stays
template <class F> inline std::vector<double> sx_fresh(F &&f) {
    if (sx_fresh_begin()) {
        std::vector<double> d = f();
        if (sx_fresh_end(d.data(), d.size())) return d;
    }
    std::vector<double> d(sx_fresh_get(nullptr, 0));
    sx_fresh_get(d.data(), d.size());
    return d;
}
inline bool sx_bool(const char *n) { return sx_bool_(n) != 0; }
inline std::vector<double> sx_vec(const char *name, size_t n) {
    std::vector<double> v(n);
    for (size_t i = 0; i < n; i++) v[i] = sx_f64(name);
    return v;
}
inline bool sx_finite(double x) { return std::fabs(x) <= 1.7976931348623157e308; }
