// Stand-in for the threading part of the standard library, used when a harness is executed symbolically
// (and when an interleaving is replayed natively). A task (async job, thread) may run at any point between
// its launch and the moment somebody waits for it; which pending task runs when is an arbitrary choice.
// Tasks run without preemption: the engine's happens-before check reports any unsynchronised sharing, and
// tasks that share nothing cannot observe a finer interleaving.
#pragma once
#include <chrono>
#include <cstdlib>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" {
uint64_t sx_choose(const char *, uint64_t, uint64_t);
void sx_fail_(const char *);
void sx_assume_(int);
uint64_t sx_race_pause(uint64_t);
int sx_task_spawn();
int sx_task_enter(int);
void sx_task_leave(int);
void sx_task_join(int);
int sx_symbolic();
}
namespace sx {
struct Pause { uint64_t was; Pause() : was(sx_race_pause(0)) {} ~Pause() { sx_race_pause(was); } };
struct Task {
    std::function<void()> body;
    int tid = 0;
    bool started = false, done = false;
};
inline std::vector<Task *> &pending() { static std::vector<Task *> *p = new std::vector<Task *>; return *p; }
inline int &launched() { static int n = 0; return n; }
inline int &eager() { static int n = 0; return n; } // tasks that were started at their launch and have not returned
// Nothing else can run. A task that was started at once cannot be left half-way here: its launcher might still have
// provided what it waits for, so that schedule is given up (the one where the task starts later is explored as well).
inline void stuck(const char *why) {
    bool e;
    { Pause p; e = eager() > 0; }
    if (e) sx_assume_(0); else sx_fail_(why);
}
inline void execute(Task *t) {
    {
        Pause p;
        t->started = true;
        auto &v = pending();
        for (size_t i = 0; i < v.size(); i++) if (v[i] == t) { v.erase(v.begin() + i); break; }
    }
    int prev = sx_task_enter(t->tid);
    try { t->body(); } catch (...) { sx_fail_("an exception escapes a thread"); }
    { Pause p; t->done = true; }
    sx_task_leave(prev);
}
inline Task *choose(const char *why) {
    auto &v = pending();
    #ifdef SX_LAZY_TASKS
    return v[0];
#else
    return v.size() == 1 ? v[0] : v[sx_choose(why, 0, v.size() - 1)];
#endif
}
inline Task *launch(std::function<void()> f) {
    Task *t;
    bool now;
    {
        Pause p;
        t = new Task;
        t->body = std::move(f);
        t->tid = sx_task_spawn();
        pending().push_back(t);
        launched()++;
        
#ifdef SX_LAZY_TASKS // one schedule: tasks run, in the order of their launch, when somebody waits
        now = false;
#else
        now = launched() <= 5 && sx_choose("runs at once", 0, 1);
        if (now) eager()++;
#endif

    }
    if (now) {
        execute(t);
        Pause p;
        eager()--;
    }
    return t;
}
// one other pending task makes progress; false when there is none
inline bool progress() {
    Task *t;
    { Pause p; if (pending().empty()) return false; t = choose("runs next"); }
    execute(t);
    return true;
}
inline void wait(Task *t) {
    auto is = [](bool &b) { Pause p; return b; };
    while (!is(t->done)) {
        if (is(t->started)) stuck("a thread waits for itself");
        if (!progress()) stuck("deadlock");
    }
    sx_task_join(t->tid);
}
template <class P> inline void wait_until(P &&ready) { while (!ready()) if (!progress()) stuck("deadlock"); }
// everything still pending runs (end of the program)
inline void drain() { while (progress()) {} }
inline void forget() { pending().clear(); launched() = 0; }
}
