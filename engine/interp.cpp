#include <deque>
// Symbolic interpreter: path exploration by re-execution with recorded decisions.
#include "interp.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <cxxabi.h>
#include <fstream>
#include <functional>
#include <random>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

using std::string;
using std::vector;
static Program *P;
static string gEntry, gReplayCmd, gOutDir, gPropId;
static uint64_t gMaxSteps = 30000000, gMaxPaths = 200000;
static double gWall = 300;
static int gShard = 0, gShards = 1;
static unsigned gSeed = 1;
static bool gVerbose = false, gThorough = false;
static Mode gMode = M_UF;
static unsigned gTmoBranch = 3000, gTmoAssert = 15000, gTmoReal = 20000, gTmoExact = 15000;

typedef std::chrono::steady_clock Clk;
static Clk::time_point T0;
static double now() { return std::chrono::duration<double>(Clk::now() - T0).count(); }

static string gStop; // created by the first shard of a check that confirms a violation: the others wind up
static void stopRequested() {
    static double last = 0;
    if (gStop.empty() || now() < last + 0.5) return;
    last = now();
    if (access(gStop.c_str(), F_OK) == 0) gWall = std::min(gWall, now() + 3);
}
static inline uint64_t mask(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t asU(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline Val cval(uint64_t c) { Val v; v.c = c; return v; }
static inline Val sval(Expr *e) { Val v; if (e->k == E_CONST) v.c = e->c; else v.e = e; return v; }
static inline float asF(uint64_t v) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; }
static inline uint64_t fromF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline Val fval(Expr *e) { Val v; if (e->k == E_CONST) { float f = (float)asD(e->c); uint32_t u; memcpy(&u, &f, 4); v.c = u; } else v.e = e; return v; } // binary32, carried as the double it equals
static Expr *toE(const Val &v, const Leaf &l) {
    if (v.e) {
        if (l.k == LF64 && !v.e->f) return eToF(E_BV2F, v.e);
        if (l.k == LF32 && !v.e->f) return eToF(E_BV2FLT, v.e);
        if (l.k == LI && v.e->f) return eFromF(E_F2BV, v.e, 64);
        return v.e;
    }
    if (l.k == LF64) return eConstF(asD(v.c));
    if (l.k == LF32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return eConstF(f); }
    return eConst(l.bits, v.c);
}
static const Leaf L64{LI, 64, 0}, L32{LI, 32, 0}, L1{LI, 1, 0}, L8{LI, 8, 0}, LD{LF64, 64, 0};

// ------------------------------------------------------------------ state
static vector<Obj> objs;
static vector<uint32_t> dirtyGlobals;
static uint32_t nextObj;
static std::deque<uint32_t> deadObjs;
static vector<Val> stk;
static vector<Frame> frames;
static vector<Decision> trace;          // decisions of this path
static size_t prefixLen;                // how many are replayed
static vector<vector<Decision>> work;
static vector<Expr *> pc;
static vector<Assertion> asserts;
static vector<string> covers;
// what was written to each stream on this path; a symbolic number is \x02 seven digits \x03, an index into shownVals
static std::map<uint64_t, string> streamLog;
static vector<Val> shownVals;
static std::map<string, int> varCount;
static vector<Expr *> pathVars;
static vector<std::pair<string, uint64_t>> pathChoices;
static vector<Expr *> pathUFs;
static uint64_t steps;
static int chooseCount; static uint64_t chooseHash;
static bool inInit = false;
static bool raceOn = false;
static std::set<uint32_t> freshDirty; static vector<std::pair<uint32_t, Obj>> freshCopy; 
static int curTask = 0;
static std::map<std::pair<uint64_t, int>, uint64_t> tlsOf; // (thread_local variable, task) -> its instance
static vector<vector<uint32_t>> vcs;    // vector clocks per task
static std::map<uint64_t, vector<uint32_t>> mutexVC;

// exceptions
struct ExcInfo { uint64_t ti, dtor; int handlers; int refs; };
static std::map<uint64_t, ExcInfo> excs;
static vector<uint64_t> caught;
static int uncaughtN;

// ------------------------------------------------------------------ results
struct EntryStats {
    uint64_t paths = 0, pathsDone = 0, pathsAssume = 0, pathsErr = 0, pathsLimit = 0, pathsUnsupp = 0;
    uint64_t steps = 0, decisions = 0, forks = 0;
    uint64_t oblConst = 0, oblUF = 0, oblReal = 0, oblExact = 0, oblFail = 0, oblOpen = 0, oblVacReal = 0, oblTol = 0;
    uint64_t safetyChecks = 0;
    std::map<string, uint64_t> labels, coverLabels;
    std::map<string, uint64_t> incomplete;
    std::map<string, string> open;       // undischarged: label -> note
    uint64_t witnessPaths = 0;
    vector<string> samples;
    uint64_t candidates = 0, notReproduced = 0;
} ES;
struct Viol { string sig, label, detail, file; };
static vector<Viol> viols;
static std::set<string> seenSigs;
static std::map<string, int> failedTries;
static Stats QS;

// ------------------------------------------------------------------ solver
static z3::context *zc;
static Lowering *LW[3];
static z3::solver *incS[3];
static vector<Expr *> pushed[3];
struct ModelHolder { std::unique_ptr<z3::model> m; } curModel;

static void initSolver() {
    zc = new z3::context();
    for (int i = 0; i < 3; i++) LW[i] = new Lowering(*zc, (Mode)i);
}
// leaves an expression depends on (variables, uninterpreted functions) and its nodes that carry defining constraints
struct Deps { vector<uint32_t> syms, nodes; };
static const Deps &depsOf(Expr *e) {
    static std::unordered_map<Expr *, Deps> memo;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    static vector<uint32_t> stamp; static uint32_t cur = 0;
    static std::unordered_map<string, uint32_t> ufIds;
    if (stamp.size() < exprCount()) stamp.resize(exprCount() * 2 + 64);
    cur++;
    Deps d;
    vector<Expr *> st{e};
    while (!st.empty()) {
        Expr *x = st.back(); st.pop_back();
        if (stamp[x->id] == cur) continue;
        stamp[x->id] = cur;
        if (x->k == E_VAR) d.syms.push_back(x->id);
        else if (x->k == E_UF) d.syms.push_back(0x80000000u + ufIds.emplace(x->name, ufIds.size()).first->second);
        if (x->f) d.nodes.push_back(x->id);
        for (auto *y : x->a) st.push_back(y);
    }
    return memo[e] = std::move(d);
}
static void addWithSide(z3::solver &s, Lowering &L, Expr *e, std::set<uint32_t> *done) {
    s.add(L.lowBool(e));
    if (L.side.empty()) return;
    for (uint32_t id : depsOf(e).nodes) {
        auto it = L.side.find(id);
        if (it != L.side.end() && (!done || done->insert(id).second)) for (auto &c : it->second) s.add(c);
    }
}
// the conjuncts of the path condition connected to the given expressions through shared leaves
static vector<Expr *> sliceOf(const vector<Expr *> &seed, const vector<Expr *> &from) {
    std::set<uint32_t> syms;
    for (auto *e : seed) for (auto x : depsOf(e).syms) syms.insert(x);
    vector<char> in(from.size(), 0);
    bool grown = true;
    while (grown) {
        grown = false;
        for (size_t i = 0; i < from.size(); i++) {
            if (in[i]) continue;
            auto &d = depsOf(from[i]).syms;
            bool hit = d.empty();
            for (auto x : d) if (syms.count(x)) { hit = true; break; }
            if (hit) { in[i] = 1; grown = true; for (auto x : d) syms.insert(x); }
        }
    }
    vector<Expr *> r;
    for (size_t i = 0; i < from.size(); i++) if (in[i]) r.push_back(from[i]);
    return r;
}
static z3::check_result timedCheck(z3::solver &s, Mode m, z3::expr_vector *as = nullptr) {
    auto t = Clk::now();
    z3::check_result r;
    try { r = as ? s.check(*as) : s.check(); } catch (z3::exception &e) { r = z3::unknown; if (gVerbose) fprintf(stderr, "z3: %s\n", e.msg()); }
    double dt = std::chrono::duration<double>(Clk::now() - t).count();
    QS.queries[m]++; QS.solverTime += dt; QS.maxQuery = std::max(QS.maxQuery, dt);
    if (r == z3::sat) QS.sat++; else if (r == z3::unsat) QS.unsat++; else QS.unknown++;
    return r;
}
static void setTmo(z3::solver &s, unsigned ms) { z3::params p(*zc); p.set("timeout", ms); s.set(p); }
static z3::solver &syncInc(Mode m) {
    if (!incS[m]) { incS[m] = new z3::solver(*zc, z3::solver::simple()); }
    auto &pv = pushed[m];
    size_t k = 0;
    while (k < pv.size() && k < pc.size() && pv[k] == pc[k]) k++;
    if (pv.size() > k) { incS[m]->pop(pv.size() - k); pv.resize(k); }
    while (pv.size() < pc.size()) {
        incS[m]->push();
        addWithSide(*incS[m], *LW[m], pc[pv.size()], nullptr);
        pv.push_back(pc[pv.size()]);
    }
    return *incS[m];
}
// satisfiability of PC plus extra conjuncts in a mode; optionally returns the model
static z3::check_result query(Mode m, const vector<Expr *> &extra, unsigned tmo, std::unique_ptr<z3::model> *model, const vector<z3::expr> *raw = nullptr, bool withPC = true, const Assertion *rel = nullptr) {
    Lowering &L = *LW[m];
    if (m == M_REAL) {
        L.failed = false;
        vector<Expr *> use;
        bool sliced = false;
        auto run = [&](int how) -> z3::check_result {
            z3::solver s = how == 3 ? z3::solver(*zc, z3::solver::simple()) : how == 0 ? z3::tactic(*zc, "qfnra-nlsat").mk_solver() : how == 1 ? z3::solver(*zc, "QF_NRA") : z3::solver(*zc);
            setTmo(s, how == 0 ? tmo : std::max(1000u, tmo / 2));
            std::set<uint32_t> done;
            for (auto *e : use) addWithSide(s, L, e, &done);
            for (auto *e : extra) addWithSide(s, L, e, &done);
            if (raw) for (auto &r : *raw) s.add(r);
            if (rel) for (auto *e : {rel->a, rel->b}) for (uint32_t id : depsOf(e).nodes) { auto it = L.side.find(id); if (it != L.side.end() && done.insert(id).second) for (auto &c : it->second) s.add(c); }
            if (L.failed) return z3::unknown;
            if (how == 3) { // products as opaque terms of linear arithmetic, after expansion into sums of monomials
                z3::params sp(*zc); sp.set("som", true); sp.set("som_blowup", 1000000u);
                z3::solver l(*zc, "QF_LRA");
                z3::params lp(*zc); lp.set("arith.nl", false); lp.set("timeout", 400u); l.set(lp);
                for (auto f : s.assertions()) l.add(f.simplify(sp));
                auto r = timedCheck(l, m);
                return r == z3::unsat ? r : z3::unknown;
            }
            auto r = timedCheck(s, m);
            if (r == z3::sat && model) model->reset(new z3::model(s.get_model()));
            return r;
        };
        if (withPC) { use = rel ? sliceOf({rel->a, rel->b}, pc) : extra.empty() || raw ? pc : sliceOf(extra, pc); sliced = use.size() < pc.size(); }
        z3::check_result r = run(3);
        if (r == z3::unknown && !L.failed) r = run(0);
        if (r == z3::unknown && !L.failed) r = run(2);
        if (r == z3::sat && sliced && model) { use = pc; r = run(0); if (r == z3::unknown && !L.failed) r = run(2); }
        return r;
    }
    if (m == M_UF) {
        z3::solver &s = syncInc(m);
        setTmo(s, tmo);
        s.push();
        for (auto *e : extra) addWithSide(s, L, e, nullptr);
        if (raw) for (auto &r : *raw) s.add(r);
        auto r = timedCheck(s, m);
        if (r == z3::sat && model) model->reset(new z3::model(s.get_model()));
        s.pop();
        return r;
    }
    z3::solver s(*zc);
    setTmo(s, tmo);
    std::set<uint32_t> done;
    if (withPC) for (auto *e : pc) addWithSide(s, L, e, &done);
    for (auto *e : extra) addWithSide(s, L, e, &done);
    if (raw) for (auto &r : *raw) s.add(r);
    auto r = timedCheck(s, m);
    if (r == z3::sat && model) model->reset(new z3::model(s.get_model()));
    return r;
}
// is the path condition satisfiable over the reals (component by component, remembered)
static z3::check_result realPcSat(unsigned tmo) {
    static std::map<vector<uint32_t>, z3::check_result> memo;
    vector<Expr *> rest = pc;
    z3::check_result all = z3::sat;
    while (!rest.empty()) {
        vector<Expr *> comp = sliceOf({rest[0]}, rest), left;
        std::set<Expr *> in(comp.begin(), comp.end());
        in.insert(rest[0]);
        vector<uint32_t> ids;
        for (auto *e : rest) if (in.count(e)) ids.push_back(e->id); else left.push_back(e);
        auto it = memo.find(ids);
        z3::check_result r;
        if (it != memo.end()) r = it->second;
        else {
            vector<Expr *> ex(in.begin(), in.end());
            r = query(M_REAL, ex, tmo, nullptr, nullptr, false);
            memo[ids] = r;
        }
        if (r == z3::unsat) return r;
        if (r == z3::unknown) all = r;
        rest.swap(left);
    }
    return all;
}
static bool modelTrue(Expr *c) {
    try {
        if (gMode == M_REAL) return false;
        z3::expr v = curModel.m->eval(LW[gMode]->lowBool(c), true);
        return v.is_true();
    } catch (z3::exception &) { return false; }
}

static string whereAmI() {
    for (size_t i = frames.size(); i-- > 0;) {
        DFunc *f = frames[i].f;
        if (f->file.find("/repo/") != string::npos || f->file.find("dataframe") != string::npos) {
            string d = f->name; int st = 0;
            char *p = abi::__cxa_demangle(d.c_str(), nullptr, nullptr, &st);
            if (p) { d = p; free(p); }
            auto q = d.find('('); if (q != string::npos && d.compare(0, 8, "operator") != 0) d = d.substr(0, q);
            size_t pci = frames[i].pc < f->code.size() ? frames[i].pc : 0;
            int line = f->code.empty() ? 0 : f->code[pci].line;
            if (line == 0 && pci > 0) line = f->code[pci - 1].line;
            string file = f->file; auto sl = file.rfind('/'); if (sl != string::npos) file = file.substr(sl + 1);
            return d + " (" + file + ":" + std::to_string(line) + ")";
        }
    }
    return frames.empty() ? "?" : frames.back().f->name;
}
[[noreturn]] static void fail(const string &kind, const string &msg) { throw PathEnd{END_ERROR, kind, msg + " in " + whereAmI()}; }
[[noreturn]] static void unsupp(const string &msg) { throw PathEnd{END_UNSUPP, "unsupported", msg}; }

static void assumeE(Expr *c) { if (c->k == E_CONST) return; pc.push_back(c); }

static void ensureModel() {
    if (curModel.m) return;
    std::unique_ptr<z3::model> m;
    auto r = query(gMode, {}, gTmoBranch, &m);
    if (r == z3::sat) curModel.m = std::move(m);
    else if (r == z3::unsat) throw PathEnd{END_INFEASIBLE, "infeasible", ""};
}
static bool branch(Expr *c) {
    if (c->k == E_CONST) return c->c & 1;
    if (trace.size() < prefixLen) unsupp("replay order");
    size_t i = steps; (void)i;
    extern size_t replayPos; extern vector<Decision> replay;
    if (replayPos < replay.size()) {
        Decision d = replay[replayPos++];
        if (d.type != 0) unsupp("replay divergence");
        trace.push_back(d);
        if (!d.forced) assumeE(d.val ? c : eNot(c));
        return d.val;
    }
    if (inInit) unsupp("symbolic branch in initialisation");
    ES.decisions++;
    Expr *nc = eNot(c);
    z3::check_result rt, rf;
    std::unique_ptr<z3::model> mt, mf;
    if (gMode != M_REAL) {
        ensureModel();
        if (curModel.m) {
            if (modelTrue(c)) { rt = z3::sat; rf = query(gMode, {nc}, gTmoBranch, &mf); }
            else { rf = z3::sat; rt = query(gMode, {c}, gTmoBranch, &mt); }
        } else { rt = query(gMode, {c}, gTmoBranch, &mt); rf = query(gMode, {nc}, gTmoBranch, &mf); }
    } else {
        rt = query(gMode, {c}, gTmoBranch, nullptr);
        rf = rt == z3::unsat ? z3::sat : query(gMode, {nc}, gTmoBranch, nullptr);
    }
    bool ft = rt != z3::unsat, ff = rf != z3::unsat;
    if (!ft && !ff) throw PathEnd{END_INFEASIBLE, "infeasible", ""};
    if (ft && ff) {
        ES.forks++;
        vector<Decision> alt = trace;
        alt.push_back({0, false, 0});
        work.push_back(alt);
        trace.push_back({0, false, 1});
        // keep a model valid for the branch taken
        if (mt) curModel.m = std::move(mt);
        assumeE(c);
        return true;
    }
    trace.push_back({0, true, (uint64_t)ft});
    return ft;
}
size_t replayPos; vector<Decision> replay;

// concretise an integer expression: one path per feasible value
static uint64_t pick(Expr *e, unsigned cap = 64) {
    if (e->k == E_CONST) return e->c;
    if (replayPos < replay.size()) {
        Decision d = replay[replayPos++];
        if (d.type != 1) unsupp("replay divergence");
        trace.push_back(d);
        if (!d.forced) assumeE(eCmp(E_EQ, e, eConst(e->w, d.val)));
        return d.val;
    }
    if (inInit) unsupp("symbolic value in initialisation");
    ES.decisions++;
    vector<uint64_t> vals;
    vector<Expr *> block;
    while (true) {
        std::unique_ptr<z3::model> m;
        auto r = query(gMode, block, gTmoBranch, &m);
        if (r == z3::unsat) break;
        if (r == z3::unknown) throw PathEnd{END_LIMIT, "limit", "solver unknown while enumerating a value"};
        z3::expr v = m->eval(LW[gMode]->lowBV(e), true);
        uint64_t x = 0;
        if (!v.is_numeral_u64(x)) throw PathEnd{END_LIMIT, "limit", "non-numeral"};
        vals.push_back(x);
        block.push_back(eNot(eCmp(E_EQ, e, eConst(e->w, x))));
        if (vals.size() > cap) throw PathEnd{END_LIMIT, "limit", "too many feasible values of a concretised quantity in " + whereAmI()};
    }
    if (vals.empty()) throw PathEnd{END_INFEASIBLE, "infeasible", ""};
    std::sort(vals.begin(), vals.end());
    curModel.m.reset();
    bool forced = vals.size() == 1;
    for (size_t i = vals.size(); i-- > 1;) {
        ES.forks++;
        vector<Decision> alt = trace;
        alt.push_back({1, false, vals[i]});
        work.push_back(alt);
    }
    trace.push_back({1, forced, vals[0]});
    if (!forced) assumeE(eCmp(E_EQ, e, eConst(e->w, vals[0])));
    return vals[0];
}
static uint64_t chooseVal(uint64_t lo, uint64_t hi, bool nameDirect) {
    if (lo == hi) return lo;
    if (lo > hi) throw PathEnd{END_ASSUME, "assume", "empty choice"};
    uint64_t v;
    if (replayPos < replay.size()) {
        Decision d = replay[replayPos++];
        if (d.type != 2) unsupp("replay divergence");
        trace.push_back(d);
        v = d.val;
    } else {
        for (uint64_t x = hi; x > lo; x--) {
            vector<Decision> alt = trace;
            alt.push_back({2, false, x});
            work.push_back(alt);
        }
        trace.push_back({2, false, lo});
        v = lo;
    }
    chooseCount++;
    if (gShards > 1) {
        if (chooseCount == 1 && nameDirect) { // the first choice alone selects the shard
            chooseCount = 3;
            if ((int)(v % gShards) != gShard) throw PathEnd{END_SHARD, "", ""};
            return v;
        }
        if (chooseCount <= 2) chooseHash = chooseHash * 7919 + v;
        if (chooseCount == 2 && (int)((chooseHash * 2654435761u >> 7) % gShards) != gShard) throw PathEnd{END_SHARD, "", ""};
    }
    return v;
}
static uint64_t conc(const Val &v, const Leaf &l = L64) { return v.e ? pick(toE(v, l)) : v.c; }

// ------------------------------------------------------------------ memory
static uint32_t newObj(uint64_t size, OK kind, bool inited) {
    uint32_t id;
    // long paths take the names of objects that died long ago (first in, first out)
    if (nextObj > 3000000 && !deadObjs.empty()) { id = deadObjs.front(); deadObjs.pop_front(); }
    else {
        if (nextObj >= objs.size()) objs.resize(nextObj + 1024);
        if (nextObj > 12000000) throw PathEnd{END_LIMIT, "limit", "too many objects"};
        id = nextObj++;
    }
    Obj &o = objs[id];
    o.size = size; o.kind = kind; o.alive = true; o.inScope = true; o.ro = false; o.how = 0; o.frozen = false;
    o.b.assign(size, 0);
    o.init.clear(); if (!inited) o.init.assign(size, 0);
    o.s.clear(); o.wr.clear(); o.rd.clear(); o.where.clear();
    return id;
}
static uint64_t gErrno = 0; // this path's errno object
static uint64_t errnoAddr() { if (!gErrno) gErrno = objAddr(newObj(4, OK_EXC, true)); return gErrno; }
static Obj &objOf(uint64_t addr) { return objs[addr >> OBJ_SHIFT]; }
static void raceAccess(Obj &o, uint64_t off, uint64_t n, bool write) {
    if (o.kind == OK_STACK && false) return;
    size_t g0 = off, g1 = off + n - 1; // one shadow cell per byte
    if (o.wr.size() < o.size) { o.wr.resize(o.size); o.rd.resize(o.size); }
    auto &vc = vcs[curTask];
    auto hb = [&](const Epoch &e) { return e.task < 0 || e.task == curTask || ((size_t)e.task < vc.size() && e.clk <= vc[e.task]); };
    for (size_t g = g0; g <= g1; g++) {
        if (!hb(o.wr[g])) fail("data-race", string(write ? "write-write race" : "read-write race") + " on " + o.where + " offset " + std::to_string(off) + " kind " + std::to_string(o.kind));
        if (write) for (auto &r : o.rd[g]) if (!hb(r)) fail("data-race", "write after unsynchronised read on " + o.where + " offset " + std::to_string(off) + " kind " + std::to_string(o.kind));
        Epoch me{curTask, vc[curTask]};
        if (write) { o.wr[g] = me; o.rd[g].clear(); }
        else {
            bool f = false;
            for (auto &r : o.rd[g]) if (r.task == curTask) { r.clk = me.clk; f = true; }
            if (!f) o.rd[g].push_back(me);
        }
    }
}
static void atomicSync(uint64_t addr) { // acquire and release on one location
    auto &m = mutexVC[addr]; auto &v = vcs[curTask];
    if (v.size() < m.size()) v.resize(m.size(), 0);
    for (size_t i = 0; i < m.size(); i++) v[i] = std::max(v[i], m[i]);
    m = v; v[curTask]++;
}
struct AtomicScope { bool sr; AtomicScope(uint64_t a) : sr(raceOn) { if (raceOn) atomicSync(a); raceOn = false; } ~AtomicScope() { raceOn = sr; } };
// every task has its own instance of a thread_local variable, made from the initial value
static uint64_t tlsAddr(uint64_t g) {
    if (curTask == 0) return g;
    uint32_t id = g >> OBJ_SHIFT;
    uint64_t &a = tlsOf[{objAddr(id), curTask}];
    if (!a) {
        uint32_t n = newObj(objs[id].size, OK_EXC, true);
        objs[n].b = P->globals[id - 1].bytes;
        a = objAddr(n);
    }
    return a + (g - objAddr(id));
}
static Obj &access(uint64_t addr, uint64_t n, bool write, uint64_t &off) {
    uint64_t id = addr >> OBJ_SHIFT;
    if (addr < 0x10000000000ull) fail("null-deref", "access through a null or small pointer");
    if (id >= nextObj || addr >= FN_BASE) fail("wild-pointer", "access through a wild pointer");
    if (objs[id].tlsGuard && curTask) { addr = tlsAddr(addr); id = addr >> OBJ_SHIFT; }
    Obj &o = objs[id];
    if (!o.alive) fail(o.kind == OK_STACK ? "use-after-return" : "use-after-free", "access to dead memory");
    if (!o.inScope) fail("use-after-scope", "access to a variable out of scope");
    int64_t of = (int64_t)((addr & ((1ull << OBJ_SHIFT) - 1)) - OBJ_BIAS);
    if (of < 0 || (uint64_t)of + n > o.size) fail("out-of-bounds", string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(of) + " of an object of " + std::to_string(o.size) + " bytes");
    if (write) {
        if (o.ro) fail("write-to-constant", "write to constant memory");
        if (o.frozen) fail("mutated-input", "write to an object declared immutable by the harness");
        if (o.kind == OK_GLOBAL && !o.dirty) { o.dirty = true; dirtyGlobals.push_back(id); }
    }
    off = of;
    if (raceOn && n) raceAccess(o, off, n, write);
    return o;
}
static uint64_t resolveAddr(const Val &a, uint64_t n) {
    if (!a.e) return a.c;
    // symbolic address: find the object the constant part points into
    Expr *e = a.e;
    std::function<uint64_t(Expr *)> baseOf = [&](Expr *x) -> uint64_t {
        if (x->k == E_CONST) return x->c >= (1ull << OBJ_SHIFT) ? x->c : 0;
        if (x->k == E_ADD) { uint64_t r = baseOf(x->a[1]); return r ? r : baseOf(x->a[0]); }
        if (x->k == E_SUB) return baseOf(x->a[0]);
        return 0;
    };
    uint64_t b = baseOf(e);
    if (b && (b >> OBJ_SHIFT) < nextObj) {
        Obj &o = objs[b >> OBJ_SHIFT];
        uint64_t start = objAddr(b >> OBJ_SHIFT);
        uint64_t lim = o.size >= n ? o.size - n : 0;
        Expr *rel = eBin(E_SUB, e, eConst(64, start));
        ES.safetyChecks++;
        if (branch(eCmp(E_ULT, eConst(64, lim), rel))) fail("out-of-bounds", "symbolic address outside its object");
    }
    return pick(e, 4096);
}
static uint64_t freshUninit = 0;
static Val loadMem(const Val &addr, const Leaf &l) {
    uint32_t n = l.bytes();
    uint64_t a = resolveAddr(addr, n), off;
    Obj &o = access(a, n, false, off);
    bool ok = true;
    if (!o.init.empty()) for (uint32_t i = 0; i < n; i++) if (!o.init[off + i]) { ok = false; break; }
    bool sym = false;
    if (!o.s.empty()) for (uint32_t i = 0; i < n; i++) if (o.s[off + i].e) { sym = true; break; }
    Val v;
    if (ok && !sym) {
        memcpy(&v.c, &o.b[off], std::min(n, 8u));
        if (n > 8) memcpy(&v.hi, &o.b[off + 8], n - 8);
        if (l.k == LI && l.bits < n * 8 && n <= 8) v.c = mask(v.c, l.bits);
        return v;
    }
    if (n > 8) unsupp("symbolic wide load");
    if (!ok) {
        bool any = false;
        for (uint32_t i = 0; i < n; i++) if (o.init[off + i]) any = true;
        if (o.s.empty()) o.s.resize(o.size);
        if (!any) {
            Expr *u = eVar("uninit!" + std::to_string(freshUninit++), n * 8, false);
            for (uint32_t i = 0; i < n; i++) { o.s[off + i] = {u, (uint8_t)i}; o.init[off + i] = 1; }
        } else
            for (uint32_t i = 0; i < n; i++) if (!o.init[off + i]) { o.s[off + i] = {eVar("uninit!" + std::to_string(freshUninit++), 8, false), 0}; o.init[off + i] = 1; }
    }
    SymB f = o.s[off];
    if (f.e && f.idx == 0 && f.e->w == n * 8) {
        bool whole = true;
        for (uint32_t i = 1; i < n; i++) if (o.s[off + i].e != f.e || o.s[off + i].idx != i) { whole = false; break; }
        if (whole) {
            if (l.k == LF64 && !f.e->f) return sval(eToF(E_BV2F, f.e));
            if (l.k == LF32) return fval(eToF(E_BV2FLT, f.e));
            if (l.k == LI && l.bits < f.e->w) return sval(eExtract(f.e, 0, l.bits));
            return sval(f.e);
        }
    }
    Expr *r = nullptr;
    for (uint32_t i = 0; i < n;) {
        SymB s = o.s[off + i];
        Expr *part;
        if (!s.e) { part = eConst(8, o.b[off + i]); i++; }
        else {
            uint32_t j = 1;
            while (i + j < n && o.s[off + i + j].e == s.e && o.s[off + i + j].idx == s.idx + j) j++;
            part = eExtract(s.e, s.idx * 8, j * 8);
            i += j;
        }
        r = r ? eConcat(part, r) : part;
    }
    if (l.k == LF64) return sval(eToF(E_BV2F, r));
    if (l.k == LF32) return fval(eToF(E_BV2FLT, r));
    if (l.k != LI) unsupp("symbolic float");
    return sval(eExtract(r, 0, l.bits));
}
static void storeMem(const Val &addr, const Val &v, const Leaf &l) {
    uint32_t n = l.bytes();
    uint64_t a = resolveAddr(addr, n), off;
    Obj &o = access(a, n, true, off);
    if (!o.init.empty()) for (uint32_t i = 0; i < n; i++) o.init[off + i] = 1;
    if (!v.e) {
        memcpy(&o.b[off], &v.c, std::min(n, 8u));
        if (n > 8) memcpy(&o.b[off + 8], &v.hi, n - 8);
        if (!o.s.empty()) for (uint32_t i = 0; i < n; i++) o.s[off + i].e = nullptr;
        return;
    }
    if (o.s.empty()) o.s.resize(o.size);
    Expr *e = v.e;
    if (l.k == LF32 && e->f) e = eFromF(E_FLT2BV, e, 32);
    if (e->w < n * 8) e = eZext(e, n * 8);
    for (uint32_t i = 0; i < n; i++) { o.s[off + i].e = e; o.s[off + i].idx = i; }
}
static void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    uint64_t so, d_o;
    Obj *s = &access(src, n, false, so);
    Obj *d = &access(dst, n, true, d_o);
    vector<uint8_t> tb(s->b.begin() + so, s->b.begin() + so + n), ti;
    vector<SymB> ts;
    if (!s->init.empty()) ti.assign(s->init.begin() + so, s->init.begin() + so + n);
    if (!s->s.empty()) ts.assign(s->s.begin() + so, s->s.begin() + so + n);
    memcpy(&d->b[d_o], tb.data(), n);
    if (!ti.empty() || !d->init.empty()) {
        if (d->init.empty()) d->init.assign(d->size, 1);
        for (uint64_t i = 0; i < n; i++) d->init[d_o + i] = ti.empty() ? 1 : ti[i];
    }
    if (!ts.empty() || !d->s.empty()) {
        if (d->s.empty()) d->s.resize(d->size);
        for (uint64_t i = 0; i < n; i++) d->s[d_o + i] = ts.empty() ? SymB() : ts[i];
    }
}
static Val ldw(uint64_t a) { return loadMem(cval(a), L64); }
static void stw(uint64_t a, uint64_t v) { storeMem(cval(a), cval(v), L64); }
static string readCStr(uint64_t a) {
    string s;
    for (int i = 0; i < 4096; i++) {
        Val v = loadMem(cval(a + i), L8);
        if (v.e) { s += '?'; continue; }
        if (!v.c) break;
        s += (char)v.c;
    }
    return s;
}
static string readN(uint64_t a, uint64_t n) { string s; for (uint64_t i = 0; i < n && i < (1u << 20); i++) { Val v = loadMem(cval(a + i), L8); s += v.e ? '?' : (char)v.c; } return s; }
static uint64_t allocStr(const string &s) {
    uint32_t id = newObj(s.size() + 1, OK_EXC, true);
    memcpy(objs[id].b.data(), s.c_str(), s.size() + 1);
    return objAddr(id);
}
static void writeStdString(uint64_t dst, const string &s) {
    uint64_t p = dst + 16;
    if (s.size() > 15) {
        uint32_t id = newObj(s.size() + 1, OK_HEAP, true); objs[id].how = 1;
        memcpy(objs[id].b.data(), s.c_str(), s.size() + 1);
        p = objAddr(id);
        stw(dst + 16, s.size());
    } else
        for (size_t i = 0; i <= s.size(); i++) storeMem(cval(p + i), cval((uint8_t)s.c_str()[i]), L8);
    stw(dst, p); stw(dst + 8, s.size());
}

// a virtual table of which only the offset of the virtual base is read
static uint64_t streamTable(uint64_t vbase) {
    uint32_t id = newObj(64, OK_EXC, true);
    uint64_t w[8] = {vbase, 0, 0, 0, 0, 0, 0, 0};
    memcpy(objs[id].b.data(), w, 64);
    return objAddr(id) + 24;
}

// ------------------------------------------------------------------ type info / exceptions
static std::map<string, uint64_t> synthAddr;
static const std::map<string, string> stdBase = {
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt12future_error", "_ZTISt11logic_error"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
    {"_ZTISt12bad_any_cast", "_ZTISt8bad_cast"}};
static uint64_t tiAddr(const string &n) {
    auto it = P->globalAddr.find(n);
    if (it != P->globalAddr.end()) return it->second;
    auto j = synthAddr.find(n);
    if (j != synthAddr.end()) return j->second;
    uint64_t a = FN_BASE + 0x0100000000000000ull + synthAddr.size() * 64;
    synthAddr[n] = a; P->addrName[a] = n;
    return a;
}
static bool tiDerives(uint64_t t, uint64_t b, int depth = 0) {
    if (t == b) return true;
    if (depth > 20) return false;
    auto nm = P->addrName.find(t);
    if (nm == P->addrName.end()) return false;
    auto nb = P->addrName.find(b);
    if (nb != P->addrName.end() && nb->second == nm->second) return true;
    auto s = stdBase.find(nm->second);
    if (s != stdBase.end()) return tiDerives(tiAddr(s->second), b, depth + 1);
    if (t >= FN_BASE) return false;
    Obj &o = objOf(t);
    if (o.size < 24) return false;
    uint64_t vp; memcpy(&vp, &o.b[0], 8);
    auto vn = P->addrName.find(vp - 16);
    string vnm = vn == P->addrName.end() ? "" : vn->second;
    if (vnm.find("si_class_type_info") != string::npos) { uint64_t base; memcpy(&base, &o.b[16], 8); return tiDerives(base, b, depth + 1); }
    if (vnm.find("vmi_class_type_info") != string::npos) {
        uint32_t cnt; memcpy(&cnt, &o.b[20], 4);
        for (uint32_t i = 0; i < cnt; i++) { uint64_t base; memcpy(&base, &o.b[24 + 16 * i], 8); if (tiDerives(base, b, depth + 1)) return true; }
    }
    return false;
}
static uint64_t stdVtable(const string &cls) { // cls: St16invalid_argument
    auto it = P->globalAddr.find("_ZTV" + cls);
    if (it != P->globalAddr.end()) return it->second;
    return P->globalAddr.count("_ZTVSt9exception") ? P->globalAddr["_ZTVSt9exception"] : 0;
}

static void popFrame() {
    Frame &f = frames.back();
    for (uint32_t id : f.allocas) { objs[id].alive = false; deadObjs.push_back(id); }
    stk.resize(f.base);
    frames.pop_back();
}
static bool leakOn = false;
static std::function<void()> pendingAfter;
struct RunLoop { size_t depth; };
static uint64_t curExc = 0;
static void applyMoves(int32_t m);
// unwind the exception `exc` starting at the top frame (whose pc points at the call)
static size_t loopDepth = 0;
static void unwind(uint64_t exc) {
    ExcInfo &ei = excs[exc];
    while (frames.size() > loopDepth) {
        Frame &f = frames.back();
        DInst &d = f.f->code[f.pc];
        if (d.op == O_CALL && d.invoke && f.special == 0) {
            DInst &lp = f.f->code[d.t1];
            // find the landing pad instruction (phis are gone; it is first)
            int32_t lpc = d.t1;
            while (f.f->code[lpc].op != O_LANDINGPAD) lpc++;
            DInst &l = f.f->code[lpc];
            (void)lp;
            uint32_t sel = 0; bool enter = l.cleanup;
            for (auto &c : l.clauses) {
                if (!c.isCatch) { enter = true; continue; }
                if (c.ti == 0) { sel = 1; enter = true; break; }
                if (tiDerives(ei.ti, c.ti)) { sel = (uint32_t)(c.ti >> OBJ_SHIFT) * 4 + 2; if (c.ti >= FN_BASE) sel = (uint32_t)((c.ti - FN_BASE) & 0xffffff) * 4 + 3; enter = true; break; }
            }
            if (enter) {
                applyMoves(d.m1);
                f.pc = d.t1;
                curExc = exc;
                // landing pad stores values when executed
                f.f->code[lpc].size = 0;
                extern uint64_t lpExc; extern uint32_t lpSel;
                lpExc = exc; lpSel = sel;
                return;
            }
        }
        popFrame();
    }
    string nm = P->addrName.count(ei.ti) ? P->addrName[ei.ti] : "?";
    int st; char *q = abi::__cxa_demangle(nm.c_str(), nullptr, nullptr, &st);
    string dn = q ? q : nm; free(q);
    throw PathEnd{END_ERROR, "uncaught-exception", "uncaught exception " + dn};
}
uint64_t lpExc; uint32_t lpSel;
static void throwObj(uint64_t obj, uint64_t ti, uint64_t dtor) {
    excs[obj] = {ti, dtor, 0, 1};
    uncaughtN++;
    unwind(obj);
}
static void throwStd(const string &cls, const string &msg) { // cls "St12out_of_range"
    uint32_t id = newObj(16, OK_EXC, true);
    uint64_t a = objAddr(id);
    uint64_t vt = stdVtable(cls);
    memcpy(objs[id].b.data(), (vt += 16, &vt), 8);
    uint64_t m = allocStr(msg);
    memcpy(objs[id].b.data() + 8, &m, 8);
    throwObj(a, tiAddr("_ZTI" + cls), 0);
}

// ------------------------------------------------------------------ builtins
struct Call {
    DInst *d; DFunc *f;
    vector<Val> a;             // flat args
    vector<uint32_t> st;       // start of each IR argument
    Val ret[4]; int nret = 0;
    bool threw = false;
    bool pushed = false;
    uint64_t u(size_t i) { return conc(a[i]); }
    void r(const Val &v) { ret[0] = v; nret = 1; }
    void r(uint64_t c) { ret[0] = cval(c); nret = 1; }
};
typedef std::function<void(Call &)> Builtin;
static std::unordered_map<string, int> bIndex;
static vector<Builtin> bFns;
static void reg(const string &n, Builtin b) { bIndex[n] = bFns.size(); bFns.push_back(b); }

static string vname(uint64_t p) {
    string n = readCStr(p);
    int k = varCount[n]++;
    return n + "#" + std::to_string(k);
}
static Expr *argE(Call &c, size_t i, const Leaf &l) { return toE(c.a[i], l); }

static void pathFlush(bool final);
static Val symvar(const string &n, unsigned w, bool f) { Expr *e = eVar(n, w, f); pathVars.push_back(e); return sval(e); }

static void doFree(uint64_t a, int how) {
    if (!a) return;
    uint64_t id = a >> OBJ_SHIFT;
    if (id >= nextObj || a >= FN_BASE) fail("bad-free", "free of a wild pointer");
    Obj &o = objs[id];
    if (o.kind != OK_HEAP && o.kind != OK_EXC) fail("bad-free", "free of non-heap memory");
    if (!o.alive) fail("double-free", "double free");
    if (a != objAddr(id)) fail("bad-free", "free of an interior pointer");
    if (o.kind == OK_HEAP && o.how != how) fail("alloc-dealloc-mismatch", "mismatched deallocation function");
    if (raceOn && o.size) raceAccess(o, 0, o.size, true);
    o.alive = false;
    deadObjs.push_back((uint32_t)id);
    o.b.clear(); o.s.clear(); o.init.clear(); o.wr.clear(); o.rd.clear();
    if (o.b.capacity() > 4096) { o.b.shrink_to_fit(); o.s.shrink_to_fit(); o.init.shrink_to_fit(); }
}
static uint64_t doAlloc(const Val &szv, int how) {
    uint64_t n = conc(szv);
    if (n > (1ull << 31)) return 0;
    uint32_t id = newObj(n, OK_HEAP, false);
    objs[id].how = how;
    return objAddr(id);
}

static Val fbin(FBinK k, const Val &x, const Val &y, const Leaf &l);

static string shownNum(const Val &v, const char *fmt) {
    char b[400];
    if (!v.e) { snprintf(b, sizeof b, fmt, asD(v.c)); return b; }
    snprintf(b, sizeof b, "\x02%07u\x03", (unsigned)shownVals.size());
    shownVals.push_back(v);
    return b;
}
// the numbers in a text, in order (those that belong to a word are not)
static vector<Val> numbersIn(const string &s) {
    vector<Val> r;
    auto word = [&](size_t i) { return isalnum((unsigned char)s[i]) || s[i] == '_'; };
    for (size_t i = 0; i < s.size();) {
        if (s[i] == 2) { r.push_back(shownVals[strtoul(s.c_str() + i + 1, nullptr, 10)]); i += 9; continue; }
        if (i == 0 || !(word(i - 1) || s[i - 1] == '.')) {
            char *e; double d = 0; const char *b = s.c_str() + i;
            size_t k = *b == '-' || *b == '+';
            bool ok = isdigit((unsigned char)b[k]) || strncmp(b + k, "nan", 3) == 0 || strncmp(b + k, "inf", 3) == 0;
            if (ok) { d = strtod(b, &e); size_t n = e - b; if (i + n < s.size() && word(i + n)) n = 0; if (n) { uint64_t u; memcpy(&u, &d, 8); r.push_back(cval(u)); i += n; continue; } }
        }
        i++;
    }
    return r;
}
static void regBuiltins() {
    auto nop = [](Call &c) { c.nret = 0; };
    auto ret0 = [](Call &c) { c.r((uint64_t)0); };
    auto retArg0 = [](Call &c) { if (!c.a.empty()) c.r(c.a[0]); };
    // allocation
    reg("_Znwm", [](Call &c) { uint64_t a = doAlloc(c.a[0], 1); if (!a) { throwStd("St9bad_alloc", "std::bad_alloc"); c.threw = true; return; } c.r(a); });
    reg("_Znam", [](Call &c) { uint64_t a = doAlloc(c.a[0], 2); if (!a) { throwStd("St9bad_alloc", "std::bad_alloc"); c.threw = true; return; } c.r(a); });
    reg("_ZnwmRKSt9nothrow_t", [](Call &c) { c.r(doAlloc(c.a[0], 1)); });
    reg("_ZnamRKSt9nothrow_t", [](Call &c) { c.r(doAlloc(c.a[0], 2)); });
    reg("_ZnwmSt11align_val_t", bFns[bIndex["_Znwm"]]);
    reg("malloc", [](Call &c) { c.r(doAlloc(c.a[0], 0)); });
    reg("calloc", [](Call &c) { uint64_t n = c.u(0) * c.u(1); uint32_t id = newObj(n, OK_HEAP, true); c.r(objAddr(id)); });
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t"}) reg(n, [](Call &c) { doFree(c.u(0), 1); });
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) reg(n, [](Call &c) { doFree(c.u(0), 2); });
    reg("free", [](Call &c) { doFree(c.u(0), 0); });
    // memory
    auto mcpy = [](Call &c) { uint64_t n = c.u(2); if (n) copyMem(c.u(0), c.u(1), n); c.r(c.a[0]); };
    reg("memcpy", mcpy); reg("memmove", mcpy);
    auto mset = [](Call &c) {
        uint64_t n = c.u(2), a = c.u(0); Val v = c.a[1];
        if (v.e) unsupp("symbolic memset");
        if (n) {
            uint64_t off; Obj &o = access(a, n, true, off);
            memset(&o.b[off], (int)(v.c & 255), n);
            if (!o.init.empty()) memset(&o.init[off], 1, n);
            if (!o.s.empty()) for (uint64_t i = 0; i < n; i++) o.s[off + i].e = nullptr;
        }
        c.r(c.a[0]);
    };
    reg("memset", mset);
    auto mcmp = [](Call &c) {
        uint64_t n = c.u(2), x = c.u(0), y = c.u(1);
        bool symb = false;
        for (uint64_t i = 0; i < n; i++) {
            Val a = loadMem(cval(x + i), L8), b = loadMem(cval(y + i), L8);
            if (a.e || b.e) { symb = true; Expr *ea = toE(a, L8), *eb = toE(b, L8); if (ea == eb) continue;
                if (branch(eCmp(E_EQ, ea, eb))) continue;
                c.r(branch(eCmp(E_ULT, ea, eb)) ? 0xffffffffull : 1); return; }
            if (a.c != b.c) { c.r(a.c < b.c ? 0xffffffffull : 1); return; }
        }
        (void)symb;
        c.r((uint64_t)0);
    };
    reg("memcmp", mcmp); reg("bcmp", mcmp);
    reg("strlen", [](Call &c) { c.r(readCStr(c.u(0)).size()); });
    reg("strcmp", [](Call &c) { int r = readCStr(c.u(0)).compare(readCStr(c.u(1))); c.r(mask((uint64_t)(int64_t)(r < 0 ? -1 : r > 0), 32)); });
    reg("memchr", [](Call &c) { uint64_t n = c.u(2), a = c.u(0), ch = c.u(1) & 255; for (uint64_t i = 0; i < n; i++) { Val v = loadMem(cval(a + i), L8); if (conc(v, L8) == ch) { c.r(a + i); return; } } c.r((uint64_t)0); });
    // process end
    auto die = [](const char *k) { return [k](Call &) { fail("abort", k); }; };
    for (auto n : {"abort", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "__cxa_deleted_virtual", "__stack_chk_fail"}) reg(n, die(n));
    reg("exit", die("exit"));
    reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](Call &c) { fail("library-precondition", "standard library precondition violated: " + readCStr(c.u(3))); });
    reg("__assert_fail", [](Call &c) { fail("assert", "assert() failed: " + readCStr(c.u(0))); });
    // exceptions
    reg("__cxa_allocate_exception", [](Call &c) { uint32_t id = newObj(std::max<uint64_t>(c.u(0), 16), OK_EXC, true); c.r(objAddr(id)); });
    reg("__cxa_free_exception", [](Call &c) { objOf(c.u(0)).alive = false; });
    reg("__cxa_throw", [](Call &c) { throwObj(c.u(0), c.u(1), c.u(2)); c.threw = true; });
    reg("__cxa_begin_catch", [](Call &c) { uint64_t x = c.u(0); caught.push_back(x); excs[x].handlers++; if (uncaughtN > 0) uncaughtN--; c.r(x); });
    reg("__cxa_get_exception_ptr", retArg0);
    reg("__cxa_end_catch", [](Call &c) {
        if (caught.empty()) return;
        uint64_t x = caught.back(); caught.pop_back();
        ExcInfo &e = excs[x];
        if (--e.handlers == 0 && e.refs > 0) {
            if (e.refs == 1000000) return;
            e.refs--;
            if (e.refs == 0 && e.dtor && P->byAddr.count(e.dtor)) {
                DFunc *f = P->byAddr[e.dtor];
                if (!f->decl) { c.pushed = true; extern void pushCall(DFunc *, const vector<Val> &, int); pushCall(f, {cval(x)}, 1); }
            }
        }
    });
    reg("__cxa_rethrow", [](Call &c) { uint64_t x = caught.back(); excs[x].refs++; uncaughtN++; unwind(x); c.threw = true; });
    reg("_Unwind_Resume", [](Call &c) { unwind(c.u(0)); c.threw = true; });
    reg("__cxa_current_exception_type", [](Call &c) { c.r(caught.empty() ? 0 : excs[caught.back()].ti); });
    reg("_ZSt18uncaught_exceptionv", [](Call &c) { c.r((uint64_t)(uncaughtN > 0)); });
    reg("_ZSt19uncaught_exceptionsv", [](Call &c) { c.r((uint64_t)uncaughtN); });
    reg("_ZSt17current_exceptionv", [](Call &c) { uint64_t x = caught.empty() ? 0 : caught.back(); if (x) excs[x].refs = 1000000; stw(c.u(0), x); });
    reg("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", [](Call &c) { uint64_t x = conc(ldw(c.u(0))); if (!x) fail("abort", "rethrow of a null exception_ptr"); uncaughtN++; unwind(x); c.threw = true; });
    reg("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", nop);
    reg("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", nop);
    reg("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", [](Call &c) { stw(c.u(0), conc(ldw(c.u(1)))); });
    reg("__cxa_init_primary_exception", [](Call &c) { uint64_t x = c.u(0); excs[x] = ExcInfo{c.u(1), c.u(2), 0, 1000000}; c.r(x); });
    reg("_ZNSt15__exception_ptr13exception_ptrC1EPv", [](Call &c) { stw(c.u(0), c.u(1)); });
    reg("_ZNSt15__exception_ptr13exception_ptrC1Ev", [](Call &c) { stw(c.u(0), 0); });
    reg("_ZNSt15__exception_ptr13exception_ptrD1Ev", nop);
    reg("_ZNSt15__exception_ptr13exception_ptraSERKS0_", [](Call &c) { stw(c.u(0), conc(ldw(c.u(1)))); c.r(c.a[0]); });
    reg("_ZNSt15__exception_ptr13exception_ptr4swapERS0_", [](Call &c) { uint64_t x = conc(ldw(c.u(0))), y = conc(ldw(c.u(1))); stw(c.u(0), y); stw(c.u(1), x); });
    // std exception classes
    struct EC { const char *m; bool rt; };
    for (auto cls : {"St16invalid_argument", "St12domain_error", "St12length_error", "St12out_of_range", "St11logic_error", "St13runtime_error", "St11range_error", "St14overflow_error", "St15underflow_error"}) {
        string m = cls, core = m.substr(2);
        string cn = "_ZNSt" + core;
        auto ctorC = [m](Call &c) { uint64_t o = c.u(0); stw(o, stdVtable(m) + 16); stw(o + 8, allocStr(readCStr(c.u(1)))); };
        auto ctorS = [m](Call &c) { uint64_t o = c.u(0), s = c.u(1); uint64_t p = conc(ldw(s)), n = conc(ldw(s + 8)); stw(o, stdVtable(m) + 16); stw(o + 8, allocStr(readN(p, n))); };
        auto ctorCp = [m](Call &c) { uint64_t o = c.u(0), s = c.u(1); stw(o, stdVtable(m) + 16); stw(o + 8, conc(ldw(s + 8))); };
        for (auto v : {"C1", "C2"}) {
            reg(cn + v + "EPKc", ctorC);
            reg(cn + v + "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", ctorS);
            reg(cn + v + "ERKS_", ctorCp); reg(cn + v + "EOS_", ctorCp);
        }
        for (auto v : {"D0", "D1", "D2"}) reg(cn + v + "Ev", nop);
    }
    for (auto cls : {"9exception", "9bad_alloc", "8bad_cast", "17bad_function_call", "20bad_array_new_length"})
        for (auto v : {"D0", "D1", "D2"}) reg(string("_ZNSt") + cls + v + "Ev", nop);
    auto what = [](Call &c) { uint64_t o = c.u(0); Obj &ob = objOf(o); uint64_t off = (o & ((1ull << OBJ_SHIFT) - 1)) - OBJ_BIAS; if (off + 16 <= ob.size) { Val v = ldw(o + 8); if (!v.e && v.c) { c.r(v.c); return; } } c.r(allocStr("std::exception")); };
    for (auto n : {"_ZNKSt9exception4whatEv", "_ZNKSt13runtime_error4whatEv", "_ZNKSt11logic_error4whatEv", "_ZNKSt9bad_alloc4whatEv"}) reg(n, what);
    auto thr = [](const char *cls) { return [cls](Call &c) { string m = c.a.empty() ? "" : readCStr(c.u(0)); throwStd(cls, m); c.threw = true; }; };
    reg("_ZSt20__throw_length_errorPKc", thr("St12length_error"));
    reg("_ZSt19__throw_logic_errorPKc", thr("St11logic_error"));
    reg("_ZSt20__throw_out_of_rangePKc", thr("St12out_of_range"));
    reg("_ZSt24__throw_out_of_range_fmtPKcz", thr("St12out_of_range"));
    reg("_ZSt24__throw_invalid_argumentPKc", thr("St16invalid_argument"));
    reg("_ZSt21__throw_runtime_errorPKc", thr("St13runtime_error"));
    reg("_ZSt20__throw_domain_errorPKc", thr("St12domain_error"));
    reg("_ZSt19__throw_range_errorPKc", thr("St11range_error"));
    reg("_ZSt22__throw_overflow_errorPKc", thr("St14overflow_error"));
    reg("_ZSt17__throw_bad_allocv", [](Call &c) { throwStd("St9bad_alloc", "std::bad_alloc"); c.threw = true; });
    reg("_ZSt28__throw_bad_array_new_lengthv", [](Call &c) { throwStd("St20bad_array_new_length", ""); c.threw = true; });
    reg("__cxa_throw_bad_array_new_length", [](Call &c) { throwStd("St20bad_array_new_length", ""); c.threw = true; });
    reg("_ZSt25__throw_bad_function_callv", [](Call &c) { throwStd("St17bad_function_call", "bad_function_call"); c.threw = true; });
    reg("_ZSt16__throw_bad_castv", [](Call &c) { throwStd("St8bad_cast", "bad_cast"); c.threw = true; });
    reg("__cxa_bad_cast", [](Call &c) { throwStd("St8bad_cast", "bad_cast"); c.threw = true; });
    reg("_ZSt20__throw_system_errori", [](Call &c) { throwStd("St12system_error", ""); c.threw = true; });
    // guards, atexit, threads
    reg("__cxa_guard_acquire", [](Call &c) { AtomicScope as(c.u(0)); Val v = loadMem(c.a[0], L8); c.r((uint64_t)(v.c == 0)); });
    reg("__cxa_guard_release", [](Call &c) { AtomicScope as(c.u(0)); storeMem(c.a[0], cval(1), L8); });
    reg("__cxa_guard_abort", nop);
    reg("__cxa_atexit", ret0); reg("atexit", ret0); reg("__cxa_thread_atexit", ret0);
    for (auto n : {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock"}) reg(n, [](Call &c) { if (raceOn) { auto &m = mutexVC[c.u(0)]; auto &v = vcs[curTask]; if (v.size() < m.size()) v.resize(m.size()); for (size_t i = 0; i < m.size(); i++) v[i] = std::max(v[i], m[i]); } c.r((uint64_t)0); });
    for (auto n : {"pthread_mutex_unlock", "pthread_rwlock_unlock"}) reg(n, [](Call &c) { if (raceOn) { auto &v = vcs[curTask]; mutexVC[c.u(0)] = v; v[curTask]++; } c.r((uint64_t)0); });
    for (auto n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_key_create", "__pthread_key_create"}) reg(n, ret0);
    reg("_ZNSt6thread20hardware_concurrencyEv", [](Call &c) { c.r(4); });
    reg("_ZNSt6chrono3_V212system_clock3nowEv", [](Call &c) { c.r(1000000000ull); });
    reg("_ZNSt6chrono3_V212steady_clock3nowEv", [](Call &c) { c.r(1000000000ull); });
    reg("time", [](Call &c) { c.r(1700000000ull); });
    reg("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", nop);
    reg("_ZNSt13random_device7_M_finiEv", nop);
    reg("_ZNSt13random_device9_M_getvalEv", [](Call &c) { string n = "random_device#" + std::to_string(varCount["random_device"]++); c.r(symvar(n, 32, false)); });
    reg("_ZNSt8ios_base4InitC1Ev", nop); reg("_ZNSt8ios_base4InitD1Ev", nop);
    // libm
    struct M1 { const char *n; FF f; };
    for (auto &m : vector<M1>{{"sin", FF_SIN}, {"cos", FF_COS}, {"tan", FF_TAN}, {"asin", FF_ASIN}, {"acos", FF_ACOS}, {"atan", FF_ATAN}, {"exp", FF_EXP}, {"log", FF_LOG},
             {"floor", FF_FLOOR}, {"ceil", FF_CEIL}, {"round", FF_ROUND}, {"trunc", FF_TRUNC}, {"rint", FF_RINT}, {"nearbyint", FF_RINT}, {"log10", FF_LOG10}, {"log2", FF_LOG2}, {"exp2", FF_EXP2},
             {"cbrt", FF_CBRT}, {"sinh", FF_SINH}, {"cosh", FF_COSH}, {"tanh", FF_TANH}, {"expm1", FF_EXPM1}, {"log1p", FF_LOG1P}}) {
        FF f = m.f;
        auto fn = [f](Call &c) { c.r(sval(eFun(f, {argE(c, 0, LD)}))); };
        reg(m.n, fn); reg(string("llvm.") + m.n + ".f64", fn);
    }
    for (auto &m : vector<M1>{{"pow", FF_POW}, {"atan2", FF_ATAN2}, {"fmod", FF_FMOD}, {"hypot", FF_HYPOT}, {"fmin", FF_FMIN}, {"fmax", FF_FMAX}}) {
        FF f = m.f;
        auto fn = [f](Call &c) { c.r(sval(eFun(f, {argE(c, 0, LD), argE(c, 1, LD)}))); };
        reg(m.n, fn); reg(string("llvm.") + m.n + ".f64", fn);
    }
    reg("llvm.minnum.f64", bFns[bIndex["fmin"]]); reg("llvm.maxnum.f64", bFns[bIndex["fmax"]]);
    auto ffma = [](Call &c) { c.r(sval(eFun(FF_FMA, {argE(c, 0, LD), argE(c, 1, LD), argE(c, 2, LD)}))); };
    reg("fma", ffma); reg("llvm.fma.f64", ffma);
    reg("llvm.fmuladd.f64", [](Call &c) { c.r(fbin(F_ADD, fbin(F_MUL, c.a[0], c.a[1], LD), c.a[2], LD)); });
    auto fsq = [](Call &c) { c.r(sval(eF1(E_FSQRT, argE(c, 0, LD)))); };
    reg("sqrt", fsq); reg("llvm.sqrt.f64", fsq);
    auto fab = [](Call &c) { c.r(sval(eF1(E_FABS, argE(c, 0, LD)))); };
    reg("fabs", fab); reg("llvm.fabs.f64", fab);
    reg("llvm.copysign.f64", [](Call &c) { Expr *m = eF1(E_FABS, argE(c, 0, LD)); Expr *s = eExtract(eFromF(E_F2BV, argE(c, 1, LD), 64), 63, 1); c.r(sval(eIte(s, eF1(E_FNEG, m), m))); });
    reg("copysign", bFns[bIndex["llvm.copysign.f64"]]);
    reg("llvm.powi.f64.i32", [](Call &c) { int n = (int)c.u(1); Expr *x = argE(c, 0, LD), *r = eConstF(1); for (int i = 0; i < std::abs(n); i++) r = eF(E_FMUL, r, x); if (n < 0) r = eF(E_FDIV, eConstF(1), r); c.r(sval(r)); });
    reg("nextafter", [](Call &c) { Expr *x = argE(c, 0, LD), *y = argE(c, 1, LD); if (x->k != E_CONST || y->k != E_CONST) unsupp("nextafter"); c.r(sval(eConstF(nextafter(asD(x->c), asD(y->c))))); });
    reg("nextafterf", [](Call &c) { if (c.a[0].e || c.a[1].e) unsupp("nextafterf"); c.r(cval(fromF(nextafterf(asF(c.a[0].c), asF(c.a[1].c))))); });
    reg("remainder", [](Call &c) { Expr *x = argE(c, 0, LD), *y = argE(c, 1, LD); if (x->k != E_CONST || y->k != E_CONST) unsupp("remainder"); c.r(sval(eConstF(remainder(asD(x->c), asD(y->c))))); });
    reg("fdim", [](Call &c) { Expr *x = argE(c, 0, LD), *y = argE(c, 1, LD); c.r(sval(eIte(eFcmp(E_FOLE, x, y), eConstF(0), eF(E_FADD, x, eF1(E_FNEG, y))))); });
    reg("modf", [](Call &c) { Expr *x = argE(c, 0, LD), *t = eFun(FF_TRUNC, {x}); storeMem(c.a[1], sval(t), LD); c.r(sval(eIte(eFcmp(E_FOEQ, eF1(E_FABS, x), eConstF(INFINITY)), eConstF(0), eF(E_FADD, x, eF1(E_FNEG, t))))); });
    auto ldx = [](Call &c) { // exact while the power of two is a normal number
        if (c.a[1].e) unsupp("ldexp with a symbolic exponent");
        int e = (int)(uint32_t)c.a[1].c;
        if (e < -1022 || e > 1023) unsupp("ldexp far out of range");
        c.r(sval(eF(E_FMUL, argE(c, 0, LD), eConstF(ldexp(1.0, e)))));
    };
    reg("ldexp", ldx); reg("scalbn", ldx); reg("llvm.ldexp.f64.i32", ldx);
    reg("frexp", [](Call &c) { Expr *x = argE(c, 0, LD); if (x->k != E_CONST) unsupp("frexp"); int e; double m = frexp(asD(x->c), &e); storeMem(c.a[1], cval((uint32_t)e), L32); c.r(sval(eConstF(m))); });
    // C string to number conversions, on concrete text
    auto strto = [](int kind) {
        return [kind](Call &c) {
            string t = readCStr(c.u(0)); const char *b = t.c_str(); char *e = nullptr; int save = errno; errno = 0; uint64_t r = 0; double d = 0;
            int base = kind == 2 ? 0 : (int)c.u(2);
            if (kind == 0) r = (uint64_t)strtol(b, &e, base); else if (kind == 1) r = strtoul(b, &e, base); else d = strtod(b, &e);
            int er = errno; errno = save;
            if (er) storeMem(cval(errnoAddr()), cval((uint32_t)er), L32);
            if (c.a[1].e || c.a[1].c) stw(c.u(1), c.u(0) + (uint64_t)(e - b));
            if (kind == 2) c.r(sval(eConstF(d))); else c.r(r);
        };
    };
    for (auto n : {"strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll"}) reg(n, strto(0));
    for (auto n : {"strtoul", "strtoull", "__isoc23_strtoul", "__isoc23_strtoull"}) reg(n, strto(1));
    reg("strtod", strto(2));
    reg("__errno_location", [](Call &c) { c.r(errnoAddr()); });
    auto lround_ = [](Call &c) { c.r(sval(eFromF(E_FPTOSI, eFun(FF_ROUND, {argE(c, 0, LD)}), 64))); };
    reg("lround", lround_); reg("llvm.lround.i64.f64", lround_); reg("llround", lround_); reg("llvm.llround.i64.f64", lround_);
    auto lrint_ = [](Call &c) { c.r(sval(eFromF(E_FPTOSI, eFun(FF_RINT, {argE(c, 0, LD)}), 64))); };
    reg("lrint", lrint_); reg("llvm.lrint.i64.f64", lrint_); reg("llrint", lrint_); reg("llvm.llrint.i64.f64", lrint_);
    reg("llvm.is.fpclass.f64", [](Call &c) {
        uint64_t t = c.u(1); Expr *x = argE(c, 0, LD); Expr *r = eConst(1, 0);
        Expr *inf = eFcmp(E_FOEQ, eF1(E_FABS, x), eConstF(INFINITY)), *nan = eFcmp(E_FUNO, x, x);
        if ((t & 3) == 3) r = eOr1(r, nan);
        if ((t & 0x204) == 0x204) r = eOr1(r, inf);
        if ((t & 0x1f8) == 0x1f8) r = eOr1(r, eAnd1(eNot(inf), eNot(nan)));
        if ((t & ~0x3ffull) || ((t & 3) != 0 && (t & 3) != 3) || ((t & 0x204) != 0 && (t & 0x204) != 0x204) || ((t & 0x1f8) != 0 && (t & 0x1f8) != 0x1f8)) unsupp("is.fpclass");
        c.r(sval(r));
    });
    auto l80 = [](long double (*fn)(long double)) { return [fn](Call &c) { long double x = 0; memcpy(&x, &c.a[0].c, 8); memcpy((char *)&x + 8, &c.a[0].hi, 2); x = fn(x); Val v; memcpy(&v.c, &x, 8); memcpy(&v.hi, (char *)&x + 8, 2); c.r(v); }; };
    reg("logl", l80(logl)); reg("log2l", l80(log2l)); reg("llvm.log.f80", l80(logl)); reg("llvm.log2.f80", l80(log2l)); reg("floorl", l80(floorl)); reg("ceill", l80(ceill)); reg("llvm.floor.f80", l80(floorl)); reg("llvm.ceil.f80", l80(ceill));
    // llvm intrinsics
    for (auto n : {"llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.invariant.end.p0", "llvm.prefetch.p0", "llvm.stackrestore", "llvm.stackrestore.p0", "llvm.var.annotation"}) reg(n, nop);
    reg("llvm.stacksave", ret0); reg("llvm.stacksave.p0", ret0);
    reg("llvm.invariant.start.p0", ret0);
    reg("llvm.trap", die("llvm.trap")); reg("llvm.ubsantrap", die("llvm.ubsantrap"));
    reg("llvm.is.constant.i64", ret0); reg("llvm.is.constant.i32", ret0); reg("llvm.is.constant.i1", ret0); reg("llvm.is.constant.i8", ret0);
    reg("llvm.lifetime.start.p0", [](Call &c) { uint64_t a = c.u(1); Obj &o = objOf(a); if (o.kind == OK_STACK) { o.inScope = true; o.init.assign(o.size, 0); o.s.clear(); o.wr.clear(); o.rd.clear(); } });
    reg("llvm.lifetime.end.p0", [](Call &c) { uint64_t a = c.u(1); Obj &o = objOf(a); if (o.kind == OK_STACK) o.inScope = false; });
    reg("llvm.eh.typeid.for", [](Call &c) { uint64_t t = c.u(0); uint32_t sel = t == 0 ? 1 : t >= FN_BASE ? (uint32_t)((t - FN_BASE) & 0xffffff) * 4 + 3 : (uint32_t)(t >> OBJ_SHIFT) * 4 + 2; c.r((uint64_t)sel); });
    reg("llvm.eh.typeid.for.p0", bFns[bIndex["llvm.eh.typeid.for"]]);
    reg("llvm.threadlocal.address.p0", [](Call &c) { c.r(tlsAddr(c.u(0))); });
    reg("llvm.launder.invariant.group.p0", retArg0); reg("llvm.strip.invariant.group.p0", retArg0);
    reg("llvm.objectsize.i64.p0", [](Call &c) { c.r(~0ull); });
    reg("__dynamic_cast", [](Call &c) {
        uint64_t p = c.u(0), dst = c.u(2);
        if (!p) { c.r((uint64_t)0); return; }
        uint64_t vp = conc(ldw(p)); uint64_t ti = conc(ldw(vp - 8)); int64_t ott = (int64_t)conc(ldw(vp - 16));
        c.r(tiDerives(ti, dst) ? p + ott : 0);
    });
    for (auto f : {"ldiv", "lldiv", "imaxdiv"})
        reg(f, [](Call &c) { int64_t a = (int64_t)c.u(0), b = (int64_t)c.u(1); if (!b) fail("division-by-zero", "ldiv by zero"); c.ret[0] = cval((uint64_t)(a / b)); c.ret[1] = cval((uint64_t)(a % b)); c.nret = 2; });
    reg("div", [](Call &c) { int32_t a = (int32_t)c.u(0), b = (int32_t)c.u(1); if (!b) fail("division-by-zero", "div by zero"); c.r((uint64_t)(uint32_t)(a / b) | (uint64_t)(uint32_t)(a % b) << 32); });
    // hashing helper of libstdc++
    reg("_ZSt11_Hash_bytesPKvmm", [](Call &c) {
        // every sequence of bytes collides: legal, and equal contents hash equally
        // whether they are symbolic or not
        c.r((uint64_t)42);
    });
    // number formatting (content of messages is never asserted)
    auto ts = [](bool sg, unsigned w) { return [sg, w](Call &c) {
        Val v = c.a[1]; string s = "?";
        if (!v.e) s = sg ? std::to_string(sxt(v.c, w)) : std::to_string(v.c);
        writeStdString(c.u(0), s); }; };
    reg("_ZNSt7__cxx119to_stringEi", ts(true, 32)); reg("_ZNSt7__cxx119to_stringEj", ts(false, 32));
    reg("_ZNSt7__cxx119to_stringEl", ts(true, 64)); reg("_ZNSt7__cxx119to_stringEm", ts(false, 64));
    reg("_ZNSt7__cxx119to_stringEx", ts(true, 64)); reg("_ZNSt7__cxx119to_stringEy", ts(false, 64));
    reg("_ZNSt7__cxx119to_stringEd", [](Call &c) { Val v = c.a[1]; writeStdString(c.u(0), shownNum(v, "%f")); });
    reg("_ZNSt7__cxx119to_stringEf", [](Call &c) { writeStdString(c.u(0), "?"); });

    for (auto f : {"_ZSt8to_charsPcS_d", "_ZSt8to_charsPcS_dSt12chars_format", "_ZSt8to_charsPcS_dSt12chars_formati", "_ZSt8to_charsPcS_f"})
        reg(f, [](Call &c) { // the text is only good for showing which number it was
            uint64_t p = c.u(0), e = c.u(1); Val v = c.a[2];
            if (c.f->name.back() == 'f' && !v.e) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); double d = f; memcpy(&v.c, &d, 8); }
            string s = shownNum(v, "%g");
            if (p + s.size() > e) { c.ret[0] = cval(e); c.ret[1] = cval(75); c.nret = 2; return; }
            for (size_t i = 0; i < s.size(); i++) storeMem(cval(p + i), cval((uint8_t)s[i]), L8);
            c.ret[0] = cval(p + s.size()); c.ret[1] = cval(0); c.nret = 2; });
    // ---------------- harness intrinsics
    reg("sx_thorough", [](Call &c) { c.r((uint64_t)gThorough); });
    reg("sx_f64", [](Call &c) { c.r(symvar(vname(c.u(0)), 64, true)); });
    reg("sx_u64", [](Call &c) { c.r(symvar(vname(c.u(0)), 64, false)); });
    reg("sx_u32", [](Call &c) { c.r(symvar(vname(c.u(0)), 32, false)); });
    reg("sx_bool_", [](Call &c) { c.r(sval(eZext(symvar(vname(c.u(0)), 1, false).e, 32))); });
    reg("sx_choose", [](Call &c) { string n = vname(c.u(0)); uint64_t v = chooseVal(c.u(1), c.u(2), n.find('!') != string::npos); pathChoices.push_back({n, v}); c.r(v); });
    reg("sx_pick", [](Call &c) { c.r(pick(argE(c, 0, L64), 4096)); });
    reg("sx_assume_", [](Call &c) {
        Expr *e = argE(c, 0, L32); Expr *b = eNot(eCmp(E_EQ, e, eConst(32, 0)));
        if (b->k == E_CONST) { if (!b->c) throw PathEnd{END_ASSUME, "assume", ""}; return; }
        pathFlush(false);
        pc.push_back(b); curModel.m.reset();
        // feasibility is checked lazily, but prune obviously dead paths now
        if (replayPos >= replay.size()) { auto r = query(gMode, {}, gTmoBranch, &curModel.m); if (r == z3::unsat) throw PathEnd{END_ASSUME, "assume", ""}; }
    });
    auto addAssert = [](Assertion A) {
        ES.labels[A.label]++;
        asserts.push_back(A);
    };
    reg("sx_assert_", [addAssert](Call &c) { Expr *e = argE(c, 0, L32); addAssert({0, readCStr(c.u(1)), eNot(eCmp(E_EQ, e, eConst(32, 0)))}); });
    reg("sx_assert_num", [addAssert](Call &c) { Expr *x = argE(c, 0, LD), *y = argE(c, 1, LD); addAssert({1, readCStr(c.u(2)), eRawSame(x, y), x, y}); });
    reg("sx_assert_same", [addAssert](Call &c) { Expr *x = argE(c, 0, LD), *y = argE(c, 1, LD); addAssert({2, readCStr(c.u(2)), eRawSame(x, y), x, y}); });
    reg("sx_cover", [](Call &c) { covers.push_back(readCStr(c.u(0))); });
    reg("sx_flush", [](Call &) { pathFlush(false); });
    reg("sx_fail_", [](Call &c) { string l = readCStr(c.u(0)); ES.labels[l]++; asserts.push_back({0, l, eConst(1, 0)}); });
    auto ufcall = [](bool f) { return [f](Call &c) {
        string n = readCStr(c.u(0)); uint64_t p = c.u(1), k = c.u(2);
        vector<Expr *> as;
        for (uint64_t i = 0; i < k; i++) as.push_back(toE(loadMem(cval(p + 8 * i), LD), LD));
        as.push_back(toE(c.a[3], L64));
        Expr *e = eUF(n + "/" + std::to_string(k), f ? 64 : 1, f, as);
        pathUFs.push_back(e);
        c.r(sval(f ? e : eZext(e, 32))); }; };
    reg("sx_pred_", ufcall(false)); reg("sx_fun_", ufcall(true));
    reg("sx_mode", [](Call &c) { uint64_t m = c.u(0); (void)m; });
    reg("sx_freeze", [](Call &c) { uint64_t a = c.u(0); if (a) objOf(a).frozen = c.u(1); });
    reg("sx_is_concrete", [](Call &c) { c.r((uint64_t)(c.a[0].e == nullptr)); });
    reg("sx_print", [](Call &c) { if (gVerbose) fprintf(stderr, "[sx] %s = %s\n", readCStr(c.u(0)).c_str(), c.a[1].e ? show(c.a[1].e).c_str() : std::to_string(asD(c.a[1].c)).c_str()); });
    reg("sx_stream", [](Call &c) { uint32_t id = newObj(1024, OK_EXC, true); c.r(objAddr(id)); });
    auto numsOut = [](Call &c, const string &s, size_t at) { auto v = numbersIn(s); uint64_t p = c.u(at), m = c.u(at + 1); for (size_t i = 0; i < v.size() && i < m; i++) storeMem(cval(p + 8 * i), v[i], LD); c.r((uint64_t)v.size()); };
    reg("sx_printed", [numsOut](Call &c) { numsOut(c, streamLog[c.u(0)], 1); });
    reg("sx_numbers", [numsOut](Call &c) { numsOut(c, readN(c.u(0), c.u(1)), 2); });
    reg("sx_printed_at", [](Call &c) { size_t p = streamLog[c.u(0)].find(readCStr(c.u(1)), c.u(2)); c.r(p == string::npos ? ~0ull : (uint64_t)p); });
    reg("sx_written", [](Call &c) { c.r((uint64_t)streamLog[c.u(0)].size()); });
    reg("sx_printed_clear", [](Call &c) { streamLog[c.u(0)].clear(); });
    reg("sx_shown", [](Call &c) { c.r(c.a[0]); });
    reg("sx_live_heap", [](Call &c) { uint64_t n = 0; for (uint32_t i = P->firstFreeObj; i < nextObj; i++) if (objs[i].alive && objs[i].kind == OK_HEAP) n++; c.r(n); });
    // what a call gives in a fresh process: memory as it was is put back at the end, only what the call made remains
    reg("sx_fresh_begin", [](Call &c) {
        freshDirty = std::set<uint32_t>(dirtyGlobals.begin(), dirtyGlobals.end());
        freshCopy.clear();
        for (uint32_t id : dirtyGlobals) freshCopy.emplace_back(id, objs[id]);
        for (uint32_t i = P->firstFreeObj; i < nextObj; i++) if (objs[i].alive && objs[i].kind == OK_HEAP) freshCopy.emplace_back(i, objs[i]);
        c.r(1);
    });
    reg("sx_fresh_end", [](Call &c) {
        for (auto &k : freshCopy) {
            Obj &o = objs[k.first];
            if (!o.alive || o.size != k.second.size) { if (nextObj > 3000000) throw PathEnd{END_LIMIT, "limit", "too many objects"}; for (auto it = deadObjs.begin(); it != deadObjs.end();) it = *it == k.first ? deadObjs.erase(it) : it + 1; }
            o = k.second;
        }
        std::vector<uint32_t> keep;
        for (uint32_t id : dirtyGlobals) {
            if (freshDirty.count(id)) { keep.push_back(id); continue; }
            Obj &o = objs[id];
            o.b = P->globals[id - 1].bytes; o.s.clear(); o.init.clear(); o.dirty = false; o.wr.clear(); o.rd.clear(); o.frozen = false;
        }
        dirtyGlobals = keep;
        freshCopy.clear();
        c.r(1);
    });
    reg("sx_fresh_get", [](Call &c) { c.r(0); });
    reg("sx_race_on", [](Call &c) { raceOn = c.u(0); if (raceOn) { curTask = 0; tlsOf.clear(); vcs.assign(1, vector<uint32_t>(1, 1)); mutexVC.clear(); } });
    reg("sx_race_pause", [](Call &c) { uint64_t w = raceOn; raceOn = c.u(0); c.r(w); });
    reg("sx_task_spawn", [](Call &c) { // -> new task id; child starts with the parent's clock
        int t = vcs.size(); vector<uint32_t> v = vcs[curTask]; v.resize(t + 1, 0); v[t] = 1; vcs.push_back(v);
        vcs[curTask][curTask]++; c.r((uint64_t)t); });
    reg("sx_task_enter", [](Call &c) { c.r((uint64_t)curTask); curTask = (int)c.u(0); });
    reg("sx_task_leave", [](Call &c) { curTask = (int)c.u(0); });
    reg("sx_task_join", [](Call &c) { int t = (int)c.u(0); auto &v = vcs[curTask]; auto &w = vcs[t]; if (v.size() < w.size()) v.resize(w.size(), 0); for (size_t i = 0; i < w.size(); i++) v[i] = std::max(v[i], w[i]); });
}

static bool startsWith(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static int resolveBuiltin(DFunc *f) {
    auto it = bIndex.find(f->name);
    if (it != bIndex.end()) return it->second;
    string n = f->name;
    auto alias = [&](const char *b) { return bIndex.at(b); };
    if (startsWith(n, "llvm.memcpy.")) return alias("memcpy");
    if (startsWith(n, "llvm.memmove.")) return alias("memmove");
    if (startsWith(n, "llvm.memset.")) return alias("memset");
    if (startsWith(n, "llvm.lifetime.start")) return alias("llvm.lifetime.start.p0");
    if (startsWith(n, "llvm.lifetime.end")) return alias("llvm.lifetime.end.p0");
    if (startsWith(n, "llvm.expect")) return alias("llvm.launder.invariant.group.p0");
    if (startsWith(n, "llvm.is.constant")) return alias("llvm.is.constant.i64");
    auto addB = [&](Builtin b) { bIndex[n] = bFns.size(); bFns.push_back(b); return (int)bFns.size() - 1; };
    auto bits = [&]() { auto p = n.rfind(".i"); return (unsigned)atoi(n.c_str() + p + 2); };
    for (auto k : {"umin", "umax", "smin", "smax"})
        if (startsWith(n, (string("llvm.") + k + ".").c_str())) {
            string kk = k; unsigned w = bits();
            return addB([kk, w](Call &c) { Leaf l{LI, (uint16_t)w, 0}; Expr *a = argE(c, 0, l), *b = argE(c, 1, l);
                Expr *lt = eCmp(kk[0] == 'u' ? E_ULT : E_SLT, a, b); c.r(sval(kk.substr(1) == "min" ? eIte(lt, a, b) : eIte(lt, b, a))); });
        }
    if (startsWith(n, "llvm.abs.")) { unsigned w = bits(); return addB([w](Call &c) { Leaf l{LI, (uint16_t)w, 0}; Expr *a = argE(c, 0, l); c.r(sval(eIte(eCmp(E_SLT, a, eConst(w, 0)), eBin(E_SUB, eConst(w, 0), a), a))); }); }
    for (auto k : {"uadd", "usub", "umul", "sadd", "ssub", "smul"})
        if (startsWith(n, (string("llvm.") + k + ".with.overflow.").c_str())) {
            string kk = k; unsigned w = bits();
            return addB([kk, w](Call &c) {
                if (c.a[0].e || c.a[1].e) unsupp("symbolic overflow intrinsic");
                __int128 a, b; if (kk[0] == 'u') { a = c.a[0].c; b = c.a[1].c; } else { a = sxt(c.a[0].c, w); b = sxt(c.a[1].c, w); }
                __int128 r = kk.substr(1) == "add" ? a + b : kk.substr(1) == "sub" ? a - b : a * b;
                uint64_t t = mask((uint64_t)r, w); __int128 back = kk[0] == 'u' ? (__int128)t : (__int128)sxt(t, w);
                c.ret[0] = cval(t); c.ret[1] = cval(back != r); c.nret = 2; });
        }
    for (auto k : {"ctlz", "cttz", "ctpop"})
        if (startsWith(n, (string("llvm.") + k + ".").c_str())) {
            string kk = k; unsigned w = bits();
            return addB([kk, w](Call &c) { uint64_t v = conc(c.a[0], Leaf{LI, (uint16_t)w, 0}); uint64_t r = kk == "ctpop" ? __builtin_popcountll(v) : kk == "ctlz" ? (v ? __builtin_clzll(v) - (64 - w) : w) : (v ? __builtin_ctzll(v) : w); c.r(r); });
        }
    for (auto k : {"fshl", "fshr"})
        if (startsWith(n, (string("llvm.") + k + ".").c_str())) {
            bool left = k[3] == 'l'; unsigned w = bits();
            return addB([left, w](Call &c) { uint64_t a = conc(c.a[0], Leaf{LI, (uint16_t)w, 0}), b = conc(c.a[1], Leaf{LI, (uint16_t)w, 0}), s = conc(c.a[2], Leaf{LI, (uint16_t)w, 0}) % w;
                uint64_t r = s == 0 ? (left ? a : b) : left ? (a << s) | (b >> (w - s)) : (a << (w - s)) | (b >> s); c.r(mask(r, w)); });
        }
    // string streams: the text is the log of the stream's ostream part
    for (int io = 0; io < 2; io++) {
        const string cls = io ? "St7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE" : "St7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE";
        if (n.find(cls) == string::npos || n.find(cls) > 6) continue;
        const string m = n.substr(n.find(cls) + cls.size());
        const uint64_t off = io ? 16 : 0; // the ostream part
        if (n.find(cls) == 3 && (startsWith(m, "C1") || startsWith(m, "C2"))) {
            const string a = m.substr(2);
            if (a == "Ev" || a == "ESt13_Ios_Openmode" || a == "ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode" || a == "EONS_12basic_stringIcS2_S3_EESt13_Ios_Openmode") {
                const bool text = a.size() > 25;
                return addB([off, text](Call &c) {
                    uint64_t p = c.u(0);
                    if (text && !(c.u(2) & 2) && conc(ldw(c.u(1) + 8))) unsupp("a string stream that begins with a text to overwrite");
                    for (uint64_t i = 0; i < off + 112 + 264; i += 8) stw(p + i, 0);
                    stw(p, streamTable(off + 112));
                    if (off) stw(p + off, streamTable(112));
                    streamLog[p + off] = text ? readN(conc(ldw(c.u(1))), conc(ldw(c.u(1) + 8))) : "";
                });
            }
        }
        if (n.find(cls) == 3 && (m == "D1Ev" || m == "D2Ev")) return addB([off](Call &c) { streamLog.erase(c.u(0) + off); });
        if (n.find(cls) > 3 && m == "3strEv") {
            const bool moves = startsWith(n, "_ZNO");
            return addB([off, moves](Call &c) { string s = streamLog[c.u(1) + off]; if (moves) streamLog[c.u(1) + off].clear(); writeStdString(c.u(0), s); });
        }
        if (n.find(cls) == 3 && startsWith(m, "3strE")) return addB([off](Call &c) { uint64_t s = c.u(1); streamLog[c.u(0) + off] = readN(conc(ldw(s)), conc(ldw(s + 8))); });
        return addB([n](Call &) { unsupp("external function " + n); });
    }
    for (auto p : {"_ZNSoC", "_ZNSiC", "_ZNSt7__cxx1115basic_stringbuf", "_ZNSt7__cxx1119basic_istringstream", "_ZNSt14basic_ofstream", "_ZNSt14basic_ifstream", "_ZNSt13basic_fstream", "_ZNSt13basic_filebuf", "_ZNSt9basic_iosIcSt11char_traitsIcEEC", "_ZNSt9basic_iosIcSt11char_traitsIcEE4init"})
        if (startsWith(n, p)) return addB([n](Call &) { unsupp("external function " + n); });
    // streams: what is written is kept per stream (streamLog); formatting flags are not modelled
    {
        auto ends = [&](const char *e) { size_t k = strlen(e); return n.size() >= k && n.compare(n.size() - k, k, e) == 0; };
        auto put = [](Call &c, const string &s) { uint64_t a = c.u(0); auto &l = streamLog[a]; if (l.size() < 4000000) l += s; c.r(a); };
        auto num = [&](char k) -> int {
            switch (k) {
            case 'd': return addB([put](Call &c) { put(c, shownNum(c.a[1], "%g")); });
            case 'f': return addB([put](Call &c) { Val v = c.a[1]; if (!v.e) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); double d = f; memcpy(&v.c, &d, 8); } put(c, shownNum(v, "%g")); });
            case 's': return addB([put](Call &c) { put(c, std::to_string((int16_t)c.u(1))); });
            case 't': return addB([put](Call &c) { put(c, std::to_string((uint16_t)c.u(1))); });
            case 'i': return addB([put](Call &c) { put(c, std::to_string((int32_t)c.u(1))); });
            case 'j': return addB([put](Call &c) { put(c, std::to_string((uint32_t)c.u(1))); });
            case 'l': case 'x': return addB([put](Call &c) { put(c, std::to_string((int64_t)c.u(1))); });
            case 'm': case 'y': return addB([put](Call &c) { put(c, std::to_string((uint64_t)c.u(1))); });
            case 'b': return addB([put](Call &c) { put(c, std::to_string((int)(c.u(1) & 1))); });
            }
            return -1; };
        if (n.size() == 9 && startsWith(n, "_ZNSolsE")) { int b = num(n[8]); if (b >= 0) return b; }
        if (startsWith(n, "_ZNSo9_M_insertI")) { int b = num(n[16]); if (b >= 0) return b; }
        if (n == "_ZNSolsEPFRSoS_E") return addB([put](Call &c) { auto it = P->byAddr.find(c.u(1)); put(c, it != P->byAddr.end() && startsWith(it->second->name, "_ZSt4endl") ? "\n" : ""); });
        if (startsWith(n, "_ZSt4endl")) return addB([put](Call &c) { put(c, "\n"); });
        if (n == "_ZNSo3putEc") return addB([put](Call &c) { put(c, string(1, (char)c.u(1))); });
        if (n == "_ZNSo5writeEPKcl" || startsWith(n, "_ZSt16__ostream_insert")) return addB([put](Call &c) { put(c, readN(c.u(1), c.u(2))); });
        if (startsWith(n, "_ZStlsISt11char_traitsIcEE") && ends("PKc")) return addB([put](Call &c) { put(c, readCStr(c.u(1))); });
        if (startsWith(n, "_ZStlsISt11char_traitsIcEE") && ends("ES5_c")) return addB([put](Call &c) { put(c, string(1, (char)c.u(1))); });
        if (startsWith(n, "_ZStlsI") && n.find("basic_string_view") != string::npos) return addB([put](Call &c) { put(c, readN(c.u(2), c.u(1))); });
        if (startsWith(n, "_ZStlsI") && n.find("12basic_string") != string::npos) return addB([put](Call &c) { uint64_t s = c.u(1); put(c, readN(conc(ldw(s)), conc(ldw(s + 8)))); });
    }
    if (startsWith(n, "_ZStlsI") && n.find("EOT_") != string::npos) return -1; // insertion into a temporary: calls the others
    for (auto p : {"_ZStlsI", "_ZNSolsE", "_ZSt5flush", "_ZNSo5flush", "_ZNSo9_M_insert", "_ZNSt8ios_base"})
        if (startsWith(n, p)) return addB([](Call &c) { if (!c.a.empty()) c.r(c.a[0]); });
    return -1;
}

// ------------------------------------------------------------------ interpreter
static inline Val getOp(const Frame &f, Opnd o) {
    if (o >= 0) return stk[f.base + o];
    if (o == OPUNDEF) { return cval(0); }
    return P->pool[~o];
}
static void applyMoves(int32_t m) {
    if (m < 0) return;
    Frame &f = frames.back();
    auto &mv = f.f->moves[m];
    if (mv.size() == 1) { stk[f.base + mv[0].dst] = getOp(f, mv[0].src); return; }
    static vector<Val> tmp; tmp.clear();
    for (auto &x : mv) tmp.push_back(getOp(f, x.src));
    for (size_t i = 0; i < mv.size(); i++) stk[f.base + mv[i].dst] = tmp[i];
}
void pushCall(DFunc *f, const vector<Val> &args, int special) {
    decodeFunc(P, f);
    if (frames.size() > 900) fail("stack-overflow", "call depth above 900");
    f->executed++;
    Frame n; n.f = f; n.pc = 0; n.base = stk.size(); n.special = special;
    stk.resize(stk.size() + f->nslots);
    for (size_t i = 0; i < args.size() && i < f->argSlots.size(); i++) stk[n.base + f->argSlots[i]] = args[i];
    frames.push_back(std::move(n));
}
static long double x80(const Val &v) { long double x = 0; memcpy(&x, &v.c, 8); memcpy((char *)&x + 8, &v.hi, 2); return x; }
static Val fromX80(long double x) { Val v; memcpy(&v.c, &x, 8); memcpy(&v.hi, (char *)&x + 8, 2); return v; }
static Val fbin(FBinK k, const Val &x, const Val &y, const Leaf &l) {
    if (l.k == LF64) {
        if (!x.e && !y.e) {
            double a = asD(x.c), b = asD(y.c), r;
            switch (k) { case F_ADD: r = a + b; break; case F_SUB: r = a - b; break; case F_MUL: r = a * b; break; case F_DIV: r = a / b; break; default: r = fmod(a, b); }
            return cval(asU(r));
        }
        Expr *a = toE(x, l), *b = toE(y, l);
        switch (k) {
        case F_ADD: return sval(eF(E_FADD, a, b)); case F_SUB: return sval(eFsub(a, b)); case F_MUL: return sval(eF(E_FMUL, a, b));
        case F_DIV: return sval(eF(E_FDIV, a, b)); default: return sval(eF(E_FREM, a, b));
        }
    }
    if ((x.e || y.e) && l.k == LF32 && k <= F_DIV) { // the double result rounded to float is the float result (2 * 24 + 2 <= 53)
        Expr *a = toE(x, l), *b = toE(y, l), *r = k == F_ADD ? eF(E_FADD, a, b) : k == F_SUB ? eFsub(a, b) : k == F_MUL ? eF(E_FMUL, a, b) : eF(E_FDIV, a, b);
        return fval(eFun(FF_FLT, {r}));
    }
    if (x.e || y.e) unsupp("symbolic long double");
    if (l.k == LX80) {
        long double a = x80(x), b = x80(y), r;
        switch (k) { case F_ADD: r = a + b; break; case F_SUB: r = a - b; break; case F_MUL: r = a * b; break; case F_DIV: r = a / b; break; default: r = fmodl(a, b); }
        return fromX80(r);
    }
    float a = asF(x.c), b = asF(y.c), r;
    switch (k) { case F_ADD: r = a + b; break; case F_SUB: r = a - b; break; case F_MUL: r = a * b; break; case F_DIV: r = a / b; break; default: r = fmodf(a, b); }
    return cval(fromF(r));
}
static Val ibin(BinK k, const Val &x, const Val &y, const Leaf &l, bool nsw) {
    unsigned w = l.bits;
    if (w > 64) {
        if (x.e || y.e) unsupp("symbolic i128");
        unsigned __int128 a = ((unsigned __int128)x.hi << 64) | x.c, b = ((unsigned __int128)y.hi << 64) | y.c, r = 0;
        switch (k) {
        case B_ADD: r = a + b; break; case B_SUB: r = a - b; break; case B_MUL: r = a * b; break; case B_AND: r = a & b; break; case B_OR: r = a | b; break;
        case B_XOR: r = a ^ b; break; case B_SHL: r = a << (int)b; break; case B_LSHR: r = a >> (int)b; break; case B_UDIV: r = a / b; break; case B_UREM: r = a % b; break;
        default: unsupp("i128 op");
        }
        Val v; v.c = (uint64_t)r; v.hi = (uint64_t)(r >> 64); return v;
    }
    if (k == B_UDIV || k == B_SDIV || k == B_UREM || k == B_SREM) {
        if (!y.e) { if (y.c == 0) fail("division-by-zero", "integer division by zero"); }
        else { ES.safetyChecks++; if (branch(eCmp(E_EQ, toE(y, l), eConst(w, 0)))) fail("division-by-zero", "integer division by zero"); }
    }
    if (!x.e && !y.e) {
        uint64_t a = x.c, b = y.c, r = 0; int64_t sa = sxt(a, w), sb = sxt(b, w);
        switch (k) {
        case B_ADD: r = a + b; break; case B_SUB: r = a - b; break; case B_MUL: r = a * b; break;
        case B_UDIV: r = a / b; break; case B_UREM: r = a % b; break;
        case B_SDIV: r = sb == -1 ? -a : (uint64_t)(sa / sb); break; case B_SREM: r = sb == -1 ? 0 : (uint64_t)(sa % sb); break;
        case B_AND: r = a & b; break; case B_OR: r = a | b; break; case B_XOR: r = a ^ b; break;
        case B_SHL: r = b >= w ? 0 : a << b; break; case B_LSHR: r = b >= w ? 0 : a >> b; break; case B_ASHR: r = (uint64_t)(sa >> (b >= w ? w - 1 : b)); break;
        }
        if (nsw && w == 32 && (k == B_ADD || k == B_SUB || k == B_MUL)) {
            int64_t e = k == B_ADD ? sa + sb : k == B_SUB ? sa - sb : sa * sb;
            if (e != sxt(mask(r, w), w)) fail("signed-overflow", "signed integer overflow");
        }
        return cval(mask(r, w));
    }
    static const EK m[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
    return sval(eBin(m[k], toE(x, l), toE(y, l)));
}
static Val icmp(CmpK k, const Val &x, const Val &y, const Leaf &l) {
    if (!x.e && !y.e) {
        uint64_t a = x.c, b = y.c; int64_t sa = sxt(a, l.bits), sb = sxt(b, l.bits); bool r = false;
        if (l.bits > 64) { if (k == C_EQ) return cval(x.c == y.c && x.hi == y.hi); if (k == C_NE) return cval(!(x.c == y.c && x.hi == y.hi));
            unsigned __int128 A = ((unsigned __int128)x.hi << 64) | x.c, B = ((unsigned __int128)y.hi << 64) | y.c;
            switch (k) { case C_UGT: r = A > B; break; case C_UGE: r = A >= B; break; case C_ULT: r = A < B; break; case C_ULE: r = A <= B; break; default: unsupp("i128 cmp"); } return cval(r); }
        switch (k) {
        case C_EQ: r = a == b; break; case C_NE: r = a != b; break; case C_UGT: r = a > b; break; case C_UGE: r = a >= b; break; case C_ULT: r = a < b; break;
        case C_ULE: r = a <= b; break; case C_SGT: r = sa > sb; break; case C_SGE: r = sa >= sb; break; case C_SLT: r = sa < sb; break; case C_SLE: r = sa <= sb; break;
        }
        return cval(r);
    }
    if (l.bits > 64) unsupp("symbolic i128");
    Expr *a = toE(x, l), *b = toE(y, l);
    switch (k) {
    case C_EQ: return sval(eCmp(E_EQ, a, b)); case C_NE: return sval(eNot(eCmp(E_EQ, a, b)));
    case C_UGT: return sval(eCmp(E_ULT, b, a)); case C_UGE: return sval(eCmp(E_ULE, b, a)); case C_ULT: return sval(eCmp(E_ULT, a, b)); case C_ULE: return sval(eCmp(E_ULE, a, b));
    case C_SGT: return sval(eCmp(E_SLT, b, a)); case C_SGE: return sval(eCmp(E_SLE, b, a)); case C_SLT: return sval(eCmp(E_SLT, a, b)); default: return sval(eCmp(E_SLE, a, b));
    }
}
static Val fcmp(FCmpK k, const Val &x, const Val &y, const Leaf &l) {
    if (!x.e && !y.e) {
        long double a, b;
        if (l.k == LF64) { a = asD(x.c); b = asD(y.c); } else if (l.k == LX80) { a = x80(x); b = x80(y); } else { a = asF(x.c); b = asF(y.c); }
        bool u = std::isnan(a) || std::isnan(b), r = false;
        switch (k) {
        case FC_FALSE: r = false; break; case FC_TRUE: r = true; break; case FC_ORD: r = !u; break; case FC_UNO: r = u; break;
        case FC_OEQ: r = !u && a == b; break; case FC_OGT: r = !u && a > b; break; case FC_OGE: r = !u && a >= b; break; case FC_OLT: r = !u && a < b; break; case FC_OLE: r = !u && a <= b; break; case FC_ONE: r = !u && a != b; break;
        case FC_UEQ: r = u || a == b; break; case FC_UGT: r = u || a > b; break; case FC_UGE: r = u || a >= b; break; case FC_ULT: r = u || a < b; break; case FC_ULE: r = u || a <= b; break; case FC_UNE: r = u || a != b; break;
        }
        return cval(r);
    }
    if (l.k == LX80) unsupp("symbolic long double");
    Expr *a = toE(x, l), *b = toE(y, l), *r = nullptr;
    auto uno = [&] { return eFcmp(E_FUNO, a, b); };
    switch (k) {
    case FC_FALSE: r = eConst(1, 0); break; case FC_TRUE: r = eConst(1, 1); break; case FC_ORD: r = eNot(uno()); break; case FC_UNO: r = uno(); break;
    case FC_OEQ: r = eFcmp(E_FOEQ, a, b); break; case FC_OGT: r = eFcmp(E_FOLT, b, a); break; case FC_OGE: r = eFcmp(E_FOLE, b, a); break;
    case FC_OLT: r = eFcmp(E_FOLT, a, b); break; case FC_OLE: r = eFcmp(E_FOLE, a, b); break; case FC_ONE: r = eOr1(eFcmp(E_FOLT, a, b), eFcmp(E_FOLT, b, a)); break;
    case FC_UEQ: r = eNot(eOr1(eFcmp(E_FOLT, a, b), eFcmp(E_FOLT, b, a))); break; case FC_UGT: r = eNot(eFcmp(E_FOLE, a, b)); break; case FC_UGE: r = eNot(eFcmp(E_FOLT, a, b)); break;
    case FC_ULT: r = eNot(eFcmp(E_FOLE, b, a)); break; case FC_ULE: r = eNot(eFcmp(E_FOLT, b, a)); break; case FC_UNE: r = eNot(eFcmp(E_FOEQ, a, b)); break;
    }
    return sval(r);
}
static Val doCast(DInst &d, const Val &x) {
    unsigned dw = d.ty.bits, sw = d.ty2.bits;
    switch (d.sub) {
    case K_COPY: return x;
    case K_BITCAST:
        if (!x.e) return x;
        if (d.ty.k == LF64 && !x.e->f) return sval(eToF(E_BV2F, x.e));
        if (d.ty.k == LF32 && !x.e->f) return fval(eToF(E_BV2FLT, x.e));
        if (d.ty.k == LI && d.ty2.k == LF32) return sval(eFromF(E_FLT2BV, toE(x, d.ty2), 32));
        if (d.ty.k == LI && x.e->f) return sval(eFromF(E_F2BV, x.e, 64));
        return x;
    case K_ZEXT: if (!x.e) return x; if (dw > 64) unsupp("symbolic i128"); return sval(eZext(x.e, dw));
    case K_SEXT:
        if (!x.e) { Val v; if (dw > 64) { v.c = sxt(x.c, sw); v.hi = (int64_t)v.c < 0 ? ~0ull : 0; } else v.c = mask(sxt(x.c, sw), dw); return v; }
        if (dw > 64) unsupp("symbolic i128");
        return sval(eSext(x.e, dw));
    case K_TRUNC: if (!x.e) return cval(mask(x.c, dw)); return sval(eExtract(x.e, 0, dw));
    case K_FPEXT: case K_FPTRUNC: {
        if (x.e) {
            if (d.ty.k == LX80 || d.ty2.k == LX80) unsupp("symbolic long double");
            Expr *e = toE(x, d.ty2);
            return d.ty.k == LF32 ? fval(eFun(FF_FLT, {e})) : sval(e);
        }
        long double v = d.ty2.k == LF32 ? (long double)asF(x.c) : d.ty2.k == LF64 ? (long double)asD(x.c) : x80(x);
        if (d.ty.k == LF32) return cval(fromF((float)v));
        if (d.ty.k == LF64) return cval(asU((double)v));
        return fromX80(v);
    }
    case K_UITOFP: case K_SITOFP: {
        if (x.e && d.ty.k == LF32) return fval(eFun(FF_FLT, {eToF(d.sub == K_UITOFP ? E_UITOFP : E_SITOFP, x.e)}));
        if (x.e) { if (d.ty.k != LF64) unsupp("symbolic int to long double"); return sval(eToF(d.sub == K_UITOFP ? E_UITOFP : E_SITOFP, x.e)); }
        if (d.ty.k == LF64) return cval(asU(d.sub == K_UITOFP ? (double)x.c : (double)sxt(x.c, sw)));
        if (d.ty.k == LX80) return fromX80(d.sub == K_UITOFP ? (long double)x.c : (long double)sxt(x.c, sw));
        return cval(fromF(d.sub == K_UITOFP ? (float)x.c : (float)sxt(x.c, sw)));
    }
    case K_FPTOUI: case K_FPTOSI: {
        bool sg = d.sub == K_FPTOSI;
        double lo = sg ? -ldexp(1.0, dw - 1) : 0, hi = ldexp(1.0, sg ? dw - 1 : dw);
        if (!x.e) {
            long double v = d.ty2.k == LF32 ? (long double)asF(x.c) : d.ty2.k == LF64 ? (long double)asD(x.c) : x80(x);
            if (!(truncl(v) >= lo && truncl(v) < hi)) fail("float-cast-overflow", "floating value outside the range of the integer type");
            return cval(mask(sg ? (uint64_t)(int64_t)v : (uint64_t)v, dw));
        }
        Expr *e = toE(x, d.ty2);
        ES.safetyChecks++;
        Expr *okc = eAnd1(sg && dw >= 64 ? eFcmp(E_FOLE, eConstF(lo), e) : eFcmp(E_FOLT, eConstF(sg ? lo - 1 : -1.0), e), eFcmp(E_FOLT, e, eConstF(hi)));
        if (!branch(okc)) fail("float-cast-overflow", "floating value outside the range of the integer type");
        return sval(eFromF(sg ? E_FPTOSI : E_FPTOUI, e, dw));
    }
    }
    unsupp("cast");
}

static void setRet(Frame &f, DInst &d, const Val *v, size_t n) {
    if (d.dst < 0) return;
    for (size_t i = 0; i < n && i < d.leaves.size(); i++) stk[f.base + d.dst + i] = v[i];
}
static void afterCall(DInst &d) { // continue after a call in the top frame
    Frame &f = frames.back();
    if (d.invoke) { int32_t t = d.t0, m = d.m0; applyMoves(m); f.pc = t; }
    else f.pc++;
}
static vector<Val> retVals;

static void doCall(DInst &d) {
    Frame &f = frames.back();
    DFunc *callee = d.callee;
    if (!callee) {
        uint64_t a = conc(getOp(f, d.fptr));
        auto it = P->byAddr.find(a);
        if (it == P->byAddr.end()) fail("bad-call", "call through an invalid function pointer");
        callee = it->second;
    }
    if (callee->builtin == -2) callee->builtin = resolveBuiltin(callee);
    int b = callee->builtin;
    if (b >= 0) {
        Call c; c.d = &d; c.f = callee;
        for (auto o : d.ops) c.a.push_back(getOp(f, o));
        if (callee->name.compare(0, 5, "llvm.") == 0 && startsWith(callee->name, "llvm.is.constant")) { c.r((uint64_t)(c.a[0].e == nullptr)); }
        else bFns[b](c);
        if (c.threw) return;
        if (c.pushed) { return; } // frame pushed with special flag: result discarded on return
        Frame &g = frames.back();
        setRet(g, d, c.ret, c.nret);
        afterCall(d);
        return;
    }
    if (callee->decl) {
        // unknown std::exception-like destructors etc.
        unsupp("external function " + callee->name);
    }
    vector<Val> args;
    args.reserve(d.ops.size());
    for (auto o : d.ops) args.push_back(getOp(f, o));
    for (size_t i = 0; i < d.byval.size(); i++)
        if (d.byval[i]) {
            uint32_t id = newObj(d.byval[i], OK_STACK, false);
            uint64_t a = objAddr(id);
            copyMem(a, conc(args[d.argStart[i]]), d.byval[i]);
            args[d.argStart[i]] = cval(a);
        }
    pushCall(callee, args, 0);
}

static void runLoop(size_t depth) {
    size_t saveDepth = loopDepth; loopDepth = depth;
    while (frames.size() > depth) {
        Frame &f = frames.back();
        DInst &d = f.f->code[f.pc];
        if (++steps > gMaxSteps) throw PathEnd{END_LIMIT, "non-termination", "instruction limit of one path exceeded in " + whereAmI()};
        if ((steps & 0xffff) == 0 && (stopRequested(), now() > gWall)) throw PathEnd{END_LIMIT, "wall", "time limit"};
        switch (d.op) {
        case O_NOP: f.pc++; break;
        case O_ALLOCA: {
            uint64_t n = conc(getOp(f, d.ops[0]), L32);
            uint32_t id = newObj(d.size * n, OK_STACK, false);
            frames.back().allocas.push_back(id);
            stk[f.base + d.dst] = cval(objAddr(id));
            f.pc++; break;
        }
        case O_LOAD: {
            Val p = getOp(f, d.ops[0]);
            if (d.sub == 1 && raceOn) { AtomicScope as(conc(p)); stk[f.base + d.dst] = loadMem(p, d.leaves[0]); f.pc++; break; }
            if (d.leaves.size() == 1) stk[f.base + d.dst] = loadMem(p, d.leaves[0]);
            else { uint64_t a = conc(p); for (size_t i = 0; i < d.leaves.size(); i++) stk[f.base + d.dst + i] = loadMem(cval(a + d.leaves[i].off), d.leaves[i]); }
            f.pc++; break;
        }
        case O_STORE: {
            Val p = getOp(f, d.ops[0]);
            if (d.sub == 1 && raceOn) { AtomicScope as(conc(p)); storeMem(p, getOp(f, d.ops[1]), d.leaves[0]); f.pc++; break; }
            if (d.leaves.size() == 1) storeMem(p, getOp(f, d.ops[1]), d.leaves[0]);
            else { uint64_t a = conc(p); for (size_t i = 0; i < d.leaves.size(); i++) storeMem(cval(a + d.leaves[i].off), getOp(f, d.ops[1 + i]), d.leaves[i]); }
            f.pc++; break;
        }
        case O_GEP: {
            Val p = getOp(f, d.ops[0]);
            uint64_t add = d.cst; Expr *se = nullptr;
            for (auto &t : d.terms) {
                Val ix = getOp(f, t.idx);
                if (!ix.e) add += (uint64_t)(sxt(ix.c, t.bits) * t.scale);
                else {
                    Expr *e = eBin(E_MUL, eSext(toE(ix, Leaf{LI, t.bits, 0}), 64), eConst(64, (uint64_t)t.scale));
                    se = se ? eBin(E_ADD, se, e) : e;
                }
            }
            Val r;
            if (!p.e && !se) r = cval(p.c + add);
            else { Expr *e = toE(p, L64); if (se) e = eBin(E_ADD, se, e); r = sval(eBin(E_ADD, e, eConst(64, add))); }
            stk[f.base + d.dst] = r;
            f.pc++; break;
        }
        case O_BIN: { Val v = ibin((BinK)d.sub, getOp(f, d.ops[0]), getOp(f, d.ops[1]), d.ty, d.flagA); stk[f.base + d.dst] = v; f.pc++; break; }
        case O_FBIN: stk[f.base + d.dst] = fbin((FBinK)d.sub, getOp(f, d.ops[0]), getOp(f, d.ops[1]), d.ty); f.pc++; break;
        case O_FNEG: {
            Val x = getOp(f, d.ops[0]);
            if (d.ty.k == LF64) { if (x.e) x = sval(eF1(E_FNEG, toE(x, LD))); else x.c ^= 0x8000000000000000ull; }
            else if (d.ty.k == LF32) { if (x.e) x = fval(eF1(E_FNEG, toE(x, d.ty))); else x.c ^= 0x80000000ull; } else x.hi ^= 0x8000;
            stk[f.base + d.dst] = x; f.pc++; break;
        }
        case O_ICMP: stk[f.base + d.dst] = icmp((CmpK)d.sub, getOp(f, d.ops[0]), getOp(f, d.ops[1]), d.ty); f.pc++; break;
        case O_FCMP: stk[f.base + d.dst] = fcmp((FCmpK)d.sub, getOp(f, d.ops[0]), getOp(f, d.ops[1]), d.ty); f.pc++; break;
        case O_CAST: { Val v = doCast(d, getOp(f, d.ops[0])); stk[f.base + d.dst] = v; f.pc++; break; }
        case O_SELECT: {
            Val c = getOp(f, d.ops[0]); size_t n = d.leaves.size();
            if (!c.e) { for (size_t i = 0; i < n; i++) stk[f.base + d.dst + i] = getOp(f, d.ops[1 + (c.c ? 0 : n) + i]); }
            else if (n == 1 && !d.flagA && (d.leaves[0].k == LF64 || d.leaves[0].k == LI) && d.leaves[0].bits <= 64) {
                Val t = getOp(f, d.ops[1]), e = getOp(f, d.ops[2]);
                stk[f.base + d.dst] = sval(eIte(toE(c, L1), toE(t, d.leaves[0]), toE(e, d.leaves[0])));
            } else {
                bool t = branch(toE(c, L1));
                for (size_t i = 0; i < n; i++) stk[f.base + d.dst + i] = getOp(f, d.ops[1 + (t ? 0 : n) + i]);
            }
            f.pc++; break;
        }
        case O_BR: {
            Val c = getOp(f, d.ops[0]);
            bool t = c.e ? branch(toE(c, L1)) : (c.c & 1);
            applyMoves(t ? d.m0 : d.m1);
            f.pc = t ? d.t0 : d.t1;
            break;
        }
        case O_JMP: applyMoves(d.m0); f.pc = d.t0; break;
        case O_SWITCH: {
            Val c = getOp(f, d.ops[0]);
            int hit = -1;
            if (!c.e) { for (size_t i = 0; i < d.caseVals.size(); i++) if (d.caseVals[i] == c.c) { hit = i; break; } }
            else { Expr *e = toE(c, d.ty); for (size_t i = 0; i < d.caseVals.size(); i++) if (branch(eCmp(E_EQ, e, eConst(d.ty.bits, d.caseVals[i])))) { hit = i; break; } }
            if (hit < 0) { applyMoves(d.m0); f.pc = d.t0; }
            else { applyMoves(d.caseTgt[hit].second); f.pc = d.caseTgt[hit].first; }
            break;
        }
        case O_RET: {
            static vector<Val> rv; rv.clear();
            for (auto o : d.ops) rv.push_back(getOp(f, o));
            int special = f.special;
            popFrame();
            if (frames.size() > depth) {
                Frame &g = frames.back();
                DInst &cd = g.f->code[g.pc];
                if (!special) setRet(g, cd, rv.data(), rv.size());
                afterCall(cd);
            } else retVals = rv;
            break;
        }
        case O_UNREACHABLE: fail("unreachable", "execution reached an unreachable point (missing return?)");
        case O_CALL: doCall(d); break;
        case O_LANDINGPAD: stk[f.base + d.dst] = cval(lpExc); stk[f.base + d.dst + 1] = cval(lpSel); f.pc++; break;
        case O_RESUME: { uint64_t x = conc(getOp(f, d.ops[0])); 
            // continue in the caller
            popFrame();
            if (frames.size() <= depth) { ExcInfo &ei = excs[x]; throw PathEnd{END_ERROR, "uncaught-exception", "uncaught exception " + P->addrName[ei.ti]}; }
            unwind(x); break; }
        case O_MOVE: {
            size_t n = d.ops.size();
            if (n == 1) stk[f.base + d.dst] = getOp(f, d.ops[0]);
            else { static vector<Val> t; t.clear(); for (auto o : d.ops) t.push_back(getOp(f, o)); for (size_t i = 0; i < n; i++) stk[f.base + d.dst + i] = t[i]; }
            f.pc++; break;
        }
        case O_ATOMICRMW: {
            Val p = getOp(f, d.ops[0]); AtomicScope as(conc(p));
            Val o = loadMem(p, d.ty), v = getOp(f, d.ops[1]), n;
            switch (d.sub) { case 0: n = ibin(B_ADD, o, v, d.ty, false); break; case 1: n = ibin(B_SUB, o, v, d.ty, false); break; case 2: n = v; break; case 3: n = ibin(B_OR, o, v, d.ty, false); break; default: n = ibin(B_AND, o, v, d.ty, false); }
            storeMem(p, n, d.ty);
            stk[f.base + d.dst] = o; f.pc++; break;
        }
        case O_CMPXCHG: {
            Val p = getOp(f, d.ops[0]); AtomicScope as(conc(p));
            Val o = loadMem(p, d.ty), e = getOp(f, d.ops[1]), n = getOp(f, d.ops[2]);
            Val eq = icmp(C_EQ, o, e, d.ty); bool t = eq.e ? branch(toE(eq, L1)) : eq.c;
            if (t) storeMem(p, n, d.ty);
            stk[f.base + d.dst] = o; stk[f.base + d.dst + 1] = cval(t); f.pc++; break;
        }
        case O_UNSUPPORTED: unsupp("instruction in " + f.f->name + " line " + std::to_string(d.line));
        }
    }
    loopDepth = saveDepth;
}

// ------------------------------------------------------------------ counterexamples
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

static double realToDouble(const z3::expr &v) {
    if (v.is_numeral()) {
        string s = v.get_decimal_string(25);
        if (!s.empty() && s.back() == '?') s.pop_back();
        return strtod(s.c_str(), nullptr);
    }
    if (v.is_algebraic()) { z3::expr a = v.algebraic_lower(30); return realToDouble(a); }
    return 0;
}
static Assign modelAssign(Mode m, z3::model &mod) {
    Assign as;
    for (Expr *v : pathVars) {
        uint64_t bits = 0;
        try {
            if (v->f && m == M_REAL) { z3::expr x = mod.eval(LW[m]->low(v), true); bits = asU(realToDouble(x)); }
            else if (v->f) { z3::expr x = mod.eval(zc->bv_const(v->name.c_str(), 64), true); x.is_numeral_u64(bits); }
            else if (v->w == 1) { z3::expr x = mod.eval(LW[m]->low(v), true); bits = x.is_true(); }
            else { z3::expr x = mod.eval(LW[m]->low(v), true); x.is_numeral_u64(bits); }
        } catch (z3::exception &) {}
        as[v] = bits;
    }
    return as;
}
static int replaySeq = 0;
static string tok(string s) { for (auto &c : s) if (c == ' ') c = '_'; return s; }
static string writeReplay(const Assign &as, UFTable &uf, const string &label) {
    string fn = gOutDir + "/" + gPropId + "_" + gEntry + (gShards > 1 ? "_s" + std::to_string(gShard) : "") + "_" + std::to_string(replaySeq++) + ".replay";
    std::ofstream o(fn);
    o << "# property " << gPropId << " entry " << gEntry << " label " << label << "\n";
    o << "entry " << gEntry << "\ntier " << (gThorough ? 1 : 0) << "\n";
    for (auto &c : pathChoices) o << "c " << tok(c.first) << " " << c.second << "\n";
    for (auto *v : pathVars) { auto it = as.find(v); uint64_t b = it == as.end() ? 0 : it->second; char buf[64]; snprintf(buf, 64, "%016llx", (unsigned long long)b); o << "v " << tok(v->name) << " " << buf; if (v->f) { snprintf(buf, 64, " # %.17g", asD(b)); o << buf; } o << "\n"; }
    for (auto &t : uf.t) { o << "u " << tok(t.first.first) << " " << t.first.second.size(); char buf[32]; for (auto a : t.first.second) { snprintf(buf, 32, " %016llx", (unsigned long long)a); o << buf; } snprintf(buf, 32, " %016llx", (unsigned long long)t.second); o << buf << "\n"; }
    return fn;
}
static string lastOut;
static int runReplay(const string &file) { // 1 reproduced, 0 not, 2 = assumption not met / other
    lastOut.clear();
    if (gReplayCmd.empty()) return 1;
    string cmd = gReplayCmd + " " + file + " 2>&1";
    FILE *p = popen(cmd.c_str(), "r");
    if (!p) return 2;
    char buf[4096]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, p)) > 0) if (lastOut.size() < 20000) lastOut.append(buf, n);
    int st = pclose(p);
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 3) { fprintf(stderr, "replay of %s is broken: %s\n", file.c_str(), lastOut.c_str()); _exit(4); }
        return c == 0 ? 0 : c == 1 ? 1 : 2;
    }
    return 2;
}
static double relDiff(double a, double b) {
    if (std::isnan(a) && std::isnan(b)) return 0;
    if (std::isnan(a) || std::isnan(b)) return 1e300;
    if (a == b) return 0;
    if (std::isinf(a) || std::isinf(b)) return 1e300;
    return fabs(a - b) / std::max(1.0, std::max(fabs(a), fabs(b)));
}
// does the assignment satisfy PC and violate the assertion, evaluated with real IEEE arithmetic?
static bool concreteViolates(const Assign &as, UFTable &uf, const Assertion *A, std::function<bool(Expr *, uint64_t &)> hint) {
    Evaluator ev; ev.as = &as; ev.uf = &uf; ev.ufHint = hint;
    for (auto *c : pc) if (!ev.eval(c)) return false;
    for (auto *u : pathUFs) ev.eval(u);
    if (!A) return true;
    if (A->kind == 1) return relDiff(asD(ev.eval(A->a)), asD(ev.eval(A->b))) > 1e-6;
    return !ev.eval(A->cond);
}
static bool tryCandidate(const Assign &as, UFTable &uf, const string &label, const string &detail) {
    ES.candidates++;
    string fn = writeReplay(as, uf, label);
    int r = runReplay(fn);
    if (gVerbose) fprintf(stderr, "candidate %s -> %d\n%s\n", fn.c_str(), r, lastOut.substr(0, 1500).c_str());
    if (r == 1) {
        string sig = gEntry + ":" + label;
        std::ofstream o(fn, std::ios::app);
        o << "# reproduced natively:\n";
        std::istringstream is(lastOut); string l; int k = 0;
        while (std::getline(is, l) && k++ < 25) o << "# | " << l << "\n";
        viols.push_back({sig, label, detail, fn});
        if (!gStop.empty()) { std::ofstream(gStop).put('x'); gWall = std::min(gWall, now() + 10); }
        seenSigs.insert(sig);
        return true;
    }
    ES.notReproduced++;
    unlink(fn.c_str());
    return false;
}
static std::mt19937_64 rng;
static bool guidedSearch(const Assertion *A, const string &label, const string &detail, int tries) {
    // witness search after the solver reported the abstraction satisfiable
    for (int t = 0; t < tries; t++) {
        Assign as; UFTable uf;
        std::map<uint64_t, uint64_t> cache;
        for (auto *v : pathVars) {
            if (v->f) {
                double d;
                int m = t % 5;
                if (m == 0) d = (double)((int)(rng() % 19) - 9);
                else if (m == 1) d = (double)((int)(rng() % 5) - 2);
                else if (m == 2) d = ((int)(rng() % 4001) - 2000) / 64.0;
                else if (m == 3) d = (rng() % 3) ? (double)((int)(rng() % 7) + 1) : 0.0;
                else d = (double)((int)(rng() % 100000)) / 1000.0;
                as[v] = asU(d);
            } else as[v] = mask(t % 2 ? rng() % 8 : rng(), v->w);
        }
        auto hint = [&](Expr *e, uint64_t &h) { h = e->f ? asU((double)((int)(rng() % 41) - 20)) : rng() & 1; return true; };
        if (concreteViolates(as, uf, A, hint)) { if (tryCandidate(as, uf, label, detail)) return true; if (ES.notReproduced > 200) return false; }
    }
    return false;
}
static UFTable ufFromModel(Mode m, z3::model &mod, const Assign &as) {
    UFTable uf;
    Evaluator ev; ev.as = &as; ev.uf = &uf;
    ev.ufHint = [&](Expr *e, uint64_t &h) {
        try {
            z3::expr x = mod.eval(LW[m]->low(e), true);
            if (e->f) { if (m == M_REAL) h = asU(realToDouble(x)); else if (m == M_UF) x.is_numeral_u64(h); else { z3::expr b(*zc, Z3_mk_fpa_to_ieee_bv(*zc, x)); z3::expr y = mod.eval(b, true); y.is_numeral_u64(h); } }
            else h = x.is_true() ? 1 : 0;
        } catch (z3::exception &) {}
        return true;
    };
    for (auto *u : pathUFs) ev.eval(u);
    return uf;
}
static bool saneReal(const Assign &as) {
    for (auto &p : as) if (p.first->f) { double d = asD(p.second); if (!std::isfinite(d) || fabs(d) > 1e4 || (d != 0 && fabs(d) < 1e-4)) return false; }
    return true;
}
static vector<z3::expr> boundsReal(double lim) {
    vector<z3::expr> r;
    for (auto *v : pathVars) if (v->f) { z3::expr x = LW[M_REAL]->low(v); r.push_back(x <= zc->real_val((int)lim)); r.push_back(x >= zc->real_val(-(int)lim)); }
    return r;
}
static void note(const string &label, const string &n) { ES.oblOpen++; if (ES.open.size() < 40) ES.open[label] = n; }

static void escalate(const Assertion &A) {
    string sig = gEntry + ":" + A.label;
    if (seenSigs.count(sig)) { ES.oblFail++; return; }
    if (failedTries[sig] > 12) { note(A.label, "further instances not escalated"); return; }
    Expr *neg = eNot(A.cond);
    string detail = A.a ? "got " + show(A.a, 4) + " expected " + show(A.b, 4) : show(A.cond, 5);
    if (detail.size() > 400) detail = detail.substr(0, 400);
    if (gVerbose) fprintf(stderr, "[escalate] %s %s\n", sig.c_str(), detail.c_str());
    auto tryModel = [&](Mode m, z3::model &mod, bool needSane) {
        Assign as = modelAssign(m, mod);
        if (needSane && !saneReal(as)) return false;
        UFTable uf = ufFromModel(m, mod, as);
        UFTable uf2 = uf;
        if (!concreteViolates(as, uf2, &A, nullptr)) return false;
        return tryCandidate(as, uf2, A.label, detail);
    };
    if (A.cond->k == E_CONST && A.cond->c == 0) { // fails on every input of this path
        if (guidedSearch(nullptr, A.label, detail, 40)) { ES.oblFail++; return; }
    }
    if (A.kind == 1 || gMode == M_REAL) {
        std::unique_ptr<z3::model> mod;
        LW[M_REAL]->failed = false;
        auto r = query(M_REAL, {neg}, gTmoReal, &mod);
        if (r == z3::unsat) {
            auto v = realPcSat(5000);
            if (v == z3::unsat) { ES.oblVacReal++; } else ES.oblReal++;
            if (v != z3::unsat) return;
        }
        if (r == z3::sat) {
            if (tryModel(M_REAL, *mod, true)) { ES.oblFail++; return; }
            auto b = boundsReal(9);
            auto r2 = query(M_REAL, {neg}, gTmoReal / 2, &mod, &b);
            if (r2 == z3::sat && tryModel(M_REAL, *mod, true)) { ES.oblFail++; return; }
        }
        if (r != z3::unsat && A.kind == 1) { // equal up to the tolerance (rounded constants)
            z3::expr x = LW[M_REAL]->low(A.a), y = LW[M_REAL]->low(A.b), t = zc->real_val("1/1000000");
            z3::expr d = x - y;
            auto far = [&](const z3::expr &m) { return d > t * m || -d > t * m; };
            auto abs2 = [&](const z3::expr &v) { return (far(v) || v <= 0) && (far(-v) || v >= 0); };
            vector<z3::expr> raw{far(zc->real_val(1)), abs2(x), abs2(y)};
            LW[M_REAL]->failed = false;
            auto q = query(M_REAL, {}, gTmoReal, nullptr, &raw, true, &A);
            if (q == z3::unsat && realPcSat(5000) != z3::unsat) { ES.oblReal++; ES.oblTol++; return; }
        }
        if (guidedSearch(&A, A.label, detail, 400)) { ES.oblFail++; return; }
        if (r == z3::unsat) return; // infeasible over the reals (only NaN/Inf inputs reach it)
        failedTries[sig]++;
        note(A.label, r == z3::sat ? "real-arithmetic model did not reproduce natively" : "real-arithmetic query undecided");
        return;
    }
    {
        std::unique_ptr<z3::model> mod;
        auto r = query(M_UF, {neg}, gTmoAssert, &mod);
        if (r == z3::unsat) { ES.oblUF++; return; }
        if (r == z3::sat && tryModel(M_UF, *mod, false)) { ES.oblFail++; return; }
    }
    if (guidedSearch(&A, A.label, detail, 400)) { ES.oblFail++; return; }
    std::unique_ptr<z3::model> mod;
    auto r = query(M_EXACT, {neg}, gTmoExact, &mod);
    if (r == z3::unsat) { ES.oblExact++; return; }
    if (r == z3::sat && tryModel(M_EXACT, *mod, false)) { ES.oblFail++; return; }
    failedTries[sig]++;
    note(A.label, r == z3::sat ? "exact model did not reproduce natively" : "exact floating-point query undecided");
}

static bool witnessed(const string &l) { auto it = ES.coverLabels.find(l); return it != ES.coverLabels.end() && it->second > 0; }
static void pathFlush(bool final) {
    vector<Assertion> as; as.swap(asserts);
    if (!as.empty()) {
        vector<Assertion> todo;
        for (auto &A : as) {
            if (A.cond->k == E_CONST && (A.cond->c == 1 || (A.kind == 1 && A.a->k == E_CONST && A.b->k == E_CONST && relDiff(asD(A.a->c), asD(A.b->c)) <= 1e-9))) ES.oblConst++;
            else todo.push_back(A);
        }
        if (!todo.empty()) {
            bool anyFalse = false;
            for (auto &A : todo) if (A.cond->k == E_CONST) anyFalse = true;
            z3::check_result r = z3::unknown;
            if (!anyFalse) {
                Expr *all = nullptr;
                for (auto &A : todo) all = all ? eBin(E_AND, all, A.cond) : A.cond;
                r = query(gMode, {eNot(all)}, gTmoAssert, nullptr);
            }
            if (r == z3::unsat) { (gMode == M_UF ? ES.oblUF : gMode == M_REAL ? ES.oblReal : ES.oblExact) += todo.size(); }
            if (r != z3::unsat && gMode == M_UF && todo.size() > 2) { // numeric obligations: all at once over the reals
                vector<Assertion> nums, rest;
                for (auto &A : todo) {
                    bool plain = A.kind == 1 && A.cond->k != E_CONST;
                    if (plain) { LW[M_REAL]->low(A.a); LW[M_REAL]->low(A.b); for (auto *e : {A.a, A.b}) for (uint32_t id : depsOf(e).nodes) plain = plain && !LW[M_REAL]->side.count(id); }
                    (plain ? nums : rest).push_back(A);
                }
                if (nums.size() > 2) {
                    Expr *all = nullptr;
                    for (auto &A : nums) all = all ? eBin(E_AND, all, A.cond) : A.cond;
                    LW[M_REAL]->failed = false;
                    if (query(M_REAL, {eNot(all)}, 1500, nullptr) == z3::unsat && !LW[M_REAL]->failed && realPcSat(1500) == z3::sat) {
                        ES.oblReal += nums.size();
                        todo.swap(rest);
                    }
                }
            }
            if (r != z3::unsat) for (auto &A : todo) {
                if (now() > gWall) { note(A.label, "time limit"); continue; }
                if (A.cond->k != E_CONST && todo.size() > 1) {
                    auto ri = query(gMode, {eNot(A.cond)}, gTmoAssert, nullptr);
                    if (ri == z3::unsat) { (gMode == M_UF ? ES.oblUF : gMode == M_REAL ? ES.oblReal : ES.oblExact)++; continue; }
                }
                escalate(A);
            }
        }
    }
    if (final) {
        bool need = ES.witnessPaths == 0;
        for (auto &c : covers) { if (!ES.coverLabels.count(c)) ES.coverLabels[c] = 0; if (!witnessed(c)) need = true; }
        if (need) {
            std::unique_ptr<z3::model> m;
            auto r = query(gMode, {}, gTmoAssert, &m);
            if (r == z3::sat) {
                ES.witnessPaths++;
                for (auto &c : covers) ES.coverLabels[c]++;
                Assign a = modelAssign(gMode, *m);
                string s;
                for (auto &c : pathChoices) s += c.first + "=" + std::to_string(c.second) + " ";
                int k = 0;
                for (auto *v : pathVars) if (k++ < 12) { char b[64]; if (v->f) snprintf(b, 64, "%.6g", asD(a[v])); else snprintf(b, 64, "%llu", (unsigned long long)a[v]); s += v->name + "=" + b + " "; }
                if (ES.samples.size() < 6) ES.samples.push_back(s);
            }
        } else { ES.witnessPaths++; for (auto &c : covers) ES.coverLabels[c]++; }
    }
}

static void pathError(const PathEnd &e) {
    string label = e.kind;
    string full = e.kind + ": " + e.msg;
    string sig = gEntry + ":" + label;
    if (gVerbose) fprintf(stderr, "[error] %s\n", full.c_str());
    if (seenSigs.count(sig)) return;
    if (failedTries[sig] > 12) { if (ES.open.size() < 40) ES.open[label] = full; ES.oblOpen++; return; }
    // feasible?
    std::unique_ptr<z3::model> m;
    auto r = query(gMode, {}, gTmoAssert, &m);
    if (r == z3::unsat) return;
    if (r == z3::sat) {
        Assign as = modelAssign(gMode, *m);
        UFTable uf = ufFromModel(gMode, *m, as);
        if (tryCandidate(as, uf, label, full)) return;
    }
    if (guidedSearch(nullptr, label, full, 300)) return;
    std::unique_ptr<z3::model> m2;
    if (gMode != M_EXACT) {
        auto r2 = query(M_EXACT, {}, gTmoExact, &m2);
        if (r2 == z3::unsat) return;
        if (r2 == z3::sat) {
            Assign as = modelAssign(M_EXACT, *m2);
            UFTable uf = ufFromModel(M_EXACT, *m2, as);
            if (tryCandidate(as, uf, label, full)) return;
        }
    }
    failedTries[sig]++;
    note(label, full + " (did not reproduce natively)");
}

// ------------------------------------------------------------------ driver
static void resetPath() {
    for (uint32_t id : dirtyGlobals) {
        Obj &o = objs[id];
        o.b = P->globals[id - 1].bytes; o.s.clear(); o.init.clear(); o.dirty = false; o.wr.clear(); o.rd.clear(); o.frozen = false;
    }
    dirtyGlobals.clear();
    for (uint32_t i = P->firstFreeObj; i < nextObj; i++) { Obj &o = objs[i]; o.alive = false; o.b.clear(); o.s.clear(); o.init.clear(); o.wr.clear(); o.rd.clear(); if (o.b.capacity() > 65536) { o.b.shrink_to_fit(); o.s.shrink_to_fit(); } }
    nextObj = P->firstFreeObj;
    deadObjs.clear();
    gErrno = 0;
    stk.clear(); frames.clear(); trace.clear(); pc.clear(); asserts.clear(); covers.clear(); streamLog.clear(); shownVals.clear(); varCount.clear(); pathVars.clear(); pathChoices.clear(); pathUFs.clear();
    steps = 0; chooseCount = 0; chooseHash = 0; excs.clear(); caught.clear(); uncaughtN = 0; raceOn = false; curTask = 0; tlsOf.clear(); vcs.assign(1, vector<uint32_t>(1, 1)); mutexVC.clear();
    curModel.m.reset(); loopDepth = 0; freshUninit = 0;
}
static void initGlobals() {
    nextObj = P->firstFreeObj;
    objs.resize(nextObj + 4096);
    for (auto &g : P->globals) {
        Obj &o = objs[g.objid];
        o.size = g.size; o.kind = OK_GLOBAL; o.alive = true; o.tlsGuard = g.tlsGuard; o.ro = g.constant && !g.external; 
        if (g.external && startsWith(g.name, "_ZTVSt")) { // virtual table of a standard exception: [top, typeinfo, ~D1, ~D0, what]
            uint64_t w[5] = {0, 0, 0, 0, 0};
            auto fa = [&](const char *n) -> uint64_t {
                auto it = P->byName.find(n);
                if (it != P->byName.end()) return it->second->addr;
                auto *D = new DFunc(); D->name = n; D->addr = FN_BASE + 0x40000000ull + P->funcs.size() * 16; P->funcs.push_back(D); P->byName[n] = D; P->byAddr[D->addr] = D; P->addrName[D->addr] = n; Leaf l; l.k = LI; l.bits = 64; D->argLeaves.push_back(l); D->argStart.push_back(0);
                return D->addr;
            };
            w[1] = tiAddr("_ZTI" + g.name.substr(4));
            w[2] = w[3] = fa("_ZNSt9exceptionD1Ev");
            w[4] = fa("_ZNKSt9exception4whatEv");
            memcpy(g.bytes.data(), w, sizeof w);
        }
        if (g.name == "__libc_single_threaded") g.bytes[0] = 1;
        o.b = g.bytes;
    }
    // the standard streams: a table that only says where their (virtual) base begins
    for (auto &g : P->globals)
        if (g.external && (g.name == "_ZSt4cout" || g.name == "_ZSt4cerr" || g.name == "_ZSt4clog")) {
            uint64_t a = objAddr(g.objid) + 512 + 24, w = 8;
            memcpy(objs[g.objid].b.data(), &a, 8);
            memcpy(objs[g.objid].b.data() + 512, &w, 8);
        }
    // a vtable for std exceptions must exist even when the module references none
}

static void runEntry(DFunc *entry) {
    work.clear(); work.push_back({});
    while (!work.empty()) {
        stopRequested();
        if (now() > gWall) { ES.incomplete["time limit with " + std::to_string(work.size()) + "+ unexplored branches"]++; break; }
        if (ES.paths >= gMaxPaths) { ES.incomplete["path limit"]++; break; }
        if (viols.size() >= 6) { ES.incomplete["stopped after 6 violations"]++; break; }
        replay = std::move(work.back()); work.pop_back();
        replayPos = 0;
        resetPath();
        EndKind k = END_DONE; PathEnd pe{END_DONE, "", ""};
        try {
            inInit = true;
            for (auto &c : P->ctors) { DFunc *f = P->byAddr[c.second]; if (f->decl) continue; pushCall(f, {}, 0); runLoop(0); }
            inInit = false;
            pushCall(entry, {}, 0);
            runLoop(0);
        } catch (PathEnd &e) { k = e.k; pe = e; inInit = false; }
        catch (z3::exception &e) { k = END_UNSUPP; pe = {END_UNSUPP, "z3", string("z3: ") + e.msg()}; inInit = false; }
        ES.steps += steps;
        if (k == END_SHARD) continue;
        ES.paths++;
        try {
            switch (k) {
            case END_DONE: ES.pathsDone++; pathFlush(true); break;
            case END_ASSUME: ES.pathsAssume++; pathFlush(false); break;
            case END_INFEASIBLE: break;
            case END_ERROR: ES.pathsErr++; pathFlush(false); pathError(pe); break;
            case END_LIMIT: ES.pathsLimit++; pathFlush(false);
                if (pe.kind == "non-termination") { size_t nv = viols.size(); pathError(pe); if (viols.size() == nv) ES.incomplete[pe.msg]++; }
                else ES.incomplete[pe.msg]++;
                break;
            case END_UNSUPP: ES.pathsUnsupp++; ES.incomplete[pe.msg]++; pathFlush(false); break;
            default: break;
            }
        } catch (z3::exception &e) { ES.incomplete[string("z3: ") + e.msg()]++; }
          catch (PathEnd &e) { ES.incomplete[e.msg]++; }
        if (gVerbose && (ES.paths % 200 == 0)) fprintf(stderr, "[%0.1fs] paths %llu queued %zu queries %llu\n", now(), (unsigned long long)ES.paths, work.size(), (unsigned long long)QS.queries[gMode]);
    }
}

static void dumpMap(std::ostream &o, const std::map<string, uint64_t> &m) { o << "{"; bool f = true; for (auto &p : m) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":" << p.second; } o << "}"; }

int main(int argc, char **argv) {
    string bc, out;
    vector<string> pos;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&] { return string(argv[++i]); };
        if (a == "--bc") bc = nx(); else if (a == "--entry") gEntry = nx(); else if (a == "--out") out = nx();
        else if (a == "--replay-cmd") gReplayCmd = nx(); else if (a == "--replay-dir") gOutDir = nx(); else if (a == "--prop") gPropId = nx();
        else if (a == "--max-steps") gMaxSteps = std::stoull(nx()); else if (a == "--max-paths") gMaxPaths = std::stoull(nx()); else if (a == "--wall") gWall = std::stod(nx()); else if (a == "--stop-file") gStop = nx();
        else if (a == "--shard") { gShard = std::stoi(nx()); gShards = std::stoi(nx()); } else if (a == "--seed") gSeed = std::stoul(nx());
        else if (a == "--mode") { string m = nx(); gMode = m == "real" ? M_REAL : m == "exact" ? M_EXACT : M_UF; }
        else if (a == "--thorough") gThorough = true; else if (a == "--keep-trig") gKeepTrig = true; else if (a == "-v") gVerbose = true;
        else if (a == "--tmo-real") gTmoReal = std::stoul(nx()); else if (a == "--tmo-exact") gTmoExact = std::stoul(nx()); else if (a == "--tmo-branch") gTmoBranch = std::stoul(nx()); else if (a == "--tmo-assert") gTmoAssert = std::stoul(nx());
    }
    T0 = Clk::now();
    if (gOutDir.empty()) gOutDir = "/tmp";
    string err;
    P = loadProgram(bc, err);
    if (!P) { fprintf(stderr, "load failed: %s\n", err.c_str()); return 3; }
    rng.seed(gSeed);
    initSolver();
    regBuiltins();
    initGlobals();
    auto it = P->byName.find("sxe_" + gEntry);
    if (it == P->byName.end() || it->second->decl) { fprintf(stderr, "no entry %s\n", gEntry.c_str()); return 3; }
    // real-number exploration uses longer branch queries
    if (gMode == M_REAL && gTmoBranch == 3000) gTmoBranch = 5000;
    runEntry(it->second);
    std::ofstream of; if (!out.empty()) of.open(out);
    std::ostream &o = out.empty() ? (std::ostream &)*new std::ostringstream() : of;
    o << "{\"entry\":\"" << gEntry << "\",\"shard\":" << gShard << ",\"mode\":\"" << modeName[gMode] << "\",\"wall\":" << now() << ",\"paths\":" << ES.paths << ",\"paths_completed\":" << ES.pathsDone << ",\"paths_assumed_away\":" << ES.pathsAssume
      << ",\"paths_error\":" << ES.pathsErr << ",\"paths_unfinished\":" << ES.pathsLimit + ES.pathsUnsupp << ",\"instructions\":" << ES.steps << ",\"branch_decisions\":" << ES.decisions << ",\"forks\":" << ES.forks
      << ",\"obl_const\":" << ES.oblConst << ",\"obl_uf\":" << ES.oblUF << ",\"obl_real\":" << ES.oblReal << ",\"obl_exact\":" << ES.oblExact << ",\"obl_failed\":" << ES.oblFail << ",\"obl_open\":" << ES.oblOpen << ",\"obl_real_infeasible\":" << ES.oblVacReal << ",\"obl_real_tolerance\":" << ES.oblTol
      << ",\"safety_checks\":" << ES.safetyChecks << ",\"queries_uf\":" << QS.queries[0] << ",\"queries_exact\":" << QS.queries[1] << ",\"queries_real\":" << QS.queries[2] << ",\"sat\":" << QS.sat << ",\"unsat\":" << QS.unsat << ",\"unknown\":" << QS.unknown
      << ",\"solver_s\":" << QS.solverTime << ",\"max_query_s\":" << QS.maxQuery << ",\"witness_paths\":" << ES.witnessPaths << ",\"candidates\":" << ES.candidates << ",\"not_reproduced\":" << ES.notReproduced << ",\"labels\":";
    dumpMap(o, ES.labels); o << ",\"covers\":"; dumpMap(o, ES.coverLabels); o << ",\"incomplete\":"; dumpMap(o, ES.incomplete);
    o << ",\"open\":{"; { bool f = true; for (auto &p : ES.open) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":\"" << jesc(p.second) << "\""; } } o << "}";
    o << ",\"samples\":["; for (size_t i = 0; i < ES.samples.size(); i++) o << (i ? "," : "") << "\"" << jesc(ES.samples[i]) << "\""; o << "]";
    o << ",\"violations\":["; for (size_t i = 0; i < viols.size(); i++) o << (i ? "," : "") << "{\"sig\":\"" << jesc(viols[i].sig) << "\",\"label\":\"" << jesc(viols[i].label) << "\",\"detail\":\"" << jesc(viols[i].detail) << "\",\"replay\":\"" << jesc(viols[i].file) << "\"}"; o << "]";
    std::set<string> fns;
    for (auto *f : P->funcs) if (f->executed && (f->file.find("/repo/") != string::npos)) {
        int st; char *q = abi::__cxa_demangle(f->name.c_str(), nullptr, nullptr, &st); string n = q ? q : f->name; free(q);
        // strip template arguments and parameters for readability
        string r; int dep = 0; for (char ch : n) { if (ch == '<') dep++; else if (ch == '>') dep--; else if (dep == 0) { if (ch == '(') break; r += ch; } }
        auto sp = r.rfind(' '); if (sp != string::npos) r = r.substr(sp + 1);
        string fl = f->file; auto x = fl.find("/repo/"); fl = fl.substr(x + 6);
        fns.insert(fl + ":" + r);
    }
    o << ",\"functions\":["; { bool f = true; for (auto &s : fns) { if (!f) o << ","; f = false; o << "\"" << jesc(s) << "\""; } } o << "]}\n";
    if (out.empty()) std::fputs(((std::ostringstream &)o).str().c_str(), stdout);
    if (gVerbose) fprintf(stderr, "exprs %u\n", exprCount());
    fflush(stdout);
    o.flush(); if (of.is_open()) of.close();
    _exit(0);
}
