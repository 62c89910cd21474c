#include "expr.h"
#include <cmath>
#include <cstring>
#include <deque>
#include <unordered_set>

bool gKeepTrig = false;
const char *ffName[] = {"sin","cos","tan","asin","acos","atan","exp","log","floor","ceil","round","trunc","rint","flt",
    "log10","log2","exp2","cbrt","sinh","cosh","tanh","expm1","log1p","pow","atan2","fmod","hypot","fmin","fmax","fma"};
const char *modeName[] = {"uf", "exact", "real"};

static std::vector<Expr *> pool;
struct EHash {
    size_t operator()(const Expr *e) const {
        size_t h = e->k * 1315423911u + e->sub * 31 + e->w * 7 + e->f;
        h ^= e->c * 0x9E3779B97F4A7C15ull + (h << 6);
        for (auto *x : e->a) h = h * 1000003u ^ x->id;
        if (!e->name.empty()) h ^= std::hash<std::string>()(e->name);
        return h;
    }
};
struct EEq {
    bool operator()(const Expr *x, const Expr *y) const {
        return x->k == y->k && x->sub == y->sub && x->f == y->f && x->w == y->w && x->c == y->c && x->a == y->a && x->name == y->name;
    }
};
static std::unordered_set<Expr *, EHash, EEq> table;
uint32_t exprCount() { return pool.size(); }
Expr *exprById(uint32_t id) { return pool[id]; }

static Expr *mk(EK k, unsigned w, bool f, std::vector<Expr *> a, uint64_t c = 0, uint8_t sub = 0, const std::string &n = "") {
    static Expr *tmp = nullptr;
    if (!tmp) tmp = new Expr();
    tmp->k = k; tmp->w = w; tmp->f = f; tmp->a = std::move(a); tmp->c = c; tmp->sub = sub; tmp->name = n;
    auto it = table.find(tmp);
    if (it != table.end()) return *it;
    tmp->id = pool.size();
    pool.push_back(tmp);
    table.insert(tmp);
    Expr *r = tmp;
    tmp = nullptr;
    return r;
}
static inline uint64_t mask(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t asU(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

Expr *eConst(unsigned w, uint64_t c) { return mk(E_CONST, w, false, {}, mask(c, w)); }
Expr *eConstF(double d) { return mk(E_CONST, 64, true, {}, asU(d)); }
Expr *eVar(const std::string &n, unsigned w, bool f) { return mk(E_VAR, w, f, {}, 0, 0, n); }
Expr *eUF(const std::string &n, unsigned w, bool f, const std::vector<Expr *> &args) { return mk(E_UF, w, f, args, 0, 0, n); }
Expr *eIsTrue() { static Expr *t = eConst(1, 1); return t; }
static Expr *eFalse() { static Expr *t = eConst(1, 0); return t; }

double ffEval(FF f, const double *a) {
    switch (f) {
    case FF_SIN: return sin(a[0]); case FF_COS: return cos(a[0]); case FF_TAN: return tan(a[0]);
    case FF_ASIN: return asin(a[0]); case FF_ACOS: return acos(a[0]); case FF_ATAN: return atan(a[0]);
    case FF_EXP: return exp(a[0]); case FF_LOG: return log(a[0]); case FF_FLOOR: return floor(a[0]);
    case FF_CEIL: return ceil(a[0]); case FF_ROUND: return round(a[0]); case FF_TRUNC: return trunc(a[0]);
    case FF_RINT: return rint(a[0]); case FF_FLT: return (float)a[0]; case FF_LOG10: return log10(a[0]); case FF_LOG2: return log2(a[0]);
    case FF_EXP2: return exp2(a[0]); case FF_CBRT: return cbrt(a[0]); case FF_SINH: return sinh(a[0]);
    case FF_COSH: return cosh(a[0]); case FF_TANH: return tanh(a[0]); case FF_EXPM1: return expm1(a[0]);
    case FF_LOG1P: return log1p(a[0]); case FF_POW: return pow(a[0], a[1]); case FF_ATAN2: return atan2(a[0], a[1]);
    case FF_FMOD: return fmod(a[0], a[1]); case FF_HYPOT: return hypot(a[0], a[1]); case FF_FMIN: return fmin(a[0], a[1]);
    case FF_FMAX: return fmax(a[0], a[1]); case FF_FMA: return fma(a[0], a[1], a[2]);
    default: return NAN;
    }
}

uint64_t foldOp(Expr *e, const uint64_t *v) {
    unsigned w = e->w, aw = e->a.empty() ? 0 : e->a[0]->w;
    switch (e->k) {
    case E_ADD: return mask(v[0] + v[1], w);
    case E_SUB: return mask(v[0] - v[1], w);
    case E_MUL: return mask(v[0] * v[1], w);
    case E_UDIV: return v[1] ? mask(v[0] / v[1], w) : mask(~0ull, w);
    case E_UREM: return v[1] ? mask(v[0] % v[1], w) : v[0];
    case E_SDIV: { int64_t a = sx(v[0], w), b = sx(v[1], w); if (!b) return mask(a < 0 ? 1 : ~0ull, w); if (b == -1) return mask(-(uint64_t)a, w); return mask(a / b, w); }
    case E_SREM: { int64_t a = sx(v[0], w), b = sx(v[1], w); if (!b) return v[0]; if (b == -1) return 0; return mask(a % b, w); }
    case E_AND: return v[0] & v[1];
    case E_OR: return v[0] | v[1];
    case E_XOR: return v[0] ^ v[1];
    case E_SHL: return v[1] >= w ? 0 : mask(v[0] << v[1], w);
    case E_LSHR: return v[1] >= w ? 0 : v[0] >> v[1];
    case E_ASHR: return mask((uint64_t)(sx(v[0], w) >> (v[1] >= w ? w - 1 : v[1])), w);
    case E_EQ: return v[0] == v[1];
    case E_ULT: return v[0] < v[1];
    case E_ULE: return v[0] <= v[1];
    case E_SLT: return sx(v[0], aw) < sx(v[1], aw);
    case E_SLE: return sx(v[0], aw) <= sx(v[1], aw);
    case E_ZEXT: return v[0];
    case E_SEXT: return mask((uint64_t)sx(v[0], aw), w);
    case E_EXTRACT: return mask(v[0] >> e->c, w);
    case E_CONCAT: return (v[0] << e->a[1]->w) | v[1];
    case E_ITE: return v[0] ? v[1] : v[2];
    case E_FADD: return asU(asD(v[0]) + asD(v[1]));
    case E_FMUL: return asU(asD(v[0]) * asD(v[1]));
    case E_FDIV: return asU(asD(v[0]) / asD(v[1]));
    case E_FREM: return asU(fmod(asD(v[0]), asD(v[1])));
    case E_FNEG: return v[0] ^ 0x8000000000000000ull;
    case E_FABS: return v[0] & 0x7fffffffffffffffull;
    case E_FSQRT: return asU(sqrt(asD(v[0])));
    case E_FFUN1: case E_FFUN2: case E_FFUN3: { double d[3] = {0, 0, 0}; for (size_t i = 0; i < e->a.size(); i++) d[i] = asD(v[i]); return asU(ffEval((FF)e->sub, d)); }
    case E_FOEQ: return asD(v[0]) == asD(v[1]);
    case E_FOLT: return asD(v[0]) < asD(v[1]);
    case E_FOLE: return asD(v[0]) <= asD(v[1]);
    case E_FUNO: return std::isnan(asD(v[0]));
    case E_SITOFP: return asU((double)sx(v[0], aw));
    case E_UITOFP: return asU((double)v[0]);
    case E_FPTOSI: { double d = asD(v[0]); if (!(d > -9.3e18 && d < 9.2e18)) return 0; return mask((uint64_t)(int64_t)d, w); }
    case E_FPTOUI: { double d = asD(v[0]); if (!(d > -1 && d < 1.8e19)) return 0; return mask((uint64_t)d, w); }
    case E_BV2F: case E_F2BV: return v[0];
    case E_BV2FLT: { float x; uint32_t u = v[0]; memcpy(&x, &u, 4); return asU((double)x); }
    case E_FLT2BV: { float x = (float)asD(v[0]); uint32_t u; memcpy(&u, &x, 4); return u; }
    default: return 0;
    }
}
static Expr *fold(EK k, unsigned w, bool f, std::vector<Expr *> a, uint64_t c = 0, uint8_t sub = 0) {
    bool all = true;
    for (auto *x : a) if (x->k != E_CONST) all = false;
    if (!all) return mk(k, w, f, std::move(a), c, sub);
    Expr t; t.k = k; t.w = w; t.f = f; t.a = a; t.c = c; t.sub = sub;
    uint64_t v[3] = {0, 0, 0};
    for (size_t i = 0; i < a.size() && i < 3; i++) v[i] = a[i]->c;
    uint64_t r = foldOp(&t, v);
    return mk(E_CONST, w, f, {}, r);
}

static bool isC(Expr *e, uint64_t v) { return e->k == E_CONST && e->c == v; }
Expr *eBin(EK k, Expr *a, Expr *b) {
    unsigned w = a->w;
    if ((k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR) && (a->k == E_CONST || (b->k != E_CONST && a->id > b->id))) std::swap(a, b);
    if (b->k == E_CONST && a->k != E_CONST) {
        uint64_t c = b->c, ones = mask(~0ull, w);
        switch (k) {
        case E_ADD: case E_SUB: case E_OR: case E_XOR: case E_SHL: case E_LSHR: case E_ASHR:
            if (c == 0) return a;
            break;
        default: break;
        }
        if (k == E_AND && c == ones) return a;
        if ((k == E_AND || k == E_MUL) && c == 0) return b;
        if (k == E_OR && c == ones) return b;
        if ((k == E_MUL || k == E_UDIV || k == E_SDIV) && c == 1) return a;
        if (k == E_XOR && w == 1 && c == 1 && a->k == E_XOR && isC(a->a[1], 1)) return a->a[0];
        if ((k == E_ADD) && a->k == E_ADD && a->a[1]->k == E_CONST) return eBin(E_ADD, a->a[0], eConst(w, a->a[1]->c + c));
        if (k == E_SUB) return eBin(E_ADD, a, eConst(w, -c));
    }
    if (a == b) {
        if (k == E_SUB || k == E_XOR) return eConst(w, 0);
        if (k == E_AND || k == E_OR) return a;
    }
    return fold(k, w, false, {a, b});
}
Expr *eCmp(EK k, Expr *a, Expr *b) {
    if (a == b) return eConst(1, k == E_EQ || k == E_ULE || k == E_SLE);
    if (k == E_EQ) {
        if (a->k == E_CONST || (b->k != E_CONST && a->id > b->id)) std::swap(a, b);
        if (a->w == 1 && b->k == E_CONST) return b->c ? a : eNot(a);
        if (b->k == E_CONST && a->k == E_ZEXT) {
            if (mask(b->c, a->a[0]->w) != b->c) return eFalse();
            return eCmp(E_EQ, a->a[0], eConst(a->a[0]->w, b->c));
        }
        if (b->k == E_CONST && a->k == E_ITE && a->a[1]->k == E_CONST && a->a[2]->k == E_CONST) {
            bool t = a->a[1]->c == b->c, f = a->a[2]->c == b->c;
            if (t && f) return eIsTrue();
            if (t) return a->a[0];
            if (f) return eNot(a->a[0]);
            return eFalse();
        }
    }
    if (k == E_ULT && isC(b, 0)) return eFalse();
    if (k == E_ULE && isC(a, 0)) return eIsTrue();
    return fold(k, 1, false, {a, b});
}
Expr *eNot(Expr *a) { return eBin(E_XOR, a, eIsTrue()); }
Expr *eAnd1(Expr *a, Expr *b) { if (isC(a, 0) || isC(b, 0)) return eFalse(); if (isC(a, 1)) return b; if (isC(b, 1)) return a; return eBin(E_AND, a, b); }
Expr *eOr1(Expr *a, Expr *b) { if (isC(a, 1) || isC(b, 1)) return eIsTrue(); if (isC(a, 0)) return b; if (isC(b, 0)) return a; return eBin(E_OR, a, b); }
Expr *eZext(Expr *a, unsigned w) { if (w == a->w) return a; if (a->k == E_ZEXT) return eZext(a->a[0], w); return fold(E_ZEXT, w, false, {a}); }
Expr *eSext(Expr *a, unsigned w) { if (w == a->w) return a; return fold(E_SEXT, w, false, {a}); }
Expr *eExtract(Expr *a, unsigned lo, unsigned w) {
    if (a->f) a = eFromF(E_F2BV, a, 64);
    if (lo == 0 && w == a->w) return a;
    if (a->k == E_EXTRACT) return eExtract(a->a[0], a->c + lo, w);
    if (a->k == E_ZEXT && lo == 0) { if (w == a->a[0]->w) return a->a[0]; if (w < a->a[0]->w) return eExtract(a->a[0], 0, w); return eZext(a->a[0], w); }
    if (a->k == E_ZEXT && lo >= a->a[0]->w) return eConst(w, 0);
    if (a->k == E_CONCAT) {
        unsigned lw = a->a[1]->w;
        if (lo + w <= lw) return eExtract(a->a[1], lo, w);
        if (lo >= lw) return eExtract(a->a[0], lo - lw, w);
    }
    return fold(E_EXTRACT, w, false, {a}, lo);
}
Expr *eConcat(Expr *hi, Expr *lo) {
    if (hi->f) hi = eFromF(E_F2BV, hi, 64);
    if (lo->f) lo = eFromF(E_F2BV, lo, 64);
    if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w) return eExtract(lo->a[0], lo->c, hi->w + lo->w);
    if (isC(hi, 0)) return eZext(lo, hi->w + lo->w);
    return fold(E_CONCAT, hi->w + lo->w, false, {hi, lo});
}
Expr *eIte(Expr *c, Expr *t, Expr *e) {
    if (c->k == E_CONST) return c->c ? t : e;
    if (t == e) return t;
    if (c->k == E_XOR && isC(c->a[1], 1)) return eIte(c->a[0], e, t);
    if (t->w == 1 && !t->f) {
        if (isC(t, 1) && isC(e, 0)) return c;
        if (isC(t, 0) && isC(e, 1)) return eNot(c);
    }
    return mk(E_ITE, t->w, t->f, {c, t, e});
}
static bool pow2c(Expr *e) { // constant, +-power of two, reciprocal exact and normal
    if (e->k != E_CONST) return false;
    double d = asD(e->c);
    int ex;
    if (d == 0 || !std::isfinite(d)) return false;
    double m = frexp(fabs(d), &ex);
    return m == 0.5 && ex > -1000 && ex < 1000;
}
static bool neverNegZero(Expr *e) {
    switch (e->k) {
    case E_CONST: return e->c != 0x8000000000000000ull;
    case E_FABS: case E_SITOFP: case E_UITOFP: return true;
    case E_FMUL: return e->a[0] == e->a[1];
    case E_FADD: return neverNegZero(e->a[0]) || neverNegZero(e->a[1]); // -0 only as the sum of two -0
    default: return false;
    }
}
Expr *eF(EK k, Expr *a, Expr *b) {
    if (a->k == E_CONST && b->k == E_CONST) return fold(k, 64, true, {a, b});
    if (k == E_FDIV && pow2c(b)) return eF(E_FMUL, a, eConstF(1.0 / asD(b->c)));
    if (k == E_FMUL || k == E_FDIV) { // pull signs out: exact
        bool na = a->k == E_FNEG, nb = b->k == E_FNEG;
        if (na || nb) {
            Expr *r = eF(k, na ? a->a[0] : a, nb ? b->a[0] : b);
            return na != nb ? eF1(E_FNEG, r) : r;
        }
        if (b->k == E_CONST && std::signbit(asD(b->c)) && !std::isnan(asD(b->c))) return eF1(E_FNEG, eF(k, a, eConstF(-asD(b->c))));
        if (a->k == E_CONST && std::signbit(asD(a->c)) && !std::isnan(asD(a->c))) return eF1(E_FNEG, eF(k, eConstF(-asD(a->c)), b));
    }
    if (k == E_FADD || k == E_FMUL) {
        if (a->k == E_CONST || (b->k != E_CONST && a->id > b->id)) std::swap(a, b);
        if (k == E_FMUL && b->k == E_CONST && asD(b->c) == 1.0) return a;
        if (k == E_FADD && b->k == E_CONST && b->c == 0x8000000000000000ull) return a; // x + -0.0
        if (k == E_FADD && b->k == E_CONST && b->c == 0 && neverNegZero(a)) return a; // x + 0.0
        if (k == E_FADD && a == b) return eF(E_FMUL, a, eConstF(2.0));
    }
    return fold(k, 64, true, {a, b});
}
Expr *eFsub(Expr *a, Expr *b) { return eF(E_FADD, a, eF1(E_FNEG, b)); }
Expr *eF1(EK k, Expr *a) {
    if (k == E_FNEG && a->k == E_FNEG) return a->a[0];
    if (k == E_FABS && (a->k == E_FNEG || a->k == E_FABS)) return eF1(E_FABS, a->a[0]);
    return fold(k, 64, true, {a});
}
Expr *eFun(FF f, const std::vector<Expr *> &a) {
    EK k = a.size() == 1 ? E_FFUN1 : a.size() == 2 ? E_FFUN2 : E_FFUN3;
    if (a[0]->k == E_FNEG && (f == FF_SIN || f == FF_ATAN || f == FF_TAN)) return eF1(E_FNEG, eFun(f, {a[0]->a[0]})); // odd
    if (a[0]->k == E_FNEG && f == FF_COS) return eFun(f, {a[0]->a[0]});                                           // even
    if (f == FF_FLT) {
        Expr *x = a[0];
        if (x->k == E_FNEG || x->k == E_FABS) return eF1(x->k, eFun(f, {x->a[0]}));
        if ((x->k == E_FFUN1 && x->sub == FF_FLT) || x->k == E_BV2FLT) return x;
        if (x->k == E_SITOFP || x->k == E_UITOFP) { unsigned w = x->a[0]->w; for (Expr *z = x->a[0]; z->k == E_ZEXT; z = z->a[0]) w = z->a[0]->w; if (w <= 24) return x; }
    }
    if (gKeepTrig && (f == FF_SIN || f == FF_COS || f == FF_ATAN)) return mk(k, 64, true, a, 0, f);
    if (f == FF_POW && a[1]->k == E_CONST && asD(a[1]->c) == 2.0) return eF(E_FMUL, a[0], a[0]); // glibc pow(x,2) is exactly x*x
    if (f == FF_POW && a[1]->k == E_CONST && asD(a[1]->c) == 1.0) return a[0];
    return fold(k, 64, true, a, 0, f);
}
Expr *eFcmp(EK k, Expr *a, Expr *b) {
    if (k == E_FUNO) {
        auto nan1 = [](Expr *x) -> Expr * {
            if (x->k == E_FNEG || x->k == E_FABS) x = x->a[0];
            if (x->k == E_SITOFP || x->k == E_UITOFP) return eFalse();
            return fold(E_FUNO, 1, false, {x});
        };
        return eOr1(nan1(a), nan1(b));
    }
    if (a == b) {
        if (k == E_FOLT) return eFalse();
        return eNot(eFcmp(E_FUNO, a, a));
    }
    if (k == E_FOEQ && a->id > b->id) std::swap(a, b);
    return fold(k, 1, false, {a, b});
}
Expr *eToF(EK k, Expr *a) {
    if (k == E_BV2F && a->k == E_F2BV) return a->a[0];
    if (k == E_BV2FLT && a->k == E_FLT2BV) return a->a[0];
    if (k == E_SITOFP && a->k == E_ZEXT) return eToF(E_UITOFP, a->a[0]);
    if (k == E_UITOFP && a->k == E_ZEXT) return eToF(E_UITOFP, a->a[0]);
    return fold(k, 64, true, {a});
}
Expr *eFromF(EK k, Expr *a, unsigned w) {
    if (k == E_F2BV && a->k == E_BV2F) return a->a[0];
    if (k == E_FLT2BV && a->k == E_BV2FLT) return a->a[0];
    return fold(k, w, false, {a});
}
Expr *eRawSame(Expr *a, Expr *b) {
    Expr *eq = mk(E_FOEQ, 1, false, {a, b});
    Expr *na = mk(E_FUNO, 1, false, {a}), *nb = mk(E_FUNO, 1, false, {b});
    return mk(E_OR, 1, false, {eq, mk(E_AND, 1, false, {na, nb})});
}

uint64_t Evaluator::eval(Expr *root) {
    // iterative post-order
    std::vector<std::pair<Expr *, size_t>> st;
    st.push_back({root, 0});
    while (!st.empty()) {
        auto &tp = st.back();
        Expr *e = tp.first;
        if (memo.count(e)) { st.pop_back(); continue; }
        if (tp.second < e->a.size()) { Expr *ch = e->a[tp.second++]; if (!memo.count(ch)) st.push_back({ch, 0}); continue; }
        uint64_t r = 0;
        if (e->k == E_CONST) r = e->c;
        else if (e->k == E_VAR) { auto it = as->find(e); r = it == as->end() ? 0 : it->second; }
        else if (e->k == E_UF) {
            std::vector<uint64_t> av;
            for (auto *x : e->a) av.push_back(memo[x]);
            auto key = std::make_pair(e->name, av);
            if (uf) {
                auto it = uf->t.find(key);
                if (it != uf->t.end()) r = it->second;
                else { uint64_t h = 0; if (ufHint) ufHint(e, h); r = mask(h, e->w); uf->t[key] = r; }
            }
        } else {
            uint64_t v[3] = {0, 0, 0};
            for (size_t i = 0; i < e->a.size() && i < 3; i++) v[i] = memo[e->a[i]];
            r = foldOp(e, v);
        }
        memo[e] = r;
        st.pop_back();
    }
    return memo[root];
}

void collectDeps(Expr *root, std::vector<bool> &seen, std::vector<Expr *> &out) {
    std::vector<Expr *> st{root};
    if (seen.size() < pool.size()) seen.resize(pool.size());
    while (!st.empty()) {
        Expr *e = st.back(); st.pop_back();
        if (seen[e->id]) continue;
        seen[e->id] = true;
        out.push_back(e);
        for (auto *x : e->a) st.push_back(x);
    }
}

// ---------------------------------------------------------------- lowering
using z3::expr;
static z3::sort fsort(z3::context &c, Mode m) { return m == M_UF ? c.bv_sort(64) : m == M_EXACT ? c.fpa_sort<64>() : c.real_sort(); }

z3::func_decl Lowering::uf(const std::string &n, const std::vector<z3::sort> &dom, const z3::sort &rng) {
    auto it = ufs.find(n);
    if (it != ufs.end()) return z3::func_decl(ctx, it->second);
    z3::sort_vector d(ctx);
    for (auto &s : dom) d.push_back(s);
    z3::func_decl fd = ctx.function(n.c_str(), d, rng);
    Z3_inc_ref(ctx, fd);
    ufs[n] = fd;
    return fd;
}
z3::expr Lowering::low(Expr *root) {
    if (memo.size() < pool.size() + 64) memo.resize(pool.size() + 4096, nullptr);
    std::vector<std::pair<Expr *, size_t>> st;
    st.push_back({root, 0});
    while (!st.empty()) {
        auto &tp = st.back();
        Expr *e = tp.first;
        if (memo[e->id]) { st.pop_back(); continue; }
        if (tp.second < e->a.size()) { Expr *ch = e->a[tp.second++]; if (!memo[ch->id]) st.push_back({ch, 0}); continue; }
        expr r = build(e);
        Z3_inc_ref(ctx, r);
        memo[e->id] = r;
        st.pop_back();
    }
    return expr(ctx, memo[root->id]);
}
z3::expr Lowering::lowBool(Expr *e) { return low(e); }
z3::expr Lowering::lowBV(Expr *e) {
    expr r = low(e);
    if (r.is_bool()) return z3::ite(r, ctx.bv_val(1, 1), ctx.bv_val(0, 1));
    return r;
}
static expr realConst(z3::context &c, double d) {
    // exact rational
    int ex; double m = frexp(d, &ex);
    int64_t mi = (int64_t)ldexp(m, 53); ex -= 53;
    expr n = c.int_val(mi);
    std::string num = std::to_string(mi), den = "1";
    auto dbl = [](std::string s, int times) { // multiply decimal string by 2^times
        for (int i = 0; i < times; i++) {
            int cy = 0;
            for (int j = (int)s.size() - 1; j >= 0; j--) { if (s[j] == '-') break; int v = (s[j] - '0') * 2 + cy; s[j] = '0' + v % 10; cy = v / 10; }
            if (cy) s.insert(s[0] == '-' ? 1 : 0, std::to_string(cy));
        }
        return s;
    };
    if (mi == 0) return c.real_val("0");
    while (ex < 0 && (mi & 1) == 0) { mi /= 2; ex++; }
    num = std::to_string(mi);
    if (ex >= 0) num = dbl(num, ex); else den = dbl(den, -ex);
    return c.real_val((num + "/" + den).c_str());
}
z3::expr Lowering::build(Expr *e) {
    auto A = [&](int i) { return expr(ctx, memo[e->a[i]->id]); };
    auto BV = [&](int i) { expr r = A(i); return r.is_bool() ? z3::ite(r, ctx.bv_val(1, 1), ctx.bv_val(0, 1)) : r; };
    auto B2 = [&](const expr &bv) { return bv == ctx.bv_val(1, 1); };
    auto c64 = [&](uint64_t v) { return ctx.bv_val((uint64_t)v, 64); };
    auto fun = [&](const std::string &n) {
        std::vector<z3::sort> d; z3::expr_vector args(ctx);
        for (size_t i = 0; i < e->a.size(); i++) { d.push_back(A(i).get_sort()); args.push_back(A(i)); }
        std::string nm = n; for (auto &s : d) nm += "_" + s.to_string();
        z3::sort rs = e->f ? fsort(ctx, mode) : e->w == 1 ? ctx.bool_sort() : ctx.bv_sort(e->w);
        return uf(nm, d, rs)(args);
    };
    unsigned w = e->w;
    switch (e->k) {
    case E_CONST:
        if (e->f) {
            if (mode == M_UF) return c64(e->c);
            if (mode == M_EXACT) return ctx.fpa_val(asD(e->c));
            if (!std::isfinite(asD(e->c))) { failed = true; return ctx.real_const(("bad!" + std::to_string(e->id)).c_str()); }
            return realConst(ctx, asD(e->c));
        }
        if (w == 1) return ctx.bool_val(e->c & 1);
        return ctx.bv_val((uint64_t)e->c, w);
    case E_VAR:
        if (e->f) {
            if (mode == M_UF) return ctx.bv_const(e->name.c_str(), 64);
            if (mode == M_EXACT) return expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, ctx.bv_const(e->name.c_str(), 64), ctx.fpa_sort<64>()));
            return ctx.real_const((e->name + "!r").c_str());
        }
        if (w == 1) return ctx.bool_const(e->name.c_str());
        return ctx.bv_const(e->name.c_str(), w);
    case E_UF: return fun("u_" + e->name);
    case E_ADD: if (w == 1) return B2(BV(0) + BV(1)); return A(0) + A(1);
    case E_SUB: if (w == 1) return B2(BV(0) - BV(1)); return A(0) - A(1);
    case E_MUL: if (w == 1) return A(0) && A(1); return A(0) * A(1);
    case E_UDIV: return z3::udiv(BV(0), BV(1));
    case E_SDIV: return BV(0) / BV(1);
    case E_UREM: return z3::urem(BV(0), BV(1));
    case E_SREM: return z3::srem(BV(0), BV(1));
    case E_AND: return w == 1 ? A(0) && A(1) : A(0) & A(1);
    case E_OR: return w == 1 ? A(0) || A(1) : A(0) | A(1);
    case E_XOR: if (w == 1) { if (isC(e->a[1], 1)) return !A(0); return A(0) != A(1); } return A(0) ^ A(1);
    case E_SHL: return w == 1 ? B2(z3::shl(BV(0), BV(1))) : z3::shl(A(0), A(1));
    case E_LSHR: return w == 1 ? B2(z3::lshr(BV(0), BV(1))) : z3::lshr(A(0), A(1));
    case E_ASHR: return w == 1 ? B2(z3::ashr(BV(0), BV(1))) : z3::ashr(A(0), A(1));
    case E_EQ: return A(0) == A(1);
    case E_ULT: return z3::ult(BV(0), BV(1));
    case E_ULE: return z3::ule(BV(0), BV(1));
    case E_SLT: return BV(0) < BV(1);
    case E_SLE: return BV(0) <= BV(1);
    case E_ZEXT: if (e->a[0]->w == 1) return z3::ite(A(0), ctx.bv_val(1, w), ctx.bv_val(0, w)); return z3::zext(A(0), w - e->a[0]->w);
    case E_SEXT: if (e->a[0]->w == 1) return z3::ite(A(0), ctx.bv_val((uint64_t)mask(~0ull, w), w), ctx.bv_val(0, w)); return z3::sext(A(0), w - e->a[0]->w);
    case E_EXTRACT: { expr r = BV(0).extract(e->c + w - 1, e->c); return w == 1 ? B2(r) : r; }
    case E_CONCAT: return z3::concat(BV(0), BV(1));
    case E_ITE: return z3::ite(A(0), A(1), A(2));
    default: return fterm(e);
    }
}
z3::expr Lowering::fterm(Expr *e) {
    auto A = [&](int i) { return expr(ctx, memo[e->a[i]->id]); };
    auto c64 = [&](uint64_t v) { return ctx.bv_val((uint64_t)v, 64); };
    auto fun = [&](const std::string &n) {
        std::vector<z3::sort> d; z3::expr_vector args(ctx);
        std::string nm = n;
        for (size_t i = 0; i < e->a.size(); i++) {
            expr x = A(i); d.push_back(x.get_sort()); args.push_back(x);
            nm += "_" + x.get_sort().to_string();
        }
        nm += "_" + std::to_string(e->w);
        z3::sort rs = e->f ? fsort(ctx, mode) : e->w == 1 ? ctx.bool_sort() : ctx.bv_sort(e->w);
        return uf(nm, d, rs)(args);
    };
    if (mode == M_UF) {
        uint64_t SGN = 0x8000000000000000ull, MAG = ~SGN, INFB = 0x7ff0000000000000ull;
        auto mag = [&](const expr &x) { return x & c64(MAG); };
        auto isnan_ = [&](const expr &x) { return z3::ugt(mag(x), c64(INFB)); };
        auto key = [&](const expr &x) { return z3::ite(x.extract(63, 63) == ctx.bv_val(1, 1), -mag(x), mag(x)); };
        switch (e->k) {
        case E_FADD: return fun("fadd");
        case E_FMUL: return fun("fmul");
        case E_FDIV: return fun("fdiv");
        case E_FREM: return fun("frem");
        case E_FNEG: return A(0) ^ c64(SGN);
        case E_FABS: return A(0) & c64(MAG);
        case E_FSQRT: return fun("fsqrt");
        case E_FFUN1: case E_FFUN2: case E_FFUN3: return fun(std::string("f_") + ffName[e->sub]);
        case E_FOEQ: return !isnan_(A(0)) && !isnan_(A(1)) && (A(0) == A(1) || mag(A(0) | A(1)) == c64(0));
        case E_FOLT: return !isnan_(A(0)) && !isnan_(A(1)) && key(A(0)) < key(A(1));
        case E_FOLE: return !isnan_(A(0)) && !isnan_(A(1)) && key(A(0)) <= key(A(1));
        case E_FUNO: return isnan_(A(0));
        case E_SITOFP: { expr r = fun("sitofp"); addSide(e, !isnan_(r)); return r; }
        case E_UITOFP: { expr r = fun("uitofp"); addSide(e, z3::ule(r, c64(0x43f0000000000000ull))); return r; }
        case E_FPTOSI: return fun("fptosi");
        case E_FPTOUI: return fun("fptoui");
        case E_BV2F: case E_F2BV: return A(0);
        case E_BV2FLT: return fun("bv2flt");
        case E_FLT2BV: return fun("flt2bv");
        default: break;
        }
    } else if (mode == M_EXACT) {
        expr rne(ctx, Z3_mk_fpa_rne(ctx)), rtz(ctx, Z3_mk_fpa_rtz(ctx));
        Z3_context c = ctx;
        auto E = [&](Z3_ast a) { return expr(ctx, a); };
        switch (e->k) {
        case E_FADD:
            if (e->a[1]->k == E_FNEG) { expr y(ctx, memo[e->a[1]->a[0]->id]); return E(Z3_mk_fpa_sub(c, rne, A(0), y)); }
            return E(Z3_mk_fpa_add(c, rne, A(0), A(1)));
        case E_FMUL: return E(Z3_mk_fpa_mul(c, rne, A(0), A(1)));
        case E_FDIV: return E(Z3_mk_fpa_div(c, rne, A(0), A(1)));
        case E_FREM: return fun("frem");
        case E_FNEG: return E(Z3_mk_fpa_neg(c, A(0)));
        case E_FABS: return E(Z3_mk_fpa_abs(c, A(0)));
        case E_FSQRT: return E(Z3_mk_fpa_sqrt(c, rne, A(0)));
        case E_FFUN1: case E_FFUN2: case E_FFUN3:
            switch (e->sub) {
            case FF_FLOOR: return E(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), A(0)));
            case FF_CEIL: return E(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), A(0)));
            case FF_TRUNC: return E(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), A(0)));
            case FF_RINT: return E(Z3_mk_fpa_round_to_integral(c, rne, A(0)));
            case FF_ROUND: return E(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), A(0)));
            case FF_FLT: { expr s = E(Z3_mk_fpa_to_fp_float(c, rne, A(0), ctx.fpa_sort<32>())); return E(Z3_mk_fpa_to_fp_float(c, rne, s, ctx.fpa_sort<64>())); }
            case FF_FMIN: return E(Z3_mk_fpa_min(c, A(0), A(1)));
            case FF_FMAX: return E(Z3_mk_fpa_max(c, A(0), A(1)));
            case FF_FMA: return E(Z3_mk_fpa_fma(c, rne, A(0), A(1), A(2)));
            default: return fun(std::string("f_") + ffName[e->sub]);
            }
        case E_FOEQ: return E(Z3_mk_fpa_eq(c, A(0), A(1)));
        case E_FOLT: return E(Z3_mk_fpa_lt(c, A(0), A(1)));
        case E_FOLE: return E(Z3_mk_fpa_leq(c, A(0), A(1)));
        case E_FUNO: return E(Z3_mk_fpa_is_nan(c, A(0)));
        case E_SITOFP: return E(Z3_mk_fpa_to_fp_signed(c, rne, lowBV(e->a[0]), ctx.fpa_sort<64>()));
        case E_UITOFP: return E(Z3_mk_fpa_to_fp_unsigned(c, rne, lowBV(e->a[0]), ctx.fpa_sort<64>()));
        case E_FPTOSI: return E(Z3_mk_fpa_to_sbv(c, rtz, A(0), e->w));
        case E_FPTOUI: return E(Z3_mk_fpa_to_ubv(c, rtz, A(0), e->w));
        case E_BV2F: return E(Z3_mk_fpa_to_fp_bv(c, A(0), ctx.fpa_sort<64>()));
        case E_BV2FLT: { expr s = E(Z3_mk_fpa_to_fp_bv(c, A(0), ctx.fpa_sort<32>())); return E(Z3_mk_fpa_to_fp_float(c, rne, s, ctx.fpa_sort<64>())); }
        case E_FLT2BV: { expr s = E(Z3_mk_fpa_to_fp_float(c, rne, A(0), ctx.fpa_sort<32>())); return E(Z3_mk_fpa_to_ieee_bv(c, s)); }
        case E_F2BV:
            if (e->a[0]->k == E_VAR) return ctx.bv_const(e->a[0]->name.c_str(), 64);
            return E(Z3_mk_fpa_to_ieee_bv(c, A(0)));
        default: break;
        }
    } else {
        auto fresh = [&](const char *p, uint32_t id) { return ctx.real_const((std::string(p) + "!" + std::to_string(id)).c_str()); };
        auto realMod = [&](Expr *m, const expr &a, const expr &b) { // a = n*b + r, |r| < |b|, r of the sign of a
            if (m->a[1]->k == E_CONST && asD(m->a[1]->c) != 0) { // a - b*trunc(a/b), with the floor the harness is likely to use
                expr q = a / b; // b is a numeral: linear
                auto fl = [&](const expr &x) { return expr(ctx, Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, x))); };
                return a - b * z3::ite(q >= ctx.real_val(0), fl(q), -fl(-q));
            }
            expr r = fresh("mod", m->id), n(ctx, Z3_mk_int2real(ctx, ctx.int_const(("modq!" + std::to_string(m->id)).c_str()))), z0 = ctx.real_val(0), B = z3::ite(b >= z0, b, -b);
            addSide(m, z3::implies(b != z0, a == n * b + r && r < B && -r < B));
            addSide(m, z3::implies(a >= z0, r >= z0));
            addSide(m, z3::implies(a <= z0, r <= z0));
            return r;
        };
        expr zero = ctx.real_val(0), one = ctx.real_val(1);
        switch (e->k) {
        case E_FADD: return A(0) + A(1);
        case E_FMUL: return A(0) * A(1);
        case E_FDIV: {
            if (e->a[1]->k == E_CONST) return A(0) / A(1);
            // q * d = n, d != 0
            expr q = fresh("quot", e->id);
            addSide(e, A(1) != zero); addSide(e, q * A(1) == A(0));
            return q;
        }
        case E_FNEG: return -A(0);
        case E_FABS: return z3::ite(A(0) >= zero, A(0), -A(0));
        case E_FSQRT: { expr r = fresh("sqrt", e->id); addSide(e, r >= zero); addSide(e, r * r == A(0)); return r; }
        case E_FFUN1: {
            Expr *x = e->a[0];
            if (e->sub == FF_SIN || e->sub == FF_COS) {
                expr s = fresh("sin", x->id), c = fresh("cos", x->id);
                addSide(e, s * s + c * c == one);
                if (x->k == E_CONST && fabs(asD(x->c)) == M_PI / 4) { addSide(e, 2 * c * c == one); addSide(e, c > zero); addSide(e, asD(x->c) > 0 ? s == c : s == -c); }
                else if (x->k == E_CONST && fabs(asD(x->c)) == M_PI / 2) { addSide(e, c == zero); addSide(e, s == (asD(x->c) > 0 ? one : -one)); }
                else if (x->k == E_CONST && asD(x->c) == 0) { addSide(e, c == one); addSide(e, s == zero); }
                else if (x->k == E_FMUL && x->a[1]->k == E_CONST && fabs(asD(x->a[1]->c)) == 0.5) {
                    // half of an arctangent: tan(2t) = u with |t| <= pi/4
                    Expr *t = x->a[0]; bool neg = asD(x->a[1]->c) < 0;
                    while (t->k == E_FNEG) { t = t->a[0]; neg = !neg; }
                    if (t->k == E_FFUN1 && t->sub == FF_ATAN) {
                        expr u = low(t->a[0]); if (neg) u = -u;
                        addSide(e, 2 * s * c == u * (c * c - s * s)); addSide(e, c > zero); addSide(e, c * c - s * s > zero);
                    } else if (t->k == E_FFUN2 && t->sub == FF_ATAN2) {
                        expr y = low(t->a[0]), xx = low(t->a[1]); if (neg) y = -y;
                        expr h = fresh("hyp", t->id);
                        addSide(e, h >= zero); addSide(e, h * h == xx * xx + y * y); addSide(e, h > zero);
                        addSide(e, h * (c * c - s * s) == xx); addSide(e, h * 2 * s * c == y); addSide(e, c >= zero);
                    }
                } else {
                    Expr *t = x; bool neg = false;
                    while (t->k == E_FNEG) { t = t->a[0]; neg = !neg; }
                    if (t->k == E_FFUN1 && t->sub == FF_ATAN) {
                        expr u = low(t->a[0]); if (neg) u = -u;
                        addSide(e, s == u * c); addSide(e, c > zero);
                    }
                }
                return e->sub == FF_SIN ? s : c;
            }
            if (e->sub == FF_ATAN) { expr r = fresh("atan", e->id); addSide(e, r < realConst(ctx, 1.5707963267949)); addSide(e, r > realConst(ctx, -1.5707963267949));
                addSide(e, z3::implies(A(0) > zero, r > zero)); addSide(e, z3::implies(A(0) < zero, r < zero)); addSide(e, z3::implies(A(0) == zero, r == zero)); return r; }
            if (e->sub == FF_FLOOR) return expr(ctx, Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, A(0))));
            if (e->sub == FF_CEIL) return -expr(ctx, Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, -A(0))));
            if (e->sub == FF_TRUNC) { expr fl(ctx, Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, A(0)))); expr ce = -expr(ctx, Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, -A(0)))); return z3::ite(A(0) >= zero, fl, ce); }
            if (e->sub == FF_FLT) { expr r = fresh("flt", e->id), h = ctx.real_val(1, 16777216); expr m = z3::ite(A(0) >= zero, A(0), -A(0)); addSide(e, r - A(0) <= m * h); addSide(e, A(0) - r <= m * h); return r; }
            if (e->sub == FF_EXP) { expr r = fresh("exp", e->id); addSide(e, r > zero); return r; }
            return fresh("fn", e->id);
        }
        case E_FFUN2:
            if (e->sub == FF_FMIN) return z3::ite(A(0) <= A(1), A(0), A(1));
            if (e->sub == FF_FMAX) return z3::ite(A(0) >= A(1), A(0), A(1));
            if (e->sub == FF_FMOD) return realMod(e, A(0), A(1));
            if (e->sub == FF_HYPOT) { expr r = fresh("hypot", e->id); addSide(e, r >= zero); addSide(e, r * r == A(0) * A(0) + A(1) * A(1)); return r; }
            if (e->sub == FF_POW && e->a[1]->k == E_CONST) {
                double p = asD(e->a[1]->c);
                if (p == 3) return A(0) * A(0) * A(0);
                if (p == 4) return A(0) * A(0) * A(0) * A(0);
                if (p == 0.5) { expr r = fresh("sqrt", e->id); addSide(e, r >= zero); addSide(e, r * r == A(0)); return r; }
                if (p == 0) return one;
                if (p == -1) { expr q = fresh("quot", e->id); addSide(e, q * A(0) == one); return q; }
            }
            return fresh("fn", e->id);
        case E_FFUN3: if (e->sub == FF_FMA) return A(0) * A(1) + A(2); return fresh("fn", e->id);
        case E_FREM: return realMod(e, A(0), A(1));
        case E_FOEQ: return A(0) == A(1);
        case E_FOLT: return A(0) < A(1);
        case E_FOLE: return A(0) <= A(1);
        case E_FUNO: return ctx.bool_val(false);
        case E_SITOFP: return expr(ctx, Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, lowBV(e->a[0]), true)));
        case E_UITOFP: {
            expr r(ctx, Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, lowBV(e->a[0]), false)));
            int w = e->a[0]->w; // effective width, zero extensions left out
            for (Expr *x = e->a[0]; x->k == E_ZEXT; x = x->a[0]) w = x->a[0]->w;
            addSide(e, r >= zero); addSide(e, r <= ctx.real_val(w >= 64 ? "18446744073709551615" : std::to_string((1ull << w) - 1).c_str()));
            return r;
        }
        case E_FPTOSI: case E_FPTOUI: {
            expr fl(ctx, Z3_mk_real2int(ctx, A(0)));
            expr ce = -expr(ctx, Z3_mk_real2int(ctx, -A(0)));
            expr tr = z3::ite(A(0) >= zero, fl, ce);
            expr r(ctx, Z3_mk_int2bv(ctx, e->w, tr));
            return r;
        }
        case E_BV2F: case E_F2BV: case E_BV2FLT: case E_FLT2BV: failed = true; return e->f ? fresh("bad", e->id) : ctx.bv_const(("bad!" + std::to_string(e->id)).c_str(), e->w);
        default: break;
        }
    }
    failed = true;
    return e->f ? ctx.constant(("bad!" + std::to_string(e->id)).c_str(), fsort(ctx, mode)) : ctx.bv_const(("bad!" + std::to_string(e->id)).c_str(), e->w);
}

std::string show(Expr *e, int depth) {
    static const char *nm[] = {"const","var","uf","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","u<","u<=","s<","s<=","zext","sext","extract","concat","ite",
        "f+","f*","f/","frem","fneg","fabs","sqrt","fun","fun","fun","f=","f<","f<=","isnan","sitofp","uitofp","fptosi","fptoui","bv2f","f2bv"};
    if (e->k == E_CONST) { char b[64]; if (e->f) snprintf(b, 64, "%.17g", asD(e->c)); else snprintf(b, 64, "%llu", (unsigned long long)e->c); return b; }
    if (e->k == E_VAR) return e->name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + (e->k == E_UF ? e->name : (e->k >= E_FFUN1 && e->k <= E_FFUN3) ? ffName[e->sub] : nm[e->k]);
    for (auto *x : e->a) s += " " + show(x, depth - 1);
    return s + ")";
}
