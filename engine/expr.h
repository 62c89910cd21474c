// Hash-consed symbolic expressions, concrete evaluation, and lowering to Z3 in three modes:
//  UF    : doubles are 64-bit vectors; comparisons/neg/abs are the exact IEEE definitions, arithmetic is uninterpreted
//  EXACT : doubles are IEEE binary64, round-to-nearest-even
//  REAL  : doubles are mathematical reals (NaN/Inf/rounding excluded)
#pragma once
#include "ir.h"
#include <functional>
#include <string>
#include <vector>
#include <z3++.h>

enum EK : uint8_t {
    E_CONST, E_VAR, E_UF,
    // bit-vector
    E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE,
    // floating point (sort F)
    E_FADD, E_FMUL, E_FDIV, E_FREM, E_FNEG, E_FABS, E_FSQRT, E_FFUN1, E_FFUN2, E_FFUN3,
    E_FOEQ, E_FOLT, E_FOLE, E_FUNO,
    E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_BV2F, E_F2BV,
    E_BV2FLT, E_FLT2BV    // binary32 values are carried as the double they equal; these give and take their 32 bits
};
// functions used with E_FFUN1/2/3 (sub)
enum FF : uint8_t {
    FF_SIN, FF_COS, FF_TAN, FF_ASIN, FF_ACOS, FF_ATAN, FF_EXP, FF_LOG, FF_FLOOR, FF_CEIL, FF_ROUND, FF_TRUNC, FF_RINT,
    FF_FLT, FF_LOG10, FF_LOG2, FF_EXP2, FF_CBRT, FF_SINH, FF_COSH, FF_TANH, FF_EXPM1, FF_LOG1P,
    FF_POW, FF_ATAN2, FF_FMOD, FF_HYPOT, FF_FMIN, FF_FMAX, FF_FMA, FF_N
};
extern const char *ffName[];

struct Expr {
    EK k;
    uint8_t sub = 0;
    bool f = false;       // sort: true = double
    uint16_t w = 0;       // bits (64 for doubles)
    uint32_t id = 0;
    uint64_t c = 0;       // constant value, extract low bit, var index
    std::vector<Expr *> a;
    std::string name;     // var / uf name
};

Expr *eConst(unsigned w, uint64_t c);
Expr *eConstF(double d);
Expr *eVar(const std::string &n, unsigned w, bool f);
Expr *eUF(const std::string &n, unsigned w, bool f, const std::vector<Expr *> &args);
Expr *eBin(EK k, Expr *a, Expr *b);
Expr *eCmp(EK k, Expr *a, Expr *b);      // EQ ULT ULE SLT SLE -> 1 bit
Expr *eNot(Expr *a);                     // 1 bit
Expr *eAnd1(Expr *a, Expr *b);
Expr *eOr1(Expr *a, Expr *b);
Expr *eZext(Expr *a, unsigned w);
Expr *eSext(Expr *a, unsigned w);
Expr *eExtract(Expr *a, unsigned lo, unsigned w);
Expr *eConcat(Expr *hi, Expr *lo);
Expr *eIte(Expr *c, Expr *t, Expr *e);
Expr *eF(EK k, Expr *a, Expr *b);        // FADD FMUL FDIV FREM
Expr *eFsub(Expr *a, Expr *b);
Expr *eF1(EK k, Expr *a);                // FNEG FABS FSQRT
Expr *eFun(FF f, const std::vector<Expr *> &a);
Expr *eFcmp(EK k, Expr *a, Expr *b);     // FOEQ FOLT FOLE FUNO
Expr *eToF(EK k, Expr *a);               // SITOFP UITOFP BV2F
Expr *eFromF(EK k, Expr *a, unsigned w); // FPTOSI FPTOUI F2BV
Expr *eIsTrue();

// assertion-only nodes: equality of doubles kept un-simplified
Expr *eRawSame(Expr *a, Expr *b);        // both NaN or numerically equal (== or both NaN)

typedef std::unordered_map<Expr *, uint64_t> Assign;       // vars -> bits
struct UFTable { std::map<std::pair<std::string, std::vector<uint64_t>>, uint64_t> t; };
struct Evaluator {
    const Assign *as = nullptr;
    UFTable *uf = nullptr;
    std::function<bool(Expr *, uint64_t &)> ufHint;
    std::unordered_map<Expr *, uint64_t> memo;
    uint64_t eval(Expr *e);
};
uint64_t foldOp(Expr *e, const uint64_t *v);
double ffEval(FF f, const double *a);

enum Mode { M_UF = 0, M_EXACT = 1, M_REAL = 2 };
extern const char *modeName[];

struct Stats {
    uint64_t queries[3] = {0, 0, 0};
    uint64_t sat = 0, unsat = 0, unknown = 0;
    double solverTime = 0, maxQuery = 0;
};

struct Lowering {
    z3::context &ctx;
    Mode mode;
    std::vector<Z3_ast> memo;            // by expr id
    std::unordered_map<uint32_t, std::vector<z3::expr>> side; // definitional constraints by owning expr id
    bool failed = false;                 // (sticky; reset by the caller) construct not expressible in this mode
    std::unordered_map<std::string, Z3_func_decl> ufs;
    Lowering(z3::context &c, Mode m) : ctx(c), mode(m) {}
    z3::expr low(Expr *e);               // bit-vector / bool(1-bit as Bool) / double in mode sort
    z3::expr lowBool(Expr *e);
    z3::expr lowBV(Expr *e);
private:
    z3::expr build(Expr *e);
    z3::func_decl uf(const std::string &n, const std::vector<z3::sort> &dom, const z3::sort &rng);
    void addSide(Expr *o, const z3::expr &c) { side[o->id].push_back(c); }
    z3::expr fterm(Expr *e);
};
void collectDeps(Expr *e, std::vector<bool> &seen, std::vector<Expr *> &out);
std::string show(Expr *e, int depth = 6);

extern bool gKeepTrig;   // do not fold sin/cos/atan of constants (exact trigonometric identities in REAL mode)
uint32_t exprCount();
Expr *exprById(uint32_t id);
