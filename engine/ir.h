// Decoded form of LLVM IR handed to the symbolic interpreter.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

enum LK : uint8_t { LI, LF32, LF64, LX80, LVOID };
struct Leaf {
    LK k = LI;
    uint16_t bits = 0;   // 1..64 (128 concrete only), 32, 64, 80
    uint32_t off = 0;    // byte offset inside the aggregate
    uint32_t bytes() const { return k == LX80 ? 10 : (bits + 7) / 8; }
};

struct Expr;
struct Val {
    uint64_t c = 0;
    Expr *e = nullptr;
    uint64_t hi = 0;
};

enum Op : uint16_t {
    O_NOP, O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BIN, O_FBIN, O_FNEG, O_ICMP, O_FCMP, O_CAST,
    O_SELECT, O_BR, O_JMP, O_SWITCH, O_RET, O_UNREACHABLE, O_CALL, O_LANDINGPAD, O_RESUME,
    O_MOVE, O_ATOMICRMW, O_CMPXCHG, O_UNSUPPORTED
};
enum BinK : uint8_t { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_AND, B_OR, B_XOR, B_SHL, B_LSHR, B_ASHR };
enum FBinK : uint8_t { F_ADD, F_SUB, F_MUL, F_DIV, F_REM };
enum CmpK : uint8_t { C_EQ, C_NE, C_UGT, C_UGE, C_ULT, C_ULE, C_SGT, C_SGE, C_SLT, C_SLE };
enum FCmpK : uint8_t { FC_FALSE, FC_OEQ, FC_OGT, FC_OGE, FC_OLT, FC_OLE, FC_ONE, FC_ORD, FC_UNO, FC_UEQ, FC_UGT, FC_UGE, FC_ULT, FC_ULE, FC_UNE, FC_TRUE };
enum CastK : uint8_t { K_ZEXT, K_SEXT, K_TRUNC, K_FPTOUI, K_FPTOSI, K_UITOFP, K_SITOFP, K_FPEXT, K_FPTRUNC, K_BITCAST, K_COPY };

// operand: >=0 slot, <0 constant pool index ~x ; OPUNDEF = undefined
typedef int32_t Opnd;
static const Opnd OPUNDEF = INT32_MIN;

struct PhiMove { int32_t dst; Opnd src; Leaf leaf; };
struct GepTerm { Opnd idx; int64_t scale; uint16_t bits; };
struct Clause { bool isCatch; uint64_t ti; };      // catch type-info address (0 = catch all)

struct DFunc;
struct DInst {
    Op op = O_NOP;
    uint8_t sub = 0;
    bool flagA = false;       // nsw / inbounds / volatile ...
    bool flagB = false;
    Leaf ty;                  // operand/result leaf type
    Leaf ty2;                 // source type of casts
    int32_t dst = -1;         // first destination slot
    std::vector<Opnd> ops;
    std::vector<Leaf> leaves; // for load/store/ret/call results
    // control
    int32_t t0 = -1, t1 = -1; // target pcs
    int32_t m0 = -1, m1 = -1; // phi move lists
    std::vector<uint64_t> caseVals;
    std::vector<std::pair<int32_t,int32_t>> caseTgt; // (pc, moves)
    // gep
    int64_t cst = 0;
    std::vector<GepTerm> terms;
    // call
    DFunc *callee = nullptr;
    Opnd fptr = OPUNDEF;
    std::vector<uint32_t> argStart; // for each IR argument: index of its first operand in ops
    std::vector<uint32_t> byval;    // per IR argument: byval size or 0
    bool invoke = false;
    // landing pad
    bool cleanup = false;
    std::vector<Clause> clauses;
    uint64_t size = 0;        // alloca elt size
    int32_t line = 0;
};

struct DFunc {
    std::string name;
    uint64_t addr = 0;
    bool decl = true;
    bool decoded = false;
    bool varargs = false;
    void *llvm = nullptr;
    int builtin = -2;         // -2 unresolved, -1 none
    int32_t nslots = 0;
    std::vector<int32_t> argSlots;  // flat arg slots in order
    std::vector<Leaf> argLeaves;
    std::vector<uint32_t> argStart; // flat index of each IR argument
    std::vector<Leaf> retLeaves;
    std::vector<DInst> code;
    std::vector<std::vector<PhiMove>> moves;
    std::string file;         // defining source file if known
    uint64_t executed = 0;
};

struct GlobalInit {
    std::string name;
    uint32_t objid = 0;
    uint64_t size = 0;
    bool constant = false;
    bool external = false;
    bool tlsGuard = false; // guard of a function-local thread_local, which the code addresses directly
    std::vector<uint8_t> bytes;
};

struct Program {
    std::vector<GlobalInit> globals;
    std::vector<DFunc *> funcs;
    std::unordered_map<std::string, DFunc *> byName;
    std::unordered_map<uint64_t, DFunc *> byAddr;
    std::unordered_map<std::string, uint64_t> globalAddr;
    std::unordered_map<uint64_t, std::string> addrName;
    std::vector<Val> pool;                 // constant pool
    std::vector<std::pair<int,uint64_t>> ctors; // priority, fn addr
    uint32_t firstFreeObj = 1;
};

static const int OBJ_SHIFT = 40;
static const uint64_t OBJ_BIAS = 0x10000;
static inline uint64_t objAddr(uint32_t id) { return ((uint64_t)id << OBJ_SHIFT) + OBJ_BIAS; }
static const uint64_t FN_BASE = 0xF000000000000000ull;

Program *loadProgram(const std::string &bc, std::string &err);
void decodeFunc(Program *P, DFunc *F);   // lazily decode a body
