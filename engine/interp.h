#pragma once
#include "expr.h"
#include <chrono>
#include <memory>
#include <set>

struct SymB { Expr *e = nullptr; uint8_t idx = 0; };
enum OK : uint8_t { OK_GLOBAL, OK_STACK, OK_HEAP, OK_EXC };
struct Epoch { int task = -1; uint32_t clk = 0; };
struct Obj {
    uint64_t size = 0;
    OK kind = OK_GLOBAL;
    bool alive = false, inScope = true, ro = false, dirty = false, frozen = false, tlsGuard = false;
    uint8_t how = 0;                // 0 malloc, 1 new, 2 new[]
    std::vector<uint8_t> b;
    std::vector<uint8_t> init;      // empty = all initialised
    std::vector<SymB> s;            // empty = all concrete
    std::vector<Epoch> wr;          // race shadow per byte, only when race detection is on
    std::vector<std::vector<Epoch>> rd;
    std::string where;
};

enum EndKind { END_DONE, END_ASSUME, END_ERROR, END_LIMIT, END_UNSUPP, END_INFEASIBLE, END_SHARD };
struct PathEnd { EndKind k; std::string kind, msg; };

struct Decision { uint8_t type; bool forced; uint64_t val; };   // 0 branch, 1 pick, 2 choose

struct Assertion {
    int kind;           // 0 bool, 1 num, 2 same
    std::string label;
    Expr *cond;         // condition that must hold
    Expr *a = nullptr, *b = nullptr;
};

struct Frame {
    DFunc *f; uint32_t pc; uint32_t base;
    std::vector<uint32_t> allocas;
    int special = 0;    // 1: discard result (destructor of an exception)
};
