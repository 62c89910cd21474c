// LLVM bitcode -> decoded IR. The only file that sees LLVM.
#include "ir.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <stdexcept>

using namespace llvm;

static LLVMContext *Ctx;
static Module *M;
static const DataLayout *DL;
static Program *PG;

struct Unsupp : std::runtime_error { using std::runtime_error::runtime_error; };

static void leavesOf(Type *T, uint32_t off, std::vector<Leaf> &out) {
    if (T->isVoidTy()) return;
    Leaf l; l.off = off;
    if (T->isIntegerTy()) { l.k = LI; l.bits = T->getIntegerBitWidth(); out.push_back(l); return; }
    if (T->isPointerTy()) { l.k = LI; l.bits = 64; out.push_back(l); return; }
    if (T->isFloatTy()) { l.k = LF32; l.bits = 32; out.push_back(l); return; }
    if (T->isDoubleTy()) { l.k = LF64; l.bits = 64; out.push_back(l); return; }
    if (T->isX86_FP80Ty()) { l.k = LX80; l.bits = 80; out.push_back(l); return; }
    if (auto *S = dyn_cast<StructType>(T)) {
        auto *SL = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++)
            leavesOf(S->getElementType(i), off + SL->getElementOffset(i), out);
        return;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL->getTypeAllocSize(A->getElementType());
        for (uint64_t i = 0; i < A->getNumElements(); i++) leavesOf(A->getElementType(), off + i * es, out);
        return;
    }
    if (auto *V = dyn_cast<FixedVectorType>(T)) {
        uint64_t es = DL->getTypeAllocSize(V->getElementType());
        for (uint64_t i = 0; i < V->getNumElements(); i++) leavesOf(V->getElementType(), off + i * es, out);
        return;
    }
    if (T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return;
    throw Unsupp("type");
}
static unsigned nLeaves(Type *T) { std::vector<Leaf> v; leavesOf(T, 0, v); return v.size(); }

static uint64_t constAddr(const Constant *C, bool &ok);
static void flatConst(const Constant *C, std::vector<Val> &vals, std::vector<bool> &undef);

static uint64_t globalAddress(const GlobalValue *G) {
    if (auto *A = dyn_cast<GlobalAlias>(G)) { bool ok = true; return constAddr(A->getAliasee(), ok); }
    if (isa<Function>(G)) {
        auto it = PG->byName.find(G->getName().str());
        return it->second->addr;
    }
    return PG->globalAddr.at(G->getName().str());
}
static uint64_t constAddr(const Constant *C, bool &ok) {
    if (auto *G = dyn_cast<GlobalValue>(C)) return globalAddress(G);
    if (isa<ConstantPointerNull>(C)) return 0;
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        std::vector<Val> v; std::vector<bool> u;
        flatConst(CE, v, u);
        return v[0].c;
    }
    ok = false;
    return 0;
}
static uint64_t maskw(uint64_t v, unsigned b) { return b >= 64 ? v : v & ((1ull << b) - 1); }

static void flatConst(const Constant *C, std::vector<Val> &vals, std::vector<bool> &undef) {
    Type *T = C->getType();
    auto push = [&](uint64_t c, uint64_t hi = 0) { Val v; v.c = c; v.hi = hi; vals.push_back(v); undef.push_back(false); };
    if (isa<UndefValue>(C)) { // includes poison
        unsigned n = nLeaves(T);
        for (unsigned i = 0; i < n; i++) { vals.push_back(Val()); undef.push_back(true); }
        return;
    }
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
        const APInt &a = CI->getValue();
        push(a.getRawData()[0], a.getNumWords() > 1 ? a.getRawData()[1] : 0);
        return;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
        APInt a = CF->getValueAPF().bitcastToAPInt();
        push(a.getRawData()[0], a.getNumWords() > 1 ? a.getRawData()[1] : 0);
        return;
    }
    if (isa<ConstantPointerNull>(C)) { push(0); return; }
    if (auto *G = dyn_cast<GlobalValue>(C)) { push(globalAddress(G)); return; }
    if (isa<ConstantAggregateZero>(C)) {
        unsigned n = nLeaves(T);
        for (unsigned i = 0; i < n; i++) push(0);
        return;
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
        for (unsigned i = 0; i < CA->getNumOperands(); i++) flatConst(CA->getOperand(i), vals, undef);
        return;
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < CD->getNumElements(); i++) flatConst(CD->getElementAsConstant(i), vals, undef);
        return;
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (auto *GE = dyn_cast<GEPOperator>(CE)) {
            APInt off(64, 0);
            if (!GE->accumulateConstantOffset(*DL, off)) throw Unsupp("const gep");
            std::vector<Val> b; std::vector<bool> u;
            flatConst(cast<Constant>(GE->getPointerOperand()), b, u);
            push(b[0].c + off.getZExtValue());
            return;
        }
        auto sub = [&](unsigned i) { std::vector<Val> b; std::vector<bool> u; flatConst(CE->getOperand(i), b, u); return b[0].c; };
        unsigned bits = T->isPointerTy() ? 64 : T->getScalarSizeInBits();
        switch (CE->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
            push(maskw(sub(0), bits)); return;
        case Instruction::Add: push(maskw(sub(0) + sub(1), bits)); return;
        case Instruction::Sub: push(maskw(sub(0) - sub(1), bits)); return;
        default: break;
        }
        throw Unsupp(std::string("constexpr ") + CE->getOpcodeName());
    }
    throw Unsupp("constant kind");
}

static void writeBytes(const Constant *C, uint64_t off, std::vector<uint8_t> &out) {
    std::vector<Leaf> ls; leavesOf(C->getType(), 0, ls);
    std::vector<Val> vs; std::vector<bool> un; flatConst(C, vs, un);
    for (size_t i = 0; i < ls.size(); i++) {
        uint8_t buf[16]; memcpy(buf, &vs[i].c, 8); memcpy(buf + 8, &vs[i].hi, 8);
        for (uint32_t b = 0; b < ls[i].bytes(); b++)
            if (off + ls[i].off + b < out.size()) out[off + ls[i].off + b] = buf[b];
    }
}

Program *loadProgram(const std::string &bc, std::string &err) {
    Ctx = new LLVMContext();
    SMDiagnostic d;
    auto mod = parseIRFile(bc, d, *Ctx);
    if (!mod) { err = d.getMessage().str(); return nullptr; }
    M = mod.release();
    DL = &M->getDataLayout();
    Program *P = PG = new Program();
    uint32_t id = 1;
    uint64_t fa = FN_BASE;
    for (Function &F : *M) {
        auto *D = new DFunc();
        D->name = F.getName().str();
        D->addr = fa; fa += 16;
        D->decl = F.isDeclaration();
        D->llvm = &F;
        D->varargs = F.isVarArg();
        if (auto *SP = F.getSubprogram()) D->file = SP->getFilename().str();
        P->funcs.push_back(D);
        P->byName[D->name] = D;
        P->byAddr[D->addr] = D;
        P->addrName[D->addr] = D->name;
    }
    for (GlobalVariable &G : M->globals()) {
        GlobalInit gi;
        gi.name = G.getName().str();
        gi.objid = id++;
        gi.constant = G.isConstant();
        gi.external = G.isDeclaration();
        gi.size = gi.external ? 1024 : (uint64_t)DL->getTypeAllocSize(G.getValueType());
        P->globalAddr[gi.name] = objAddr(gi.objid);
        P->addrName[objAddr(gi.objid)] = gi.name;
        gi.tlsGuard = G.isThreadLocal() && (gi.name.rfind("_ZGV", 0) == 0 || gi.name.rfind("__tls_guard", 0) == 0);
        P->globals.push_back(gi);
    }
    P->firstFreeObj = id;
    size_t k = 0;
    for (GlobalVariable &G : M->globals()) {
        GlobalInit &gi = P->globals[k++];
        gi.bytes.assign(gi.size, 0);
        if (G.hasInitializer() && gi.name.rfind("llvm.", 0) != 0) {
            try { writeBytes(G.getInitializer(), 0, gi.bytes); } catch (Unsupp &u) { err = gi.name + ": " + u.what(); }
        }
    }
    if (auto *GC = M->getGlobalVariable("llvm.global_ctors"))
        if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer()))
            for (unsigned i = 0; i < CA->getNumOperands(); i++) {
                auto *S = cast<ConstantStruct>(CA->getOperand(i));
                P->ctors.push_back({(int)cast<ConstantInt>(S->getOperand(0))->getSExtValue(), globalAddress(cast<GlobalValue>(S->getOperand(1)->stripPointerCasts()))});
            }
    std::stable_sort(P->ctors.begin(), P->ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    // argument layout of every function
    for (DFunc *D : P->funcs) {
        Function &F = *(Function *)D->llvm;
        try {
            leavesOf(F.getReturnType(), 0, D->retLeaves);
            for (auto &A : F.args()) {
                D->argStart.push_back(D->argLeaves.size());
                leavesOf(A.getType(), 0, D->argLeaves);
            }
        } catch (Unsupp &) {}
    }
    return P;
}

static std::map<std::pair<uint64_t,uint64_t>, int32_t> poolIdx;
static Opnd poolOp(const Val &v) {
    auto key = std::make_pair(v.c, v.hi);
    auto it = poolIdx.find(key);
    if (it == poolIdx.end()) { it = poolIdx.emplace(key, (int32_t)PG->pool.size()).first; PG->pool.push_back(v); }
    return ~it->second;
}

void decodeFunc(Program *P, DFunc *D) {
    if (D->decoded) return;
    D->decoded = true;
    Function &F = *(Function *)D->llvm;
    std::unordered_map<const Value *, int32_t> slot;
    int32_t ns = 0;
    for (auto &A : F.args()) {
        slot[&A] = ns;
        unsigned n = nLeaves(A.getType());
        for (unsigned i = 0; i < n; i++) D->argSlots.push_back(ns++);
    }
    std::unordered_map<const BasicBlock *, int32_t> bbpc;
    // assign slots
    for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) {
        unsigned n = 0;
        try { n = nLeaves(I.getType()); } catch (Unsupp &) { n = 1; }
        slot[&I] = ns; ns += n;
    }
    D->nslots = ns;
    auto opnds = [&](const Value *V, std::vector<Opnd> &out) {
        auto it = slot.find(V);
        if (it != slot.end()) {
            unsigned n = nLeaves(V->getType());
            for (unsigned i = 0; i < n; i++) out.push_back(it->second + i);
            return;
        }
        if (auto *C = dyn_cast<Constant>(V)) {
            std::vector<Val> vs; std::vector<bool> un;
            flatConst(C, vs, un);
            for (size_t i = 0; i < vs.size(); i++) out.push_back(un[i] ? OPUNDEF : poolOp(vs[i]));
            return;
        }
        throw Unsupp("operand");
    };
    struct Fix { size_t pc; int which; const BasicBlock *to; size_t ci; };
    std::vector<Fix> fixes;
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> int32_t {
        std::vector<PhiMove> mv;
        for (auto &I : *to) {
            auto *PN = dyn_cast<PHINode>(&I);
            if (!PN) break;
            const Value *in = PN->getIncomingValueForBlock(from);
            std::vector<Opnd> o; opnds(in, o);
            std::vector<Leaf> ls; leavesOf(PN->getType(), 0, ls);
            for (size_t i = 0; i < o.size(); i++) mv.push_back({slot[PN] + (int32_t)i, o[i], ls[i]});
        }
        if (mv.empty()) return -1;
        D->moves.push_back(mv);
        return (int32_t)D->moves.size() - 1;
    };
    for (auto &B : F) {
        bbpc[&B] = (int32_t)D->code.size();
        for (auto &I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            DInst d;
            if (const DebugLoc &dl = I.getDebugLoc()) d.line = dl.getLine();
            auto it = slot.find(&I);
            if (it != slot.end()) d.dst = it->second;
            try {
                auto leaf1 = [&](Type *T) { std::vector<Leaf> ls; leavesOf(T, 0, ls); if (ls.size() != 1) throw Unsupp("vector op"); return ls[0]; };
                if (auto *A = dyn_cast<AllocaInst>(&I)) {
                    d.op = O_ALLOCA;
                    d.size = DL->getTypeAllocSize(A->getAllocatedType());
                    opnds(A->getArraySize(), d.ops);
                } else if (auto *L = dyn_cast<LoadInst>(&I)) {
                    d.op = O_LOAD; leavesOf(L->getType(), 0, d.leaves); d.sub = L->isAtomic() && d.leaves.size() == 1;
                    opnds(L->getPointerOperand(), d.ops);
                } else if (auto *S = dyn_cast<StoreInst>(&I)) {
                    d.op = O_STORE; leavesOf(S->getValueOperand()->getType(), 0, d.leaves); d.sub = S->isAtomic() && d.leaves.size() == 1;
                    opnds(S->getPointerOperand(), d.ops);
                    opnds(S->getValueOperand(), d.ops);
                } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                    d.op = O_GEP;
                    opnds(G->getPointerOperand(), d.ops);
                    if (d.ops.size() != 1) throw Unsupp("vector gep");
                    for (auto ti = gep_type_begin(G), te = gep_type_end(G); ti != te; ++ti) {
                        if (StructType *ST = ti.getStructTypeOrNull()) {
                            unsigned f = cast<ConstantInt>(ti.getOperand())->getZExtValue();
                            d.cst += DL->getStructLayout(ST)->getElementOffset(f);
                        } else {
                            int64_t sc = DL->getTypeAllocSize(ti.getIndexedType());
                            if (auto *CI = dyn_cast<ConstantInt>(ti.getOperand())) { d.cst += sc * CI->getSExtValue(); continue; }
                            std::vector<Opnd> o; opnds(ti.getOperand(), o);
                            d.terms.push_back({o[0], sc, (uint16_t)ti.getOperand()->getType()->getIntegerBitWidth()});
                        }
                    }
                } else if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
                    d.ty = leaf1(BO->getType());
                    opnds(BO->getOperand(0), d.ops); opnds(BO->getOperand(1), d.ops);
                    d.op = O_BIN;
                    switch (BO->getOpcode()) {
                    case Instruction::Add: d.sub = B_ADD; break;
                    case Instruction::Sub: d.sub = B_SUB; break;
                    case Instruction::Mul: d.sub = B_MUL; break;
                    case Instruction::UDiv: d.sub = B_UDIV; break;
                    case Instruction::SDiv: d.sub = B_SDIV; break;
                    case Instruction::URem: d.sub = B_UREM; break;
                    case Instruction::SRem: d.sub = B_SREM; break;
                    case Instruction::And: d.sub = B_AND; break;
                    case Instruction::Or: d.sub = B_OR; break;
                    case Instruction::Xor: d.sub = B_XOR; break;
                    case Instruction::Shl: d.sub = B_SHL; break;
                    case Instruction::LShr: d.sub = B_LSHR; break;
                    case Instruction::AShr: d.sub = B_ASHR; break;
                    case Instruction::FAdd: d.op = O_FBIN; d.sub = F_ADD; break;
                    case Instruction::FSub: d.op = O_FBIN; d.sub = F_SUB; break;
                    case Instruction::FMul: d.op = O_FBIN; d.sub = F_MUL; break;
                    case Instruction::FDiv: d.op = O_FBIN; d.sub = F_DIV; break;
                    case Instruction::FRem: d.op = O_FBIN; d.sub = F_REM; break;
                    default: throw Unsupp("binop");
                    }
                    if (auto *OB = dyn_cast<OverflowingBinaryOperator>(BO)) { d.flagA = OB->hasNoSignedWrap(); d.flagB = OB->hasNoUnsignedWrap(); }
                } else if (auto *UO = dyn_cast<UnaryOperator>(&I)) {
                    d.op = O_FNEG; d.ty = leaf1(UO->getType()); opnds(UO->getOperand(0), d.ops);
                } else if (auto *IC = dyn_cast<ICmpInst>(&I)) {
                    d.op = O_ICMP; d.ty = leaf1(IC->getOperand(0)->getType());
                    opnds(IC->getOperand(0), d.ops); opnds(IC->getOperand(1), d.ops);
                    switch (IC->getPredicate()) {
                    case CmpInst::ICMP_EQ: d.sub = C_EQ; break; case CmpInst::ICMP_NE: d.sub = C_NE; break;
                    case CmpInst::ICMP_UGT: d.sub = C_UGT; break; case CmpInst::ICMP_UGE: d.sub = C_UGE; break;
                    case CmpInst::ICMP_ULT: d.sub = C_ULT; break; case CmpInst::ICMP_ULE: d.sub = C_ULE; break;
                    case CmpInst::ICMP_SGT: d.sub = C_SGT; break; case CmpInst::ICMP_SGE: d.sub = C_SGE; break;
                    case CmpInst::ICMP_SLT: d.sub = C_SLT; break; case CmpInst::ICMP_SLE: d.sub = C_SLE; break;
                    default: throw Unsupp("icmp");
                    }
                } else if (auto *FC = dyn_cast<FCmpInst>(&I)) {
                    d.op = O_FCMP; d.ty = leaf1(FC->getOperand(0)->getType());
                    opnds(FC->getOperand(0), d.ops); opnds(FC->getOperand(1), d.ops);
                    static const FCmpK mp[] = {FC_FALSE, FC_OEQ, FC_OGT, FC_OGE, FC_OLT, FC_OLE, FC_ONE, FC_ORD, FC_UNO, FC_UEQ, FC_UGT, FC_UGE, FC_ULT, FC_ULE, FC_UNE, FC_TRUE};
                    d.sub = mp[FC->getPredicate()];
                } else if (auto *CI = dyn_cast<CastInst>(&I)) {
                    d.op = O_CAST;
                    std::vector<Leaf> ld, lsrc; leavesOf(CI->getDestTy(), 0, ld); leavesOf(CI->getSrcTy(), 0, lsrc);
                    if (ld.size() != 1 || lsrc.size() != 1) throw Unsupp("vector cast");
                    d.ty = ld[0]; d.ty2 = lsrc[0];
                    opnds(CI->getOperand(0), d.ops);
                    switch (CI->getOpcode()) {
                    case Instruction::ZExt: d.sub = K_ZEXT; break; case Instruction::SExt: d.sub = K_SEXT; break;
                    case Instruction::Trunc: d.sub = K_TRUNC; break;
                    case Instruction::FPToUI: d.sub = K_FPTOUI; break; case Instruction::FPToSI: d.sub = K_FPTOSI; break;
                    case Instruction::UIToFP: d.sub = K_UITOFP; break; case Instruction::SIToFP: d.sub = K_SITOFP; break;
                    case Instruction::FPExt: d.sub = K_FPEXT; break; case Instruction::FPTrunc: d.sub = K_FPTRUNC; break;
                    case Instruction::BitCast: d.sub = K_BITCAST; break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr:
                        d.sub = d.ty.bits < d.ty2.bits ? K_TRUNC : d.ty.bits > d.ty2.bits ? K_ZEXT : K_COPY; break;
                    default: throw Unsupp("cast");
                    }
                } else if (auto *SI = dyn_cast<SelectInst>(&I)) {
                    d.op = O_SELECT; leavesOf(SI->getType(), 0, d.leaves);
                    opnds(SI->getCondition(), d.ops);
                    if (d.ops.size() != 1) throw Unsupp("vector select");
                    opnds(SI->getTrueValue(), d.ops); opnds(SI->getFalseValue(), d.ops);
                    d.flagA = SI->getType()->isPointerTy();
                } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
                    size_t pc = D->code.size();
                    if (BI->isConditional()) {
                        d.op = O_BR; opnds(BI->getCondition(), d.ops);
                        d.m0 = edge(&B, BI->getSuccessor(0)); d.m1 = edge(&B, BI->getSuccessor(1));
                        fixes.push_back({pc, 0, BI->getSuccessor(0), 0}); fixes.push_back({pc, 1, BI->getSuccessor(1), 0});
                    } else {
                        d.op = O_JMP; d.m0 = edge(&B, BI->getSuccessor(0));
                        fixes.push_back({pc, 0, BI->getSuccessor(0), 0});
                    }
                } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
                    size_t pc = D->code.size();
                    d.op = O_SWITCH; d.ty = leaf1(SW->getCondition()->getType());
                    opnds(SW->getCondition(), d.ops);
                    d.m0 = edge(&B, SW->getDefaultDest());
                    fixes.push_back({pc, 0, SW->getDefaultDest(), 0});
                    size_t ci = 0;
                    for (auto &c : SW->cases()) {
                        d.caseVals.push_back(c.getCaseValue()->getZExtValue());
                        d.caseTgt.push_back({-1, edge(&B, c.getCaseSuccessor())});
                        fixes.push_back({pc, 2, c.getCaseSuccessor(), ci++});
                    }
                } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
                    d.op = O_RET;
                    if (R->getReturnValue()) { opnds(R->getReturnValue(), d.ops); leavesOf(R->getReturnValue()->getType(), 0, d.leaves); }
                } else if (isa<UnreachableInst>(I)) {
                    d.op = O_UNREACHABLE;
                } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                    d.op = O_CALL;
                    const Value *cv = CB->getCalledOperand()->stripPointerCasts();
                    if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
                    if (CB->isInlineAsm()) { auto *IA = cast<InlineAsm>(CB->getCalledOperand()); if (!IA->getAsmString().empty()) throw Unsupp("inline asm"); d.op = O_NOP; }
                    else if (auto *CF = dyn_cast<Function>(cv)) d.callee = P->byName.at(CF->getName().str());
                    else { std::vector<Opnd> o; opnds(CB->getCalledOperand(), o); d.fptr = o[0]; }
                    leavesOf(CB->getType(), 0, d.leaves);
                    bool isIntr = isa<IntrinsicInst>(CB);
                    for (unsigned i = 0; i < CB->arg_size(); i++) {
                        d.argStart.push_back(d.ops.size());
                        d.byval.push_back(CB->isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(CB->getParamByValType(i)) : 0);
                        Value *a = CB->getArgOperand(i);
                        if (a->getType()->isMetadataTy()) { if (isIntr) { continue; } throw Unsupp("metadata arg"); }
                        opnds(a, d.ops);
                    }
                    d.argStart.push_back(d.ops.size());
                    if (isIntr) {
                        std::vector<Leaf> al;
                        if (CB->arg_size() && !CB->getArgOperand(0)->getType()->isMetadataTy()) leavesOf(CB->getArgOperand(0)->getType(), 0, al);
                        if (al.size() == 1) d.ty = al[0];
                    }
                    if (auto *II = dyn_cast<InvokeInst>(CB)) {
                        size_t pc = D->code.size();
                        d.invoke = true;
                        d.m0 = edge(&B, II->getNormalDest()); d.m1 = edge(&B, II->getUnwindDest());
                        fixes.push_back({pc, 0, II->getNormalDest(), 0}); fixes.push_back({pc, 1, II->getUnwindDest(), 0});
                    }
                } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                    d.op = O_LANDINGPAD; d.cleanup = LP->isCleanup();
                    for (unsigned i = 0; i < LP->getNumClauses(); i++) {
                        Clause c;
                        c.isCatch = LP->isCatch(i);
                        c.ti = 0;
                        if (c.isCatch) { bool ok = true; c.ti = constAddr(LP->getClause(i), ok); }
                        d.clauses.push_back(c);
                    }
                } else if (auto *RI = dyn_cast<ResumeInst>(&I)) {
                    d.op = O_RESUME; opnds(RI->getValue(), d.ops);
                } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
                    d.op = O_MOVE;
                    std::vector<Opnd> all; opnds(EV->getAggregateOperand(), all);
                    Type *T = EV->getAggregateOperand()->getType(); unsigned base = 0;
                    for (unsigned ix : EV->indices()) {
                        for (unsigned j = 0; j < ix; j++) base += nLeaves(isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType());
                        T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType();
                    }
                    leavesOf(EV->getType(), 0, d.leaves);
                    for (size_t i = 0; i < d.leaves.size(); i++) d.ops.push_back(all[base + i]);
                } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
                    d.op = O_MOVE;
                    opnds(IV->getAggregateOperand(), d.ops);
                    std::vector<Opnd> nv; opnds(IV->getInsertedValueOperand(), nv);
                    Type *T = IV->getType(); unsigned base = 0;
                    for (unsigned ix : IV->indices()) {
                        for (unsigned j = 0; j < ix; j++) base += nLeaves(isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType());
                        T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType();
                    }
                    for (size_t i = 0; i < nv.size(); i++) d.ops[base + i] = nv[i];
                    leavesOf(IV->getType(), 0, d.leaves);
                } else if (auto *EE = dyn_cast<ExtractElementInst>(&I)) {
                    auto *ci = dyn_cast<ConstantInt>(EE->getIndexOperand());
                    if (!ci) throw Unsupp("extractelement");
                    d.op = O_MOVE; std::vector<Opnd> all; opnds(EE->getVectorOperand(), all);
                    d.ops.push_back(all.at(ci->getZExtValue())); leavesOf(EE->getType(), 0, d.leaves);
                } else if (auto *IE = dyn_cast<InsertElementInst>(&I)) {
                    auto *ci = dyn_cast<ConstantInt>(IE->getOperand(2));
                    if (!ci) throw Unsupp("insertelement");
                    d.op = O_MOVE; opnds(IE->getOperand(0), d.ops);
                    std::vector<Opnd> nv; opnds(IE->getOperand(1), nv);
                    d.ops.at(ci->getZExtValue()) = nv[0]; leavesOf(IE->getType(), 0, d.leaves);
                } else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
                    d.op = O_MOVE; std::vector<Opnd> all; opnds(SV->getOperand(0), all); opnds(SV->getOperand(1), all);
                    for (int m : SV->getShuffleMask()) d.ops.push_back(m < 0 ? OPUNDEF : all.at(m));
                    leavesOf(SV->getType(), 0, d.leaves);
                } else if (isa<FreezeInst>(I)) {
                    d.op = O_MOVE; opnds(I.getOperand(0), d.ops); leavesOf(I.getType(), 0, d.leaves);
                } else if (auto *AR = dyn_cast<AtomicRMWInst>(&I)) {
                    d.op = O_ATOMICRMW; d.ty = leaf1(AR->getType());
                    opnds(AR->getPointerOperand(), d.ops); opnds(AR->getValOperand(), d.ops);
                    switch (AR->getOperation()) {
                    case AtomicRMWInst::Add: d.sub = 0; break; case AtomicRMWInst::Sub: d.sub = 1; break;
                    case AtomicRMWInst::Xchg: d.sub = 2; break; case AtomicRMWInst::Or: d.sub = 3; break; case AtomicRMWInst::And: d.sub = 4; break;
                    default: throw Unsupp("atomicrmw");
                    }
                } else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) {
                    d.op = O_CMPXCHG; d.ty = leaf1(CX->getCompareOperand()->getType());
                    opnds(CX->getPointerOperand(), d.ops); opnds(CX->getCompareOperand(), d.ops); opnds(CX->getNewValOperand(), d.ops);
                } else if (isa<FenceInst>(I)) {
                    d.op = O_NOP;
                } else throw Unsupp(I.getOpcodeName());
            } catch (Unsupp &u) {
                d.op = O_UNSUPPORTED;
                // remember why through the line field only
                fprintf(stderr, "[front] unsupported in %s: %s\n", D->name.c_str(), u.what());
            }
            D->code.push_back(std::move(d));
        }
    }
    for (auto &f : fixes) {
        int32_t pc = bbpc.at(f.to);
        if (f.which == 0) D->code[f.pc].t0 = pc;
        else if (f.which == 1) D->code[f.pc].t1 = pc;
        else D->code[f.pc].caseTgt[f.ci].first = pc;
    }
}
