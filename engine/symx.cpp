// symx: a symbolic executor for LLVM-18 bitcode (C++ code with exceptions), deciding branches and
// assertions with an SMT solver. Paths are separate processes (fork at symbolic branches).
#include "solver.hpp"

#include <atomic>
#include <cmath>
#include <cstdarg>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <llvm/ADT/APInt.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

// ------------------------------------------------------------------ shared state
struct Shared {
    std::atomic<int> tokens;
    std::atomic<int> stop;
    std::atomic<u64> started, ended;
    std::atomic<u64> pathsOk, pathsAssume, pathsViol, pathsUnsup, pathsUnk, pathsExc;
    std::atomic<u64> forks, insts, checks, checksSym, checksUnsat, checksConst, checksFail, unkBranches;
    std::atomic<u64> queries, cacheHits, sat, unsat, unk, intq;
    std::atomic<u64> solverUs;
    std::atomic<u64> live, maxDepth;
    std::atomic<u64> nviol;
    std::atomic<u64> violPer[256];
    std::atomic<u64> reach[256];
    std::atomic<u64> checkPer[512];
    std::atomic<u8> fnHit[1]; // trailing
};
static Shared *S;
static size_t gNFn;

static std::string gOutPath, gEntry;
static int gOutFd = -1;
static double gDeadline = 0, gQTime = 0;
static int gJobs = 8;
static bool gVerbose = false, gTrace = false;
static u64 gMaxPaths = 2000000, gMaxInst = 200000000ull;
static int gMaxViolPerId = 3;

static void emit(const std::string &line)
{
    std::string s = line + "\n";
    ssize_t r = write(gOutFd, s.data(), s.size());
    (void)r;
}
static std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// ------------------------------------------------------------------ values
struct Val {
    u128 c = 0;
    E e = nullptr;
    std::vector<Val> *agg = nullptr;
    Val() = default;
    explicit Val(u128 x) : c(x) {}
    explicit Val(E x) { if (x->op == O_CONST) c = x->c; else e = x; }
};
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ------------------------------------------------------------------ memory
struct SymB { E e; u8 idx; };
struct Obj {
    u64 base, size;
    u8 *data = nullptr;
    u8 *st = nullptr; // 0 concrete, 1 symbolic, 2 undef
    SymB *sym = nullptr;
    bool alive = true, ro = false;
    u8 kind; // 'g' global 's' stack 'h' heap 'x' external
    const char *name = "";
};
static std::vector<Obj *> gObjs;
static u64 gNextAddr = 0x100000000ull;
static u64 gUndefCount = 0;

struct PathEnd { std::string kind, msg; };

[[noreturn]] static void endPath(const std::string &kind, const std::string &msg) { throw PathEnd{kind, msg}; }
[[noreturn]] static void unsupported(const std::string &m) { endPath("unsupported", m); }

static Obj *newObj(u64 size, char kind, u8 initState, const char *name = "")
{
    Obj *o = new Obj;
    o->base = gNextAddr;
    o->size = size;
    u64 adv = (size + 64 + 31) & ~31ull;
    gNextAddr += adv;
    o->data = (u8 *)calloc(size ? size : 1, 1);
    o->st = (u8 *)malloc(size ? size : 1);
    memset(o->st, initState, size ? size : 1);
    o->kind = kind;
    o->name = name;
    gObjs.push_back(o);
    return o;
}
static Obj *gLastObj = nullptr;
static Obj *findObj(u64 a)
{
    if (gLastObj && a >= gLastObj->base && a < gLastObj->base + gLastObj->size) return gLastObj;
    size_t lo = 0, hi = gObjs.size();
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if (gObjs[m]->base <= a) lo = m + 1; else hi = m;
    }
    if (!lo) return nullptr;
    Obj *o = gObjs[lo - 1];
    if (a >= o->base && a <= o->base + o->size) { gLastObj = o; return o; }
    return nullptr;
}
static void freeObj(Obj *o)
{
    o->alive = false;
    free(o->data); free(o->st); free(o->sym);
    o->data = o->st = nullptr; o->sym = nullptr;
}
static Obj *access(u64 a, u64 n, bool wr)
{
    Obj *o = findObj(a);
    if (!o || a + n > o->base + o->size) {
        char b[160];
        snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at address %#llx (%s)", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a,
                 o ? (o->kind == 'h' ? "heap" : o->kind == 's' ? "stack" : "global") : (a < 4096 ? "null" : "no object"));
        endPath("memory", b);
    }
    if (!o->alive) endPath("memory", std::string("use after free/scope (") + (wr ? "write)" : "read)"));
    if (wr && o->ro) endPath("memory", std::string("write to constant ") + o->name);
    if (o->kind == 'x') unsupported(std::string("access to external object ") + o->name);
    return o;
}

static Val loadMem(u64 a, unsigned bytes, unsigned bits)
{
    Obj *o = access(a, bytes, false);
    u64 off = a - o->base;
    const u8 *st = o->st + off;
    bool conc = true;
    for (unsigned i = 0; i < bytes; ++i) if (st[i]) { conc = false; break; }
    if (conc) {
        u128 v = 0;
        memcpy(&v, o->data + off, bytes);
        return Val(v & maskw(bits));
    }
    bool allUndef = true;
    for (unsigned i = 0; i < bytes; ++i) if (st[i] != 2) { allUndef = false; break; }
    if (!o->sym) o->sym = (SymB *)calloc(o->size, sizeof(SymB));
    if (allUndef) {
        E v = mkVar("undef" + std::to_string(gUndefCount++), bytes * 8);
        for (unsigned i = 0; i < bytes; ++i) { o->st[off + i] = 1; o->sym[off + i] = {v, (u8)i}; }
    } else
        for (unsigned i = 0; i < bytes; ++i)
            if (st[i] == 2) { o->st[off + i] = 1; o->sym[off + i] = {mkVar("undef" + std::to_string(gUndefCount++), 8), 0}; }
    E r = nullptr;
    for (unsigned i = 0; i < bytes;) {
        E p;
        unsigned j = i + 1;
        if (o->st[off + i] == 0) {
            while (j < bytes && o->st[off + j] == 0) ++j;
            u128 v = 0;
            memcpy(&v, o->data + off + i, j - i);
            p = mkConst(v, (j - i) * 8);
        } else {
            SymB b = o->sym[off + i];
            while (j < bytes && o->st[off + j] == 1 && o->sym[off + j].e == b.e && o->sym[off + j].idx == b.idx + (j - i)) ++j;
            p = mkExtract(b.e, b.idx * 8, (j - i) * 8);
        }
        r = r ? mkConcat(p, r) : p;
        i = j;
    }
    if (bits < bytes * 8) r = mkExtract(r, 0, bits);
    return Val(r);
}
static void storeMem(u64 a, unsigned bytes, const Val &v, unsigned bits, bool init = false)
{
    Obj *o;
    if (init) o = findObj(a); else o = access(a, bytes, true);
    u64 off = a - o->base;
    if (!v.e) {
        u128 x = v.c & maskw(bits);
        memcpy(o->data + off, &x, bytes);
        memset(o->st + off, 0, bytes);
        return;
    }
    if (!o->sym) o->sym = (SymB *)calloc(o->size, sizeof(SymB));
    E e = v.e;
    if (e->w < bytes * 8) e = mkZExt(e, bytes * 8);
    for (unsigned i = 0; i < bytes; ++i) {
        // keep concrete bytes concrete when cheap
        o->st[off + i] = 1;
        o->sym[off + i] = {e, (u8)i};
    }
    if (e->op == O_ZEXT || e->op == O_CONCAT)
        for (unsigned i = 0; i < bytes; ++i) {
            E b = mkExtract(e, i * 8, 8);
            if (b->op == O_CONST) { o->st[off + i] = 0; o->data[off + i] = (u8)b->c; }
        }
}

// ------------------------------------------------------------------ path state
static SolverStats gSt;
static Solver *gSolver;
static std::vector<E> gPC;
static Model gModel;
static u64 gDepth = 0, gInstCount = 0;
struct InputRec { std::string name; std::vector<E> parts; u128 conc; unsigned bits; bool isConc; };
static std::vector<InputRec> gInputs;
static bool gUnkSeen = false;
static bool gHoldsToken = false;

static void flushStats()
{
    S->queries += gSt.queries; S->cacheHits += gSt.cacheHits; S->sat += gSt.sat; S->unsat += gSt.unsat; S->unk += gSt.unk; S->intq += gSt.intq;
    S->solverUs += (u64)(gSt.time * 1e6);
    gSt = SolverStats{};
    S->insts += gInstCount; gInstCount = 0;
}

static std::vector<E> slice(E c)
{
    std::vector<E> r;
    std::set<u32> vs(c->vars.begin(), c->vars.end());
    std::vector<char> used(gPC.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < gPC.size(); ++i)
            if (!used[i])
                for (u32 v : gPC[i]->vars)
                    if (vs.count(v)) {
                        used[i] = 1; ch = true;
                        vs.insert(gPC[i]->vars.begin(), gPC[i]->vars.end());
                        break;
                    }
    }
    for (size_t i = 0; i < gPC.size(); ++i) if (used[i]) r.push_back(gPC[i]);
    return r;
}
static R feasible(E c, Model *m)
{
    if (c->op == O_CONST) { if (m) *m = gModel; return c->c ? R::SAT : R::UNSAT; }
    if (evalExpr(c, gModel)) { if (m) *m = gModel; return R::SAT; }
    auto q = slice(c);
    q.push_back(c);
    if (m) *m = gModel;
    return gSolver->check(q, m);
}
static void addPC(E c)
{
    if (c->op == O_CONST) return;
    if (c->op == O_AND && c->w == 1) { addPC(c->k[0]); addPC(c->k[1]); return; }
    gPC.push_back(c);
}

// returns true in the child
static bool doFork()
{
    if (nowSec() > gDeadline) S->stop = 1;
    if (S->started >= gMaxPaths) S->stop = 2;
    if (S->stop) endPath("stopped", "budget exhausted");
    flushStats();
    ++S->forks;
    ++S->started;
    int t = S->tokens.load();
    bool par = false;
    while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
    pid_t p = fork();
    if (p < 0) { --S->started; if (par) ++S->tokens; S->stop = 3; endPath("stopped", "fork failed"); }
    if (p == 0) {
        gHoldsToken = par;
        return true;
    }
    if (!par) {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    }
    ++gDepth;
    return false;
}

// decide a symbolic condition; forks when both sides are feasible
static bool branch(E c)
{
    if (c->op == O_CONST) return c->c;
    bool mv = evalExpr(c, gModel);
    E other = mv ? mkNot(c) : c;
    Model m2;
    R r = feasible(other, &m2);
    if (r == R::UNK) { ++S->unkBranches; gUnkSeen = true; }
    if (r != R::SAT) return mv;
    if (doFork()) {
        ++gDepth;
        gModel = m2;
        addPC(other);
        return !mv;
    }
    addPC(mv ? c : mkNot(c));
    return mv;
}
static u128 concretize(E e)
{
    if (e->op == O_CONST) return e->c;
    for (;;) {
        u128 v = evalExpr(e, gModel);
        E eq = mkEq(e, mkConst(v, e->w));
        if (branch(eq)) return v;
    }
}
static u64 conc64(const Val &v) { return v.e ? (u64)concretize(v.e) : (u64)v.c; }

// ------------------------------------------------------------------ module / code
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static LLVMContext gCtx;
static std::unordered_map<const GlobalValue *, u64> gAddr;
static std::unordered_map<u64, Function *> gFnByAddr;
static std::unordered_map<const Function *, int> gFnIdx;
static std::unordered_map<std::string, Function *> gOverride;

struct KInst {
    Instruction *I;
    unsigned op;
    int dst = -1;
    unsigned w = 0;  // result width / relevant width
    unsigned sw = 0; // source width
    std::vector<int> ops;
    std::vector<u64> x; // extra: gep scales etc.
    std::vector<int> bbs;
};
struct KPhi { int dst; std::vector<std::pair<int, int>> in; /* pred bb, operand */ };
struct KBlock { int start; std::vector<KPhi> phis; };
struct KFunc {
    Function *F;
    int nregs = 0;
    std::vector<KInst> code;
    std::vector<KBlock> bbs;
    std::vector<Val> consts;
    std::unordered_map<const Value *, int> slot;
};
static std::unordered_map<Function *, KFunc *> gKF;

static unsigned bitsOf(Type *t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}

static u64 addrOf(const GlobalValue *g)
{
    auto it = gAddr.find(g);
    if (it != gAddr.end()) return it->second;
    if (auto *a = dyn_cast<GlobalAlias>(g)) {
        const Constant *c = a->getAliasee()->stripPointerCasts();
        return addrOf(cast<GlobalValue>(c));
    }
    fprintf(stderr, "no address for %s\n", g->getName().str().c_str());
    exit(3);
}

static Val constVal(const Constant *c);
static Val evalCE(const ConstantExpr *ce)
{
    auto op = [&](int i) { return constVal(ce->getOperand(i)); };
    unsigned w = bitsOf(ce->getType());
    switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
        case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: return Val(op(0).c & maskw(w));
        case Instruction::Add: return Val((op(0).c + op(1).c) & maskw(w));
        case Instruction::Sub: return Val((op(0).c - op(1).c) & maskw(w));
        case Instruction::Mul: return Val((op(0).c * op(1).c) & maskw(w));
        case Instruction::Xor: return Val((op(0).c ^ op(1).c) & maskw(w));
        case Instruction::Shl: return Val((op(0).c << (unsigned)op(1).c) & maskw(w));
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
            return Val((u128)(u64)((u64)op(0).c + off.getZExtValue()));
        }
        case Instruction::ICmp: {
            u64 a = op(0).c, b = op(1).c;
            switch (ce->getPredicate()) {
                case CmpInst::ICMP_EQ: return Val(a == b);
                case CmpInst::ICMP_NE: return Val(a != b);
                case CmpInst::ICMP_ULT: return Val(a < b);
                case CmpInst::ICMP_UGT: return Val(a > b);
                default: unsupported("constexpr icmp");
            }
        }
        default: unsupported(std::string("constant expression ") + ce->getOpcodeName());
    }
}
static Val constVal(const Constant *c)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        const APInt &a = ci->getValue();
        if (a.getBitWidth() > 128) unsupported("integer constant wider than 128 bits");
        u128 v = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
        if (a.getBitWidth() > 64) v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64;
        return Val(v);
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        u128 v = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
        if (a.getBitWidth() > 64) v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64;
        return Val(v);
    }
    if (isa<ConstantPointerNull>(c)) return Val((u128)0);
    if (auto *g = dyn_cast<GlobalValue>(c)) return Val((u128)addrOf(g));
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (auto *st = dyn_cast<StructType>(t)) {
            Val v; v.agg = new std::vector<Val>;
            for (unsigned i = 0; i < st->getNumElements(); ++i) v.agg->push_back(constVal(c->getAggregateElement(i)));
            return v;
        }
        if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
            Val v; v.agg = new std::vector<Val>;
            u64 n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (u64 i = 0; i < n; ++i) v.agg->push_back(constVal(c->getAggregateElement(i)));
            return v;
        }
        return Val((u128)0);
    }
    if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        Val v; v.agg = new std::vector<Val>;
        u64 n;
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) n = cd->getNumElements(); else n = c->getNumOperands();
        for (u64 i = 0; i < n; ++i) v.agg->push_back(constVal(c->getAggregateElement(i)));
        return v;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) return evalCE(ce);
    if (auto *dso = dyn_cast<DSOLocalEquivalent>(c)) return Val((u128)addrOf(dso->getGlobalValue()));
    std::string s; raw_string_ostream os(s); c->print(os);
    unsupported("constant " + s);
}

static void storeConst(u64 a, const Constant *c)
{
    Type *t = c->getType();
    u64 n = DL->getTypeStoreSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // zero-initialised already
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cds->getRawDataValues();
        Obj *o = findObj(a);
        memcpy(o->data + (a - o->base), r.data(), r.size());
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) storeConst(a + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) storeConst(a + es * i, ca->getOperand(i));
        return;
    }
    if (isa<ConstantVector>(c)) {
        u64 es = DL->getTypeStoreSize(cast<FixedVectorType>(t)->getElementType());
        for (unsigned i = 0; i < c->getNumOperands(); ++i) storeConst(a + es * i, cast<Constant>(c->getOperand(i)));
        return;
    }
    Val v = constVal(c);
    storeMem(a, n, v, bitsOf(t), true);
}

static KFunc *getKF(Function *F)
{
    auto it = gKF.find(F);
    if (it != gKF.end()) return it->second;
    KFunc *k = new KFunc;
    k->F = F;
    gKF[F] = k;
    auto &slot = k->slot;
    int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    std::unordered_map<const BasicBlock *, int> bbi;
    int bn = 0;
    for (auto &B : *F) {
        bbi[&B] = bn++;
        for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
    }
    k->nregs = n;
    std::unordered_map<const Constant *, int> cslot;
    auto opnd = [&](Value *v) -> int {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto f = cslot.find(c);
            if (f != cslot.end()) return f->second;
            k->consts.push_back(constVal(c));
            return cslot[c] = -(int)k->consts.size();
        }
        auto f = slot.find(v);
        if (f == slot.end()) { // metadata / inline asm
            k->consts.push_back(Val((u128)0));
            return -(int)k->consts.size();
        }
        return f->second;
    };
    for (auto &B : *F) {
        KBlock kb;
        for (auto &P : B.phis()) {
            KPhi kp;
            kp.dst = slot[&P];
            for (unsigned i = 0; i < P.getNumIncomingValues(); ++i) kp.in.emplace_back(bbi[P.getIncomingBlock(i)], opnd(P.getIncomingValue(i)));
            kb.phis.push_back(kp);
        }
        kb.start = k->code.size();
        for (auto &I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            KInst ki;
            ki.I = &I;
            ki.op = I.getOpcode();
            if (!I.getType()->isVoidTy()) { ki.dst = slot[&I]; ki.w = bitsOf(I.getType()); }
            if (I.getNumOperands() && !isa<BranchInst>(I) && !isa<SwitchInst>(I)) ki.sw = bitsOf(I.getOperand(0)->getType());
            switch (I.getOpcode()) {
                case Instruction::Br: {
                    auto &br = cast<BranchInst>(I);
                    if (br.isConditional()) ki.ops.push_back(opnd(br.getCondition()));
                    for (unsigned i = 0; i < br.getNumSuccessors(); ++i) ki.bbs.push_back(bbi[br.getSuccessor(i)]);
                    break;
                }
                case Instruction::Switch: {
                    auto &sw = cast<SwitchInst>(I);
                    ki.ops.push_back(opnd(sw.getCondition()));
                    ki.sw = bitsOf(sw.getCondition()->getType());
                    ki.bbs.push_back(bbi[sw.getDefaultDest()]);
                    for (auto &cs : sw.cases()) { ki.ops.push_back(opnd(cs.getCaseValue())); ki.bbs.push_back(bbi[cs.getCaseSuccessor()]); }
                    break;
                }
                case Instruction::GetElementPtr: {
                    ki.ops.push_back(opnd(I.getOperand(0)));
                    u64 off = 0;
                    ki.x.push_back(0);
                    for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
                        Value *ix = gi.getOperand();
                        if (StructType *st = gi.getStructTypeOrNull()) {
                            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        } else {
                            u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += es * ci->getSExtValue();
                            else { ki.ops.push_back(opnd(ix)); ki.x.push_back(es); ki.x.push_back(bitsOf(ix->getType())); }
                        }
                    }
                    ki.x[0] = off;
                    break;
                }
                case Instruction::ExtractValue:
                    ki.ops.push_back(opnd(I.getOperand(0)));
                    for (auto i : cast<ExtractValueInst>(I).indices()) ki.x.push_back(i);
                    break;
                case Instruction::InsertValue:
                    ki.ops.push_back(opnd(I.getOperand(0)));
                    ki.ops.push_back(opnd(I.getOperand(1)));
                    for (auto i : cast<InsertValueInst>(I).indices()) ki.x.push_back(i);
                    break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto &cb = cast<CallBase>(I);
                    ki.ops.push_back(isa<InlineAsm>(cb.getCalledOperand()) ? -1 : opnd(cb.getCalledOperand()));
                    for (auto &a : cb.args()) ki.ops.push_back(opnd(a.get()));
                    if (auto *iv = dyn_cast<InvokeInst>(&I)) { ki.bbs.push_back(bbi[iv->getNormalDest()]); ki.bbs.push_back(bbi[iv->getUnwindDest()]); }
                    break;
                }
                default:
                    for (auto &o : I.operands()) if (!isa<BasicBlock>(o.get())) ki.ops.push_back(opnd(o.get()));
            }
            k->code.push_back(std::move(ki));
        }
        k->bbs.push_back(std::move(kb));
    }
    return k;
}

struct Frame {
    KFunc *k;
    std::vector<Val> regs;
    int pc = 0, bb = 0;
    std::vector<Obj *> allocas;
};
struct ExcObj { u64 obj; const GlobalValue *ti; u64 dtor; };
struct CaughtExc { ExcObj e; };
struct Thread {
    std::vector<Frame *> stack;
    std::vector<ExcObj> caught;
    std::vector<ExcObj> flying; // exceptions in flight (more than one: thrown and caught by a destructor during unwinding)
    ExcObj cur{0, nullptr, 0}; // the one unwinding now
    bool done = false;
    u64 waitAddr = 0;     // blocked until the byte there is zero
    bool granted = false; // scheduled to perform the synchronisation operation it is at
    std::vector<u32> vc;  // vector clock
    bool relFence = false; // a release fence was executed: later relaxed stores release
};
static std::vector<Thread *> gThreads;
static Thread *T; // current thread
static int gCur = 0;
static bool gMT = false; // threads running: scheduling points active
static int gPreempt = 0, gPreemptMax = 0;
static int gSameRun = 0; // consecutive synchronisation operations of one thread
static const int kFair = 24;

// ------------------------------------------------------------------ happens-before and data races
using VC = std::vector<u32>;
struct Shadow { int wt = -1; u32 wc = 0; VC r; };
static std::unordered_map<u64, Shadow> gShadow;   // per byte, plain accesses
static std::unordered_map<u64, VC> gSyncVC;       // per atomic / mutex / guard
static std::unordered_map<u64, int> gMutex;       // owner
static void doCheck(const Val &cond, const std::string &id);
static void vcJoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static u32 vcAt(const VC &a, size_t i) { return i < a.size() ? a[i] : 0; }
static void hbAcquire(u64 p) { auto it = gSyncVC.find(p); if (it != gSyncVC.end()) vcJoin(T->vc, it->second); }
static void hbRelease(u64 p, bool join)
{
    if (join) vcJoin(gSyncVC[p], T->vc); else gSyncVC[p] = T->vc;
    if (T->vc.size() <= (size_t)gCur) T->vc.resize(gCur + 1);
    ++T->vc[gCur];
}
static void hbAccess(u64 p, u64 n, bool wr)
{
    if (!gMT || T == gThreads[0]) return;
    bool race = false;
    for (u64 i = 0; i < n; ++i) {
        Shadow &sh = gShadow[p + i];
        if (sh.wt >= 0 && sh.wt != gCur && vcAt(T->vc, sh.wt) < sh.wc) race = true;
        if (wr) for (size_t t = 0; t < sh.r.size(); ++t) if ((int)t != gCur && vcAt(T->vc, t) < sh.r[t]) race = true;
        u32 me = vcAt(T->vc, gCur);
        if (wr) { sh.wt = gCur; sh.wc = me; sh.r.clear(); }
        else { if (sh.r.size() <= (size_t)gCur) sh.r.resize(gCur + 1); sh.r[gCur] = me; }
    }
    if (race) doCheck(Val((u128)0), "threads.race");
}
static void hbOrder(u64 p, AtomicOrdering o, bool rd, bool wr)
{
    if (rd && isAcquireOrStronger(o)) hbAcquire(p);
    if (wr) {
        if (isReleaseOrStronger(o) || T->relFence) hbRelease(p, rd);
        else if (!rd) gSyncVC.erase(p); // a relaxed store ends the release sequence; a read-modify-write continues it
    }
}
static void schedPoint();
// Before a synchronisation operation: true if the current thread may perform it now; otherwise another thread runs,
// and the operation is retried when this thread is scheduled again.
static bool syncPoint()
{
    if (!gMT || T == gThreads[0]) return true;
    if (T->granted) { T->granted = false; return true; }
    Thread *t = T;
    t->granted = true;
    schedPoint();
    if (T == t) { t->granted = false; return true; }
    return false;
}
static void blockOn(u64 p)
{
    T->waitAddr = p;
    T->granted = true;
    schedPoint();
}

static inline const Val &get(Frame *f, int o) { return o >= 0 ? f->regs[o] : f->k->consts[-o - 1]; }

static std::string where()
{
    std::string r;
    if (!T) return r;
    int n = 0;
    for (auto it = T->stack.rbegin(); it != T->stack.rend() && n < 12; ++it, ++n) {
        std::string d = demangle((*it)->k->F->getName().str());
        if (d.size() > 160) d = d.substr(0, 160) + "...";
        r += (n ? " <- " : "") + d;
    }
    return r;
}

static void recordViolation(const std::string &id, const std::string &msg, const Model &m)
{
    size_t h = std::hash<std::string>{}(id) % 256;
    if (S->violPer[h]++ >= (u64)gMaxViolPerId) return;
    ++S->nviol;
    std::string s = "{\"kind\":\"violation\",\"id\":\"" + jesc(id) + "\",\"msg\":\"" + jesc(msg) + "\",\"inputs\":[";
    bool first = true;
    for (auto &in : gInputs) {
        if (!first) s += ",";
        first = false;
        u128 v = 0;
        if (in.isConc) v = in.conc;
        else v = evalExpr(in.parts[0], m);
        s += "[\"" + jesc(in.name) + "\"," + std::to_string(in.bits) + ",\"" + u128str(v) + "\"]";
    }
    s += "],\"where\":\"" + jesc(where()) + "\"}";
    emit(s);
}

// A model of a completed path, for the native cross-check of the encoding.
struct Obs { std::string name; Val v; };
static std::vector<Obs> gObs;
static u64 gPathChecks = 0;
static std::string inputsJson(const Model &m)
{
    std::string s = "[";
    bool first = true;
    for (auto &in : gInputs) {
        if (!first) s += ",";
        first = false;
        u128 v = in.isConc ? in.conc : evalExpr(in.parts[0], m);
        s += "[\"" + jesc(in.name) + "\"," + std::to_string(in.bits) + ",\"" + u128str(v) + "\"]";
    }
    return s + "]";
}
static void recordSample(u64 n)
{
    if (n & (n - 1)) return; // the 1st, 2nd, 4th, 8th, ... completed path
    // Spread the model: replace the values of single inputs as long as the path condition still holds.
    Model sm = gModel;
    u64 rs = 0x9E3779B97F4A7C15ull * (n + 1);
    auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    for (auto &in : gInputs) {
        if (in.isConc || in.parts[0]->op != O_VAR) continue;
        u32 v = (u32)in.parts[0]->aux;
        for (int k = 0; k < 8; ++k) {
            u64 c = rnd() >> (rnd() % 64);
            if (k & 1) c = 0 - c;
            if (in.bits < 64) c &= (1ull << in.bits) - 1;
            Model t = sm;
            t.set(v, c);
            bool ok = true;
            for (E p : gPC) {
                if (std::find(p->vars.begin(), p->vars.end(), v) == p->vars.end()) continue;
                if (!evalExpr(p, t)) { ok = false; break; }
            }
            if (ok) { sm = t; break; }
        }
    }
    std::string s = "{\"kind\":\"sample\",\"checks\":" + std::to_string(gPathChecks) + ",\"inputs\":" + inputsJson(sm) + ",\"obs\":[";
    bool first = true;
    for (auto &o : gObs) {
        u128 v = o.v.e ? evalExpr(o.v.e, sm) : o.v.c;
        s += (first ? "[\"" : ",[\"") + jesc(o.name) + "\",\"" + u128str(v) + "\"]";
        first = false;
    }
    emit(s + "]}");
}

// ------------------------------------------------------------------ calls / exceptions
static void pushFrame(Function *F, const std::vector<Val> &args)
{
    if (T->stack.size() > 3000) unsupported("call depth");
    KFunc *k = getKF(F);
    auto fi = gFnIdx.find(F);
    if (fi != gFnIdx.end()) S->fnHit[fi->second] = 1;
    Frame *f = new Frame;
    f->k = k;
    f->regs.resize(k->nregs);
    for (size_t i = 0; i < args.size() && i < F->arg_size(); ++i) f->regs[i] = args[i];
    // byval arguments are copied
    for (auto &a : F->args())
        if (a.hasByValAttr()) {
            u64 sz = DL->getTypeAllocSize(a.getParamByValType());
            Obj *o = newObj(sz, 's', 2);
            f->allocas.push_back(o);
            u64 src = conc64(f->regs[a.getArgNo()]);
            Obj *so = access(src, sz, false);
            u64 off = src - so->base;
            memcpy(o->data, so->data + off, sz);
            memcpy(o->st, so->st + off, sz);
            if (so->sym) { o->sym = (SymB *)calloc(sz, sizeof(SymB)); memcpy(o->sym, so->sym + off, sz * sizeof(SymB)); }
            f->regs[a.getArgNo()] = Val((u128)o->base);
        }
    f->pc = k->bbs[0].start;
    f->bb = 0;
    T->stack.push_back(f);
}
static void popFrame()
{
    Frame *f = T->stack.back();
    for (auto *o : f->allocas) if (o->alive) freeObj(o);
    delete f;
    T->stack.pop_back();
}
static void jump(Frame *f, int bb)
{
    KBlock &b = f->k->bbs[bb];
    int prev = f->bb;
    if (!b.phis.empty()) {
        static std::vector<Val> tmp;
        tmp.clear();
        for (auto &p : b.phis) {
            bool ok = false;
            for (auto &[pb, o] : p.in) if (pb == prev) { tmp.push_back(get(f, o)); ok = true; break; }
            if (!ok) unsupported("phi");
        }
        for (size_t i = 0; i < b.phis.size(); ++i) f->regs[b.phis[i].dst] = tmp[i];
    }
    f->bb = bb;
    f->pc = b.start;
}

static const std::map<std::string, std::string> gStdBase = {
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"},
};

// names of all the base-class typeinfos (and itself); offsets are assumed 0 unless vmi says otherwise
static bool tiMatches(const std::string &thrown, const std::string &handler, i64 &off)
{
    if (thrown == handler) { return true; }
    GlobalVariable *g = M->getGlobalVariable(thrown, true);
    if (g && g->hasInitializer()) {
        auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
        if (!cs) return false;
        if (cs->getNumOperands() == 3) { // __si_class_type_info
            auto *b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts());
            return b && tiMatches(b->getName().str(), handler, off);
        }
        if (cs->getNumOperands() > 4) { // vmi
            for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
                auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts());
                i64 fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
                i64 o2 = off;
                if (b && (fl & 2) && tiMatches(b->getName().str(), handler, o2)) { off = o2 + (fl >> 8); return true; }
            }
        }
        return false;
    }
    auto it = gStdBase.find(thrown);
    if (it != gStdBase.end()) return tiMatches(it->second, handler, off);
    return false;
}
static std::map<std::string, int> gTypeIds;
static int typeId(const std::string &n)
{
    auto it = gTypeIds.find(n);
    if (it != gTypeIds.end()) return it->second;
    int k = gTypeIds.size() + 1;
    return gTypeIds[n] = k;
}

// The exception with this object, which is no longer in flight.
static ExcObj takeFlying(u64 obj)
{
    for (size_t i = T->flying.size(); i-- > 0;) {
        if (T->flying[i].obj == obj) {
            ExcObj e = T->flying[i];
            T->flying.erase(T->flying.begin() + i);
            return e;
        }
    }
    unsupported("exception that is not in flight");
}
static void unwind()
{
    ExcObj ex = T->cur;
    std::string tn = ex.ti ? ex.ti->getName().str() : "?";
    // search phase: without any handler the program terminates
    while (!T->stack.empty()) {
        Frame *f = T->stack.back();
        // f->pc points to the instruction after the call (calls advance pc first)
        KInst &ki = f->k->code[f->pc - 1];
        if (ki.op == Instruction::Invoke) {
            auto *iv = cast<InvokeInst>(ki.I);
            LandingPadInst *lp = iv->getLandingPadInst();
            int sel = -1;
            for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; ++i) {
                Constant *c = lp->getClause(i);
                if (lp->isCatch(i)) {
                    if (isa<ConstantPointerNull>(c)) sel = typeId("<all>");
                    else {
                        i64 off = 0;
                        std::string hn = cast<GlobalValue>(c->stripPointerCasts())->getName().str();
                        if (tiMatches(tn, hn, off)) sel = typeId(hn);
                    }
                } else {
                    unsupported("filter clause");
                }
            }
            if (sel < 0 && lp->isCleanup()) sel = 0;
            if (sel >= 0) {
                int ub = ki.bbs[1];
                jump(f, ub);
                // the landing pad value is produced when the landingpad instruction executes
                Val v;
                v.agg = new std::vector<Val>{Val((u128)ex.obj), Val((u128)(unsigned)sel)};
                // find landingpad at the block start
                KInst &li = f->k->code[f->pc];
                if (li.op != Instruction::LandingPad) unsupported("landingpad position");
                f->regs[li.dst] = v;
                f->pc++;
                return;
            }
        }
        popFrame();
    }
    endPath("exception", "uncaught exception of type " + demangle(tn.size() > 4 ? "_Z" + tn.substr(2) : tn));
}
static GlobalValue *tiByName(const std::string &n)
{
    if (auto *g = M->getGlobalVariable(n, true)) return g;
    auto *g = new GlobalVariable(*M, Type::getInt8Ty(gCtx), true, GlobalValue::ExternalLinkage, nullptr, n);
    gAddr[g] = newObj(16, 'x', 0, strdup(n.c_str()))->base;
    return g;
}
static void throwStd(const std::string &ti)
{
    Obj *o = newObj(64, 'h', 0);
    T->cur = {o->base, tiByName(ti), 0};
    T->flying.push_back(T->cur);
    unwind();
}

// ------------------------------------------------------------------ memory ops with symbolic addresses
static u64 symStride(E a)
{
    // gcd of the coefficients of a linear address expression
    if (a->op != O_LIN) return 1;
    u64 g = 0;
    for (size_t i = 0; i < a->k.size(); ++i) {
        u64 c = (u64)a->co[i];
        if ((i64)c < 0) c = -c;
        u64 x = c, y = g;
        while (y) { u64 t = x % y; x = y; y = t; }
        g = x;
    }
    return g ? g : 1;
}
// returns true if handled with an ITE over the offsets inside one object
static bool symRegion(E a, unsigned n, Obj *&o, std::vector<u64> &offs)
{
    u64 v = (u64)evalExpr(a, gModel);
    o = findObj(v);
    if (!o || !o->alive || v + n > o->base + o->size || o->kind == 'x') return false;
    E inb = mkAnd(mkUle(mkConst(o->base, 64), a), mkUle(a, mkConst(o->base + o->size - n, 64)));
    if (feasible(mkNot(inb), nullptr) != R::UNSAT) return false;
    u64 stride = symStride(a);
    u64 first = (v - o->base) % stride;
    u64 cnt = (o->size - n - first) / stride + 1;
    if (cnt > 4096) return false;
    std::vector<u64> cand;
    for (u64 i = first; i + n <= o->size; i += stride) cand.push_back(i);
    if (cand.size() > 300) return false;
    for (u64 c : cand) {
        if (cand.size() > 8 && feasible(mkEq(a, mkConst(o->base + c, 64)), nullptr) != R::SAT) continue;
        offs.push_back(c);
    }
    return offs.size() <= 128;
}
static u64 resolveAddr(const Val &v) { return conc64(v); }

static Val doLoad(const Val &p, unsigned bytes, unsigned bits)
{
    if (!p.e) return loadMem((u64)p.c, bytes, bits);
    Obj *o;
    std::vector<u64> offs;
    if (symRegion(p.e, bytes, o, offs)) {
        E r = nullptr;
        for (size_t i = offs.size(); i-- > 0;) {
            E x = toE(loadMem(o->base + offs[i], bytes, bits), bits);
            r = r ? mkIte(mkEq(p.e, mkConst(o->base + offs[i], 64)), x, r) : x;
        }
        return Val(r);
    }
    return loadMem(resolveAddr(p), bytes, bits);
}
static void doStore(const Val &p, unsigned bytes, const Val &v, unsigned bits)
{
    if (!p.e) { storeMem((u64)p.c, bytes, v, bits); return; }
    Obj *o;
    std::vector<u64> offs;
    if (symRegion(p.e, bytes, o, offs)) {
        for (u64 of : offs) {
            E old = toE(loadMem(o->base + of, bytes, bits), bits);
            storeMem(o->base + of, bytes, Val(mkIte(mkEq(p.e, mkConst(o->base + of, 64)), toE(v, bits), old)), bits);
        }
        return;
    }
    storeMem(resolveAddr(p), bytes, v, bits);
}
static Val loadTy(const Val &p, Type *t)
{
    if (auto *st = dyn_cast<StructType>(t)) {
        u64 a = resolveAddr(p);
        Val r; r.agg = new std::vector<Val>;
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) r.agg->push_back(loadTy(Val((u128)(a + sl->getElementOffset(i))), st->getElementType(i)));
        return r;
    }
    if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
        u64 a = resolveAddr(p);
        Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
        u64 es = isa<ArrayType>(t) ? DL->getTypeAllocSize(et) : DL->getTypeStoreSize(et);
        Val r; r.agg = new std::vector<Val>;
        for (u64 i = 0; i < n; ++i) r.agg->push_back(loadTy(Val((u128)(a + es * i)), et));
        return r;
    }
    unsigned b = bitsOf(t);
    if (!b || b > 128) unsupported("load type");
    return doLoad(p, DL->getTypeStoreSize(t), b);
}
static void storeTy(const Val &p, const Val &v, Type *t)
{
    if (auto *st = dyn_cast<StructType>(t)) {
        u64 a = resolveAddr(p);
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(Val((u128)(a + sl->getElementOffset(i))), (*v.agg)[i], st->getElementType(i));
        return;
    }
    if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
        u64 a = resolveAddr(p);
        Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 es = isa<ArrayType>(t) ? DL->getTypeAllocSize(et) : DL->getTypeStoreSize(et);
        for (u64 i = 0; i < v.agg->size(); ++i) storeTy(Val((u128)(a + es * i)), (*v.agg)[i], et);
        return;
    }
    unsigned b = bitsOf(t);
    if (!b || b > 128) unsupported("store type");
    doStore(p, DL->getTypeStoreSize(t), v, b);
}

static void memCopy(u64 d, u64 s, u64 n)
{
    if (!n) return;
    Obj *so = access(s, n, false);
    Obj *dO = access(d, n, true);
    u64 so_ = s - so->base, do_ = d - dO->base;
    memmove(dO->data + do_, so->data + so_, n);
    if (so->sym || dO->sym) {
        bool any = false;
        for (u64 i = 0; i < n; ++i) if (so->st[so_ + i] == 1) { any = true; break; }
        if (any) {
            if (!dO->sym) dO->sym = (SymB *)calloc(dO->size, sizeof(SymB));
            memmove(dO->sym + do_, so->sym + so_, n * sizeof(SymB));
        }
    }
    memmove(dO->st + do_, so->st + so_, n);
}
static Val byteAt(u64 a) { return loadMem(a, 1, 8); }

static std::string cstr(u64 a)
{
    std::string s;
    for (;;) {
        Val v = byteAt(a++);
        u8 c = (u8)conc64(v);
        if (!c) return s;
        s.push_back(c);
        if (s.size() > 4096) return s;
    }
}

// ------------------------------------------------------------------ integer operations
static inline u128 msk(u128 v, unsigned w) { return v & maskw(w); }

static void ubCheck(E bad, const char *id)
{
    // used for division by zero etc.
    if (bad->op == O_CONST && !bad->c) return;
    if (branch(bad)) endPath("ub", id);
}

static Val binop(unsigned op, const Val &a, const Val &b, unsigned w)
{
    if (!a.e && !b.e) {
        u128 x = a.c, y = b.c;
        switch (op) {
            case Instruction::Add: return Val(msk(x + y, w));
            case Instruction::Sub: return Val(msk(x - y, w));
            case Instruction::Mul: return Val(msk(x * y, w));
            case Instruction::And: return Val(x & y);
            case Instruction::Or: return Val(x | y);
            case Instruction::Xor: return Val(x ^ y);
            case Instruction::Shl: return Val(y >= w ? (u128)0 : msk(x << (unsigned)y, w));
            case Instruction::LShr: return Val(y >= w ? (u128)0 : x >> (unsigned)y);
            case Instruction::AShr: return Val(msk((u128)(sx(x, w) >> (unsigned)(y >= w ? w - 1 : y)), w));
            case Instruction::UDiv: if (!y) endPath("ub", "division by zero"); return Val(x / y);
            case Instruction::URem: if (!y) endPath("ub", "division by zero"); return Val(x % y);
            case Instruction::SDiv: {
                if (!y) endPath("ub", "division by zero");
                i128 p = sx(x, w), q = sx(y, w);
                if (q == -1) return Val(msk((u128)0 - (u128)p, w));
                return Val(msk((u128)(p / q), w));
            }
            case Instruction::SRem: {
                if (!y) endPath("ub", "division by zero");
                i128 p = sx(x, w), q = sx(y, w);
                if (q == -1) return Val((u128)0);
                return Val(msk((u128)(p % q), w));
            }
        }
        unsupported("binop");
    }
    E x = toE(a, w), y = toE(b, w);
    switch (op) {
        case Instruction::Add: return Val(mkAdd(x, y));
        case Instruction::Sub: return Val(mkSub(x, y));
        case Instruction::Mul: return Val(mkMul(x, y));
        case Instruction::And: return Val(mkAnd(x, y));
        case Instruction::Or: return Val(mkOr(x, y));
        case Instruction::Xor: return Val(mkXor(x, y));
        case Instruction::Shl: return Val(mkShl(x, y));
        case Instruction::LShr: return Val(mkLShr(x, y));
        case Instruction::AShr: return Val(mkAShr(x, y));
        case Instruction::UDiv: ubCheck(mkEq(y, mkConst(0, w)), "division by zero"); return Val(mkUDiv(x, y));
        case Instruction::URem: ubCheck(mkEq(y, mkConst(0, w)), "division by zero"); return Val(mkURem(x, y));
        case Instruction::SDiv: ubCheck(mkEq(y, mkConst(0, w)), "division by zero"); return Val(mkSDiv(x, y));
        case Instruction::SRem: ubCheck(mkEq(y, mkConst(0, w)), "division by zero"); return Val(mkSRem(x, y));
    }
    unsupported("binop");
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b, unsigned w)
{
    if (!a.e && !b.e) {
        u128 x = a.c, y = b.c;
        switch (p) {
            case CmpInst::ICMP_EQ: return Val((u128)(x == y));
            case CmpInst::ICMP_NE: return Val((u128)(x != y));
            case CmpInst::ICMP_ULT: return Val((u128)(x < y));
            case CmpInst::ICMP_ULE: return Val((u128)(x <= y));
            case CmpInst::ICMP_UGT: return Val((u128)(x > y));
            case CmpInst::ICMP_UGE: return Val((u128)(x >= y));
            case CmpInst::ICMP_SLT: return Val((u128)(sx(x, w) < sx(y, w)));
            case CmpInst::ICMP_SLE: return Val((u128)(sx(x, w) <= sx(y, w)));
            case CmpInst::ICMP_SGT: return Val((u128)(sx(x, w) > sx(y, w)));
            case CmpInst::ICMP_SGE: return Val((u128)(sx(x, w) >= sx(y, w)));
            default: unsupported("icmp");
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (p) {
        case CmpInst::ICMP_EQ: return Val(mkEq(x, y));
        case CmpInst::ICMP_NE: return Val(mkNe(x, y));
        case CmpInst::ICMP_ULT: return Val(mkUlt(x, y));
        case CmpInst::ICMP_ULE: return Val(mkUle(x, y));
        case CmpInst::ICMP_UGT: return Val(mkUlt(y, x));
        case CmpInst::ICMP_UGE: return Val(mkUle(y, x));
        case CmpInst::ICMP_SLT: return Val(mkSlt(x, y));
        case CmpInst::ICMP_SLE: return Val(mkSle(x, y));
        case CmpInst::ICMP_SGT: return Val(mkSlt(y, x));
        case CmpInst::ICMP_SGE: return Val(mkSle(y, x));
        default: unsupported("icmp");
    }
}
static double asD(const Val &v) { if (v.e) unsupported("symbolic floating point"); double d; u64 x = (u64)v.c; memcpy(&d, &x, 8); return d; }
static float asF(const Val &v) { if (v.e) unsupported("symbolic floating point"); float d; u32 x = (u32)v.c; memcpy(&d, &x, 4); return d; }
static long double asL(const Val &v) { if (v.e) unsupported("symbolic floating point"); long double d = 0; memcpy(&d, &v.c, 10); return d; }
static Val fromD(double d) { u64 x; memcpy(&x, &d, 8); return Val((u128)x); }
static Val fromF(float d) { u32 x; memcpy(&x, &d, 4); return Val((u128)x); }
static Val fromL(long double d) { u128 x = 0; memcpy(&x, &d, 10); return Val(x); }
static long double asFP(const Val &v, Type *t) { return t->isDoubleTy() ? (long double)asD(v) : t->isFloatTy() ? (long double)asF(v) : asL(v); }
static Val fromFP(long double d, Type *t) { return t->isDoubleTy() ? fromD((double)d) : t->isFloatTy() ? fromF((float)d) : fromL(d); }

static Val mkAgg2(const Val &a, const Val &b) { Val r; r.agg = new std::vector<Val>{a, b}; return r; }

static Val overflowOp(Intrinsic::ID id, const Val &a, const Val &b, unsigned w)
{
    E x = toE(a, w), y = toE(b, w);
    E r, o;
    auto sgn = [&](E e) { return mkExtract(e, w - 1, 1); };
    switch (id) {
        case Intrinsic::uadd_with_overflow: r = mkAdd(x, y); o = w < 128 ? mkUlt(mkConst(maskw(w), w + 1), mkAdd(mkZExt(x, w + 1), mkZExt(y, w + 1))) : mkUlt(r, x); break;
        case Intrinsic::usub_with_overflow: r = mkSub(x, y); o = mkUlt(x, y); break;
        case Intrinsic::umul_with_overflow: r = mkMul(x, y); o = mkUMulO(x, y); break;
        case Intrinsic::sadd_with_overflow:
            r = mkAdd(x, y);
            if (w < 128) { E s = mkAdd(mkSExt(x, w + 1), mkSExt(y, w + 1)); o = mkOr(mkSlt(s, mkSExt(mkConst(u128(1) << (w - 1), w), w + 1)), mkSlt(mkConst(maskw(w) >> 1, w + 1), s)); }
            else { E ax = sgn(x), ay = sgn(y), ar = sgn(r); o = mkAnd(mkEq(ax, ay), mkNe(ax, ar)); }
            break;
        case Intrinsic::ssub_with_overflow:
            r = mkSub(x, y);
            if (w < 128) { E s = mkSub(mkSExt(x, w + 1), mkSExt(y, w + 1)); o = mkOr(mkSlt(s, mkSExt(mkConst(u128(1) << (w - 1), w), w + 1)), mkSlt(mkConst(maskw(w) >> 1, w + 1), s)); }
            else { E ax = sgn(x), ay = sgn(y), ar = sgn(r); o = mkAnd(mkNe(ax, ay), mkNe(ax, ar)); }
            break;
        case Intrinsic::smul_with_overflow: r = mkMul(x, y); o = mkSMulO(x, y); break;
        default: unsupported("overflow op");
    }
    return mkAgg2(Val(r), Val(o));
}

// ------------------------------------------------------------------ threads
static void schedPoint();

// ------------------------------------------------------------------ external functions
struct CallCtx { Frame *f; KInst *ki; std::vector<Val> a; Val ret; bool pushed = false; };
using Handler = std::function<void(CallCtx &)>;
static std::unordered_map<std::string, Handler> gExt;

static void symInput(const std::string &name, E e) { gInputs.push_back({name, {e}, 0, e->w, false}); }

static void doCheck(const Val &cond, const std::string &id)
{
    ++S->checks;
    ++gPathChecks;
    size_t h = std::hash<std::string>{}(id) % 512;
    ++S->checkPer[h];
    E c = toE(cond, 1);
    if (c->op == O_CONST) {
        if (c->c) { ++S->checksConst; return; }
        ++S->checksFail;
        recordViolation(id, "assertion is false on a feasible path", gModel);
        endPath("violation", id);
    }
    ++S->checksSym;
    Model m;
    R r = feasible(mkNot(c), &m);
    if (r == R::UNSAT) { ++S->checksUnsat; return; }
    if (r == R::UNK) {
        ++S->unkBranches; gUnkSeen = true;
        emit("{\"kind\":\"unknown\",\"id\":\"" + jesc(id) + "\",\"where\":\"" + jesc(where()) + "\",\"inputs\":" + inputsJson(gModel) + "}");
        return;
    }
    ++S->checksFail;
    recordViolation(id, "assertion violated for some input", m);
    // continue with the assertion assumed
    Model m2;
    if (feasible(c, &m2) != R::SAT) endPath("violation", id);
    gModel = m2;
    addPC(c);
}
static void doAssume(const Val &cond)
{
    E c = toE(cond, 1);
    if (c->op == O_CONST) { if (!c->c) endPath("assume", ""); return; }
    Model m;
    R r = feasible(c, &m);
    if (r == R::UNSAT) endPath("assume", "");
    if (r == R::UNK) unsupported("solver timeout in assume");
    gModel = m;
    addPC(c);
}

static Val cmpBytes(u64 p, u64 q, u64 n, bool sign)
{
    // sign: memcmp result (<0,0,>0), else bcmp
    E res = mkConst(0, 32);
    std::vector<std::pair<E, E>> bs;
    for (u64 i = 0; i < n; ++i) bs.emplace_back(toE(byteAt(p + i), 8), toE(byteAt(q + i), 8));
    if (sign) {
        for (size_t i = bs.size(); i-- > 0;) {
            E d = mkSub(mkZExt(bs[i].first, 32), mkZExt(bs[i].second, 32));
            res = mkIte(mkEq(bs[i].first, bs[i].second), res, d);
        }
    } else {
        E eq = mkConst(1, 1);
        for (auto &b : bs) eq = mkAnd(eq, mkEq(b.first, b.second));
        res = mkIte(eq, mkConst(0, 32), mkConst(1, 32));
    }
    return Val(res);
}

static void initExt()
{
    auto &X = gExt;
    auto alloc = [](CallCtx &c) {
        // Large requests fail (no need to enumerate them one by one).
        if (c.a[0].e && branch(mkUlt(mkConst(1ull << 32, 64), toE(c.a[0], 64)))) { throwStd("_ZTISt9bad_alloc"); c.pushed = true; return; }
        u64 n = conc64(c.a[0]);
        if (n > (1ull << 32)) { throwStd("_ZTISt9bad_alloc"); c.pushed = true; return; }
        c.ret = Val((u128)newObj(n, 'h', 2)->base);
    };
    for (auto s : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "malloc"}) X[s] = alloc;
    X["aligned_alloc"] = [](CallCtx &c) { c.ret = Val((u128)newObj(conc64(c.a[1]), 'h', 2)->base); };
    X["calloc"] = [](CallCtx &c) { c.ret = Val((u128)newObj(conc64(c.a[0]) * conc64(c.a[1]), 'h', 0)->base); };
    auto dealloc = [](CallCtx &c) {
        u64 p = conc64(c.a[0]);
        if (!p) return;
        Obj *o = findObj(p);
        if (!o || o->base != p || o->kind != 'h') endPath("memory", "invalid free");
        if (!o->alive) endPath("memory", "double free");
        freeObj(o);
    };
    for (auto s : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "free"})
        X[s] = dealloc;
    X["memcpy"] = X["memmove"] = [](CallCtx &c) { memCopy(conc64(c.a[0]), conc64(c.a[1]), conc64(c.a[2])); c.ret = c.a[0]; };
    X["memset"] = [](CallCtx &c) {
        u64 d = conc64(c.a[0]), n = conc64(c.a[2]);
        Val b = c.a[1];
        if (b.e) b = Val(mkExtract(b.e, 0, 8)); else b.c &= 255;
        for (u64 i = 0; i < n; ++i) storeMem(d + i, 1, b, 8);
        c.ret = c.a[0];
    };
    X["memcmp"] = [](CallCtx &c) { c.ret = cmpBytes(conc64(c.a[0]), conc64(c.a[1]), conc64(c.a[2]), true); };
    X["bcmp"] = [](CallCtx &c) { c.ret = cmpBytes(conc64(c.a[0]), conc64(c.a[1]), conc64(c.a[2]), false); };
    X["strlen"] = [](CallCtx &c) {
        u64 p = conc64(c.a[0]), n = 0;
        for (;; ++n) {
            Val v = byteAt(p + n);
            if (v.e ? branch(mkEq(v.e, mkConst(0, 8))) : v.c == 0) break;
        }
        c.ret = Val((u128)n);
    };
    X["strcmp"] = [](CallCtx &c) {
        u64 p = conc64(c.a[0]), q = conc64(c.a[1]);
        for (u64 n = 0;; ++n) {
            u64 x = conc64(byteAt(p + n)), y = conc64(byteAt(q + n));
            if (x != y) { c.ret = Val((u128)(x < y ? 0xffffffffu : 1)); return; }
            if (!x) { c.ret = Val((u128)0); return; }
        }
    };
    X["memchr"] = [](CallCtx &c) {
        u64 p = conc64(c.a[0]), n = conc64(c.a[2]);
        u8 ch = (u8)conc64(c.a[1]);
        for (u64 i = 0; i < n; ++i) {
            Val v = byteAt(p + i);
            if (v.e ? branch(mkEq(v.e, mkConst(ch, 8))) : v.c == ch) { c.ret = Val((u128)(p + i)); return; }
        }
        c.ret = Val((u128)0);
    };
    X["pow"] = [](CallCtx &c) { if (c.a[0].e || c.a[1].e) unsupported("symbolic pow"); c.ret = fromD(pow(asD(c.a[0]), asD(c.a[1]))); };
    X["powf"] = [](CallCtx &c) { if (c.a[0].e || c.a[1].e) unsupported("symbolic powf"); c.ret = fromF(powf(asF(c.a[0]), asF(c.a[1]))); };
    auto nop = [](CallCtx &c) { c.ret = Val((u128)0); };
    for (auto s : {"atexit", "__cxa_atexit", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", 
                   "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt16invalid_argumentD2Ev", "_ZNSt14overflow_errorD1Ev", "_ZNSt14overflow_errorD2Ev",
                   "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt12domain_errorD1Ev", "_ZNSt12out_of_rangeD1Ev",
                   "_ZNSt12length_errorD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt12domain_errorD2Ev", "_ZNSt12out_of_rangeD2Ev", "_ZNSt9bad_allocD2Ev", "__cxa_free_exception", "fflush"})
        X[s] = nop;
    // constructors of the standard exceptions: the message is ignored
    for (std::string cl : {"16invalid_argument", "14overflow_error", "11logic_error", "13runtime_error", "12domain_error", "12out_of_range", "12length_error", "11range_error", "15underflow_error"})
        for (std::string suf : {"C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                                "C1EOS_", "C2EOS_", "C1ERKS_", "C2ERKS_"})
            X["_ZNSt" + cl + suf] = nop;
    X["_ZNKSt9exception4whatEv"] = X["_ZNKSt11logic_error4whatEv"] = X["_ZNKSt13runtime_error4whatEv"] = nop;
    auto thrower = [](std::string ti) { return [ti](CallCtx &c) { throwStd(ti); c.pushed = true; }; };
    X["_ZSt20__throw_length_errorPKc"] = thrower("_ZTISt12length_error");
    X["_ZSt19__throw_logic_errorPKc"] = thrower("_ZTISt11logic_error");
    X["_ZSt20__throw_out_of_rangePKc"] = thrower("_ZTISt12out_of_range");
    X["_ZSt24__throw_out_of_range_fmtPKcz"] = thrower("_ZTISt12out_of_range");
    X["_ZSt24__throw_invalid_argumentPKc"] = thrower("_ZTISt16invalid_argument");
    X["_ZSt17__throw_bad_allocv"] = thrower("_ZTISt9bad_alloc");
    X["_ZSt28__throw_bad_array_new_lengthv"] = thrower("_ZTISt20bad_array_new_length");
    X["_ZSt16__throw_bad_castv"] = thrower("_ZTISt8bad_cast");
    X["_ZSt25__throw_bad_function_callv"] = thrower("_ZTISt17bad_function_call");
    X["__cxa_throw_bad_array_new_length"] = thrower("_ZTISt20bad_array_new_length");
    X["__cxa_allocate_exception"] = [](CallCtx &c) { c.ret = Val((u128)newObj(conc64(c.a[0]), 'h', 0)->base); };
    X["__cxa_throw"] = [](CallCtx &c) {
        u64 ti = conc64(c.a[1]);
        const GlobalValue *g = nullptr;
        for (auto &[gv, ad] : gAddr) if (ad == ti && isa<GlobalVariable>(gv)) { g = gv; break; }
        T->cur = {conc64(c.a[0]), g, conc64(c.a[2])};
        T->flying.push_back(T->cur);
        c.pushed = true;
        unwind();
    };
    X["__cxa_begin_catch"] = [](CallCtx &c) {
        T->caught.push_back(takeFlying(conc64(c.a[0])));
        c.ret = c.a[0];
    };
    X["_ZSt19uncaught_exceptionsv"] = [](CallCtx &c) { c.ret = Val((u128)T->flying.size()); };
    X["_ZSt18uncaught_exceptionv"] = [](CallCtx &c) { c.ret = Val((u128)(T->flying.empty() ? 0 : 1)); };
    X["__cxa_get_exception_ptr"] = [](CallCtx &c) { c.ret = c.a[0]; };
    X["__cxa_end_catch"] = [](CallCtx &c) { if (!T->caught.empty()) T->caught.pop_back(); };
    X["__cxa_rethrow"] = [](CallCtx &c) {
        if (T->caught.empty()) endPath("abort", "rethrow without exception");
        T->cur = T->caught.back();
        T->flying.push_back(T->cur);
        c.pushed = true;
        unwind();
    };
    X["__cxa_guard_acquire"] = [](CallCtx &c) {
        u64 p = conc64(c.a[0]);
        if (!syncPoint()) { c.f->pc--; c.pushed = true; return; }
        if (loadMem(p, 1, 8).c) { hbAcquire(p); c.ret = Val((u128)0); return; }
        if (gMutex[p]) {
            if (!gMT || T == gThreads[0]) endPath("abort", "recursive initialization of a local static");
            c.f->pc--;
            c.pushed = true;
            T->waitAddr = ~p;
            T->granted = true;
            schedPoint();
            return;
        }
        gMutex[p] = 1;
        hbAcquire(p);
        c.ret = Val((u128)1);
    };
    X["__cxa_guard_release"] = [](CallCtx &c) {
        u64 p = conc64(c.a[0]);
        if (!syncPoint()) { c.f->pc--; c.pushed = true; return; }
        storeMem(p, 1, Val((u128)1), 8);
        gMutex[p] = 0;
        if (gMT) hbRelease(p, false);
    };
    X["__cxa_guard_abort"] = [](CallCtx &c) { gMutex[conc64(c.a[0])] = 0; };
    auto aborter = [](std::string m) { return [m](CallCtx &c) { endPath("abort", m); }; };
    X["abort"] = aborter("abort()");
    X["_ZSt9terminatev"] = aborter("std::terminate()");
    X["__cxa_pure_virtual"] = aborter("pure virtual call");
    X["__assert_fail"] = [](CallCtx &c) { endPath("assert", "assertion '" + cstr(conc64(c.a[0])) + "' failed at " + cstr(conc64(c.a[1])) + ":" + std::to_string(conc64(c.a[2]))); };
    X["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](CallCtx &c) { endPath("assert", "libstdc++ assertion"); };
    X["_ZSt15_Hash_bytesPKvmm"] = [](CallCtx &c) {
        u64 p = conc64(c.a[0]), n = conc64(c.a[1]);
        u64 h = 14695981039346656037ull;
        for (u64 i = 0; i < n; ++i) {
            Val v = byteAt(p + i);
            h = (h ^ (u8)conc64(v)) * 1099511628211ull;
        }
        c.ret = Val((u128)h);
    };
    // ---- harness interface ----
    X["sx_sym64"] = [](CallCtx &c) {
        std::string nm = cstr(conc64(c.a[0]));
        unsigned bits = (unsigned)conc64(c.a[1]);
        E v = mkVar(nm, bits);
        symInput(nm, v);
        c.ret = Val(mkZExt(v, 64));
    };
    X["sx_choose"] = [](CallCtx &c) {
        std::string nm = cstr(conc64(c.a[0]));
        u64 n = conc64(c.a[1]);
        if (!n) endPath("assume", "");
        E v = mkVar(nm, 32);
        E in = mkUlt(v, mkConst(n, 32));
        Model m;
        m = gModel; m.set(v->aux, 0);
        gModel = m;
        if (n < (1ull << 32)) gPC.push_back(in);
        u64 r = (u64)concretize(v);
        gInputs.push_back({nm, {}, r, 32, true});
        c.ret = Val((u128)r);
    };
    X["sx_assume"] = [](CallCtx &c) { Val v = c.a[0]; doAssume(v); };
    X["sx_check"] = [](CallCtx &c) { doCheck(c.a[0], cstr(conc64(c.a[1]))); };
    X["sx_fork"] = [](CallCtx &c) { // case split: returns a concrete bool
        c.ret = Val((u128)(c.a[0].e ? branch(c.a[0].e) : c.a[0].c != 0));
    };
    X["sx_concretize"] = [](CallCtx &c) { c.ret = Val((u128)conc64(c.a[0])); };
    X["sx_is_symbolic"] = [](CallCtx &c) { c.ret = Val((u128)(c.a[0].e != nullptr)); };
    X["sx_ite64"] = [](CallCtx &c) { c.ret = Val(mkIte(toE(c.a[0], 1), toE(c.a[1], 64), toE(c.a[2], 64))); };
    X["sx_and"] = [](CallCtx &c) { c.ret = Val(mkAnd(toE(c.a[0], 1), toE(c.a[1], 1))); };
    X["sx_or"] = [](CallCtx &c) { c.ret = Val(mkOr(toE(c.a[0], 1), toE(c.a[1], 1))); };
    X["sx_not"] = [](CallCtx &c) { c.ret = Val(mkNot(toE(c.a[0], 1))); };
    X["sx_reach"] = [](CallCtx &c) {
        std::string nm = cstr(conc64(c.a[0]));
        size_t h = std::hash<std::string>{}(nm) % 256;
        if (S->reach[h]++ == 0) emit("{\"kind\":\"reach\",\"id\":\"" + jesc(nm) + "\"}");
    };
    X["sx_end"] = [](CallCtx &c) { endPath("ok", ""); };
    X["sx_print"] = [](CallCtx &c) {
        std::string nm = cstr(conc64(c.a[0]));
        fprintf(stderr, "[sx] %s %s\n", nm.c_str(), c.a[1].e ? exprStr(c.a[1].e, 12).c_str() : u128str(c.a[1].c).c_str());
    };
    // If the solver proves a == b on this path, a is replaced by b from here on. Never an assumption.
    X["sx_lemma"] = [](CallCtx &c) {
        unsigned bits = (unsigned)conc64(c.a[2]);
        E a = mkExtract(toE(c.a[0], 64), 0, bits), b = mkExtract(toE(c.a[1], 64), 0, bits);
        if (a == b) return;
        Model m;
        if (feasible(mkNe(a, b), &m) == R::UNSAT) setRewrite(a, b);
    };
    X["sx_lemma_mem"] = [](CallCtx &c) {
        unsigned n = (unsigned)conc64(c.a[2]);
        E a = toE(loadMem(conc64(c.a[0]), n, n * 8), n * 8), b = toE(loadMem(conc64(c.a[1]), n, n * 8), n * 8);
        if (a == b) return;
        Model m;
        if (feasible(mkNe(a, b), &m) == R::UNSAT) setRewrite(a, b);
    };
    X["sx_observe"] = [](CallCtx &c) { gObs.push_back({cstr(conc64(c.a[0])), c.a[1]}); };
    X["sx_int_mode"] = [](CallCtx &c) { gSolver->intFirst = conc64(c.a[0]) != 0; };
    // threads
    X["sx_thread"] = [](CallCtx &c) {
        u64 fn = conc64(c.a[0]);
        auto it = gFnByAddr.find(fn);
        if (it == gFnByAddr.end()) unsupported("thread function");
        Thread *old = T, *t = new Thread;
        T = t;
        pushFrame(it->second, {c.a[1]});
        T = old;
        t->vc.assign(gThreads.size() + 1, 0);
        t->vc.back() = 1;
        gThreads.push_back(t);
    };
    X["sx_run_threads"] = [](CallCtx &c) { gPreemptMax = (int)conc64(c.a[0]); gMT = true; gShadow.clear(); gSyncVC.clear(); gSameRun = 0; };
    X["sx_yield"] = [](CallCtx &c) { if (!syncPoint()) { c.f->pc--; c.pushed = true; } };
    X["pthread_mutex_lock"] = [](CallCtx &c) {
        u64 p = conc64(c.a[0]);
        c.ret = Val((u128)0);
        if (!gMT || T == gThreads[0]) { if (gMutex[p]++) endPath("abort", "mutex locked twice by one thread"); return; }
        if (!syncPoint()) { c.f->pc--; c.pushed = true; return; }
        if (gMutex[p]) {
            // blocked until it is released
            c.f->pc--;
            c.pushed = true;
            T->waitAddr = ~p;
            T->granted = true;
            schedPoint();
            return;
        }
        gMutex[p] = 1;
        hbAcquire(p);
    };
    X["pthread_mutex_unlock"] = [](CallCtx &c) {
        u64 p = conc64(c.a[0]);
        c.ret = Val((u128)0);
        if (!syncPoint()) { c.f->pc--; c.pushed = true; return; }
        if (!gMutex[p]) endPath("abort", "mutex unlocked without being locked");
        gMutex[p] = 0;
        if (gMT && T != gThreads[0]) hbRelease(p, false);
    };
}

// run all spawned threads to completion with a nondeterministic scheduler; called from the main loop
static void schedPoint()
{
    // candidate threads: not done, and not blocked spinning
    std::vector<int> cand;
    for (size_t i = 1; i < gThreads.size(); ++i) {
        Thread *t = gThreads[i];
        bool ready = !t->done;
        if (ready && t->waitAddr) {
            auto mi = gMutex.find(~t->waitAddr);
            ready = (i64)t->waitAddr < 0 ? (mi == gMutex.end() || !mi->second) : loadMem(t->waitAddr, 1, 8).c == 0;
        }
        if (ready) cand.push_back(i);
    }
    if (cand.empty()) {
        bool alldone = true;
        for (size_t i = 1; i < gThreads.size(); ++i) if (!gThreads[i]->done) alldone = false;
        if (alldone) return;
        doCheck(Val((u128)0), "threads.deadlock");
    }
    bool curOk = false;
    for (int x : cand) if (x == gCur) curOk = true;
    // A thread that keeps synchronising while others could run is made to wait (a spinning loop).
    const bool forced = curOk && ++gSameRun > kFair && cand.size() > 1;
    if (forced) {
        cand.erase(std::find(cand.begin(), cand.end(), gCur));
        curOk = false;
    }
    int pick;
    if (curOk && gPreempt >= gPreemptMax) pick = gCur;
    else if (cand.size() == 1) pick = cand[0];
    else {
        // a symbolic schedule choice
        E v = mkVar("sched", 8);
        gModel.set(v->aux, 0);
        addPC(mkUlt(v, mkConst(cand.size(), 8)));
        u64 r = (u64)concretize(v);
        gInputs.push_back({"sched", {}, r, 8, true});
        pick = cand[r];
        if (curOk && pick != gCur) ++gPreempt;
    }
    if (gCur != pick) gSameRun = 0;
    gCur = pick;
    T = gThreads[pick];
    T->waitAddr = 0;
}

// ------------------------------------------------------------------ the interpreter
static void doCall(Frame *f, KInst *ki);

static E bitCount(E x, unsigned w)
{
    E r = mkConst(0, w);
    for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w));
    return r;
}

static bool intrinsic(Frame *f, KInst *ki, Intrinsic::ID id, std::vector<Val> &a)
{
    auto set = [&](const Val &v) { if (ki->dst >= 0) f->regs[ki->dst] = v; };
    unsigned w = ki->w;
    switch (id) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::dbg_label:
            set(Val((u128)0));
            return true;
        case Intrinsic::stacksave: set(Val((u128)0)); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: hbAccess(conc64(a[1]), conc64(a[2]), false); hbAccess(conc64(a[0]), conc64(a[2]), true); memCopy(conc64(a[0]), conc64(a[1]), conc64(a[2])); return true;
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            u64 d = conc64(a[0]), n = conc64(a[2]);
            if (!n) return true;
            hbAccess(d, n, true);
            if (!a[1].e) {
                Obj *o = access(d, n, true);
                memset(o->data + (d - o->base), (int)a[1].c, n);
                memset(o->st + (d - o->base), 0, n);
            } else for (u64 i = 0; i < n; ++i) storeMem(d + i, 1, a[1], 8);
            return true;
        }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address:
            set(a[0]);
            return true;
        case Intrinsic::is_constant: set(Val((u128)0)); return true;
        case Intrinsic::objectsize: set(Val(maskw(w))); return true;
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
            set(overflowOp(id, a[0], a[1], ki->sw ? ki->sw : bitsOf(ki->I->getOperand(0)->getType())));
            return true;
        case Intrinsic::umin: { E x = toE(a[0], w), y = toE(a[1], w); set(Val(mkIte(mkUlt(x, y), x, y))); return true; }
        case Intrinsic::umax: { E x = toE(a[0], w), y = toE(a[1], w); set(Val(mkIte(mkUlt(x, y), y, x))); return true; }
        case Intrinsic::smin: { E x = toE(a[0], w), y = toE(a[1], w); set(Val(mkIte(mkSlt(x, y), x, y))); return true; }
        case Intrinsic::smax: { E x = toE(a[0], w), y = toE(a[1], w); set(Val(mkIte(mkSlt(x, y), y, x))); return true; }
        case Intrinsic::abs: {
            E x = toE(a[0], w), neg = mkSlt(x, mkConst(0, w));
            Model m;
            if (neg->op != O_CONST) {
                if (feasible(neg, &m) == R::UNSAT) { set(Val(x)); return true; }
                if (feasible(mkNot(neg), &m) == R::UNSAT) { set(Val(mkNeg(x))); return true; }
            }
            set(Val(mkIte(mkSlt(x, mkConst(0, w)), mkNeg(x), x))); return true; }
        case Intrinsic::uadd_sat: { Val p = overflowOp(Intrinsic::uadd_with_overflow, a[0], a[1], w); set(Val(mkIte(toE((*p.agg)[1], 1), mkConst(maskw(w), w), toE((*p.agg)[0], w)))); return true; }
        case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); set(Val(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y)))); return true; }
        case Intrinsic::ctpop: {
            if (!a[0].e) { u128 x = a[0].c; set(Val((u128)(__builtin_popcountll((u64)x) + __builtin_popcountll((u64)(x >> 64))))); }
            else set(Val(bitCount(a[0].e, w)));
            return true;
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            E x = toE(a[0], w);
            E r = mkConst(w, w);
            if (id == Intrinsic::ctlz) { for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); }
            else for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r);
            set(Val(r));
            return true;
        }
        case Intrinsic::bswap: {
            E x = toE(a[0], w), r = nullptr;
            for (unsigned i = 0; i < w / 8; ++i) { E b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; }
            set(Val(r));
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (a[2].e) {
                E s = mkURem(a[2].e, mkConst(w, w));
                E x = toE(a[0], w), y = toE(a[1], w);
                E W = mkConst(w, w);
                E r;
                if (id == Intrinsic::fshl) r = mkIte(mkEq(s, mkConst(0, w)), x, mkOr(mkShl(x, s), mkLShr(y, mkSub(W, s))));
                else r = mkIte(mkEq(s, mkConst(0, w)), y, mkOr(mkShl(x, mkSub(W, s)), mkLShr(y, s)));
                set(Val(r));
                return true;
            }
            unsigned s = (unsigned)(a[2].c % w);
            if (id == Intrinsic::fshr) s = s ? w - s : 0;
            else if (false) {}
            E x = toE(a[0], w), y = toE(a[1], w);
            if (id == Intrinsic::fshr && s == 0) { set(Val(y)); return true; }
            if (s == 0) { set(Val(x)); return true; }
            set(Val(mkConcat(mkExtract(x, 0, w - s), mkExtract(y, w - s, s))));
            return true;
        }
        case Intrinsic::eh_typeid_for: {
            u64 p = conc64(a[0]);
            for (auto &[gv, ad] : gAddr) if (ad == p) { set(Val((u128)typeId(gv->getName().str()))); return true; }
            set(Val((u128)9999));
            return true;
        }
        case Intrinsic::trap: endPath("ub", "trap");
        case Intrinsic::ubsantrap: {
            static const char *kinds[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow", "dynamic type", "float cast", "fn type", "implicit conv",
                                          "invalid builtin", "invalid objc", "load invalid", "missing return", "mul overflow", "negate overflow", "null arg", "null return",
                                          "nonnull arg", "nonnull return", "bounds", "pointer overflow", "shift", "sub overflow", "type mismatch", "alignment", "vla"};
            u64 k = conc64(a[0]);
            endPath("ub", std::string("undefined behaviour: ") + (k < 25 ? kinds[k] : "?"));
        }
        case Intrinsic::fabs: set(fromFP(fabsl(asFP(a[0], ki->I->getType())), ki->I->getType())); return true;
        case Intrinsic::floor: set(fromFP(floorl(asFP(a[0], ki->I->getType())), ki->I->getType())); return true;
        case Intrinsic::ceil: set(fromFP(ceill(asFP(a[0], ki->I->getType())), ki->I->getType())); return true;
        case Intrinsic::sqrt: set(fromFP(sqrtl(asFP(a[0], ki->I->getType())), ki->I->getType())); return true;
        case Intrinsic::fmuladd: case Intrinsic::fma: set(fromFP(asFP(a[0], ki->I->getType()) * asFP(a[1], ki->I->getType()) + asFP(a[2], ki->I->getType()), ki->I->getType())); return true;
        case Intrinsic::is_fpclass: {
            Type *t = ki->I->getOperand(0)->getType();
            long double d = asFP(a[0], t);
            u64 mk = conc64(a[1]);
            u64 cls = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : (std::signbit(d) ? 8 : 256);
            set(Val((u128)((cls & mk) != 0)));
            return true;
        }
        case Intrinsic::ptrmask: set(binop(Instruction::And, a[0], a[1], 64)); return true;
        case Intrinsic::vastart: case Intrinsic::vaend: return true;
        default: break;
    }
    return false;
}

static void doCall(Frame *f, KInst *ki)
{
    auto *cb = cast<CallBase>(ki->I);
    if (cb->isInlineAsm()) {
        // empty asm (optimisation barriers) only
        auto *ia = cast<InlineAsm>(cb->getCalledOperand());
        if (!ia->getAsmString().empty()) unsupported("inline asm " + ia->getAsmString());
        if (ki->dst >= 0) f->regs[ki->dst] = Val((u128)0);
        f->pc++;
        return;
    }
    Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (!F) {
        if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) F = dyn_cast<Function>(ga->getAliaseeObject());
    }
    if (!F) {
        u64 p = conc64(get(f, ki->ops[0]));
        auto it = gFnByAddr.find(p);
        if (it == gFnByAddr.end()) {
            if (p == 0) endPath("memory", "call through null pointer");
            unsupported("indirect call to unknown address");
        }
        F = it->second;
    }
    std::vector<Val> a;
    a.reserve(ki->ops.size() - 1);
    for (size_t i = 1; i < ki->ops.size(); ++i) a.push_back(get(f, ki->ops[i]));
    if (F->isIntrinsic()) {
        if (!intrinsic(f, ki, F->getIntrinsicID(), a)) unsupported("intrinsic " + F->getName().str());
        f->pc++;
        if (ki->op == Instruction::Invoke) jump(f, ki->bbs[0]);
        return;
    }
    f->pc++; // for both calls and unwinding: pc-1 is the call
    auto ov = gOverride.find(F->getName().str());
    if (ov != gOverride.end()) F = ov->second;
    auto it = gExt.find(F->getName().str());
    if (it != gExt.end() && (F->isDeclaration() || it->first.compare(0, 3, "sx_") == 0 || true)) {
        CallCtx c{f, ki, std::move(a), Val(), false};
        Thread *t0 = T;
        it->second(c);
        if (c.pushed) return; // control flow was redirected
        if (ki->dst >= 0) f->regs[ki->dst] = c.ret;
        if (ki->op == Instruction::Invoke) jump(f, ki->bbs[0]);
        (void)t0;
        return;
    }
    if (F->isDeclaration()) unsupported("external function " + demangle(F->getName().str()) + " [" + F->getName().str() + "]");
    pushFrame(F, a);
}

static void insertVal(Val &agg, const std::vector<u64> &ix, size_t p, const Val &v)
{
    auto *n = new std::vector<Val>(*agg.agg);
    if (p + 1 == ix.size()) (*n)[ix[p]] = v;
    else insertVal((*n)[ix[p]], ix, p + 1, v);
    agg.agg = n;
}

// execute until the current path ends (throws PathEnd)
static void runLoop(size_t baseDepth)
{
    while (T->stack.size() > baseDepth) {
        Frame *f = T->stack.back();
        KInst *ki = &f->k->code[f->pc];
        if (++gInstCount % 65536 == 0) {
            if (nowSec() > gDeadline) S->stop = 1;
            if (S->stop) endPath("stopped", "budget exhausted");
            if (gInstCount > gMaxInst) {
                // Replayed natively with a time limit: a violation only if the real code does not finish either.
                ++S->checksFail;
                recordViolation("hang: the path does not end", "instruction budget of one path exhausted", gModel);
                endPath("violation", "hang");
            }
        }
        if (gTrace) { std::string s; raw_string_ostream os(s); ki->I->print(os); fprintf(stderr, "%s: %s\n", f->k->F->getName().str().c_str(), s.c_str()); }
        auto OP = [&](int i) -> const Val & { return get(f, ki->ops[i]); };
        switch (ki->op) {
            case Instruction::Ret: {
                Val r;
                bool has = !ki->ops.empty();
                if (has) r = OP(0);
                popFrame();
                if (T->stack.size() == baseDepth && (T == gThreads[0])) return;
                if (T->stack.empty()) { // thread finished
                    T->done = true;
                    bool any = false;
                    for (size_t i = 1; i < gThreads.size(); ++i) if (!gThreads[i]->done) any = true;
                    if (any) schedPoint();
                    else { gMT = false; T = gThreads[0]; gCur = 0; gThreads.resize(1); gPreempt = 0; gShadow.clear(); gSyncVC.clear(); }
                    continue;
                }
                Frame *c = T->stack.back();
                KInst &call = c->k->code[c->pc - 1];
                if (has && call.dst >= 0) c->regs[call.dst] = r;
                if (call.op == Instruction::Invoke) jump(c, call.bbs[0]);
                break;
            }
            case Instruction::Br:
                if (ki->bbs.size() == 1) jump(f, ki->bbs[0]);
                else {
                    const Val &c = OP(0);
                    bool t = c.e ? branch(c.e) : (c.c & 1);
                    jump(f, ki->bbs[t ? 0 : 1]);
                }
                break;
            case Instruction::Switch: {
                Val c = OP(0);
                if (!c.e) {
                    int d = ki->bbs[0];
                    for (size_t i = 1; i < ki->ops.size(); ++i) if (get(f, ki->ops[i]).c == c.c) { d = ki->bbs[i]; break; }
                    jump(f, d);
                } else {
                    std::map<int, E> conds;
                    std::vector<int> order;
                    for (size_t i = 1; i < ki->ops.size(); ++i) {
                        E q = mkEq(c.e, mkConst(get(f, ki->ops[i]).c, ki->sw));
                        auto it = conds.find(ki->bbs[i]);
                        if (it == conds.end()) { conds[ki->bbs[i]] = q; order.push_back(ki->bbs[i]); }
                        else it->second = mkOr(it->second, q);
                    }
                    int d = ki->bbs[0];
                    for (int b : order) if (b != ki->bbs[0] && branch(conds[b])) { d = b; break; }
                    jump(f, d);
                }
                break;
            }
            case Instruction::Unreachable: endPath("ub", "unreachable code reached");
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
            case Instruction::SRem: {
                Type *t = ki->I->getType();
                if (auto *vt = dyn_cast<FixedVectorType>(t)) {
                    Val r; r.agg = new std::vector<Val>;
                    unsigned ew = bitsOf(vt->getElementType());
                    for (unsigned i = 0; i < vt->getNumElements(); ++i) r.agg->push_back(binop(ki->op, (*OP(0).agg)[i], (*OP(1).agg)[i], ew));
                    f->regs[ki->dst] = r;
                } else {
                    if (ki->w > 128) unsupported("integer wider than 128 bits");
                    f->regs[ki->dst] = binop(ki->op, OP(0), OP(1), ki->w);
                }
                f->pc++;
                break;
            }
            case Instruction::ICmp: {
                Type *t = ki->I->getOperand(0)->getType();
                auto p = cast<ICmpInst>(ki->I)->getPredicate();
                if (auto *vt = dyn_cast<FixedVectorType>(t)) {
                    Val r; r.agg = new std::vector<Val>;
                    unsigned ew = bitsOf(vt->getElementType());
                    for (unsigned i = 0; i < vt->getNumElements(); ++i) r.agg->push_back(icmp(p, (*OP(0).agg)[i], (*OP(1).agg)[i], ew));
                    f->regs[ki->dst] = r;
                } else f->regs[ki->dst] = icmp(p, OP(0), OP(1), ki->sw);
                f->pc++;
                break;
            }
            case Instruction::Select: {
                const Val &c = OP(0);
                if (c.agg) {
                    Val r; r.agg = new std::vector<Val>;
                    unsigned ew = bitsOf(cast<FixedVectorType>(ki->I->getType())->getElementType());
                    for (size_t i = 0; i < c.agg->size(); ++i) {
                        const Val &ci = (*c.agg)[i], &x = (*OP(1).agg)[i], &y = (*OP(2).agg)[i];
                        r.agg->push_back(ci.e ? Val(mkIte(ci.e, toE(x, ew), toE(y, ew))) : ci.c ? x : y);
                    }
                    f->regs[ki->dst] = r;
                } else if (!c.e) {
                    Val r = (c.c & 1) ? OP(1) : OP(2);
                    f->regs[ki->dst] = r;
                } else if (OP(1).agg || !ki->w || ki->I->getType()->isFloatingPointTy()) {
                    bool t = branch(c.e);
                    Val r = t ? OP(1) : OP(2);
                    f->regs[ki->dst] = r;
                } else if (ki->I->getType()->isPointerTy()) {
                    // pointers: case split keeps memory accesses concrete
                    bool t = branch(c.e);
                    Val r = t ? OP(1) : OP(2);
                    f->regs[ki->dst] = r;
                } else f->regs[ki->dst] = Val(mkIte(c.e, toE(OP(1), ki->w), toE(OP(2), ki->w)));
                f->pc++;
                break;
            }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
                if (auto *vt = dyn_cast<FixedVectorType>(ki->I->getType())) {
                    unsigned ew = bitsOf(vt->getElementType()), sw = bitsOf(cast<FixedVectorType>(ki->I->getOperand(0)->getType())->getElementType());
                    Val r; r.agg = new std::vector<Val>;
                    for (auto &v : *OP(0).agg) {
                        E e = toE(v, sw);
                        r.agg->push_back(Val(ki->op == Instruction::ZExt ? mkZExt(e, ew) : ki->op == Instruction::SExt ? mkSExt(e, ew) : mkExtract(e, 0, ew)));
                    }
                    f->regs[ki->dst] = r;
                    f->pc++;
                    break;
                }
                if (ki->w > 128 || ki->sw > 128) unsupported("integer wider than 128 bits");
                const Val &a = OP(0);
                if (!a.e) {
                    u128 v = a.c;
                    if (ki->op == Instruction::SExt) v = msk((u128)sx(v, ki->sw), ki->w);
                    else v = msk(v, ki->w);
                    f->regs[ki->dst] = Val(v);
                } else f->regs[ki->dst] = Val(ki->op == Instruction::ZExt ? mkZExt(a.e, ki->w) : ki->op == Instruction::SExt ? mkSExt(a.e, ki->w) : mkExtract(a.e, 0, ki->w));
                f->pc++;
                break;
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                const Val &a = OP(0);
                if (!a.e) f->regs[ki->dst] = Val(msk(a.c, ki->w));
                else f->regs[ki->dst] = Val(ki->w > ki->sw ? mkZExt(a.e, ki->w) : mkExtract(a.e, 0, ki->w));
                f->pc++;
                break;
            }
            case Instruction::BitCast: {
                Type *s = ki->I->getOperand(0)->getType(), *d = ki->I->getType();
                if (s->isVectorTy() != d->isVectorTy()) {
                    // through bits
                    if (s->isVectorTy()) {
                        unsigned ew = bitsOf(cast<FixedVectorType>(s)->getElementType());
                        E r = nullptr;
                        for (auto &v : *OP(0).agg) { E e = toE(v, ew); r = r ? mkConcat(e, r) : e; }
                        f->regs[ki->dst] = Val(r);
                    } else {
                        auto *vt = cast<FixedVectorType>(d);
                        unsigned ew = bitsOf(vt->getElementType());
                        E x = toE(OP(0), ew * vt->getNumElements());
                        Val r; r.agg = new std::vector<Val>;
                        for (unsigned i = 0; i < vt->getNumElements(); ++i) r.agg->push_back(Val(mkExtract(x, i * ew, ew)));
                        f->regs[ki->dst] = r;
                    }
                } else if (s->isVectorTy() && bitsOf(cast<FixedVectorType>(s)->getElementType()) != bitsOf(cast<FixedVectorType>(d)->getElementType())) unsupported("vector bitcast");
                else { Val v = OP(0); f->regs[ki->dst] = v; }
                f->pc++;
                break;
            }
            case Instruction::Freeze: { Val v = OP(0); f->regs[ki->dst] = v; f->pc++; break; }
            case Instruction::GetElementPtr: {
                const Val &b = OP(0);
                if (ki->I->getType()->isVectorTy()) unsupported("vector gep");
                u64 off = ki->x[0];
                E se = nullptr;
                for (size_t i = 1; i < ki->ops.size(); ++i) {
                    const Val &ix = OP(i);
                    u64 sc = ki->x[1 + 2 * (i - 1)];
                    unsigned iw = ki->x[2 + 2 * (i - 1)];
                    if (!ix.e) off += sc * (u64)sx(ix.c, iw);
                    else {
                        E t = mkMul(iw < 64 ? mkSExt(ix.e, 64) : iw > 64 ? mkExtract(ix.e, 0, 64) : ix.e, mkConst(sc, 64));
                        se = se ? mkAdd(se, t) : t;
                    }
                }
                if (!b.e && !se) f->regs[ki->dst] = Val((u128)(u64)((u64)b.c + off));
                else {
                    E r = mkAdd(toE(b, 64), mkConst(off, 64));
                    if (se) r = mkAdd(r, se);
                    f->regs[ki->dst] = Val(r);
                }
                f->pc++;
                break;
            }
            case Instruction::Load: {
                auto *ld = cast<LoadInst>(ki->I);
                if (gMT) {
                    if (ld->isAtomic()) {
                        if (!syncPoint()) break;
                        hbOrder(conc64(OP(0)), ld->getOrdering(), true, false);
                    } else hbAccess(conc64(OP(0)), DL->getTypeStoreSize(ld->getType()), false);
                }
                if (!OP(0).e && ki->w && ki->w <= 128) f->regs[ki->dst] = loadMem((u64)OP(0).c, (ki->w + 7) / 8, ki->w);
                else { Val v = loadTy(OP(0), ki->I->getType()); f->regs[ki->dst] = v; }
                f->pc++;
                break;
            }
            case Instruction::Store: {
                auto *stI = cast<StoreInst>(ki->I);
                if (gMT) {
                    if (stI->isAtomic()) {
                        if (!syncPoint()) break;
                        hbOrder(conc64(OP(1)), stI->getOrdering(), false, true);
                    } else hbAccess(conc64(OP(1)), DL->getTypeStoreSize(ki->I->getOperand(0)->getType()), true);
                }
                storeTy(OP(1), OP(0), ki->I->getOperand(0)->getType());
                f->pc++;
                break;
            }
            case Instruction::Alloca: {
                auto *al = cast<AllocaInst>(ki->I);
                u64 n = 1;
                if (al->isArrayAllocation()) n = conc64(OP(0));
                u64 sz = DL->getTypeAllocSize(al->getAllocatedType()) * n;
                Obj *o = newObj(sz, 's', 2);
                f->allocas.push_back(o);
                f->regs[ki->dst] = Val((u128)o->base);
                f->pc++;
                break;
            }
            case Instruction::ExtractValue: {
                const Val *v = &OP(0);
                for (u64 i : ki->x) v = &(*v->agg)[i];
                Val r = *v;
                f->regs[ki->dst] = r;
                f->pc++;
                break;
            }
            case Instruction::InsertValue: {
                Val r = OP(0);
                insertVal(r, ki->x, 0, OP(1));
                f->regs[ki->dst] = r;
                f->pc++;
                break;
            }
            case Instruction::ExtractElement: {
                Val r = (*OP(0).agg)[conc64(OP(1))];
                f->regs[ki->dst] = r;
                f->pc++;
                break;
            }
            case Instruction::InsertElement: {
                Val r = OP(0);
                r.agg = new std::vector<Val>(*r.agg);
                (*r.agg)[conc64(OP(2))] = OP(1);
                f->regs[ki->dst] = r;
                f->pc++;
                break;
            }
            case Instruction::ShuffleVector: {
                auto *sv = cast<ShuffleVectorInst>(ki->I);
                auto &A = *OP(0).agg, &Bv = *OP(1).agg;
                Val r; r.agg = new std::vector<Val>;
                for (int ix : sv->getShuffleMask()) {
                    if (ix < 0) r.agg->push_back(Val((u128)0));
                    else if ((size_t)ix < A.size()) r.agg->push_back(A[ix]);
                    else r.agg->push_back(Bv[ix - A.size()]);
                }
                f->regs[ki->dst] = r;
                f->pc++;
                break;
            }
            case Instruction::Call: case Instruction::Invoke: doCall(f, ki); break;
            case Instruction::LandingPad: unsupported("landingpad");
            case Instruction::Resume: {
                // continue unwinding from the caller
                u64 obj = conc64((*OP(0).agg)[0]);
                for (auto &e : T->flying) if (e.obj == obj) T->cur = e;
                popFrame();
                if (T->stack.size() < baseDepth || T->stack.empty()) endPath("exception", "uncaught exception");
                unwind();
                break;
            }
            case Instruction::AtomicRMW: {
                auto *rm = cast<AtomicRMWInst>(ki->I);
                unsigned w = ki->w, by = (w + 7) / 8;
                u64 p = conc64(OP(0));
                if (!syncPoint()) break;
                Val old = loadMem(p, by, w), nv, arg = OP(1);
                if (gMT && rm->getOperation() == AtomicRMWInst::Xchg && !old.e && !arg.e && old.c == arg.c && old.c == 1) {
                    // a failed test-and-set: model spinning as blocking until the flag is cleared
                    blockOn(p);
                    break; // retry the instruction when scheduled again
                }
                switch (rm->getOperation()) {
                    case AtomicRMWInst::Xchg: nv = arg; break;
                    case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, arg, w); break;
                    case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, arg, w); break;
                    case AtomicRMWInst::And: nv = binop(Instruction::And, old, arg, w); break;
                    case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, arg, w); break;
                    case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, arg, w); break;
                    default: unsupported("atomicrmw");
                }
                storeMem(p, by, nv, w);
                f->regs[ki->dst] = old;
                f->pc++;
                if (gMT) hbOrder(p, rm->getOrdering(), true, true);
                break;
            }
            case Instruction::AtomicCmpXchg: {
                unsigned w = bitsOf(ki->I->getOperand(1)->getType()), by = (w + 7) / 8;
                u64 p = conc64(OP(0));
                if (!syncPoint()) break;
                Val old = loadMem(p, by, w);
                Val eq = icmp(CmpInst::ICMP_EQ, old, OP(1), w);
                bool t = eq.e ? branch(eq.e) : eq.c != 0;
                if (t) storeMem(p, by, OP(2), w);
                f->regs[ki->dst] = mkAgg2(old, Val((u128)t));
                f->pc++;
                if (gMT) hbOrder(p, t ? cast<AtomicCmpXchgInst>(ki->I)->getSuccessOrdering() : cast<AtomicCmpXchgInst>(ki->I)->getFailureOrdering(), true, t);
                break;
            }
            case Instruction::Fence: {
                auto o = cast<FenceInst>(ki->I)->getOrdering();
                if (gMT && isAcquireOrStronger(o)) for (auto &q : gSyncVC) vcJoin(T->vc, q.second);
                if (gMT && isReleaseOrStronger(o)) T->relFence = true;
                f->pc++;
                break;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                Type *t = ki->I->getType();
                if (t->isDoubleTy()) {
                    double a = asD(OP(0)), b = asD(OP(1));
                    double r = ki->op == Instruction::FAdd ? a + b : ki->op == Instruction::FSub ? a - b : ki->op == Instruction::FMul ? a * b : ki->op == Instruction::FDiv ? a / b : fmod(a, b);
                    f->regs[ki->dst] = fromD(r);
                } else if (t->isFloatTy()) {
                    float a = asF(OP(0)), b = asF(OP(1));
                    float r = ki->op == Instruction::FAdd ? a + b : ki->op == Instruction::FSub ? a - b : ki->op == Instruction::FMul ? a * b : ki->op == Instruction::FDiv ? a / b : fmodf(a, b);
                    f->regs[ki->dst] = fromF(r);
                } else {
                    long double a = asL(OP(0)), b = asL(OP(1));
                    long double r = ki->op == Instruction::FAdd ? a + b : ki->op == Instruction::FSub ? a - b : ki->op == Instruction::FMul ? a * b : ki->op == Instruction::FDiv ? a / b : fmodl(a, b);
                    f->regs[ki->dst] = fromL(r);
                }
                f->pc++;
                break;
            }
            case Instruction::FNeg: f->regs[ki->dst] = fromFP(-asFP(OP(0), ki->I->getType()), ki->I->getType()); f->pc++; break;
            case Instruction::FCmp: {
                Type *t = ki->I->getOperand(0)->getType();
                long double a = asFP(OP(0), t), b = asFP(OP(1), t);
                bool un = std::isnan(a) || std::isnan(b), r = false;
                switch (cast<FCmpInst>(ki->I)->getPredicate()) {
                    case CmpInst::FCMP_FALSE: r = false; break;
                    case CmpInst::FCMP_OEQ: r = !un && a == b; break;
                    case CmpInst::FCMP_OGT: r = !un && a > b; break;
                    case CmpInst::FCMP_OGE: r = !un && a >= b; break;
                    case CmpInst::FCMP_OLT: r = !un && a < b; break;
                    case CmpInst::FCMP_OLE: r = !un && a <= b; break;
                    case CmpInst::FCMP_ONE: r = !un && a != b; break;
                    case CmpInst::FCMP_ORD: r = !un; break;
                    case CmpInst::FCMP_UNO: r = un; break;
                    case CmpInst::FCMP_UEQ: r = un || a == b; break;
                    case CmpInst::FCMP_UGT: r = un || a > b; break;
                    case CmpInst::FCMP_UGE: r = un || a >= b; break;
                    case CmpInst::FCMP_ULT: r = un || a < b; break;
                    case CmpInst::FCMP_ULE: r = un || a <= b; break;
                    case CmpInst::FCMP_UNE: r = un || a != b; break;
                    default: r = true;
                }
                f->regs[ki->dst] = Val((u128)r);
                f->pc++;
                break;
            }
            case Instruction::FPExt: case Instruction::FPTrunc:
                f->regs[ki->dst] = fromFP(asFP(OP(0), ki->I->getOperand(0)->getType()), ki->I->getType());
                f->pc++;
                break;
            case Instruction::UIToFP: case Instruction::SIToFP: {
                u128 v = conc64(OP(0));
                if (!OP(0).e) v = OP(0).c;
                Type *t = ki->I->getType();
                if (ki->op == Instruction::UIToFP) f->regs[ki->dst] = t->isDoubleTy() ? fromD((double)v) : t->isFloatTy() ? fromF((float)v) : fromL((long double)v);
                else { i128 s = sx(v, ki->sw); f->regs[ki->dst] = t->isDoubleTy() ? fromD((double)s) : t->isFloatTy() ? fromF((float)s) : fromL((long double)s); }
                f->pc++;
                break;
            }
            case Instruction::FPToUI: f->regs[ki->dst] = Val(msk((u128)asFP(OP(0), ki->I->getOperand(0)->getType()), ki->w)); f->pc++; break;
            case Instruction::FPToSI: f->regs[ki->dst] = Val(msk((u128)(i128)asFP(OP(0), ki->I->getOperand(0)->getType()), ki->w)); f->pc++; break;
            default: unsupported(std::string("instruction ") + ki->I->getOpcodeName());
        }
        if (gMT && T == gThreads[0]) { // hand over to the spawned threads
            gCur = 0;
            schedPoint();
        }
    }
}

static void runFunction(Function *F, const std::vector<Val> &args)
{
    size_t d = T->stack.size();
    pushFrame(F, args);
    runLoop(d);
}

static void layoutGlobals()
{
    u64 fa = 0x10000;
    int idx = 0;
    for (auto &F : *M) {
        gAddr[&F] = fa;
        gFnByAddr[fa] = &F;
        fa += 16;
        if (!F.isDeclaration()) gFnIdx[&F] = idx++;
    }
    for (auto &G : M->globals()) {
        Type *t = G.getValueType();
        u64 sz = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 8;
        bool ext = !G.hasInitializer();
        std::string n = G.getName().str();
        if (ext && n.compare(0, 4, "_ZTI") == 0) {
            // external typeinfo: synthesise {vptr, name}
            Obj *o = newObj(24, 'g', 0, strdup(n.c_str()));
            std::string tn = n.substr(4);
            Obj *so = newObj(tn.size() + 1, 'g', 0, "typeinfo name");
            memcpy(so->data, tn.c_str(), tn.size() + 1);
            memcpy(o->data + 8, &so->base, 8);
            gAddr[&G] = o->base;
            continue;
        }
        if (ext && n.compare(0, 4, "_ZTV") == 0) sz = 256;
        Obj *o = newObj(ext ? std::max<u64>(sz, 256) : sz, ext ? 'x' : 'g', 0, strdup(n.c_str()));
        gAddr[&G] = o->base;
    }
    for (auto &G : M->globals())
        if (G.hasInitializer()) {
            storeConst(gAddr[&G], G.getInitializer());
            findObj(gAddr[&G])->ro = G.isConstant();
        }
}

static void finishProcess(const PathEnd &pe)
{
    flushStats();
    if (pe.kind == "ok") recordSample(++S->pathsOk);
    else if (pe.kind == "assume") ++S->pathsAssume;
    else if (pe.kind == "violation") ++S->pathsViol;
    else if (pe.kind == "unsupported") {
        ++S->pathsUnsup;
        emit("{\"kind\":\"unsupported\",\"msg\":\"" + jesc(pe.msg) + "\",\"where\":\"" + jesc(where()) + "\"}");
    } else if (pe.kind == "stopped") ++S->pathsUnk;
    else {
        ++S->pathsViol;
        recordViolation(pe.kind + ":" + pe.msg, pe.msg, gModel);
    }
    ++S->ended;
}

int main(int argc, char **argv)
{
    std::string file;
    double budget = 600;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char *p) { return a.substr(strlen(p)); };
        if (a.compare(0, 8, "--entry=") == 0) gEntry = val("--entry=");
        else if (a.compare(0, 6, "--out=") == 0) gOutPath = val("--out=");
        else if (a.compare(0, 7, "--jobs=") == 0) gJobs = atoi(val("--jobs=").c_str());
        else if (a.compare(0, 7, "--time=") == 0) budget = atof(val("--time=").c_str());
        else if (a.compare(0, 12, "--max-paths=") == 0) gMaxPaths = atoll(val("--max-paths=").c_str());
        else if (a.compare(0, 8, "--qtime=") == 0) gQTime = atof(val("--qtime=").c_str());
        else if (a == "--trace") gTrace = true;
        else if (a == "-v") gVerbose = true;
        else if (a == "--list") gEntry = "?";
        else file = a;
    }
    setvbuf(stderr, nullptr, _IOLBF, 0);
    double t0 = nowSec();
    gDeadline = t0 + budget;
    SMDiagnostic err;
    M = parseIRFile(file, err, gCtx);
    if (!M) { err.print("symx", errs()); return 3; }
    DL = &M->getDataLayout();
    if (gEntry == "?") {
        for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("harness_")) printf("%s\n", F.getName().str().c_str());
        fflush(stdout); _exit(0);
    }
    for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("sxo_")) gOverride[F.getName().substr(4).str()] = &F;
    gNFn = 0;
    for (auto &F : *M) if (!F.isDeclaration()) ++gNFn;
    size_t ssz = sizeof(Shared) + gNFn + 16;
    S = (Shared *)mmap(nullptr, ssz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)S, 0, ssz);
    S->tokens = gJobs - 1;
    gOutFd = open(gOutPath.empty() ? "/dev/stdout" : gOutPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    struct rlimit rl{1ull << 30, RLIM_INFINITY};
    setrlimit(RLIMIT_STACK, &rl);

    pid_t root = fork(); // the explorer; the parent only reaps
    if (root == 0) {
        gSolver = new Solver(&gSt);
        gSolver->deadline = gDeadline;
        if (gQTime > 0) gSolver->extTimeout = gQTime;
        if (getenv("SYMX_INT")) gSolver->intFirst = true;
        S->started = 1;
        initExt();
        Thread *t = new Thread;
        gThreads.push_back(t);
        T = t;
        PathEnd pe{"ok", ""};
        try {
            layoutGlobals();
            // static constructors
            if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
                if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
                    std::vector<std::pair<u64, Function *>> fs;
                    for (auto &o : ca->operands()) {
                        auto *cs = cast<ConstantStruct>(o.get());
                        if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) fs.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F);
                    }
                    std::stable_sort(fs.begin(), fs.end(), [](auto &x, auto &y) { return x.first < y.first; });
                    for (auto &[p, F] : fs) runFunction(F, {});
                }
            Function *F = M->getFunction(gEntry);
            if (!F || F->isDeclaration()) unsupported("no entry function " + gEntry);
            runFunction(F, {});
        } catch (PathEnd &e) { pe = e; }
        finishProcess(pe);
        if (gHoldsToken) ++S->tokens;
        _exit(0);
    }
    int crashed = 0;
    for (;;) {
        int st;
        pid_t p = wait(&st);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (!WIFEXITED(st)) ++crashed;
    }
    u64 lost = S->started - S->ended;
    std::ostringstream os;
    os << "{\"kind\":\"summary\",\"entry\":\"" << gEntry << "\",\"wall\":" << (nowSec() - t0) << ",\"paths\":" << S->started << ",\"ok\":" << S->pathsOk << ",\"assume\":" << S->pathsAssume
       << ",\"viol\":" << S->pathsViol << ",\"unsupported\":" << S->pathsUnsup << ",\"stopped\":" << S->pathsUnk << ",\"lost\":" << lost << ",\"stop\":" << S->stop << ",\"unknown_branches\":" << S->unkBranches
       << ",\"checks\":" << S->checks << ",\"checks_const\":" << S->checksConst << ",\"checks_symbolic\":" << S->checksSym << ",\"checks_unsat\":" << S->checksUnsat << ",\"checks_failed\":" << S->checksFail
       << ",\"queries\":" << S->queries << ",\"cache_hits\":" << S->cacheHits << ",\"sat\":" << S->sat << ",\"unsat\":" << S->unsat << ",\"unk\":" << S->unk << ",\"int_queries\":" << S->intq
       << ",\"solver_s\":" << S->solverUs / 1e6 << ",\"insts\":" << S->insts << ",\"violations\":" << S->nviol << ",\"functions\":[";
    bool first = true;
    {
        int idx = 0;
        for (auto &F : *M)
            if (!F.isDeclaration()) {
                if (S->fnHit[idx++]) {
                    std::string d = demangle(F.getName().str());
                    if (d.find("obake") == std::string::npos) continue;
                    // keep the plain name: drop template arguments and parameters
                    std::string r;
                    int depth = 0;
                    for (size_t i = 0; i < d.size(); ++i) {
                        char ch = d[i];
                        if (ch == '<' && !(r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0)) ++depth;
                        else if (ch == '>' && depth) --depth;
                        else if (ch == '(' && !depth && r.size() && r.find("obake") != std::string::npos && !(r.size() > 9 && r.compare(r.size() - 9, 9, "{lambda") == 0)) break;
                        else if (!depth) r += ch;
                    }
                    size_t sp = r.rfind(' ');
                    if (sp != std::string::npos && sp + 1 < r.size() && r.find("operator") == std::string::npos) r = r.substr(sp + 1);
                    static std::set<std::string> seen;
                    if (r.find("obake") == std::string::npos || !seen.insert(r).second) continue;
                    os << (first ? "" : ",") << "\"" << jesc(r) << "\"";
                    first = false;
                }
            }
    }
    os << "]}";
    emit(os.str());
    _exit(0);
}
