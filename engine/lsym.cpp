// lsym: symbolic executor for LLVM 18 IR (C++ programs), bounded, path-exhaustive.
#include "expr.hpp"
#include <cxxabi.h>
#include <unistd.h>
#include "solver.hpp"

#include <llvm/ADT/APInt.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cmath>
#include <csignal>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace llvm;
ExprPool pool;

static const char* optOut = "/tmp/lsym";
static int optJobs = 1;
static double optTime = 600;
static u64 optMaxPath = 4000000;
static int optSamples = 3;
static int optMaxConc = 300;
static size_t optPreStates = 600;
static bool optVerbose = false;
static u64 optSeed = 1;

struct Val { E e; u64 c; };
static inline Val vc(u64 c) { return Val{nullptr, c}; }
static inline E toE(const Val& v, int w) { return v.e ? v.e : eConst(v.c, w); }
static inline Val fromE(E e) { if (e->isConst() && e->width <= 64) return Val{nullptr, e->c}; return Val{e, 0}; }

// ---------------------------------------------------------------- errors
struct Fatal { std::string msg; };
[[noreturn]] static void fatal(const std::string& m) { throw Fatal{m}; }
struct Violation { std::string msg; bool modelReady = false; };
struct PathEnd { int why; }; // 0 completed, 1 assumption, 2 pruned

// ---------------------------------------------------------------- memory
struct SymB { E e; uint8_t idx; };
constexpr int MAXT = 4;
struct RaceB { uint8_t wT = 255; u32 wC = 0; u32 rC[MAXT] = {0, 0, 0, 0}; };
struct Obj {
    int rc = 1; u32 size; uint8_t kind; /*0 global 1 stack 2 heap 3 freed*/ u32 tag;
    uint8_t* d = nullptr; SymB* sym = nullptr; RaceB* race = nullptr;
    Obj(u32 sz, int k) : size(sz), kind(k), tag(0) { d = (uint8_t*) malloc(sz ? sz : 1); }
    Obj(const Obj& o) : rc(1), size(o.size), kind(o.kind), tag(o.tag) {
        d = (uint8_t*) malloc(size ? size : 1); memcpy(d, o.d, size);
        if (o.sym) { sym = (SymB*) malloc(sizeof(SymB) * size); memcpy((void*) sym, (void*) o.sym, sizeof(SymB) * size); }
        if (o.race) { race = (RaceB*) malloc(sizeof(RaceB) * size); memcpy((void*) race, (void*) o.race, sizeof(RaceB) * size); }
    }
    ~Obj() { free(d); free(sym); free(race); }
    void needSym() { if (!sym) { sym = (SymB*) calloc(size, sizeof(SymB)); } }
    void needRace() { if (!race) { race = (RaceB*) malloc(sizeof(RaceB) * size); for (u32 i = 0; i < size; i++) race[i] = RaceB(); } }
};
static Obj* FREED;
static void unref(Obj* o) { if (o && --o->rc == 0) delete o; }
struct Chunk { int rc = 1; Obj* o[64] = {}; };
static void unref(Chunk* c) { if (c && --c->rc == 0) { for (auto o : c->o) unref(o); delete c; } }
struct Table {
    std::vector<Chunk*> ch; size_t n = 0;
    Table() {}
    Table(const Table& t) : ch(t.ch), n(t.n) { for (auto c : ch) if (c) c->rc++; }
    Table& operator=(const Table&) = delete;
    ~Table() { for (auto c : ch) unref(c); }
    Obj* get(size_t i) const { size_t k = i >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[i & 63]; }
    Obj** wslot(size_t i) {
        size_t k = i >> 6;
        if (k >= ch.size()) ch.resize(k + 1, nullptr);
        if (!ch[k]) ch[k] = new Chunk;
        else if (ch[k]->rc > 1) { Chunk* c = new Chunk; for (int j = 0; j < 64; j++) { c->o[j] = ch[k]->o[j]; if (c->o[j]) c->o[j]->rc++; } unref(ch[k]); ch[k] = c; }
        return &ch[k]->o[i & 63];
    }
    Obj* wobj(size_t i) { Obj** p = wslot(i); if ((*p)->rc > 1) { Obj* o = new Obj(**p); (*p)->rc--; *p = o; } return *p; }
    void set(size_t i, Obj* o) { Obj** p = wslot(i); Obj* old = *p; *p = o; unref(old); }
};
constexpr u64 BASEOFF = 0x1000;
constexpr u64 STKBIT = 1ull << 46, FNBIT = 1ull << 45;

// ---------------------------------------------------------------- decoded code
enum IOp : uint16_t {
    I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_SELECT, I_GEP, I_LOAD, I_STORE, I_LOADAGG, I_STOREAGG, I_ALLOCA,
    I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_INVOKE, I_UNREACH, I_RESUME, I_LPAD, I_EXTRACTV, I_INSERTV,
    I_FBIN, I_FCMP, I_FPCAST, I_FNEG, I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_INTR, I_NOP, I_EXTRELEM, I_INSELEM, I_SHUFFLE, I_VBIN
};
struct FnInfo;
struct DI {
    IOp op; uint16_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1; int n = 1; int a = 0, b = 0, c = 0; u64 imm = 0;
    std::vector<int> ops; std::vector<u64> imms; const Instruction* src = nullptr; void* p = nullptr; int b1 = 0, b2 = 0; bool atomic = false; int ord = 0;
};
struct Move { int dst, src; };
struct Edge { int target; std::vector<Move> mv; bool par = false; };
struct FnInfo {
    Function* f; int idx; bool decoded = false; bool executed = false; int nregs = 0; int nargs = 0; std::vector<int> argSlot, argN;
    std::vector<u64> byval; // size per arg or 0
    std::vector<DI> code; std::vector<Val> consts; std::vector<Edge> edges; int ext = 0; std::string name;
    u64 execInstr = 0;
};
struct Frame {
    int rc = 1; FnInfo* fn; u32 pc = 0; std::vector<Val> regs; size_t stkMark;
    Frame(FnInfo* f) : fn(f), regs(f->nregs, Val{nullptr, 0}) {}
    Frame(const Frame& o) : rc(1), fn(o.fn), pc(o.pc), regs(o.regs), stkMark(o.stkMark) {}
};
static void unref(Frame* f) { if (--f->rc == 0) delete f; }

enum PendK : uint8_t { P_NONE, P_START, P_LOCK, P_UNLOCK, P_ATOMR, P_ATOMW, P_JOIN, P_DONE, P_YIELD };
struct Thread {
    std::vector<Frame*> fr; PendK pend = P_NONE; u64 paddr = 0; bool sched = false; u32 vc[MAXT] = {0, 0, 0, 0};
    u64 exnPtr = 0, exnSel = 0; std::map<u64, u64> tls;
};
struct UF { u64 fid; std::vector<E> args; int var; };
struct MutexSt { int owner = -1; u32 vc[MAXT] = {0, 0, 0, 0}; };

static u64 gStates = 0;
struct State {
    Table mem; std::vector<Table*> stk; std::vector<Thread> th; int cur = 0; u32 sleep = 0;
    std::vector<E> cs; Model model; std::vector<int> varW; std::vector<UF> ufs; std::vector<Val> obs; std::vector<uint8_t> sched;
    std::vector<std::pair<u64, u64>> exns; std::map<u64, MutexSt> mtx; std::map<u64, std::array<u32, MAXT>> avc;
    std::set<std::string> tags;
    u64 steps = 0; int concBudget; long heapLive = 0; int depth = 0; int preempts = 0;
    State() { gStates++; }
    State(const State& o)
        : mem(o.mem), th(o.th), cur(o.cur), sleep(o.sleep), cs(o.cs), model(o.model), varW(o.varW), ufs(o.ufs), obs(o.obs), sched(o.sched),
          exns(o.exns), mtx(o.mtx), avc(o.avc), tags(o.tags), steps(o.steps), concBudget(o.concBudget), heapLive(o.heapLive), depth(o.depth + 1), preempts(o.preempts) {
        for (auto t : o.stk) stk.push_back(new Table(*t));
        for (auto& t : th) for (auto f : t.fr) f->rc++;
        gStates++;
    }
    ~State() { for (auto t : stk) delete t; for (auto& t : th) for (auto f : t.fr) unref(f); }
    Frame* top() { auto& v = th[cur].fr; Frame*& f = v.back(); if (f->rc > 1) { Frame* n = new Frame(*f); f->rc--; f = n; } return f; }
};

// ---------------------------------------------------------------- globals
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Function*, FnInfo*> fnMap; static std::vector<FnInfo*> fnList;
static std::unordered_map<const GlobalVariable*, u64> gvAddr; static std::unordered_map<u64, const GlobalVariable*> addrGv;
static Solver* solver;
static std::vector<State*> work;
static std::set<std::string> reachLabels;
static struct { u64 instr = 0, paths = 0, infeasible = 0, pruned = 0, forks = 0, asserts = 0, assertsSymbolic = 0, assertsProved = 0, violations = 0, samples = 0, unknown = 0; } S;
static std::map<std::string, u64> assertMsgs;
struct Shared { volatile int stop; volatile u64 next; volatile u64 viol; volatile int nextId, active; };
static Shared* shm;
static FILE* out; static int workerId = -1;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static int nslots(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += nslots(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * nslots(v->getElementType());
    return 1;
}
static int bitw(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    std::string s; raw_string_ostream o(s); t->print(o);
    fatal("unsupported type " + s);
}
// scalar leaves (offset, width) of a type in memory
static void leaves(Type* t, u64 off, std::vector<std::pair<u64, int>>& o) {
    if (auto* s = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + l->getElementOffset(i), o); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, o); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), off + i * es, o); return; }
    o.push_back({off, bitw(t)});
}

static FnInfo* fnInfo(const Function* f) {
    auto& p = fnMap[f];
    if (!p) { p = new FnInfo; p->f = const_cast<Function*>(f); p->idx = fnList.size(); p->name = f->getName().str(); fnList.push_back(p); }
    return p;
}
static u64 fnAddr(const Function* f) { return FNBIT | ((u64)(fnInfo(f)->idx + 1) << 4); }
static FnInfo* fnFromAddr(u64 a) {
    if (!(a & FNBIT) || (a & 15) || (a >> 47)) return nullptr;
    u64 i = ((a & ~FNBIT) >> 4);
    if (i == 0 || i > fnList.size()) return nullptr;
    return fnList[i - 1];
}

// ---------------------------------------------------------------- constants
static void constVals(const Constant* c, std::vector<Val>& o);
static Val constScalar(const Constant* c) { std::vector<Val> v; constVals(c, v); if (v.size() != 1) fatal("constScalar"); return v[0]; }
static u64 gepOffset(const GEPOperator* g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) fatal("non-constant GEP constant"); return off.getZExtValue(); }
static void constVals(const Constant* c, std::vector<Val>& o) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) o.push_back(vc(ci->getZExtValue()));
        else { u128 v = ci->getValue().extractBitsAsZExtValue(64, 0); if (ci->getBitWidth() > 128) fatal("int > 128"); v |= (u128) ci->getValue().extractBitsAsZExtValue(ci->getBitWidth() - 64, 64) << 64; o.push_back(Val{eConst(v, ci->getBitWidth()), 0}); }
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (t->isX86_FP80Ty()) { o.push_back(Val{eConst(0, 80), 0}); return; }
        o.push_back(vc(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return;
    }
    if (isa<ConstantPointerNull>(c)) { o.push_back(vc(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        std::vector<std::pair<u64, int>> l; leaves(t, 0, l);
        for (auto& x : l) o.push_back(x.second <= 64 ? vc(0) : Val{eConst(0, x.second), 0});
        return;
    }
    if (auto* f = dyn_cast<Function>(c)) { o.push_back(vc(fnAddr(f))); return; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gvAddr.find(g); if (it == gvAddr.end()) fatal("global without address " + g->getName().str()); o.push_back(vc(it->second)); return; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), o); return; }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (auto& op : a->operands()) constVals(cast<Constant>(op), o); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) constVals(d->getElementAsConstant(i), o); return; }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: { Val b = constScalar(cast<Constant>(e->getOperand(0))); o.push_back(vc(b.c + gepOffset(cast<GEPOperator>(e)))); return; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: constVals(e->getOperand(0), o); return;
        case Instruction::Trunc: { Val v = constScalar(e->getOperand(0)); o.push_back(vc(v.c & mask64(bitw(t)))); return; }
        case Instruction::Add: case Instruction::Sub: { Val a = constScalar(e->getOperand(0)), b = constScalar(e->getOperand(1)); u64 r = e->getOpcode() == Instruction::Add ? a.c + b.c : a.c - b.c; o.push_back(vc(r & mask64(bitw(t)))); return; }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fatal("unsupported constant " + s.substr(0, 200));
}

static void pokeConst(uint8_t* d, u64 size, const Constant* c, u64 off) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* l = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) pokeConst(d, size, s->getOperand(i), off + l->getElementOffset(i)); return; }
    if (auto* a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) pokeConst(d, size, a->getOperand(i), off + i * es); return; }
    if (auto* q = dyn_cast<ConstantDataSequential>(c)) { u64 es = q->getElementByteSize(); auto r = q->getRawDataValues(); memcpy(d + off, r.data(), r.size()); (void) es; return; }
    std::vector<std::pair<u64, int>> l; leaves(t, 0, l); std::vector<Val> v; constVals(c, v);
    for (size_t i = 0; i < v.size(); i++) {
        int nb = (l[i].second + 7) / 8; u64 x = v[i].e ? v[i].e->c : v[i].c;
        for (int b = 0; b < nb && b < 8; b++) d[off + l[i].first + b] = x >> (8 * b);
    }
}

// ---------------------------------------------------------------- externals
enum Ext {
    X_NONE, X_MALLOC, X_FREE, X_CALLOC, X_REALLOC, X_MAKE, X_CHOICE, X_ASSUME, X_ASSERT, X_REACH, X_OBSERVE, X_UF, X_FAIL, X_CONC, X_THREAD, X_JOIN,
    X_TID, X_UNWIND, X_MEMCPY, X_MEMSET, X_MEMCMP, X_LOCK, X_UNLOCK, X_TRYLOCK, X_NOP0, X_NOPV, X_SELF, X_HEAPLIVE, X_TERMINATE, X_DYNCAST, X_ASSERTFAIL, X_PRINT, X_YIELD, X_ISSYM, X_ALIGNED, X_TAG, X_ABORT, X_MEMCHK, X_GLASSERT, X_DEMANGLE
};
static const std::map<std::string, int> extNames = {
    {"malloc", X_MALLOC}, {"_Znwm", X_MALLOC}, {"_Znam", X_MALLOC}, {"_ZnwmRKSt9nothrow_t", X_MALLOC}, {"_ZnamRKSt9nothrow_t", X_MALLOC},
    {"_ZnwmSt11align_val_t", X_MALLOC}, {"_ZnwmSt11align_val_tRKSt9nothrow_t", X_MALLOC}, {"free", X_FREE}, {"_ZdlPv", X_FREE}, {"_ZdlPvm", X_FREE}, {"_ZdaPv", X_FREE}, {"_ZdaPvm", X_FREE},
    {"_ZdlPvmSt11align_val_t", X_FREE}, {"_ZdlPvSt11align_val_t", X_FREE}, {"_ZdlPvRKSt9nothrow_t", X_FREE}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC},
    {"aligned_alloc", X_ALIGNED},
    {"__lsym_make", X_MAKE}, {"__lsym_choice", X_CHOICE}, {"__lsym_assume", X_ASSUME}, {"__lsym_assert", X_ASSERT}, {"__lsym_reach", X_REACH}, {"__lsym_observe", X_OBSERVE},
    {"__lsym_uf", X_UF}, {"__lsym_fail", X_FAIL}, {"__lsym_conc", X_CONC}, {"__lsym_thread_create", X_THREAD}, {"__lsym_thread_join", X_JOIN}, {"__lsym_tid", X_TID},
    {"__lsym_unwind", X_UNWIND}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP}, {"__lsym_tag", X_TAG},
    {"pthread_mutex_lock", X_LOCK}, {"pthread_mutex_unlock", X_UNLOCK}, {"pthread_mutex_trylock", X_TRYLOCK}, {"pthread_self", X_SELF}, {"__lsym_heap_live", X_HEAPLIVE},
    {"pthread_mutex_destroy", X_NOP0}, {"pthread_mutex_init", X_NOP0},
    {"__cxa_atexit", X_NOP0}, {"__cxa_thread_atexit", X_NOP0}, {"_ZSt9terminatev", X_TERMINATE}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_GLASSERT}, {"abort", X_ABORT}, {"__dynamic_cast", X_DYNCAST}, {"__assert_fail", X_ASSERTFAIL},
    {"__cxa_demangle", X_DEMANGLE}, {"__lsym_print", X_PRINT}, {"__lsym_yield", X_YIELD}, {"__lsym_is_symbolic", X_ISSYM}, {"__lsym_tag", X_TAG},
};

// ---------------------------------------------------------------- decoder
enum Intr : uint16_t { N_MEMCPY = 1, N_MEMSET, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_CTLZ, N_CTTZ, N_CTPOP, N_BSWAP, N_FSHL, N_FSHR,
    N_USUBSAT, N_UADDSAT, N_TYPEID, N_TRAP, N_ISCONST, N_OBJSIZE, N_TLADDR, N_STACKSAVE, N_PTRMASK, N_FUNARY, N_FBINARY, N_LRINT };

struct Decoder {
    FnInfo* fi; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbIdx;
    std::map<std::pair<u64, E>, int> cpool;
    int constSlot(Val v) { auto key = std::make_pair(v.c, v.e); auto it = cpool.find(key); if (it != cpool.end()) return it->second; fi->consts.push_back(v); int r = ~(int)(fi->consts.size() - 1); cpool[key] = r; return r; }
    std::vector<int> opnds(const Value* v) {
        std::vector<int> r;
        if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constVals(c, vs); for (auto& x : vs) r.push_back(constSlot(x)); return r; }
        auto it = slot.find(v);
        if (it == slot.end()) fatal("operand without slot in " + fi->name);
        int n = nslots(v->getType());
        for (int i = 0; i < n; i++) r.push_back(it->second + i);
        return r;
    }
    int op1(const Value* v) { auto r = opnds(v); if (r.size() != 1) fatal("scalar operand expected in " + fi->name); return r[0]; }
    static int aggOffset(Type* t, ArrayRef<unsigned> idx) {
        int off = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += nslots(s->getElementType(j)); t = s->getElementType(i); }
            else if (auto* a = dyn_cast<ArrayType>(t)) { off += i * nslots(a->getElementType()); t = a->getElementType(); }
            else fatal("aggOffset");
        }
        return off;
    }
    int edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.target = -1;
        for (auto& ph : to->phis()) {
            auto src = opnds(ph.getIncomingValueForBlock(from)); int d = slot[&ph];
            for (size_t i = 0; i < src.size(); i++) e.mv.push_back({d + (int) i, src[i]});
        }
        for (size_t i = 0; i < e.mv.size(); i++) for (size_t j = 0; j < i; j++) if (e.mv[i].src == e.mv[j].dst) e.par = true;
        e.target = bbIdx[to]; // patched to pc later
        fi->edges.push_back(e);
        return fi->edges.size() - 1;
    }
    void decode(FnInfo* f) {
        fi = f; Function* F = f->f;
        if (F->isVarArg()) fatal("vararg function body " + f->name);
        for (auto& a : F->args()) {
            slot[&a] = f->nregs; f->argSlot.push_back(f->nregs); int n = nslots(a.getType()); f->argN.push_back(n); f->nregs += n;
            f->byval.push_back(a.hasByValAttr() ? (u64) DL->getTypeAllocSize(a.getParamByValType()) : 0);
        }
        int k = 0;
        for (auto& bb : *F) { bbIdx[&bb] = k++; for (auto& i : bb) if (!i.getType()->isVoidTy()) { slot[&i] = f->nregs; f->nregs += nslots(i.getType()); } }
        std::vector<int> start(k);
        for (auto& bb : *F) {
            start[bbIdx[&bb]] = f->code.size();
            for (auto& i : bb) { if (isa<PHINode>(i)) continue; ins(i); }
        }
        for (auto& e : f->edges) e.target = start[e.target];
        f->decoded = true;
    }
    void ins(Instruction& I) {
        DI d; d.src = &I; d.op = I_NOP;
        Type* T = I.getType();
        if (!T->isVoidTy()) { d.dst = slot[&I]; d.n = nslots(T); }
        auto push = [&] { fi->code.push_back(std::move(d)); };
        auto elemT = [](Type* t) { return t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t; };
        if (auto* B = dyn_cast<BinaryOperator>(&I)) {
            bool vec = T->isVectorTy(); Type* et = elemT(T);
            auto va = opnds(I.getOperand(0)), vb = opnds(I.getOperand(1));
            for (int i = 0; i < d.n; i++) {
                DI x; x.src = &I; x.dst = d.dst + i; x.w = bitw(et); x.a = va[i]; x.b = vb[i];
                if (et->isFloatingPointTy()) { x.op = I_FBIN; x.sub = B->getOpcode(); }
                else {
                    x.op = I_BIN;
                    switch (B->getOpcode()) {
                    case Instruction::Add: x.sub = O_ADD; break; case Instruction::Sub: x.sub = O_SUB; break; case Instruction::Mul: x.sub = O_MUL; break;
                    case Instruction::UDiv: x.sub = O_UDIV; break; case Instruction::SDiv: x.sub = O_SDIV; break; case Instruction::URem: x.sub = O_UREM; break; case Instruction::SRem: x.sub = O_SREM; break;
                    case Instruction::And: x.sub = O_AND; break; case Instruction::Or: x.sub = O_OR; break; case Instruction::Xor: x.sub = O_XOR; break;
                    case Instruction::Shl: x.sub = O_SHL; break; case Instruction::LShr: x.sub = O_LSHR; break; case Instruction::AShr: x.sub = O_ASHR; break;
                    default: fatal("binop");
                    }
                }
                fi->code.push_back(x);
            }
            (void) vec;
            return;
        }
        if (auto* C = dyn_cast<ICmpInst>(&I)) {
            auto va = opnds(I.getOperand(0)), vb = opnds(I.getOperand(1));
            for (int i = 0; i < d.n; i++) { DI x; x.src = &I; x.op = I_ICMP; x.sub = C->getPredicate(); x.w = bitw(elemT(I.getOperand(0)->getType())); x.dst = d.dst + i; x.a = va[i]; x.b = vb[i]; fi->code.push_back(x); }
            return;
        }
        if (auto* C = dyn_cast<FCmpInst>(&I)) { d.op = I_FCMP; d.sub = C->getPredicate(); d.w = bitw(I.getOperand(0)->getType()); d.a = op1(I.getOperand(0)); d.b = op1(I.getOperand(1)); push(); return; }
        if (auto* C = dyn_cast<CastInst>(&I)) {
            auto va = opnds(I.getOperand(0)); Type* st = elemT(I.getOperand(0)->getType()); Type* dt = elemT(T);
            if ((int) va.size() != d.n) {
                // vector <-> scalar bitcast of the same total size is not needed by our code
                fatal("reshaping bitcast in " + fi->name);
            }
            for (int i = 0; i < d.n; i++) {
                DI x; x.src = &I; x.dst = d.dst + i; x.w = bitw(dt); x.w2 = bitw(st); x.a = va[i];
                switch (C->getOpcode()) {
                case Instruction::ZExt: x.op = I_ZEXT; break; case Instruction::SExt: x.op = I_SEXT; break; case Instruction::Trunc: x.op = I_TRUNC; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = x.w < x.w2 ? I_TRUNC : x.w > x.w2 ? I_ZEXT : I_MOV; break;
                case Instruction::BitCast: case Instruction::AddrSpaceCast: x.op = I_MOV; break;
                default: x.op = I_FPCAST; x.sub = C->getOpcode();
                }
                fi->code.push_back(x);
            }
            return;
        }
        if (isa<FreezeInst>(I)) { auto v = opnds(I.getOperand(0)); for (int i = 0; i < d.n; i++) { DI x; x.op = I_MOV; x.src = &I; x.dst = d.dst + i; x.a = v[i]; fi->code.push_back(x); } return; }
        if (I.getOpcode() == Instruction::FNeg) { d.op = I_FNEG; d.w = bitw(T); d.a = op1(I.getOperand(0)); push(); return; }
        if (auto* Sx = dyn_cast<SelectInst>(&I)) {
            auto c = opnds(Sx->getCondition()); auto a = opnds(Sx->getTrueValue()), b = opnds(Sx->getFalseValue());
            std::vector<std::pair<u64, int>> l; leaves(T, 0, l);
            for (int i = 0; i < d.n; i++) { DI x; x.op = I_SELECT; x.src = &I; x.dst = d.dst + i; x.w = l[i].second; x.c = c.size() == 1 ? c[0] : c[i]; x.a = a[i]; x.b = b[i]; fi->code.push_back(x); }
            return;
        }
        if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
            d.op = I_GEP; d.a = op1(G->getPointerOperand()); d.imm = 0; d.w = 64;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                Value* ix = it.getOperand();
                if (auto* st = it.getStructTypeOrNull()) { d.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                u64 sz = DL->getTypeAllocSize(it.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(ix)) { d.imm += sz * (u64) ci->getSExtValue(); continue; }
                d.ops.push_back(op1(ix)); d.imms.push_back(sz); d.imms.push_back(bitw(ix->getType()));
            }
            push(); return;
        }
        if (auto* L = dyn_cast<LoadInst>(&I)) {
            d.a = op1(L->getPointerOperand()); d.atomic = L->isAtomic(); d.ord = (int) L->getOrdering();
            if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) { d.op = I_LOADAGG; std::vector<std::pair<u64, int>> l; leaves(T, 0, l); for (auto& x : l) { d.imms.push_back(x.first); d.imms.push_back(x.second); } }
            else { d.op = I_LOAD; d.w = bitw(T); }
            push(); return;
        }
        if (auto* St = dyn_cast<StoreInst>(&I)) {
            Type* vt = St->getValueOperand()->getType(); d.b = op1(St->getPointerOperand()); d.atomic = St->isAtomic(); d.ord = (int) St->getOrdering();
            if (vt->isStructTy() || vt->isArrayTy() || vt->isVectorTy()) { d.op = I_STOREAGG; d.ops = opnds(St->getValueOperand()); std::vector<std::pair<u64, int>> l; leaves(vt, 0, l); for (auto& x : l) { d.imms.push_back(x.first); d.imms.push_back(x.second); } }
            else { d.op = I_STORE; d.w = bitw(vt); d.a = op1(St->getValueOperand()); }
            push(); return;
        }
        if (auto* A = dyn_cast<AllocaInst>(&I)) {
            d.op = I_ALLOCA; d.imm = DL->getTypeAllocSize(A->getAllocatedType()); d.a = op1(A->getArraySize()); push(); return;
        }
        if (auto* B = dyn_cast<BranchInst>(&I)) {
            if (B->isUnconditional()) { d.op = I_BR; d.b1 = edge(I.getParent(), B->getSuccessor(0)); }
            else { d.op = I_CBR; d.a = op1(B->getCondition()); d.b1 = edge(I.getParent(), B->getSuccessor(0)); d.b2 = edge(I.getParent(), B->getSuccessor(1)); }
            push(); return;
        }
        if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
            d.op = I_SWITCH; d.a = op1(Sw->getCondition()); d.w = bitw(Sw->getCondition()->getType()); d.b1 = edge(I.getParent(), Sw->getDefaultDest());
            for (auto& c : Sw->cases()) { d.imms.push_back(c.getCaseValue()->getZExtValue()); d.ops.push_back(edge(I.getParent(), c.getCaseSuccessor())); }
            push(); return;
        }
        if (auto* R = dyn_cast<ReturnInst>(&I)) { d.op = I_RET; if (R->getReturnValue()) d.ops = opnds(R->getReturnValue()); push(); return; }
        if (isa<UnreachableInst>(I)) { d.op = I_UNREACH; push(); return; }
        if (auto* R = dyn_cast<ResumeInst>(&I)) { d.op = I_RESUME; d.ops = opnds(R->getValue()); push(); return; }
        if (isa<LandingPadInst>(I)) { d.op = I_LPAD; push(); return; }
        if (auto* X = dyn_cast<ExtractValueInst>(&I)) {
            auto v = opnds(X->getAggregateOperand()); int off = aggOffset(X->getAggregateOperand()->getType(), X->getIndices());
            for (int i = 0; i < d.n; i++) { DI x; x.op = I_MOV; x.src = &I; x.dst = d.dst + i; x.a = v[off + i]; fi->code.push_back(x); }
            return;
        }
        if (auto* X = dyn_cast<InsertValueInst>(&I)) {
            auto v = opnds(X->getAggregateOperand()); auto y = opnds(X->getInsertedValueOperand()); int off = aggOffset(T, X->getIndices());
            for (size_t i = 0; i < y.size(); i++) v[off + i] = y[i];
            for (int i = 0; i < d.n; i++) { DI x; x.op = I_MOV; x.src = &I; x.dst = d.dst + i; x.a = v[i]; fi->code.push_back(x); }
            return;
        }
        if (auto* X = dyn_cast<ExtractElementInst>(&I)) {
            auto v = opnds(X->getVectorOperand()); auto* ci = dyn_cast<ConstantInt>(X->getIndexOperand()); if (!ci) fatal("extractelement");
            d.op = I_MOV; d.a = v[ci->getZExtValue()]; push(); return;
        }
        if (auto* X = dyn_cast<InsertElementInst>(&I)) {
            auto v = opnds(X->getOperand(0)); auto* ci = dyn_cast<ConstantInt>(X->getOperand(2)); if (!ci) fatal("insertelement"); v[ci->getZExtValue()] = op1(X->getOperand(1));
            for (int i = 0; i < d.n; i++) { DI x; x.op = I_MOV; x.src = &I; x.dst = d.dst + i; x.a = v[i]; fi->code.push_back(x); }
            return;
        }
        if (auto* X = dyn_cast<ShuffleVectorInst>(&I)) {
            auto v = opnds(X->getOperand(0)); auto y = opnds(X->getOperand(1)); v.insert(v.end(), y.begin(), y.end());
            for (int i = 0; i < d.n; i++) { int m = X->getMaskValue(i); DI x; x.op = I_MOV; x.src = &I; x.dst = d.dst + i; x.a = m < 0 ? constSlot(vc(0)) : v[m]; fi->code.push_back(x); }
            return;
        }
        if (auto* X = dyn_cast<AtomicRMWInst>(&I)) { d.op = I_ATOMICRMW; d.sub = X->getOperation(); d.a = op1(X->getPointerOperand()); d.b = op1(X->getValOperand()); d.w = bitw(T); d.ord = (int) X->getOrdering(); push(); return; }
        if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { d.op = I_CMPXCHG; d.a = op1(X->getPointerOperand()); d.b = op1(X->getCompareOperand()); d.c = op1(X->getNewValOperand()); d.w = bitw(X->getCompareOperand()->getType()); d.ord = (int) X->getSuccessOrdering(); push(); return; }
        if (isa<FenceInst>(I)) { push(); return; }
        if (auto* CB = dyn_cast<CallBase>(&I)) { call(*CB, d); return; }
        std::string s; raw_string_ostream o(s); I.print(o); fatal("unsupported instruction " + s);
    }
    void call(CallBase& C, DI& d) {
        Function* F = C.getCalledFunction();
        auto push = [&] { fi->code.push_back(std::move(d)); };
        if (C.isInlineAsm()) {
            d.op = I_NOP; if (d.n && d.dst >= 0) fatal("inline asm with result in " + fi->name); push(); return; }
        if (F && F->isIntrinsic()) {
            auto id = F->getIntrinsicID();
            auto set = [&](int k) { d.op = I_INTR; d.sub = k; for (auto& a : C.args()) { auto v = opnds(a); d.ops.insert(d.ops.end(), v.begin(), v.end()); } if (!C.getType()->isVoidTy() && !C.getType()->isStructTy()) d.w = bitw(C.getType()); };
            switch (id) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing:
            case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::dbg_assign:
                d.op = I_NOP; push(); branchInvoke(C); return;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy:
                d.op = I_MOV; d.a = op1(C.getArgOperand(0)); push(); return;
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: d.op = I_INTR; d.sub = N_MEMCPY; for (int i = 0; i < 3; i++) d.ops.push_back(op1(C.getArgOperand(i))); push(); return;
            case Intrinsic::memset: d.op = I_INTR; d.sub = N_MEMSET; for (int i = 0; i < 3; i++) d.ops.push_back(op1(C.getArgOperand(i))); push(); return;
            case Intrinsic::uadd_with_overflow: set(N_UADDO); break; case Intrinsic::usub_with_overflow: set(N_USUBO); break; case Intrinsic::umul_with_overflow: set(N_UMULO); break;
            case Intrinsic::sadd_with_overflow: set(N_SADDO); break; case Intrinsic::ssub_with_overflow: set(N_SSUBO); break; case Intrinsic::smul_with_overflow: set(N_SMULO); break;
            case Intrinsic::umax: set(N_UMAX); break; case Intrinsic::umin: set(N_UMIN); break; case Intrinsic::smax: set(N_SMAX); break; case Intrinsic::smin: set(N_SMIN); break; case Intrinsic::abs: set(N_ABS); break;
            case Intrinsic::ctlz: set(N_CTLZ); break; case Intrinsic::cttz: set(N_CTTZ); break; case Intrinsic::ctpop: set(N_CTPOP); break; case Intrinsic::bswap: set(N_BSWAP); break;
            case Intrinsic::fshl: set(N_FSHL); break; case Intrinsic::fshr: set(N_FSHR); break; case Intrinsic::usub_sat: set(N_USUBSAT); break; case Intrinsic::uadd_sat: set(N_UADDSAT); break;
            case Intrinsic::eh_typeid_for: set(N_TYPEID); break; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: set(N_TRAP); break;
            case Intrinsic::is_constant: set(N_ISCONST); break; case Intrinsic::objectsize: set(N_OBJSIZE); d.imm = cast<ConstantInt>(C.getArgOperand(1))->isZero() ? ~0ull : 0; break;
            case Intrinsic::threadlocal_address: set(N_TLADDR); break; case Intrinsic::stacksave: set(N_STACKSAVE); break; case Intrinsic::ptrmask: set(N_PTRMASK); break;
            case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::sqrt: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: set(N_FUNARY); d.imm = id; break;
            case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: set(N_FBINARY); d.imm = id; break;
            case Intrinsic::fmuladd: case Intrinsic::fma: set(N_LRINT); break;
            default: fatal("unsupported intrinsic " + F->getName().str());
            }
            if (d.sub == N_UADDO || d.sub == N_USUBO || d.sub == N_UMULO || d.sub == N_SADDO || d.sub == N_SSUBO || d.sub == N_SMULO) d.w = bitw(C.getArgOperand(0)->getType());
            if (d.sub == N_TYPEID) d.ops[0] = op1(C.getArgOperand(0)->stripPointerCasts());
            push(); branchInvoke(C); return;
        }
        d.op = isa<InvokeInst>(C) ? I_INVOKE : I_CALL;
        d.a = op1(C.getCalledOperand());
        d.n = nslots(C.getType());
        for (auto& a : C.args()) { auto v = opnds(a); d.imms.push_back(v.size()); d.ops.insert(d.ops.end(), v.begin(), v.end()); }
        if (!C.getType()->isVoidTy() && d.n == 1) d.w = bitw(C.getType());
        if (auto* IV = dyn_cast<InvokeInst>(&C)) { d.b1 = edge(C.getParent(), IV->getNormalDest()); d.b2 = edge(C.getParent(), IV->getUnwindDest()); d.p = IV->getUnwindDest()->getLandingPadInst(); }
        push();
    }
    void branchInvoke(CallBase& C) { if (auto* IV = dyn_cast<InvokeInst>(&C)) { DI b; b.op = I_BR; b.src = &C; b.b1 = edge(C.getParent(), IV->getNormalDest()); fi->code.push_back(b); } }
};

// ---------------------------------------------------------------- executor
struct Exec {
    State* s; Frame* f;
    const Val& get(int o) const { return o >= 0 ? f->regs[o] : f->fn->consts[~o]; }
    void setr(int d, Val v) { f->regs[d] = v; }

    // ---- constraints and forking
    void addC(State* st, E c) { if (c->isConst()) { if (!c->c) fatal("adding false"); return; } if (c->op == O_AND) { addC(st, c->k[0]); addC(st, c->k[1]); return; } st->cs.push_back(c); }
    int chk(State* st, E c, Model* m) { int r = solver->check(st->cs, c, st->model, m); if (r < 0) { S.unknown++; fatal("solver returned unknown"); } return r; }
    bool evalB(State* st, E c) { Evaluator ev(st->model); return ev.ev(c) != 0; }
    State* fork() { S.forks++; State* o = new State(*s); if (!s->th[s->cur].fr.empty()) f = s->top(); return o; } // the frame is shared now: take a private copy
    // Decide a condition. Returns taken side; pushes the other side (a state whose pc is unchanged and whose constraint fixes the condition) if feasible.
    // The instruction is re-executed there; since the constraint then decides it, no further fork happens.
    bool decide(E c) {
        if (c->isConst()) return c->c;
        bool side = evalB(s, c); E mine = side ? c : eNot(c);
        Model m2;
        if (chk(s, eNot(mine), &m2)) { State* o = fork(); addC(o, eNot(mine)); o->model = m2; work.push_back(o); addC(s, mine); }
        return side;
    }
    u64 conc(int o) { // concretise operand
        Val v = get(o);
        if (!v.e) return v.c;
        u64 val; { Evaluator ev(s->model); u128 r = ev.ev(v.e); val = (u64) r; }
        if (v.e->isConst()) { return v.e->c; }
        E eq = eBin(O_EQ, v.e, eConst(val, v.e->width)); Model m2;
        if (chk(s, eNot(eq), &m2)) { State* x = fork(); addC(x, eNot(eq)); x->model = m2; if (--x->concBudget < 0) fatal("too many values while concretising in " + where()); work.push_back(x); addC(s, eq); }
        if (o >= 0) f->regs[o] = vc(val);
        return val;
    }
    std::string where() {
        std::string r;
        if (f && f->pc < f->fn->code.size()) { auto* I = f->fn->code[f->pc].src; r = demangle(f->fn->name); if (I) if (auto& dl = I->getDebugLoc()) r += ":" + std::to_string(dl.getLine()); }
        return r;
    }
    std::string backtrace() {
        std::string r; auto& v = s->th[s->cur].fr; int n = 0;
        for (auto it = v.rbegin(); it != v.rend() && n < 14; ++it, ++n) {
            std::string d = demangle((*it)->fn->name); if (d.size() > 160) d = d.substr(0, 157) + "...";
            r += "\n    at " + d;
            if ((*it)->pc < (*it)->fn->code.size()) if (auto* I = (*it)->fn->code[(*it)->pc].src) if (DILocation* dl = I->getDebugLoc()) { r += " (" + dl->getFilename().str() + ":" + std::to_string(dl->getLine()) + ")"; }
        }
        return r;
    }
    [[noreturn]] void viol(const std::string& m) { throw Violation{m}; }

    // ---- memory
    struct Loc { Table* t; size_t i; u64 off; };
    Loc locate(u64 a, u64 n, const char* what) {
        Loc l;
        if (a & STKBIT) { unsigned t = (a >> 40) & 63; if (t >= s->stk.size() || (a >> 47)) viol(std::string("invalid memory access (") + what + ")"); l.t = s->stk[t]; l.i = (a >> 20) & 0xfffff; }
        else { if (a >> 45) viol(std::string("invalid memory access (") + what + ")"); l.t = &s->mem; l.i = a >> 20; }
        Obj* o = l.t->get(l.i);
        if (!o) { char b[128]; snprintf(b, sizeof b, "invalid memory access (%s of %llu bytes at 0x%llx)", what, (unsigned long long) n, (unsigned long long) a); viol(b); }
        if (o == FREED) viol(std::string("use after free (") + what + ")");
        l.off = (a & 0xfffff) - BASEOFF;
        if (l.off > o->size || n > o->size - l.off) viol(std::string("out of bounds memory access (") + what + ") in an object of " + std::to_string(o->size) + " bytes at offset " + std::to_string((long) l.off));
        return l;
    }
    bool multi() { return s->th.size() > 1; }
    void race(Loc& l, u64 n, bool w) {
        if (!multi() || (l.t != &s->mem && 0)) return;
        Thread& t = s->th[s->cur]; Obj* o = l.t->wobj(l.i); o->needRace();
        for (u64 i = l.off; i < l.off + n; i++) {
            RaceB& r = o->race[i];
            if (r.wT != 255 && r.wT != s->cur && r.wC > t.vc[r.wT]) viol("data race (" + std::string(w ? "write" : "read") + " after unsynchronised write)");
            if (w) { for (int k = 0; k < MAXT; k++) if (k != s->cur && r.rC[k] > t.vc[k]) viol("data race (write after unsynchronised read)"); r.wT = s->cur; r.wC = t.vc[s->cur]; }
            else r.rC[s->cur] = t.vc[s->cur];
        }
    }
    static E byteE(Obj* o, u64 i) { if (o->sym && o->sym[i].e) return eExtract(o->sym[i].e, o->sym[i].idx * 8, 8); return eConst(o->d[i], 8); }
    Val load(u64 a, int w, bool at = false) {
        u64 n = (w + 7) / 8; Loc l = locate(a, n, "read"); if (!at) race(l, n, false);
        Obj* o = l.t->get(l.i); const uint8_t* p = o->d + l.off;
        bool sym = false;
        if (o->sym) for (u64 i = 0; i < n; i++) if (o->sym[l.off + i].e) { sym = true; break; }
        if (!sym) {
            u64 v = 0; memcpy(&v, p, n > 8 ? 8 : n);
            if (w <= 64) return vc(v & mask64(w));
            u64 hi = 0; memcpy(&hi, p + 8, n - 8); return Val{eConst(((u128) hi << 64) | v, w), 0};
        }
        SymB& f0 = o->sym[l.off];
        E r = nullptr;
        if (f0.e && f0.idx == 0 && f0.e->width == (int) n * 8) { bool all = true; for (u64 i = 1; i < n; i++) if (o->sym[l.off + i].e != f0.e || o->sym[l.off + i].idx != i) { all = false; break; } if (all) { r = f0.e; goto got; } }
        for (u64 i = 0; i < n;) { // bytes that follow each other in a stored value are taken together
            u64 j = i + 1; SymB& b = o->sym[l.off + i];
            if (b.e) while (j < n && o->sym[l.off + j].e == b.e && o->sym[l.off + j].idx == b.idx + (j - i)) j++;
            E x = b.e ? eExtract(b.e, b.idx * 8, (j - i) * 8) : byteE(o, l.off + i);
            r = r ? eConcat(x, r) : x;
            i = j;
        }
    got:
        if ((int) (n * 8) != w) r = eExtract(r, 0, w);
        return fromE(r);
    }
    void store(u64 a, const Val& v, int w, bool at = false) {
        u64 n = (w + 7) / 8; Loc l = locate(a, n, "write"); if (!at) race(l, n, true);
        Obj* o = l.t->wobj(l.i); uint8_t* p = o->d + l.off;
        if (!v.e) { u64 x = v.c & mask64(w); memcpy(p, &x, n > 8 ? 8 : n); if (n > 8) memset(p + 8, 0, n - 8); if (o->sym) memset((void*) (o->sym + l.off), 0, sizeof(SymB) * n); return; }
        if (v.e->isConst()) { u128 x = cval(v.e); memcpy(p, &x, n); if (o->sym) memset((void*) (o->sym + l.off), 0, sizeof(SymB) * n); return; }
        E e = v.e; if ((int) (n * 8) != w) e = eZext(e, n * 8);
        o->needSym();
        for (u64 i = 0; i < n; i++) o->sym[l.off + i] = {e, (uint8_t) i};
    }
    void copyMem(u64 d, u64 sr, u64 n) {
        if (!n) return;
        Loc ls = locate(sr, n, "read"); race(ls, n, false);
        Loc ld = locate(d, n, "write"); race(ld, n, true);
        Obj* od = ld.t->wobj(ld.i); Obj* os = ls.t->get(ls.i);
        memmove(od->d + ld.off, os->d + ls.off, n);
        if (os->sym || od->sym) { od->needSym(); if (os->sym) memmove((void*) (od->sym + ld.off), (void*) (os->sym + ls.off), n * sizeof(SymB)); else memset((void*) (od->sym + ld.off), 0, n * sizeof(SymB)); }
    }
    u64 allocHeap(u64 n, int kind = 2) {
        if (n > 900000) fatal("allocation too large: " + std::to_string(n));
        Obj* o = new Obj(n, kind); memset(o->d, 0xBE, n);
        size_t i = s->mem.n++; s->mem.set(i, o);
        if (kind == 2) s->heapLive++;
        return ((u64) i << 20) + BASEOFF;
    }
    u64 allocStack(u64 n) {
        if (n > 900000) fatal("stack allocation too large");
        Table* t = s->stk[s->cur]; Obj* o = new Obj(n, 1); memset(o->d, 0xAA, n);
        size_t i = t->n++; t->set(i, o);
        return STKBIT | ((u64) s->cur << 40) | ((u64) i << 20) | BASEOFF;
    }
    void freeHeap(u64 a) {
        if (!a) return;
        if ((a & STKBIT) || (a >> 45)) viol("invalid free");
        size_t i = a >> 20; Obj* o = s->mem.get(i);
        if (!o) viol("invalid free");
        if (o == FREED) viol("double free");
        if (o->kind != 2 || (a & 0xfffff) != BASEOFF) viol("invalid free");
        if (multi()) { Loc l{&s->mem, i, 0}; race(l, o->size, true); }
        FREED->rc++; s->mem.set(i, FREED); s->heapLive--;
    }
    void popStack(Frame* fr) { Table* t = s->stk[s->cur]; while (t->n > fr->stkMark) { t->n--; t->set(t->n, nullptr); } }
    std::string cstr(u64 a) { std::string r; for (int i = 0; i < 400; i++) { Val v = load(a + i, 8); if (v.e || !v.c) break; r += (char) v.c; } return r; }

    // ---- exceptions
    static bool derives(const GlobalVariable* d, const GlobalVariable* b, int64_t& off) {
        if (d == b || d->getName() == b->getName()) { off = 0; return true; }
        if (!d->hasInitializer()) return false;
        auto* cs = dyn_cast<ConstantStruct>(d->getInitializer()); if (!cs) return false;
        std::string vt; if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(0)->stripInBoundsConstantOffsets())) vt = g->getName().str();
        if (vt.find("__si_class_type_info") != std::string::npos) { auto* g = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts()); return g && derives(g, b, off); }
        if (vt.find("__vmi_class_type_info") != std::string::npos) {
            for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
                auto* g = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()); auto* o = dyn_cast<ConstantInt>(cs->getOperand(i + 1)); int64_t x;
                if (g && (o->getSExtValue() & 2) && derives(g, b, x)) { if (o->getSExtValue() & 1) fatal("virtual base in exception/dynamic_cast"); off = x + (o->getSExtValue() >> 8); return true; }
            }
        }
        return false;
    }
    const GlobalVariable* gvAt(u64 a) { auto it = addrGv.find(a); return it == addrGv.end() ? nullptr : it->second; }
    bool tiMatch(u64 thrown, const Constant* clause, u64& sel) {
        auto* c = clause->stripPointerCasts();
        if (isa<ConstantPointerNull>(c)) { sel = 1; return true; }
        auto* g = dyn_cast<GlobalVariable>(c); if (!g) fatal("catch clause"); auto* t = gvAt(thrown); if (!t) fatal("thrown type info");
        int64_t off;
        if (derives(t, g, off)) { if (off) fatal("catching a base at a non-zero offset"); sel = (gvAddr[g] >> 20) & 0x7fffffff; return true; }
        return false;
    }
    int lpMatch(const LandingPadInst* lp, u64 ti, u64& sel) { // 0 none, 1 cleanup only, 2 handler
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            if (lp->isCatch(i)) { if (tiMatch(ti, lp->getClause(i), sel)) return 2; }
            else { auto* arr = lp->getClause(i); bool any = false; u64 x; for (auto& o : arr->operands()) if (tiMatch(ti, cast<Constant>(o), x)) any = true; if (!any) { sel = -1; return 2; } }
        }
        sel = 0;
        return lp->isCleanup() ? 1 : 0;
    }
    void unwind(u64 obj, u64 ti) {
        Thread& t = s->th[s->cur]; bool found = false; u64 sel;
        for (int i = (int) t.fr.size() - 1; i >= 0 && !found; i--) { Frame* fr = t.fr[i]; DI& d = fr->fn->code[fr->pc]; if (d.op == I_INVOKE && lpMatch((LandingPadInst*) d.p, ti, sel) == 2) found = true; }
        if (!found) { auto* g = gvAt(ti); viol("uncaught exception of type " + (g ? demangle(g->getName().str()) : std::string("?")) + " (std::terminate)"); }
        while (true) {
            Frame* fr = s->top(); DI& d = fr->fn->code[fr->pc];
            if (d.op == I_INVOKE) { int k = lpMatch((LandingPadInst*) d.p, ti, sel); if (k) { t.exnPtr = obj; t.exnSel = sel; f = fr; take(d.b2); return; } }
            popStack(fr); unref(t.fr.back()); t.fr.pop_back();
        }
    }

    // ---- control
    void take(int edge) {
        Edge& e = f->fn->edges[edge];
        if (!e.mv.empty()) {
            if (!e.par) for (auto& m : e.mv) f->regs[m.dst] = get(m.src);
            else { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.mv.size() > 64) { big.resize(e.mv.size()); t = big.data(); } size_t i = 0; for (auto& m : e.mv) t[i++] = get(m.src); i = 0; for (auto& m : e.mv) f->regs[m.dst] = t[i++]; }
        }
        f->pc = e.target;
    }
    static void ensure(FnInfo* fi) { if (!fi->decoded) { Decoder d; d.decode(fi); } fi->executed = true; }
    void pushFrame(FnInfo* fi, const Val* args, size_t n) {
        ensure(fi);
        Thread& t = s->th[s->cur];
        if (t.fr.size() > 3000) viol("stack overflow (unbounded recursion)");
        Frame* nf = new Frame(fi); nf->stkMark = s->stk[s->cur]->n;
        if (n != (size_t) (fi->argSlot.empty() ? 0 : fi->argSlot.back() + fi->argN.back())) viol("call through a function pointer of another type (dangling object?) to " + fi->name);
        for (size_t i = 0; i < n; i++) nf->regs[i] = args[i];
        t.fr.push_back(nf); f = nf;
        for (size_t i = 0; i < fi->byval.size(); i++) if (fi->byval[i]) { u64 src = nf->regs[fi->argSlot[i]].c; u64 d = allocStack(fi->byval[i]); copyMem(d, src, fi->byval[i]); nf->regs[fi->argSlot[i]] = vc(d); }
    }
    void finishCall(const Val* r, int n) { // f is the caller's frame at the call instruction
        DI& d = f->fn->code[f->pc];
        if (d.dst >= 0) for (int i = 0; i < n && i < d.n; i++) f->regs[d.dst + i] = r[i];
        if (d.op == I_INVOKE) take(d.b1); else f->pc++;
    }

    // ---- scheduling
    bool enabled(State* st, int t) {
        Thread& T = st->th[t];
        switch (T.pend) {
        case P_DONE: return false;
        case P_LOCK: { auto it = st->mtx.find(T.paddr); return it == st->mtx.end() || it->second.owner < 0; }
        case P_JOIN: return st->th[T.paddr].pend == P_DONE;
        default: return true;
        }
    }
    static bool indep(PendK a, u64 x, PendK b, u64 y) {
        if (a == P_START || b == P_START || a == P_JOIN || b == P_JOIN || a == P_YIELD || b == P_YIELD) return true;
        if (x != y) return true;
        return a == P_ATOMR && b == P_ATOMR;
    }
    // Called at a visible operation of the current thread (or when it finished). Returns true if the current thread may execute it now.
    bool visible(PendK k, u64 addr) {
        Thread& me = s->th[s->cur];
        if (!multi()) return true;
        if (me.sched) { me.sched = false; me.pend = P_NONE; return true; }
        me.pend = k; me.paddr = addr;
        schedule();
        return false;
    }
    void schedule() {
        std::vector<int> cand; bool anyEn = false;
        for (int t = 0; t < (int) s->th.size(); t++) if (enabled(s, t)) { anyEn = true; if (!(s->sleep >> t & 1)) cand.push_back(t); }
        if (cand.empty()) { if (anyEn) throw PathEnd{2}; viol("deadlock"); }
        u32 z = s->sleep; int prev = s->cur;
        std::vector<State*> ch;
        for (size_t i = 0; i < cand.size(); i++) ch.push_back(i + 1 < cand.size() ? nullptr : s);
        for (size_t i = 0; i + 1 < cand.size(); i++) ch[i] = fork();
        for (size_t i = 0; i < cand.size(); i++) {
            State* c = ch[i]; int t = cand[i]; u32 nz = 0; Thread& T = c->th[t];
            for (int u = 0; u < (int) c->th.size(); u++) if ((z >> u & 1) && indep(c->th[u].pend, c->th[u].paddr, T.pend, T.paddr)) nz |= 1u << u;
            z |= 1u << t;
            c->sleep = nz; c->cur = t; T.sched = true; c->sched.push_back(t);
            if (t != prev && enabled(c, prev)) c->preempts++;
            if (T.pend == P_START) { T.sched = false; T.pend = P_NONE; } // started: it runs up to its first visible operation
        }
        // ch.back() == s continues with the last candidate; order within DFS is irrelevant for exhaustiveness
        for (size_t i = 0; i + 1 < ch.size(); i++) work.push_back(ch[i]);
        f = s->top();
    }
    void acquire(std::array<u32, MAXT>& a) { auto& v = s->th[s->cur].vc; for (int i = 0; i < MAXT; i++) v[i] = std::max(v[i], a[i]); }
    void release(std::array<u32, MAXT>& a, bool join) { auto& v = s->th[s->cur].vc; for (int i = 0; i < MAXT; i++) a[i] = join ? std::max(a[i], v[i]) : v[i]; v[s->cur]++; }
    static bool isAcq(int o) { auto x = (AtomicOrdering) o; return x == AtomicOrdering::Acquire || x == AtomicOrdering::AcquireRelease || x == AtomicOrdering::SequentiallyConsistent; }
    static bool isRel(int o) { auto x = (AtomicOrdering) o; return x == AtomicOrdering::Release || x == AtomicOrdering::AcquireRelease || x == AtomicOrdering::SequentiallyConsistent; }

    // ---- externals; returns false if control was transferred (pc handled) or must re-execute
    int newVar(int w) { int i = s->varW.size(); if (i >= MAXVARS) fatal("too many symbolic variables on a path"); s->varW.push_back(w); return i; }
    void doAssert(const Val& v, const std::string& msg, int w) {
        S.asserts++;
        if (!v.e) { if (!(v.c & mask64(w))) viol("assertion failed: " + msg); return; }
        E c = v.e; if (c->width != 1) c = eNot(eBin(O_EQ, c, eConst(0, c->width)));
        if (c->isConst()) { if (!c->c) viol("assertion failed: " + msg); return; }
        S.assertsSymbolic++;
        Model m2;
        if (chk(s, eNot(c), &m2)) { addC(s, eNot(c)); s->model = m2; viol("assertion failed: " + msg); }
        S.assertsProved++;
    }
    bool ext(int x, DI& d, FnInfo* fi) {
        auto A = [&](int i) -> const Val& { return get(d.ops[i]); };
        auto ret = [&](Val v) { finishCall(&v, 1); };
        auto retv = [&] { finishCall(nullptr, 0); };
        switch (x) {
        case X_MALLOC: { u64 n = conc(d.ops[0]); ret(vc(allocHeap(n))); return true; }
        case X_ALIGNED: { u64 n = conc(d.ops[1]); ret(vc(allocHeap(n))); return true; }
        case X_CALLOC: { u64 n = conc(d.ops[0]) * conc(d.ops[1]); u64 a = allocHeap(n); memset(s->mem.get(a >> 20)->d, 0, n); ret(vc(a)); return true; }
        case X_FREE: { u64 a = conc(d.ops[0]); freeHeap(a); retv(); return true; }
        case X_MAKE: { int w = conc(d.ops[0]); int i = newVar(w); ret(fromE(eZext(eVar(i, w), 64))); return true; }
        case X_CHOICE: {
            u64 n = conc(d.ops[0]); if (n == 0) throw PathEnd{1}; int i = newVar(32); E v = eVar(i, 32);
            for (u64 k = 1; k < n; k++) { State* o = fork(); o->cs.push_back(eBin(O_EQ, v, eConst(k, 32))); o->model.set(i, k); State* sv = s; Frame* sf = f; s = o; f = o->top(); finishCall(std::array<Val, 1>{vc(k)}.data(), 1); s = sv; f = sf; work.push_back(o); }
            s->cs.push_back(eBin(O_EQ, v, eConst(0, 32))); s->model.set(i, 0); ret(vc(0)); return true; }
        case X_CONC: { u64 v = conc(d.ops[0]); ret(vc(v)); return true; }
        case X_ISSYM: ret(vc(A(0).e ? 1 : 0)); return true;
        case X_ASSUME: {
            Val v = A(0);
            if (!v.e) { if (!(v.c & 1)) throw PathEnd{1}; retv(); return true; }
            E c = v.e; if (c->width != 1) c = eNot(eBin(O_EQ, c, eConst(0, c->width)));
            if (!evalB(s, c)) { Model m2; if (!chk(s, c, &m2)) throw PathEnd{1}; s->model = m2; }
            addC(s, c); retv(); return true; }
        case X_ASSERT: { std::string msg = cstr(conc(d.ops[1])); assertMsgs[msg]++; Val v = A(0); if (v.e && v.e->width == 1) doAssert(v, msg, 1); else doAssert(v, msg, 1); retv(); return true; }
        case X_FAIL: viol("assertion failed: " + cstr(conc(d.ops[0])));
        case X_REACH: reachLabels.insert(cstr(conc(d.ops[0]))); retv(); return true;
        case X_TAG: s->tags.insert(cstr(conc(d.ops[0]))); retv(); return true;
        case X_OBSERVE: s->obs.push_back(A(0)); retv(); return true;
        case X_DEMANGLE: { // (mangled, buffer = null, length, status)
            int st = 0; std::string in = cstr(conc(d.ops[0])); char* r = abi::__cxa_demangle(in.c_str(), nullptr, nullptr, &st);
            u64 sp = conc(d.ops[3]); if (sp) store(sp, vc((u32) st), 32, false);
            if (!r) { ret(vc(0)); return true; }
            u64 n = strlen(r) + 1, a = allocHeap(n); memcpy(s->mem.get(a >> 20)->d, r, n); free(r); ret(vc(a)); return true; }
        case X_PRINT: if (optVerbose) { Val v = A(1); fprintf(stderr, "[print] %s ", cstr(conc(d.ops[0])).c_str()); if (v.e) { Evaluator ev(s->model); fprintf(stderr, "sym(%llu)\n", (unsigned long long) (u64) ev.ev(v.e)); } else fprintf(stderr, "%llu\n", (unsigned long long) v.c); } retv(); return true;
        case X_UF: { // __lsym_uf(u32 fid, u32 retbits, u32 n, u64 a0, u64 a1, u64 a2)
            u64 fid = conc(d.ops[0]); int rw = conc(d.ops[1]); int n = conc(d.ops[2]); std::vector<E> args; for (int i = 0; i < n; i++) args.push_back(toE(A(3 + i), 64));
            for (auto& u : s->ufs) if (u.fid == fid && u.args == args) { ret(fromE(eZext(eVar(u.var, rw), 64))); return true; }
            int vi = newVar(rw); E r = eVar(vi, rw); bool fixed = false;
            // model update: keep the model consistent with congruence
            std::vector<E> add;
            Evaluator ev(s->model); std::vector<u128> av; for (E a : args) av.push_back(ev.ev(a));
            for (auto& u : s->ufs) if (u.fid == fid) {
                E same = eTrue(); for (int i = 0; i < n; i++) same = eBin(O_AND, same, eBin(O_EQ, args[i], u.args[i]));
                E c = eBin(O_OR, eNot(same), eBin(O_EQ, r, eVar(u.var, rw)));
                if (!c->isConst()) add.push_back(c);
                if (!fixed) { bool eq = true; for (int i = 0; i < n; i++) if (ev.ev(u.args[i]) != av[i]) eq = false; if (eq) { s->model.set(vi, s->model.get(u.var)); fixed = true; } }
            }
            for (E c : add) s->cs.push_back(c);
            s->ufs.push_back({fid, args, vi}); ret(fromE(eZext(r, 64))); return true; }
        case X_MEMCPY: { u64 dd = conc(d.ops[0]), ss = conc(d.ops[1]), n = conc(d.ops[2]); copyMem(dd, ss, n); ret(vc(dd)); return true; }
        case X_MEMSET: { u64 dd = conc(d.ops[0]), n = conc(d.ops[2]); memSet(dd, A(1), n, 32); ret(vc(dd)); return true; }
        case X_MEMCMP: {
            u64 a = conc(d.ops[0]), b = conc(d.ops[1]), n = conc(d.ops[2]); E r = eConst(0, 32);
            std::vector<Val> x, y; for (u64 i = 0; i < n; i++) { x.push_back(load(a + i, 8)); y.push_back(load(b + i, 8)); }
            for (u64 i = n; i-- > 0;) { E p = toE(x[i], 8), q = toE(y[i], 8); r = eIte(eBin(O_EQ, p, q), r, eBin(O_SUB, eZext(p, 32), eZext(q, 32))); }
            ret(fromE(r)); return true; }
        case X_HEAPLIVE: ret(vc(s->heapLive)); return true;
        case X_NOP0: ret(vc(0)); return true;
        case X_SELF: ret(vc(0x1000 + s->cur)); return true;
        case X_TID: ret(vc(s->cur)); return true;
        case X_TERMINATE: viol("std::terminate called");
        case X_ABORT: viol("abort called");
        case X_ASSERTFAIL: viol("assert() failed in the code under test: " + cstr(conc(d.ops[0])) + " (" + cstr(conc(d.ops[1])) + ")");
        case X_GLASSERT: viol("libstdc++ precondition violated: " + cstr(conc(d.ops[3])) + " in " + cstr(conc(d.ops[2])));
        case X_UNWIND: { u64 o = conc(d.ops[0]), ti = conc(d.ops[1]); bool have = false; for (auto& p : s->exns) if (p.first == o) { p.second = ti; have = true; } if (!have) s->exns.push_back({o, ti}); unwind(o, ti); return true; }
        case X_DYNCAST: {
            u64 p = conc(d.ops[0]); u64 dst = conc(d.ops[2]); if (!p) { ret(vc(0)); return true; }
            u64 vp = load(p, 64).c; int64_t top = load(vp - 16, 64).c; u64 ti = load(vp - 8, 64).c; int64_t off; auto *a = gvAt(ti), *b = gvAt(dst); if (!a || !b) fatal("dynamic_cast type info");
            if (derives(a, b, off)) ret(vc(p + top + off)); else ret(vc(0)); return true; }
        case X_LOCK: case X_TRYLOCK: {
            u64 m = conc(d.ops[0]); locate(m, 40, "mutex");
            if (x == X_LOCK) { auto it = s->mtx.find(m); if (it != s->mtx.end() && it->second.owner == s->cur) viol("deadlock (mutex locked twice by the same thread)"); }
            if (!visible(P_LOCK, m)) return false;
            MutexSt& ms = s->mtx[m]; if (ms.owner >= 0) { if (x == X_TRYLOCK) { ret(vc(16)); return true; } viol("deadlock"); }
            ms.owner = s->cur; for (int i = 0; i < MAXT; i++) s->th[s->cur].vc[i] = std::max(s->th[s->cur].vc[i], ms.vc[i]);
            ret(vc(0)); return true; }
        case X_UNLOCK: {
            u64 m = conc(d.ops[0]); locate(m, 40, "mutex");
            if (!visible(P_UNLOCK, m)) return false;
            MutexSt& ms = s->mtx[m]; if (ms.owner != s->cur) viol("unlock of a mutex not held");
            ms.owner = -1; Thread& t = s->th[s->cur]; for (int i = 0; i < MAXT; i++) ms.vc[i] = t.vc[i]; t.vc[s->cur]++;
            ret(vc(0)); return true; }
        case X_YIELD: { if (!visible(P_YIELD, 0)) return false; retv(); return true; }
        case X_THREAD: {
            u64 fn = conc(d.ops[0]); Val arg = A(1); FnInfo* tf = fnFromAddr(fn); if (!tf) fatal("thread function");
            int id = s->th.size(); if (id >= MAXT) fatal("too many threads");
            ensure(tf); Thread& me = s->th[s->cur];
            if (id == 1) { me.vc[0] = 1; }
            Thread nt; memcpy(nt.vc, me.vc, sizeof nt.vc); nt.vc[id] = 1; me.vc[s->cur]++; nt.pend = P_START;
            Frame* nf = new Frame(tf); nf->stkMark = 0; nf->regs[0] = arg; nt.fr.push_back(nf);
            s->th.push_back(nt); s->stk.push_back(new Table); f = s->top();
            ret(vc(id)); return true; }
        case X_JOIN: {
            u64 id = conc(d.ops[0]); if (id >= s->th.size()) fatal("join");
            if (!visible(P_JOIN, id)) return false;
            Thread& me = s->th[s->cur]; for (int i = 0; i < MAXT; i++) me.vc[i] = std::max(me.vc[i], s->th[id].vc[i]);
            retv(); return true; }
        }
        fatal("external function not modelled: " + fi->name + " (" + demangle(fi->name) + ")" + backtrace());
    }
    void memSet(u64 a, Val v, u64 n, int w) {
        if (!n) return;
        Loc l = locate(a, n, "write"); race(l, n, true); Obj* o = l.t->wobj(l.i);
        if (!v.e) { memset(o->d + l.off, (int) v.c, n); if (o->sym) memset((void*) (o->sym + l.off), 0, n * sizeof(SymB)); return; }
        E b = eExtract(v.e, 0, 8); o->needSym(); for (u64 i = 0; i < n; i++) o->sym[l.off + i] = {b, 0};
        (void) w;
    }
    static double asD(u64 b, int w) { if (w == 64) { double d; memcpy(&d, &b, 8); return d; } float x; u32 c = b; memcpy(&x, &c, 4); return x; }
    static u64 ofD(double d, int w) { if (w == 64) { u64 b; memcpy(&b, &d, 8); return b; } float x = (float) d; u32 c; memcpy(&c, &x, 4); return c; }

    void intr(DI& d) {
        auto A = [&](int i) -> const Val& { return get(d.ops[i]); };
        int w = d.w;
        auto bin = [&](Op op, int i, int j) { return eBin(op, toE(A(i), w), toE(A(j), w)); };
        switch (d.sub) {
        case N_MEMCPY: { u64 n = conc(d.ops[2]); u64 a = conc(d.ops[0]), b = conc(d.ops[1]); copyMem(a, b, n); break; }
        case N_MEMSET: { u64 n = conc(d.ops[2]); u64 a = conc(d.ops[0]); memSet(a, A(1), n, 8); break; }
        case N_UADDO: { E r = bin(O_ADD, 0, 1); setr(d.dst, fromE(r)); setr(d.dst + 1, fromE(eBin(O_ULT, r, toE(A(0), w)))); break; }
        case N_USUBO: { E r = bin(O_SUB, 0, 1); setr(d.dst + 1, fromE(bin(O_ULT, 0, 1))); setr(d.dst, fromE(r)); break; }
        case N_UMULO: case N_SMULO: case N_SADDO: case N_SSUBO: {
            if (w > 64) fatal("wide overflow intrinsic");
            bool sg = d.sub != N_UMULO; auto X = [&](int i) { return sg ? eSext(toE(A(i), w), 2 * w) : eZext(toE(A(i), w), 2 * w); };
            Op op = d.sub == N_SADDO ? O_ADD : d.sub == N_SSUBO ? O_SUB : O_MUL; E r = eBin(op, X(0), X(1)); E lo = eExtract(r, 0, w);
            E ov = eNot(eBin(O_EQ, r, sg ? eSext(lo, 2 * w) : eZext(lo, 2 * w))); setr(d.dst, fromE(lo)); setr(d.dst + 1, fromE(ov)); break; }
        case N_UMAX: setr(d.dst, fromE(eIte(bin(O_ULT, 0, 1), toE(A(1), w), toE(A(0), w)))); break;
        case N_UMIN: setr(d.dst, fromE(eIte(bin(O_ULT, 0, 1), toE(A(0), w), toE(A(1), w)))); break;
        case N_SMAX: setr(d.dst, fromE(eIte(bin(O_SLT, 0, 1), toE(A(1), w), toE(A(0), w)))); break;
        case N_SMIN: setr(d.dst, fromE(eIte(bin(O_SLT, 0, 1), toE(A(0), w), toE(A(1), w)))); break;
        case N_ABS: { E a = toE(A(0), w); setr(d.dst, fromE(eIte(eBin(O_SLT, a, eConst(0, w)), eBin(O_SUB, eConst(0, w), a), a))); break; }
        case N_USUBSAT: setr(d.dst, fromE(eIte(bin(O_ULT, 0, 1), eConst(0, w), bin(O_SUB, 0, 1)))); break;
        case N_UADDSAT: { E r = bin(O_ADD, 0, 1); setr(d.dst, fromE(eIte(eBin(O_ULT, r, toE(A(0), w)), eConst(~(u128) 0, w), r))); break; }
        case N_CTLZ: { E a = toE(A(0), w), r = eConst(w, w); for (int i = 0; i < w; i++) r = eIte(eExtract(a, i, 1), eConst(w - 1 - i, w), r); setr(d.dst, fromE(r)); break; }
        case N_CTTZ: { E a = toE(A(0), w), r = eConst(w, w); for (int i = w - 1; i >= 0; i--) r = eIte(eExtract(a, i, 1), eConst(i, w), r); setr(d.dst, fromE(r)); break; }
        case N_CTPOP: { E a = toE(A(0), w), r = eConst(0, w); for (int i = 0; i < w; i++) r = eBin(O_ADD, r, eZext(eExtract(a, i, 1), w)); setr(d.dst, fromE(r)); break; }
        case N_BSWAP: { E a = toE(A(0), w); E r = eExtract(a, 0, 8); for (int i = 8; i < w; i += 8) r = eConcat(r, eExtract(a, i, 8)); setr(d.dst, fromE(r)); break; }
        case N_FSHL: case N_FSHR: {
            E a = toE(A(0), w), b = toE(A(1), w), c = eBin(O_UREM, toE(A(2), w), eConst(w, w)); E cc = eConcat(a, b); E s2 = eZext(c, 2 * w);
            E r = d.sub == N_FSHL ? eExtract(eBin(O_SHL, cc, s2), w, w) : eExtract(eBin(O_LSHR, cc, s2), 0, w); setr(d.dst, fromE(r)); break; }
        case N_TYPEID: setr(d.dst, vc((A(0).c >> 20) & 0x7fffffff)); break;
        case N_TRAP: viol("trap executed (undefined behaviour)");
        case N_ISCONST: setr(d.dst, vc(0)); break;
        case N_OBJSIZE: setr(d.dst, vc(d.imm & mask64(w))); break;
        case N_TLADDR: { u64 g = A(0).c; if (s->cur == 0) { setr(d.dst, vc(g)); break; } auto& m = s->th[s->cur].tls; auto it = m.find(g); if (it == m.end()) { auto* gv = gvAt(g); u64 sz = DL->getTypeAllocSize(gv->getValueType()); u64 a = allocHeap(sz, 0); Obj* o = s->mem.get(a >> 20); memset(o->d, 0, sz); if (gv->hasInitializer()) pokeConst(o->d, sz, gv->getInitializer(), 0); it = m.insert({g, a}).first; } setr(d.dst, vc(it->second)); break; }
        case N_STACKSAVE: setr(d.dst, vc(0)); break;
        case N_PTRMASK: setr(d.dst, fromE(bin(O_AND, 0, 1))); break;
        case N_FUNARY: { u64 a = conc(d.ops[0]); double x = asD(a, w), r; switch (d.imm) { case Intrinsic::fabs: r = std::fabs(x); break; case Intrinsic::floor: r = std::floor(x); break; case Intrinsic::ceil: r = std::ceil(x); break; case Intrinsic::trunc: r = std::trunc(x); break; case Intrinsic::sqrt: r = std::sqrt(x); break; case Intrinsic::round: r = std::round(x); break; default: r = std::nearbyint(x); } setr(d.dst, vc(ofD(r, w))); break; }
        case N_FBINARY: { double x = asD(conc(d.ops[0]), w), y = asD(conc(d.ops[1]), w); double r = (d.imm == Intrinsic::minnum || d.imm == Intrinsic::minimum) ? std::fmin(x, y) : std::fmax(x, y); setr(d.dst, vc(ofD(r, w))); break; }
        case N_LRINT: { u64 a = conc(d.ops[0]), b = conc(d.ops[1]), c = conc(d.ops[2]); if (w == 32) { float r = (float) asD(a, w) * (float) asD(b, w); r += (float) asD(c, w); setr(d.dst, vc(ofD(r, w))); } else setr(d.dst, vc(ofD(asD(a, w) * asD(b, w) + asD(c, w), w))); break; }
        default: fatal("intrinsic");
        }
        f->pc++;
    }

    void doCall(DI& d) {
        u64 a = conc(d.a); FnInfo* fi = fnFromAddr(a);
        if (!fi) viol("call through an invalid function pointer");
        if (fi->ext == 0) {
            if (fi->name == "_ZSt24__throw_out_of_range_fmtPKcz") { Function* t = M->getFunction("__lsym_throw_out_of_range_fmt"); Val a0 = get(d.ops[0]); pushFrame(fnInfo(t), &a0, 1); return; }
            auto it = extNames.find(fi->name); 
            if (it != extNames.end()) fi->ext = it->second;
            else fi->ext = fi->f->isDeclaration() ? 10000 : -1;
            if (fi->ext == 10000) fatal("external function not modelled: " + fi->name + " (" + demangle(fi->name) + ")" + backtrace());
        }
        if (fi->ext > 0) { ext(fi->ext, d, fi); return; }
        if (fi->f->isVarArg()) fatal("variadic function called: " + fi->name);
        Val tmp[48]; size_t n = d.ops.size(); if (n > 48) fatal("too many arguments"); for (size_t i = 0; i < n; i++) tmp[i] = get(d.ops[i]);
        // byval pointers must be concrete
        for (size_t i = 0; i < n; i++) if (tmp[i].e && d.imms.size() == n && i < fi->f->arg_size() && fi->f->hasParamAttribute(i, Attribute::ByVal)) tmp[i] = vc(conc(d.ops[i]));
        pushFrame(fi, tmp, n);
    }

    // runs the state until the path ends
    void run(State* st) {
        s = st; f = s->top();
        try {
            while (true) {
                if (++s->steps > optMaxPath) viol("execution does not terminate within the step bound");
                S.instr++;
                DI& d = f->fn->code[f->pc];
                switch (d.op) {
                case I_NOP: f->pc++; break;
                case I_MOV: f->regs[d.dst] = get(d.a); f->pc++; break;
                case I_BIN: {
                    const Val &a = get(d.a), &b = get(d.b);
                    if (!a.e && !b.e) {
                        u64 x = a.c, y = b.c, r; int w = d.w;
                        switch (d.sub) {
                        case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
                        case O_SHL: r = y >= (u64) w ? 0 : x << y; break; case O_LSHR: r = y >= (u64) w ? 0 : x >> y; break; case O_ASHR: r = sext64(x, w) >> (y >= (u64) w ? w - 1 : y); break;
                        default: if (!y) viol("division by zero"); r = (u64) evalOp((Op) d.sub, w, x, y, w);
                        }
                        f->regs[d.dst] = vc(r & mask64(w));
                    } else {
                        E x = toE(a, d.w), y = toE(b, d.w);
                        if (d.sub >= O_UDIV && d.sub <= O_SREM) { if (decide(eBin(O_EQ, y, eConst(0, d.w)))) viol("division by zero"); }
                        f->regs[d.dst] = fromE(eBin((Op) d.sub, x, y));
                    }
                    f->pc++; break; }
                case I_ICMP: {
                    const Val &a = get(d.a), &b = get(d.b);
                    if (!a.e && !b.e) {
                        u64 x = a.c, y = b.c; bool r; int64_t p = sext64(x, d.w), q = sext64(y, d.w);
                        switch (d.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
                            case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; case CmpInst::ICMP_SGT: r = p > q; break; default: r = p >= q; }
                        f->regs[d.dst] = vc(r);
                    } else {
                        E x = toE(a, d.w), y = toE(b, d.w), r;
                        switch (d.sub) { case CmpInst::ICMP_EQ: r = eBin(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = eNot(eBin(O_EQ, x, y)); break; case CmpInst::ICMP_ULT: r = eBin(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = eBin(O_ULE, x, y); break; case CmpInst::ICMP_UGT: r = eBin(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = eBin(O_ULE, y, x); break;
                            case CmpInst::ICMP_SLT: r = eBin(O_SLT, x, y); break; case CmpInst::ICMP_SLE: r = eBin(O_SLE, x, y); break; case CmpInst::ICMP_SGT: r = eBin(O_SLT, y, x); break; default: r = eBin(O_SLE, y, x); }
                        f->regs[d.dst] = fromE(r);
                    }
                    f->pc++; break; }
                case I_ZEXT: { const Val& a = get(d.a); if (!a.e && d.w <= 64) f->regs[d.dst] = a; else f->regs[d.dst] = fromE(eZext(toE(a, d.w2), d.w)); f->pc++; break; }
                case I_SEXT: { const Val& a = get(d.a); if (!a.e && d.w <= 64) f->regs[d.dst] = vc((u64) sext64(a.c, d.w2) & mask64(d.w)); else f->regs[d.dst] = fromE(eSext(toE(a, d.w2), d.w)); f->pc++; break; }
                case I_TRUNC: { const Val& a = get(d.a); if (!a.e) f->regs[d.dst] = vc(a.c & mask64(d.w)); else f->regs[d.dst] = fromE(eExtract(a.e, 0, d.w)); f->pc++; break; }
                case I_SELECT: {
                    const Val& c = get(d.c);
                    if (!c.e) f->regs[d.dst] = c.c & 1 ? get(d.a) : get(d.b);
                    else f->regs[d.dst] = fromE(eIte(c.e, toE(get(d.a), d.w), toE(get(d.b), d.w)));
                    f->pc++; break; }
                case I_GEP: {
                    const Val& a = get(d.a); bool sym = a.e; for (int o : d.ops) sym |= get(o).e != nullptr;
                    if (!sym) { u64 r = a.c + d.imm; for (size_t i = 0; i < d.ops.size(); i++) r += d.imms[2 * i] * (u64) sext64(get(d.ops[i]).c, d.imms[2 * i + 1]); f->regs[d.dst] = vc(r); }
                    else {
                        E r = eBin(O_ADD, toE(a, 64), eConst(d.imm, 64));
                        for (size_t i = 0; i < d.ops.size(); i++) { int w = d.imms[2 * i + 1]; E x = toE(get(d.ops[i]), w); x = w < 64 ? eSext(x, 64) : eExtract(x, 0, 64); r = eBin(O_ADD, r, eBin(O_MUL, x, eConst(d.imms[2 * i], 64))); }
                        f->regs[d.dst] = fromE(r);
                    }
                    f->pc++; break; }
                case I_LOAD: {
                    u64 a = conc(d.a);
                    if (d.atomic) { if (!visible(P_ATOMR, a)) break; if (multi() && isAcq(d.ord)) acquire(s->avc[a]); }
                    Val v = load(a, d.w, d.atomic);
                    if (d.w == 1 && !v.e) v.c &= 1;
                    f->regs[d.dst] = v; f->pc++; break; }
                case I_LOADAGG: { u64 a = conc(d.a); for (int i = 0; i < d.n; i++) f->regs[d.dst + i] = load(a + d.imms[2 * i], d.imms[2 * i + 1]); f->pc++; break; }
                case I_STORE: {
                    u64 a = conc(d.b);
                    if (d.atomic) { if (!visible(P_ATOMW, a)) break; if (multi() && isRel(d.ord)) release(s->avc[a], false); }
                    store(a, get(d.a), d.w, d.atomic); f->pc++; break; }
                case I_STOREAGG: { u64 a = conc(d.b); for (size_t i = 0; i < d.ops.size(); i++) store(a + d.imms[2 * i], get(d.ops[i]), d.imms[2 * i + 1]); f->pc++; break; }
                case I_ATOMICRMW: {
                    u64 a = conc(d.a);
                    if (!visible(P_ATOMW, a)) break;
                    if (multi()) { if (isAcq(d.ord)) acquire(s->avc[a]); if (isRel(d.ord)) release(s->avc[a], true); }
                    Val o = load(a, d.w, true); E x = toE(o, d.w), y = toE(get(d.b), d.w), r;
                    switch (d.sub) { case AtomicRMWInst::Add: r = eBin(O_ADD, x, y); break; case AtomicRMWInst::Sub: r = eBin(O_SUB, x, y); break; case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::And: r = eBin(O_AND, x, y); break; case AtomicRMWInst::Or: r = eBin(O_OR, x, y); break; case AtomicRMWInst::Xor: r = eBin(O_XOR, x, y); break; default: fatal("atomicrmw"); }
                    store(a, fromE(r), d.w, true); f->regs[d.dst] = o; f->pc++; break; }
                case I_CMPXCHG: {
                    u64 a = conc(d.a);
                    if (!visible(P_ATOMW, a)) break;
                    Val o = load(a, d.w, true); E eq = eBin(O_EQ, toE(o, d.w), toE(get(d.b), d.w));
                    bool keep = multi() && !eq->isConst(); if (keep) s->th[s->cur].sched = true; // re-execution after a fork must not reschedule
                    bool ok = decide(eq); if (keep) s->th[s->cur].sched = false;
                    if (multi()) { if (isAcq(d.ord)) acquire(s->avc[a]); if (ok && isRel(d.ord)) release(s->avc[a], true); }
                    if (ok) store(a, get(d.c), d.w, true);
                    f->regs[d.dst] = o; f->regs[d.dst + 1] = vc(ok); f->pc++; break; }
                case I_ALLOCA: { u64 n = conc(d.a); f->regs[d.dst] = vc(allocStack(n * d.imm)); f->pc++; break; }
                case I_BR: take(d.b1); break;
                case I_CBR: { const Val& c = get(d.a); bool t = c.e ? decide(c.e) : (c.c & 1); take(t ? d.b1 : d.b2); break; }
                case I_SWITCH: {
                    const Val& c = get(d.a); int tgt = d.b1;
                    if (!c.e) { for (size_t i = 0; i < d.imms.size(); i++) if (d.imms[i] == c.c) { tgt = d.ops[i]; break; } }
                    else { E e = c.e; for (size_t i = 0; i < d.imms.size(); i++) if (decide(eBin(O_EQ, e, eConst(d.imms[i], d.w)))) { tgt = d.ops[i]; break; } }
                    take(tgt); break; }
                case I_RET: {
                    Val r[64]; int n = d.ops.size(); if (n > 64) fatal("large return"); for (int i = 0; i < n; i++) r[i] = get(d.ops[i]);
                    Thread& t = s->th[s->cur]; popStack(f); unref(t.fr.back()); t.fr.pop_back();
                    if (t.fr.empty()) {
                        if (s->cur == 0) { for (size_t i = 1; i < s->th.size(); i++) if (s->th[i].pend != P_DONE) fatal("harness ended with running threads"); throw PathEnd{0}; }
                        t.pend = P_DONE; t.vc[s->cur]++; schedule(); break;
                    }
                    f = s->top(); finishCall(r, n); break; }
                case I_CALL: case I_INVOKE: doCall(d); break;
                case I_RESUME: { u64 o = conc(d.ops[0]); u64 ti = 0; for (auto& p : s->exns) if (p.first == o) ti = p.second; popStack(f); auto& t = s->th[s->cur]; unref(t.fr.back()); t.fr.pop_back(); if (t.fr.empty()) viol("exception left the program"); unwind(o, ti); break; }
                case I_LPAD: { auto& t = s->th[s->cur]; f->regs[d.dst] = vc(t.exnPtr); f->regs[d.dst + 1] = vc(t.exnSel & 0xffffffff); f->pc++; break; }
                case I_UNREACH: viol("unreachable code executed (undefined behaviour)");
                case I_INTR: intr(d); break;
                case I_FBIN: { u64 a = conc(d.a), b = conc(d.b); double x = asD(a, d.w), y = asD(b, d.w), r; if (d.w == 32) { float p = x, q = y; switch (d.sub) { case Instruction::FAdd: r = p + q; break; case Instruction::FSub: r = p - q; break; case Instruction::FMul: r = p * q; break; case Instruction::FDiv: r = p / q; break; default: r = fmodf(p, q); } } else switch (d.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } f->regs[d.dst] = vc(ofD(r, d.w)); f->pc++; break; }
                case I_FNEG: { u64 a = conc(d.a); f->regs[d.dst] = vc(ofD(-asD(a, d.w), d.w)); f->pc++; break; }
                case I_FCMP: {
                    u64 a = conc(d.a), b = conc(d.b); double x = asD(a, d.w), y = asD(b, d.w); bool un = std::isnan(x) || std::isnan(y), r;
                    switch (d.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
                    f->regs[d.dst] = vc(r); f->pc++; break; }
                case I_FPCAST: {
                    u64 a = conc(d.a); u64 r;
                    switch (d.sub) { case Instruction::UIToFP: r = d.w == 32 ? ofD((float) a, 32) : ofD((double) a, 64); break; case Instruction::SIToFP: r = d.w == 32 ? ofD((float) sext64(a, d.w2), 32) : ofD((double) sext64(a, d.w2), 64); break;
                        case Instruction::FPToUI: r = (u64) asD(a, d.w2) & mask64(d.w); break; case Instruction::FPToSI: r = (u64) (int64_t) asD(a, d.w2) & mask64(d.w); break;
                        case Instruction::FPExt: case Instruction::FPTrunc: r = ofD(asD(a, d.w2), d.w); break; default: fatal("fp cast"); }
                    f->regs[d.dst] = vc(r); f->pc++; break; }
                default: fatal("opcode");
                }
            }
        } catch (PathEnd& p) {
            if (p.why == 0) { S.paths++; sample(); }
            else if (p.why == 1) S.infeasible++;
            else S.pruned++;
            delete s;
        } catch (Violation& v) {
            report(v.msg + backtrace());
            delete s;
        }
    }
    // ---- output
    void dumpPath(const char* file, const std::string& head) {
        FILE* o = fopen(file, "w"); if (!o) fatal("cannot write replay");
        fprintf(o, "lsym-replay 1\n"); std::string h = head; for (auto& c : h) if (c == '\n') c = '|'; fprintf(o, "message %s\n", h.c_str());
        for (auto& t : s->tags) fprintf(o, "tag %s\n", t.c_str());
        std::set<int> ufv; for (auto& u : s->ufs) ufv.insert(u.var);
        for (size_t i = 0; i < s->varW.size(); i++) if (!ufv.count(i)) fprintf(o, "v %d %llu\n", s->varW[i], (unsigned long long) (s->model.get(i) & mask64(s->varW[i])));
        Evaluator ev(s->model);
        for (auto& u : s->ufs) { fprintf(o, "uf %llu %zu", (unsigned long long) u.fid, u.args.size()); for (E a : u.args) fprintf(o, " %llu", (unsigned long long) (u64) ev.ev(a)); fprintf(o, " %llu\n", (unsigned long long) (s->model.get(u.var) & mask64(s->varW[u.var]))); }
        if (!s->sched.empty()) { fprintf(o, "sched"); for (auto t : s->sched) fprintf(o, " %d", t); fprintf(o, "\n"); }
        for (auto& v : s->obs) fprintf(o, "o %llu\n", (unsigned long long) (v.e ? (u64) ev.ev(v.e) : v.c));
        fclose(o);
    }
    void sample() {
        // sample deterministically: first paths and then exponentially spaced ones
        bool take = (int) S.samples < optSamples && (S.paths == 1 || (S.paths * 2654435761u + optSeed * 97) % (1 + S.paths / 4) == 0);
        if (!take) return;
        // diversify the model: pin variables to pseudo-random values where the path condition allows it
        u64 rng = optSeed * 0x9e3779b97f4a7c15ull + S.paths * 0xbf58476d1ce4e5b9ull + workerId;
        for (size_t i = 0; i < s->varW.size() && i < 24; i++) {
            rng = rng * 6364136223846793005ull + 1442695040888963407ull; int w = s->varW[i]; u64 c = (rng >> 33) & mask64(w); if (w > 8 && (rng >> 20 & 1)) c &= 0xff;
            E eq = eBin(O_EQ, eVar(i, w), eConst(c, w)); Model m2; if (evalB(s, eq)) { addC(s, eq); continue; }
            if (solver->check(s->cs, eq, s->model, &m2) == 1) { addC(s, eq); s->model = m2; }
        }
        std::string fn = std::string(optOut) + ".sample." + std::to_string(workerId) + "." + std::to_string(S.samples++);
        { Evaluator ev(s->model); for (E c : s->cs) if (!ev.ev(c)) fatal("path model does not satisfy its constraints"); }
        dumpPath(fn.c_str(), "sample");
    }
    void report(const std::string& msg) {
        S.violations++;
        { Evaluator ev(s->model); for (E c : s->cs) if (!ev.ev(c)) fatal("violation model does not satisfy its constraints"); }
        u64 k = __sync_fetch_and_add(&shm->viol, 1);
        if (k >= 8) return;
        std::string fn = std::string(optOut) + ".viol." + std::to_string(k);
        dumpPath((fn + ".tmp").c_str(), msg);
        rename((fn + ".tmp").c_str(), fn.c_str());
        shm->stop = 1;
    }
};

static void writeStats(const char* err) {
    std::string fn = std::string(optOut) + ".stats." + std::to_string(workerId);
    out = fopen((fn + ".tmp").c_str(), "w");
    fprintf(out, "stat paths %llu\nstat infeasible %llu\nstat pruned %llu\nstat forks %llu\nstat instr %llu\nstat asserts %llu\nstat asserts_symbolic %llu\nstat asserts_proved %llu\nstat violations %llu\n",
            (unsigned long long) S.paths, (unsigned long long) S.infeasible, (unsigned long long) S.pruned, (unsigned long long) S.forks, (unsigned long long) S.instr, (unsigned long long) S.asserts, (unsigned long long) S.assertsSymbolic, (unsigned long long) S.assertsProved, (unsigned long long) S.violations);
    auto& t = solver->st;
    fprintf(out, "stat queries %llu\nstat z3calls %llu\nstat z3sat %llu\nstat z3unsat %llu\nstat cachehits %llu\nstat modelhits %llu\nstat fasthits %llu\nfstat z3time %.6f\n", (unsigned long long) t.queries, (unsigned long long) t.z3calls, (unsigned long long) t.sat, (unsigned long long) t.unsat, (unsigned long long) t.cacheHits, (unsigned long long) t.modelHits, (unsigned long long) t.fastHits, t.z3time);
    for (auto& r : reachLabels) fprintf(out, "reach %s\n", r.c_str());
    for (auto& m : assertMsgs) fprintf(out, "assert %llu %s\n", (unsigned long long) m.second, m.first.c_str());
    for (auto* f : fnList) if (f->executed) fprintf(out, "fn %s\n", f->name.c_str());
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(out, "max rss_mb %ld\n", ru.ru_maxrss / 1024);
    if (err) { std::string e = err; for (auto& c : e) if (c == '\n') c = '|'; fprintf(out, "error %s\n", e.c_str()); }
    fclose(out); rename((fn + ".tmp").c_str(), fn.c_str());
}

int main(int argc, char** argv) {
    const char* bc = nullptr; const char* entry = "harness_main";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return argv[++i]; };
        if (a == "-o") optOut = nx(); else if (a == "-j") optJobs = atoi(nx()); else if (a == "--time") optTime = atof(nx()); else if (a == "--entry") entry = nx(); else if (a == "--samples") optSamples = atoi(nx());
        else if (a == "--max-path") optMaxPath = strtoull(nx(), 0, 10); else if (a == "--pre") optPreStates = atoi(nx()); else if (a == "-v") optVerbose = true; else if (a == "--seed") optSeed = atoi(nx()); else if (a == "--conc") optMaxConc = atoi(nx());
        else if (a == "--dump-queries") { optVerbose = optVerbose; setenv("LSYM_DUMP", nx(), 1); }
        else bc = argv[i];
    }
    T0 = std::chrono::steady_clock::now();
    solver = new Solver;
    if (const char* dd = getenv("LSYM_DUMP")) { solver->dumpDir = dd; solver->dumpEvery = 37; solver->dumpMax = 12; }
    FREED = new Obj(0, 3); FREED->rc = 1 << 20;
    shm = (Shared*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    SMDiagnostic Err; M = parseIRFile(bc, Err, Ctx);
    if (!M) { Err.print("lsym", errs()); return 3; }
    DL = &M->getDataLayout();
    std::string err;
    Exec ex;
    try {
        State* st = new State; st->concBudget = optMaxConc; st->stk.push_back(new Table); st->th.resize(1); st->mem.n = 1;
        ex.s = st; ex.f = nullptr;
        for (auto& f : *M) fnInfo(&f);
        std::vector<GlobalVariable*> gvs;
        for (auto& g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; u64 sz = g.getValueType()->isSized() ? (u64) DL->getTypeAllocSize(g.getValueType()) : 8; if (!g.hasInitializer() && sz < 256) sz = 256; u64 a = ex.allocHeap(sz, 0); memset(st->mem.get(a >> 20)->d, 0, sz); gvAddr[&g] = a; addrGv[a] = &g; gvs.push_back(&g);
            if (!g.hasInitializer() && g.getName().starts_with("_ZTI")) { std::string nm = g.getName().substr(4).str(); u64 na = ex.allocHeap(nm.size() + 1, 0); memcpy(st->mem.get(na >> 20)->d, nm.c_str(), nm.size() + 1); memcpy(st->mem.get(a >> 20)->d + 8, &na, 8); } } // the name of a type whose type_info the runtime library defines
        for (auto* g : gvs) if (g->hasInitializer()) pokeConst(st->mem.get(gvAddr[g] >> 20)->d, 0, g->getInitializer(), 0);
        Function* ef = M->getFunction(entry); Function* init = M->getFunction("__lsym_start");
        if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry); return 3; }
        (void) init;
        // main frame, with constructors run first in priority order
        Exec::ensure(fnInfo(ef)); Frame* fr = new Frame(fnInfo(ef)); fr->stkMark = 0; st->th[0].fr.push_back(fr);
        std::vector<std::pair<u64, Function*>> ctors;
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : arr->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
        // Constructors are executed by a synthesised caller: build it in IR.
        if (!ctors.empty()) {
            Function* W = Function::Create(FunctionType::get(Type::getVoidTy(Ctx), false), Function::InternalLinkage, "__lsym_entry", M.get());
            BasicBlock* bb = BasicBlock::Create(Ctx, "", W);
            for (auto& c : ctors) CallInst::Create(FunctionType::get(Type::getVoidTy(Ctx), false), c.second, {}, "", bb);
            CallInst::Create(ef->getFunctionType(), ef, {}, "", bb); ReturnInst::Create(Ctx, bb);
            unref(st->th[0].fr[0]); st->th[0].fr.clear();
            Exec::ensure(fnInfo(W)); Frame* wf = new Frame(fnInfo(W)); wf->stkMark = 0; st->th[0].fr.push_back(wf);
        }
        work.push_back(st);
        // breadth-first phase: the oldest state first
        if (optJobs > 1) {
            std::deque<State*> q; q.push_back(work.back()); work.clear();
            while (!q.empty() && q.size() < optPreStates && !shm->stop) {
                if (elapsed() > optTime) fatal("time limit");
                State* x = q.front(); q.pop_front(); ex.run(x);
                for (auto w : work) q.push_back(w);
                work.clear();
            }
            for (auto w : q) work.push_back(w);
        }
    } catch (Fatal& e) { err = e.msg; }
    if (optJobs <= 1 || work.empty() || !err.empty() || shm->stop) {
        workerId = 0;
        try { while (err.empty() && !work.empty() && !shm->stop) { if (elapsed() > optTime) fatal("time limit"); State* x = work.back(); work.pop_back(); ex.run(x); } } catch (Fatal& e) { err = e.msg; }
        writeStats(err.empty() ? nullptr : err.c_str());
        return 0;
    }
    writeStats(nullptr); // pre-phase as worker -1
    std::vector<State*> init; init.swap(work);
    u64 base = S.samples;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    pid_t mainPid = getpid();
    shm->nextId = optJobs; shm->active = optJobs;
    auto fresh = [&](int w) { workerId = w; memset((void*) &S, 0, sizeof S); solver->st = SolverStats(); assertMsgs.clear(); };
    for (int w = 0; w < optJobs; w++) {
        if (fork() == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            fresh(w); (void) base;
            std::string er; double lastSplit = elapsed(), lastAlive = lastSplit; bool split = false;
            try {
                while (!shm->stop) {
                    if (!split) { u64 k = __sync_fetch_and_add(&shm->next, 1); if (k >= init.size()) break; work.push_back(init[k]); init[k] = nullptr; }
                    else if (work.empty()) break;
                    while (!work.empty() && !shm->stop) {
                        double now = elapsed();
                        if (now > optTime) fatal("time limit");
                        if (now - lastAlive > 1) { lastAlive = now; if (kill(mainPid, 0)) _exit(5); }
                        // an idle core: hand every other pending state to a new process
                        if (work.size() >= 2 && now - lastSplit > 0.03 && shm->active < optJobs) {
                            if (__sync_add_and_fetch(&shm->active, 1) <= optJobs) {
                                lastSplit = now; auto keepHalf = [&](int odd) { size_t j = 0; for (size_t i = 0; i < work.size(); i++) if ((int) (i & 1) == odd) work[j++] = work[i]; work.resize(j); }; if (getenv("LSYM_SLOW")) fprintf(stderr, "%.2f split w%d work %zu active %d paths %llu\n", now, workerId, work.size(), shm->active, (unsigned long long) S.paths); int id = __sync_fetch_and_add(&shm->nextId, 1);
                                pid_t p = fork();
                                if (p < 0) __sync_sub_and_fetch(&shm->active, 1);
                                else if (p == 0) { split = true; fresh(id); S.samples = optSamples; keepHalf(0); lastSplit = elapsed(); }
                                else keepHalf(1);
                            } else __sync_sub_and_fetch(&shm->active, 1);
                        }
                        State* x = work.back(); work.pop_back(); ex.run(x);
                    }
                }
            } catch (Fatal& e) { er = e.msg; shm->stop = 2; }
            writeStats(er.empty() ? nullptr : er.c_str());
            __sync_sub_and_fetch(&shm->active, 1);
            _exit(0);
        }
    }
    int st, bad = 0; while (wait(&st) > 0) if (st) bad++;
    if (bad) { fprintf(stderr, "lsym: %d workers died\n", bad); return 4; }
    return 0;
}
