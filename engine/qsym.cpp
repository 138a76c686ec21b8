// qsym: a symbolic executor for LLVM IR (see DESIGN.md).
#include "expr.h"
#include "lin.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using std::string;
using std::vector;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_DEAD_HEAP, K_DEAD_STACK };
struct Obj {
    uint32_t rc = 1;
    uint32_t size = 0;
    ObjKind kind = K_GLOBAL;
    bool ro = false, leakOk = false;
    uint16_t align = 16; uint8_t newKind = 0;
    const Instruction *site = nullptr;   // allocation (or free) site
    const Instruction *site2 = nullptr;
    uint8_t *data = nullptr;
    Node **sym = nullptr;
    uint8_t *undef = nullptr; // per byte: 1 = uninitialised
    static Obj *make(uint32_t size, ObjKind k, uint8_t fill, bool und) {
        Obj *o = new Obj;
        o->size = size; o->kind = k;
        o->data = (uint8_t *)malloc(size ? size : 1);
        memset(o->data, fill, size);
        if (und && size) { o->undef = (uint8_t *)malloc(size); memset(o->undef, 1, size); }
        return o;
    }
    Obj *clone() const {
        Obj *o = new Obj(*this);
        o->rc = 1;
        o->data = (uint8_t *)malloc(size ? size : 1);
        memcpy(o->data, data, size);
        if (sym) { o->sym = (Node **)malloc(sizeof(Node *) * size); memcpy(o->sym, sym, sizeof(Node *) * size); }
        if (undef) { o->undef = (uint8_t *)malloc(size); memcpy(o->undef, undef, size); }
        return o;
    }
    void deref() { if (--rc == 0) { free(data); free(sym); free(undef); delete this; } }
};
struct Chunk { uint32_t rc = 1; Obj *o[64] = {}; };
static Obj deadStack;

static const unsigned SHIFT = 20;
static uint64_t firstDyn; // first non-function object id

struct Memory {
    vector<Chunk *> ch;
    uint64_t nextId = 0;
    Memory() {}
    Memory(const Memory &o) : ch(o.ch), nextId(o.nextId) { for (auto c : ch) c->rc++; }
    Memory &operator=(const Memory &) = delete;
    ~Memory() { for (auto c : ch) drop(c); }
    static void drop(Chunk *c) { if (--c->rc == 0) { for (auto o : c->o) if (o && o != &deadStack) o->deref(); delete c; } }
    Obj *get(uint64_t id) const {
        if (id < firstDyn || id >= nextId) return nullptr;
        uint64_t i = id - firstDyn;
        return ch[i >> 6]->o[i & 63];
    }
    Chunk *wchunk(uint64_t i) {
        Chunk *&c = ch[i >> 6];
        if (c->rc > 1) {
            Chunk *n = new Chunk(*c);
            n->rc = 1;
            for (auto o : n->o) if (o && o != &deadStack) o->rc++;
            c->rc--;
            c = n;
        }
        return c;
    }
    Obj *wget(uint64_t id) {
        uint64_t i = id - firstDyn;
        Chunk *c = wchunk(i);
        Obj *&o = c->o[i & 63];
        if (o->rc > 1) { Obj *n = o->clone(); o->rc--; o = n; }
        return o;
    }
    uint64_t add(Obj *o) {
        uint64_t id = nextId++, i = id - firstDyn;
        if ((i >> 6) >= ch.size()) ch.push_back(new Chunk);
        wchunk(i)->o[i & 63] = o;
        return id;
    }
    void kill(uint64_t id, Obj *tomb) {
        uint64_t i = id - firstDyn;
        Chunk *c = wchunk(i);
        Obj *&o = c->o[i & 63];
        if (o && o != &deadStack) o->deref();
        o = tomb;
    }
};

// ------------------------------------------------------------------ decoded code
enum OpC : uint16_t {
    O_NOP, O_BIN, O_ICMP, O_FCMP, O_FBIN, O_FNEG, O_SELECT, O_ZEXT, O_SEXT, O_TRUNC, O_MOVE, O_GEP, O_LOAD, O_STORE, O_ALLOCA,
    O_CALL, O_RET, O_BR, O_CBR, O_SWITCH, O_INSERT, O_LANDINGPAD, O_RESUME, O_UNREACHABLE, O_CMPXCHG,
    O_RMW, O_FPCAST, O_UNSUPPORTED
};
struct Leaf { uint32_t off; uint8_t w; };
struct PhiMove { int dst, src; };
struct Edge { uint32_t target; vector<PhiMove> moves; };
struct Fn;
typedef int Builtin;
struct Op {
    OpC code = O_NOP;
    uint8_t w = 0, w2 = 0, sub = 0;
    bool executed = false, isInvoke = false, cleanup = false;
    int dst = -1;
    int a = 0, b = 0, c = 0;
    uint64_t k = 0;
    vector<Leaf> leaves;
    vector<std::pair<int, int64_t>> terms; // gep
    vector<int> args;                      // flattened arg slots
    vector<uint8_t> argw;                  // width per flattened slot
    vector<int> argStart;                  // first flattened slot for each arg
    vector<Edge> edges;
    vector<uint64_t> cases;
    vector<std::pair<int, uint64_t>> clauses; // kind(0 catch,1 filter), typeinfo addr
    Function *callee = nullptr;
    Fn *calleeFn = nullptr;
    Builtin builtin = 0;
    const Instruction *I = nullptr;
};
struct Fn {
    Function *F = nullptr;
    bool decoded = false;
    vector<Op> ops;
    vector<Val> consts; // pool; operand -1-i refers to consts[i]
    int nslots = 0;
    int nargSlots = 0;
    uint64_t execs = 0;
};

struct Frame {
    Fn *fn;
    uint32_t pc;
    uint32_t base;
    uint32_t allocaMark; // index into state's alloca list
    uint32_t ip_prev = 0;
};
struct SymIn { string name; uint8_t w; Node *n; bool choice; };
struct LogEnt { string tag; Val v; };

template<typename T> struct PList { // persistent append-only list
    struct N { T v; std::shared_ptr<N> p; ~N() { auto q = std::move(p); while (q && q.use_count() == 1) { auto r = std::move(q->p); q = std::move(r); } } };
    std::shared_ptr<N> head; size_t n = 0;
    void push(T v) { auto x = std::make_shared<N>(); x->v = std::move(v); x->p = head; head = x; n++; }
    vector<T> all() const { vector<T> r; r.reserve(n); for (auto x = head.get(); x; x = x->p.get()) r.push_back(x->v); std::reverse(r.begin(), r.end()); return r; }
};

struct State {
    Memory mem;
    vector<Frame> frames;
    vector<Val> regs;
    vector<uint64_t> allocas;
    vector<Node *> pc;
    PList<SymIn> ins;
    PList<LogEnt> log;
    std::shared_ptr<vector<uint64_t>> model = std::make_shared<vector<uint64_t>>();
    uint64_t steps = 0;
    unsigned depth = 0;
    unsigned nreach = 0;
    State() {}
    State(const State &) = default;
};

struct Violation { string kind, msg; vector<string> stack; vector<std::pair<string, uint64_t>> ins; string where; };

// ------------------------------------------------------------------ globals
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static ExprPool P;
static Solver *S;
static std::unordered_map<const Function *, uint64_t> fnId;
static vector<Function *> fnById;
static std::unordered_map<const GlobalVariable *, uint64_t> gvId;
static std::unordered_map<uint64_t, const GlobalVariable *> gvById;
static std::unordered_map<const Function *, Fn *> fns;
static vector<Fn *> allFns;
static std::unordered_map<string, int> builtins;
static std::map<uint64_t, int> typeIds;
static string repoPrefix = "/repo/";

struct Cfg {
    uint64_t maxSteps = 20000000, maxPaths = 1000000;
    double timeLimit = 600;
    int jobs = 1, samples = 6;
    unsigned maxDepth = 5000;
    uint64_t seed = 1;
    bool trace = false;
    int maxViol = 40;
} cfg;

struct Stats {
    uint64_t completed = 0, assumeCut = 0, boundCut = 0, ended = 0, unmodelledPaths = 0, forks = 0, insns = 0, asserts = 0, assertQueries = 0, concretizations = 0, inconclusive = 0;
    std::map<string, uint64_t> unmodelled, reach, bounds;
    std::map<string, uint64_t> choiceNames;
    bool truncated = false;
    vector<Violation> viols;
    std::set<string> violKeys;
    struct Sample { vector<std::pair<string, uint64_t>> ins; vector<std::pair<string, uint64_t>> log; string end; };
    vector<Sample> samples;
} st;

static uint64_t baseOf(uint64_t id, const Obj *o) { return (id << SHIFT) + (o ? o->align : 16); }
static uint64_t fnAddr(const Function *F) { return (fnId.at(F) << SHIFT) + 16; }

// ------------------------------------------------------------------ solver check
// The query is cut down to the constraints that (transitively) share variables with
// the new one: the rest is satisfied by the current assignment, whose values the
// variables outside the slice keep.  Verdicts are remembered per slice.
static const vector<Node *> &varsIn(Node *n) {
    static std::unordered_map<Node *, vector<Node *>> memo;
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    vector<Node *> r;
    if (n->op == N_VAR) r.push_back(n);
    else for (Node *c : {n->a, n->b, n->c}) if (c && c->op != N_CONST) { auto &v = varsIn(c); r.insert(r.end(), v.begin(), v.end()); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return memo.emplace(n, std::move(r)).first->second;
}
struct VerdictHash { size_t operator()(const vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct Verdict { int r; vector<std::pair<unsigned, uint64_t>> vals; };
static std::unordered_map<vector<uint32_t>, Verdict, VerdictHash> verdicts;
int Solver::check(const vector<Node *> &pc, Node *extra, const vector<Node *> &, vector<uint64_t> *model) {
    double t0 = now();
    queries++;
    vector<char> in(pc.size(), 0);
    std::set<Node *> vs;
    vector<Node *> slice;
    if (extra) { vs.insert(varsIn(extra).begin(), varsIn(extra).end()); slice.push_back(extra); }
    for (bool grew = true; grew;) {
        grew = false;
        for (size_t i = pc.size(); i-- > 0;) {
            if (in[i]) continue;
            auto &v = varsIn(pc[i]);
            bool hit = !extra;
            for (Node *x : v) if (vs.count(x)) { hit = true; break; }
            if (!hit) continue;
            in[i] = 1; slice.push_back(pc[i]);
            for (Node *x : v) grew |= vs.insert(x).second;
        }
    }
    vector<uint32_t> key;
    for (Node *n : slice) key.push_back(n->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = verdicts.find(key);
    if (it == verdicts.end()) {
        Verdict vd;
        vd.r = -1;
        solved++;
        static const char *slow = getenv("QSYM_SLOW"); // for the developer: print queries that take longer than this many ms
        struct timespec q0, q1; clock_gettime(CLOCK_MONOTONIC, &q0);
        std::map<Node *, bool> seen;
        bool hard = false;
        for (Node *n : slice) hard = hard || LinX::hard(n, seen);
        if (!hard) {
            std::map<Node *, bool> seenSums;
            unsigned n = 0;
            for (Node *x : slice) n += LinX::sums(x, seenSums);
            hard = n >= 2;
        }
        if (hard && linear) {
            if (!ls) {
                ls = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, ls);
                Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps);
                Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
                Z3_solver_set_params(ctx, ls, ps);
            }
            LinX lx(ctx);
            for (Node *n : slice) lx.learn(n);
            vector<Z3_ast> as;
            for (Node *n : slice) as.push_back(lx.b(n));
            if (!lx.fail) {
                Z3_solver_push(ctx, ls);
                for (Z3_ast a : as) Z3_solver_assert(ctx, ls, a);
                for (Z3_ast a : lx.side) Z3_solver_assert(ctx, ls, a);
                Z3_lbool r = Z3_solver_check(ctx, ls);
                vd.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
                if (vd.r == 1) {
                    Z3_model m = Z3_solver_get_model(ctx, ls);
                    Z3_model_inc_ref(ctx, m);
                    vector<uint64_t> asg;
                    for (Node *v : vs) {
                        Z3_ast out = nullptr; int64_t val = 0;
                        if (Z3_model_eval(ctx, m, lx.t(v).a, true, &out) && out) Z3_get_numeral_int64(ctx, out, &val);
                        uint64_t u = uint64_t(val) & maskw(v->width);
                        vd.vals.push_back({(unsigned)v->k, u});
                        if (asg.size() <= v->k) asg.resize(v->k + 1);
                        asg[v->k] = u;
                    }
                    Z3_model_dec_ref(ctx, m);
                    for (Node *n : slice) if (!P.eval(n, asg)) { fprintf(stderr, "internal: linear model refuted by evaluation\n"); vd.r = -1; vd.vals.clear(); linear = false; break; }
                }
                Z3_solver_pop(ctx, ls, 1);
                if (vd.r >= 0) linsolved++;
            }
        }
        if (vd.r < 0) {
        Z3_solver_push(ctx, s);
        for (Node *n : slice) Z3_solver_assert(ctx, s, tb(n));
        Z3_lbool r = Z3_solver_check(ctx, s);
        vd.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (vd.r == 1) {
            Z3_model m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, m);
            for (Node *v : vs) {
                Z3_ast out = nullptr;
                uint64_t val = 0;
                if (Z3_model_eval(ctx, m, t(v), true, &out) && out) Z3_get_numeral_uint64(ctx, out, &val);
                vd.vals.push_back({(unsigned)v->k, val});
            }
            Z3_model_dec_ref(ctx, m);
        }
        Z3_solver_pop(ctx, s, 1);
        }
        if (slow) {
            clock_gettime(CLOCK_MONOTONIC, &q1);
            long ms = (q1.tv_sec - q0.tv_sec) * 1000 + (q1.tv_nsec - q0.tv_nsec) / 1000000;
            if (ms >= atol(slow)) {
                fprintf(stderr, "slow query: %ld ms, verdict %d%s\n", ms, vd.r, hard ? ", linear" : "");
                for (Node *n : slice) fprintf(stderr, "%s\n", Z3_ast_to_string(ctx, tb(n)));
            }
        }
        if (verdicts.size() > 400000) verdicts.clear();
        it = verdicts.emplace(std::move(key), std::move(vd)).first;
    }
    const Verdict &vd = it->second;
    if (vd.r == 1 && model)
        for (auto &x : vd.vals) { if (model->size() <= x.first) model->resize(x.first + 1); (*model)[x.first] = x.second; }
    time += now() - t0;
    if (vd.r == 1) { sat++; return 1; }
    if (vd.r == 0) { unsat++; return 0; }
    unknown++;
    return -1;
}
static vector<Node *> varsOf(State &) { return {}; }

// ------------------------------------------------------------------ decode
static unsigned widthOf(Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    return 0;
}
static bool flatten(Type *T, uint32_t off, vector<Leaf> &out) {
    if (T->isVoidTy()) return true;
    if (auto *ST = dyn_cast<StructType>(T)) {
        if (ST->isOpaque()) return false;
        auto *L = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) if (!flatten(ST->getElementType(i), off + L->getElementOffset(i), out)) return false;
        return true;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
        uint64_t sz = DL->getTypeAllocSize(AT->getElementType());
        for (uint64_t i = 0; i < AT->getNumElements(); i++) if (!flatten(AT->getElementType(), off + i * sz, out)) return false;
        return true;
    }
    if (auto *VT = dyn_cast<FixedVectorType>(T)) {
        uint64_t sz = DL->getTypeStoreSize(VT->getElementType());
        for (uint64_t i = 0; i < VT->getNumElements(); i++) if (!flatten(VT->getElementType(), off + i * sz, out)) return false;
        return true;
    }
    unsigned w = widthOf(T);
    if (!w || w > 64) return false;
    out.push_back({off, (uint8_t)w});
    return true;
}
static int nslotsOf(Type *T) { vector<Leaf> l; if (!flatten(T, 0, l)) return -1; return l.size(); }

static uint64_t constAddr(const Constant *C0, bool &ok);
static bool constScalar(const Constant *C0, uint64_t &v) {
    Type *T = C0->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C0)) { if (CI->getBitWidth() > 64) return false; v = CI->getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(C0) || isa<UndefValue>(C0)) { v = 0; return true; }
    if (auto *CF = dyn_cast<ConstantFP>(C0)) { if (T->isFloatTy() || T->isDoubleTy()) { v = CF->getValueAPF().bitcastToAPInt().getZExtValue(); return true; } return false; }
    if (isa<ConstantAggregateZero>(C0)) { v = 0; return true; }
    bool ok = true;
    v = constAddr(C0, ok);
    if (ok && T->isIntegerTy()) v &= maskw(T->getIntegerBitWidth());
    return ok;
}
static uint64_t constAddr(const Constant *C0, bool &ok) {
    if (auto *GA = dyn_cast<GlobalAlias>(C0)) return constAddr(GA->getAliasee(), ok);
    if (auto *F = dyn_cast<Function>(C0)) return fnAddr(F);
    if (auto *G = dyn_cast<GlobalVariable>(C0)) return (gvId.at(G) << SHIFT) + 16;
    if (auto *DE = dyn_cast<DSOLocalEquivalent>(C0)) return constAddr(DE->getGlobalValue(), ok);
    if (auto *CE = dyn_cast<ConstantExpr>(C0)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *GO = cast<GEPOperator>(CE);
            uint64_t b;
            if (!constScalar(cast<Constant>(GO->getPointerOperand()), b)) { ok = false; return 0; }
            APInt off(64, 0);
            if (!GO->accumulateConstantOffset(*DL, off)) { ok = false; return 0; }
            return b + off.getSExtValue();
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: {
            uint64_t b;
            if (!constScalar(CE->getOperand(0), b)) { ok = false; return 0; }
            return b & maskw(widthOf(CE->getType()));
        }
        case Instruction::Add: case Instruction::Sub: {
            uint64_t x, y;
            if (!constScalar(CE->getOperand(0), x) || !constScalar(CE->getOperand(1), y)) { ok = false; return 0; }
            return (CE->getOpcode() == Instruction::Add ? x + y : x - y) & maskw(widthOf(CE->getType()));
        }
        case Instruction::ICmp: {
            uint64_t x, y;
            if (!constScalar(CE->getOperand(0), x) || !constScalar(CE->getOperand(1), y)) { ok = false; return 0; }
            if (CE->getPredicate() == CmpInst::ICMP_EQ) return x == y;
            if (CE->getPredicate() == CmpInst::ICMP_NE) return x != y;
            ok = false; return 0;
        }
        }
    }
    if (isa<ConstantPointerNull>(C0)) return 0;
    ok = false;
    return 0;
}
static bool constFlat(const Constant *C0, vector<Val> &out) {
    Type *T = C0->getType();
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; i++) {
            Constant *E = C0->getAggregateElement(i);
            if (!E || !constFlat(E, out)) return false;
        }
        return true;
    }
    uint64_t v;
    if (!constScalar(C0, v)) return false;
    out.push_back(C(v));
    return true;
}
static bool initBytes(const Constant *C0, uint8_t *p, uint64_t avail) {
    Type *T = C0->getType();
    if (isa<ConstantAggregateZero>(C0) || isa<UndefValue>(C0)) return true;
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C0)) {
        StringRef r = CDS->getRawDataValues();
        memcpy(p, r.data(), std::min<uint64_t>(r.size(), avail));
        return true;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
        auto *L = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) {
            uint64_t o = L->getElementOffset(i);
            if (!initBytes(C0->getAggregateElement(i), p + o, avail - o)) return false;
        }
        return true;
    }
    if (T->isArrayTy() || T->isVectorTy()) {
        Type *ET = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
        unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        uint64_t sz = DL->getTypeAllocSize(ET);
        for (unsigned i = 0; i < n; i++) if (!initBytes(C0->getAggregateElement(i), p + i * sz, avail - i * sz)) return false;
        return true;
    }
    uint64_t v;
    if (auto *CI = dyn_cast<ConstantInt>(C0); CI && CI->getBitWidth() > 64) {
        unsigned nb = DL->getTypeStoreSize(T);
        memcpy(p, CI->getValue().getRawData(), std::min<uint64_t>(nb, avail));
        return true;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C0); CF && !T->isFloatTy() && !T->isDoubleTy()) return true; // long double: left zero
    if (!constScalar(C0, v)) return false;
    memcpy(p, &v, std::min<uint64_t>(DL->getTypeStoreSize(T), avail));
    return true;
}

struct Decoder {
    Fn *fn;
    std::unordered_map<const Value *, int> slot;
    std::unordered_map<const BasicBlock *, uint32_t> bbStart;
    string err;
    int opnd(const Value *V) {
        if (auto *C0 = dyn_cast<Constant>(V)) {
            auto it = slot.find(V);
            if (it != slot.end()) return it->second;
            int idx = -1 - (int)fn->consts.size();
            if (!constFlat(C0, fn->consts)) err = "constant";
            // constants are laid out so that leaf i is operand idx - i
            slot[V] = idx;
            return idx;
        }
        auto it = slot.find(V);
        if (it == slot.end()) { err = "operand"; return 0; }
        return it->second;
    }
    static int nth(int o, int i) { return o >= 0 ? o + i : o - i; }
    void edge(Op &op, const BasicBlock *from, const BasicBlock *to) {
        Edge e;
        e.target = 0;
        for (auto &phi : to->phis()) {
            int n = nslotsOf(phi.getType());
            if (n < 0) { err = "phi"; n = 0; }
            int s = opnd(phi.getIncomingValueForBlock(from)), d = slot[&phi];
            for (int i = 0; i < n; i++) e.moves.push_back({d + i, nth(s, i)});
        }
        op.edges.push_back(std::move(e));
    }
    void run();
    void inst(const Instruction &I, Op &op);
};
static int resolveBuiltin(const Function *F);
static Fn *getFn(Function *F) {
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    Fn *f = new Fn;
    f->F = F;
    fns[F] = f;
    allFns.push_back(f);
    return f;
}
void Decoder::run() {
    Function *F = fn->F;
    int n = 0;
    for (auto &A : F->args()) {
        int k = nslotsOf(A.getType());
        if (k < 0) { k = 1; err = "argtype"; }
        slot[&A] = n; n += k;
    }
    fn->nargSlots = n;
    for (auto &BB : *F) for (auto &I : BB) {
        if (I.getType()->isVoidTy()) continue;
        int k = nslotsOf(I.getType());
        if (k < 0) k = 1;
        slot[&I] = n; n += k;
    }
    fn->nslots = n;
    vector<std::pair<size_t, const BasicBlock *>> fix;
    for (auto &BB : *F) {
        bbStart[&BB] = fn->ops.size();
        for (auto &I : BB) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Op op;
            op.I = &I;
            err.clear();
            inst(I, op);
            if (!err.empty()) { op.code = O_UNSUPPORTED; op.edges.clear(); }
            if (op.code != O_NOP) fn->ops.push_back(std::move(op));
        }
    }
    for (auto &op : fn->ops) {
        if (op.edges.empty()) continue;
        if (auto *T = dyn_cast<SwitchInst>(op.I)) {
            unsigned i = 0;
            op.edges[i++].target = bbStart[T->getDefaultDest()];
            for (auto &c : T->cases()) op.edges[i++].target = bbStart[c.getCaseSuccessor()];
        } else
            for (unsigned i = 0; i < op.edges.size(); i++) op.edges[i].target = bbStart[op.I->getSuccessor(i)];
    }
    fn->decoded = true;
}
static NodeOp binop(unsigned oc) {
    switch (oc) {
    case Instruction::Add: return N_ADD; case Instruction::Sub: return N_SUB; case Instruction::Mul: return N_MUL;
    case Instruction::UDiv: return N_UDIV; case Instruction::SDiv: return N_SDIV; case Instruction::URem: return N_UREM;
    case Instruction::SRem: return N_SREM; case Instruction::And: return N_AND; case Instruction::Or: return N_OR;
    case Instruction::Xor: return N_XOR; case Instruction::Shl: return N_SHL; case Instruction::LShr: return N_LSHR;
    case Instruction::AShr: return N_ASHR;
    }
    return N_CONST;
}
void Decoder::inst(const Instruction &I, Op &op) {
    if (!I.getType()->isVoidTy()) { op.dst = slot[&I]; if (nslotsOf(I.getType()) < 0) { err = "type"; } }
    unsigned oc = I.getOpcode();
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
        unsigned w = widthOf(I.getType());
        op.a = opnd(I.getOperand(0)); op.b = opnd(I.getOperand(1)); op.w = w;
        if (I.getType()->isFloatingPointTy()) { op.code = O_FBIN; op.sub = oc; if (!w) err = "fp"; return; }
        if (!w || w > 64) { err = "width"; return; }
        op.code = O_BIN; op.sub = binop(oc);
        (void)BO;
        return;
    }
    switch (oc) {
    case Instruction::FNeg: op.code = O_FNEG; op.a = opnd(I.getOperand(0)); op.w = widthOf(I.getType()); return;
    case Instruction::ICmp: {
        auto &CI = cast<ICmpInst>(I);
        unsigned w = widthOf(CI.getOperand(0)->getType());
        if (!w || w > 64) { err = "width"; return; }
        op.code = O_ICMP; op.w = w; op.sub = CI.getPredicate();
        op.a = opnd(CI.getOperand(0)); op.b = opnd(CI.getOperand(1));
        return;
    }
    case Instruction::FCmp: {
        auto &CI = cast<FCmpInst>(I);
        op.code = O_FCMP; op.w = widthOf(CI.getOperand(0)->getType()); op.sub = CI.getPredicate();
        if (!op.w) err = "fp";
        op.a = opnd(CI.getOperand(0)); op.b = opnd(CI.getOperand(1));
        return;
    }
    case Instruction::Select: {
        int n = nslotsOf(I.getType());
        op.code = O_SELECT; op.a = opnd(I.getOperand(0)); op.b = opnd(I.getOperand(1)); op.c = opnd(I.getOperand(2));
        vector<Leaf> l; flatten(I.getType(), 0, l); op.leaves = l; (void)n;
        return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
        op.w = widthOf(I.getType()); op.w2 = widthOf(I.getOperand(0)->getType());
        if (!op.w || !op.w2 || widthOf(I.getType()) > 64 || widthOf(I.getOperand(0)->getType()) > 64) { err = "width"; return; }
        op.a = opnd(I.getOperand(0));
        op.code = oc == Instruction::ZExt ? O_ZEXT : oc == Instruction::SExt ? O_SEXT : O_TRUNC;
        return;
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        op.w = widthOf(I.getType()); op.w2 = widthOf(I.getOperand(0)->getType());
        if (op.w == 0 || op.w > 64 || op.w2 == 0) { err = "width"; return; }
        op.a = opnd(I.getOperand(0));
        op.code = op.w < op.w2 ? O_TRUNC : O_ZEXT;
        return;
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        int n = nslotsOf(I.getType()), m = nslotsOf(I.getOperand(0)->getType());
        if (n < 0 || n != m) { err = "bitcast"; return; }
        op.code = O_MOVE; op.a = opnd(I.getOperand(0)); op.k = n;
        return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
        op.code = O_FPCAST; op.sub = oc; op.w = widthOf(I.getType()); op.w2 = widthOf(I.getOperand(0)->getType());
        if (!op.w || !op.w2) err = "fp";
        op.a = opnd(I.getOperand(0));
        return;
    case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I);
        if (G.getType()->isVectorTy()) { err = "vector gep"; return; }
        op.code = O_GEP; op.a = opnd(G.getPointerOperand());
        int64_t off = 0;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
            Value *idx = it.getOperand();
            if (StructType *ST = it.getStructTypeOrNull()) {
                off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
                int64_t sz = it.getSequentialElementStride(*DL).getFixedValue();
                if (auto *CI = dyn_cast<ConstantInt>(idx)) off += CI->getSExtValue() * sz;
                else {
                    unsigned w = widthOf(idx->getType());
                    if (w != 64) { // sign extend: encode in leaves
                        op.leaves.push_back({(uint32_t)op.terms.size(), (uint8_t)w});
                    }
                    op.terms.push_back({opnd(idx), sz});
                }
            }
        }
        op.k = (uint64_t)off;
        return;
    }
    case Instruction::Load: {
        op.code = O_LOAD; op.a = opnd(I.getOperand(0));
        if (!flatten(I.getType(), 0, op.leaves)) err = "load type";
        return;
    }
    case Instruction::Store: {
        op.code = O_STORE; op.a = opnd(I.getOperand(0)); op.b = opnd(I.getOperand(1));
        if (!flatten(I.getOperand(0)->getType(), 0, op.leaves)) err = "store type";
        return;
    }
    case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I);
        op.code = O_ALLOCA; op.k = DL->getTypeAllocSize(A.getAllocatedType()); op.a = opnd(A.getArraySize());
        op.w2 = std::min<uint64_t>(A.getAlign().value(), 128);
        return;
    }
    case Instruction::ExtractValue: {
        auto &E = cast<ExtractValueInst>(I);
        Type *T = E.getAggregateOperand()->getType();
        int off = 0;
        for (unsigned ix : E.indices()) {
            for (unsigned j = 0; j < ix; j++) off += nslotsOf(T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType());
            T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType();
        }
        op.code = O_MOVE; op.a = nth(opnd(E.getAggregateOperand()), off); op.k = nslotsOf(T);
        return;
    }
    case Instruction::InsertValue: {
        auto &E = cast<InsertValueInst>(I);
        Type *T = E.getAggregateOperand()->getType();
        int total = nslotsOf(T), off = 0;
        for (unsigned ix : E.indices()) {
            for (unsigned j = 0; j < ix; j++) off += nslotsOf(T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType());
            T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType();
        }
        op.code = O_INSERT; op.a = opnd(E.getAggregateOperand()); op.b = opnd(E.getInsertedValueOperand());
        op.k = total; op.c = off; op.cases = {(uint64_t)nslotsOf(T)};
        return;
    }
    case Instruction::ExtractElement: {
        auto *CI = dyn_cast<ConstantInt>(I.getOperand(1));
        if (!CI) { err = "extractelement"; return; }
        op.code = O_MOVE; op.a = nth(opnd(I.getOperand(0)), CI->getZExtValue()); op.k = 1;
        return;
    }
    case Instruction::InsertElement: {
        auto *CI = dyn_cast<ConstantInt>(I.getOperand(2));
        if (!CI) { err = "insertelement"; return; }
        op.code = O_INSERT; op.a = opnd(I.getOperand(0)); op.b = opnd(I.getOperand(1)); op.k = nslotsOf(I.getType()); op.c = CI->getZExtValue(); op.cases = {1};
        return;
    }
    case Instruction::Br: {
        auto &B = cast<BranchInst>(I);
        if (B.isConditional()) { op.code = O_CBR; op.a = opnd(B.getCondition()); } else op.code = O_BR;
        for (unsigned i = 0; i < B.getNumSuccessors(); i++) edge(op, I.getParent(), B.getSuccessor(i));
        return;
    }
    case Instruction::Switch: {
        auto &B = cast<SwitchInst>(I);
        op.code = O_SWITCH; op.a = opnd(B.getCondition()); op.w = widthOf(B.getCondition()->getType());
        edge(op, I.getParent(), B.getDefaultDest());
        for (auto &c : B.cases()) { op.cases.push_back(c.getCaseValue()->getZExtValue()); edge(op, I.getParent(), c.getCaseSuccessor()); }
        return;
    }
    case Instruction::Ret: {
        op.code = O_RET;
        if (I.getNumOperands()) { op.a = opnd(I.getOperand(0)); op.k = nslotsOf(I.getOperand(0)->getType()); }
        return;
    }
    case Instruction::Unreachable: op.code = O_UNREACHABLE; return;
    case Instruction::LandingPad: {
        auto &L = cast<LandingPadInst>(I);
        op.code = O_LANDINGPAD; op.cleanup = L.isCleanup();
        for (unsigned i = 0; i < L.getNumClauses(); i++) {
            if (L.isCatch(i)) { uint64_t v = 0; constScalar(L.getClause(i), v); op.clauses.push_back({0, v}); }
            else op.clauses.push_back({1, 0});
        }
        return;
    }
    case Instruction::Resume: op.code = O_RESUME; op.a = opnd(I.getOperand(0)); return;
    case Instruction::AtomicCmpXchg: {
        auto &X = cast<AtomicCmpXchgInst>(I);
        op.code = O_CMPXCHG; op.a = opnd(X.getPointerOperand()); op.b = opnd(X.getCompareOperand()); op.c = opnd(X.getNewValOperand());
        op.w = widthOf(X.getCompareOperand()->getType());
        return;
    }
    case Instruction::AtomicRMW: {
        auto &X = cast<AtomicRMWInst>(I);
        op.code = O_RMW; op.a = opnd(X.getPointerOperand()); op.b = opnd(X.getValOperand()); op.w = widthOf(X.getValOperand()->getType());
        op.sub = X.getOperation();
        return;
    }
    case Instruction::Fence: return;
    case Instruction::Call: case Instruction::Invoke: {
        auto &CB = cast<CallBase>(I);
        if (CB.isInlineAsm()) { err = "asm"; if (cast<InlineAsm>(CB.getCalledOperand())->getAsmString().empty()) { err.clear(); if (op.dst >= 0) err = "asm"; } return; }
        op.isInvoke = oc == Instruction::Invoke;
        op.code = O_CALL;
        Function *F = CB.getCalledFunction();
        if (!F) if (auto *GA = dyn_cast<GlobalAlias>(CB.getCalledOperand())) F = dyn_cast<Function>(GA->getAliasee());
        op.callee = F;
        for (unsigned i = 0; i < CB.arg_size(); i++) {
            Value *A = CB.getArgOperand(i);
            op.argStart.push_back(op.args.size());
            if (A->getType()->isMetadataTy()) { op.args.push_back(0); op.argw.push_back(0); continue; }
            vector<Leaf> l;
            if (!flatten(A->getType(), 0, l)) { err = "arg"; return; }
            int o = opnd(A);
            for (unsigned j = 0; j < l.size(); j++) { op.args.push_back(nth(o, j)); op.argw.push_back(l[j].w); }
            // byval: handled at call time
            if (CB.isByValArgument(i)) op.cases.push_back(((uint64_t)op.argStart.back() << 32) | DL->getTypeAllocSize(CB.getParamByValType(i)));
        }
        op.w = I.getType()->isVoidTy() ? 0 : widthOf(I.getType());
        op.k = I.getType()->isVoidTy() ? 0 : std::max(0, nslotsOf(I.getType()));
        if (F) {
            if (F->isIntrinsic()) {
                switch (F->getIntrinsicID()) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
                case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
                case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation:
                    op.code = O_NOP; return;
                default: break;
                }
            }
            op.builtin = resolveBuiltin(F);
            if (!op.builtin && !F->isDeclaration()) op.calleeFn = getFn(F);
        } else op.a = opnd(CB.getCalledOperand());
        if (op.isInvoke) {
            edge(op, I.getParent(), cast<InvokeInst>(I).getNormalDest());
            edge(op, I.getParent(), cast<InvokeInst>(I).getUnwindDest());
        }
        return;
    }
    }
    err = "opcode";
}
static void decode(Fn *f) {
    Decoder d;
    d.fn = f;
    d.run();
}

#include "exec.inc"
