// -*- c++ -*-  execution part of qsym (included by qsym.cpp)
enum BI : int {
    B_NONE, B_NEW, B_NEWA, B_NEWARR, B_NEWARRA, B_DEL, B_DELARR, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN,
    B_GUARD_ACQ, B_GUARD_REL, B_ZERO, B_VOID, B_ABORT, B_TERMINATE, B_PUREVIRT, B_RAISE, B_DYNCAST,
    B_VF_SYM, B_VF_CHOICE, B_VF_ASSUME, B_VF_ASSERT, B_VF_FAIL, B_VF_REACH, B_VF_LOG, B_VF_END, B_VF_BOUND, B_VF_UNMODELLED, B_VF_HEAPMARK, B_VF_HEAPCHECK, B_VF_LEAKOK,
    B_VF_ISSYM, B_VF_CONC, B_VF_PRINT, B_VF_ALIVE, B_VF_UNREACHED, B_VF_FEAS,
    B_I_EHTYPEID, B_I_TRAP, B_I_OVF, B_I_SAT, B_I_MINMAX, B_I_ABS, B_I_BITS, B_I_FSH, B_I_ID, B_I_ISCONST, B_I_OBJSIZE, B_I_STACKSAVE, B_I_STACKREST, B_I_MEMSET, B_I_MEMCPY,
    B_I_PTRMASK, B_I_COROUNSUP, B_MATH, B_TYPEMATCH
};
typedef double (*Math1)(double);
static std::unordered_map<const Function *, int> biCache;
static std::map<string, int> biNames = {
    {"_Znwm", B_NEW}, {"_ZnwmSt11align_val_t", B_NEWA}, {"_Znam", B_NEWARR}, {"_ZnamSt11align_val_t", B_NEWARRA},
    {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR},
    {"_ZnwmSt11align_val_tRKSt9nothrow_t", B_NEWA},
    {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL}, {"_ZdlPvRKSt9nothrow_t", B_DEL},
    {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"_ZdaPvSt11align_val_t", B_DELARR}, {"_ZdaPvmSt11align_val_t", B_DELARR},
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
    {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_VOID},
    {"__cxa_atexit", B_ZERO}, {"__cxa_thread_atexit", B_ZERO}, {"atexit", B_ZERO},
    {"pthread_mutex_lock", B_ZERO}, {"pthread_mutex_unlock", B_ZERO}, {"pthread_mutex_trylock", B_ZERO}, {"pthread_mutex_init", B_ZERO}, {"pthread_mutex_destroy", B_ZERO},
    {"sched_yield", B_ZERO},
    {"abort", B_ABORT}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_PUREVIRT}, {"__cxa_deleted_virtual", B_PUREVIRT},
    {"__vf_raise", B_RAISE}, {"__dynamic_cast", B_DYNCAST}, {"__vf_type_matches", B_TYPEMATCH},
    {"vf_sym_", B_VF_SYM}, {"vf_choice_", B_VF_CHOICE}, {"vf_assume_", B_VF_ASSUME}, {"vf_assert_", B_VF_ASSERT}, {"vf_fail_", B_VF_FAIL},
    {"vf_reach_", B_VF_REACH}, {"vf_log_", B_VF_LOG}, {"vf_end_", B_VF_END}, {"vf_bound_", B_VF_BOUND}, {"vf_unmodelled_", B_VF_UNMODELLED},
    {"vf_heap_mark_", B_VF_HEAPMARK}, {"vf_heap_check_", B_VF_HEAPCHECK}, {"vf_leak_ok_", B_VF_LEAKOK}, {"vf_is_symbolic_", B_VF_ISSYM},
    {"vf_concrete_", B_VF_CONC}, {"vf_print_", B_VF_PRINT}, {"vf_alive_", B_VF_ALIVE}, {"vf_feasible_", B_VF_FEAS},
};
static std::map<string, Math1> mathNames = {{"floor", floor}, {"ceil", ceil}, {"round", round}, {"sqrt", sqrt}, {"fabs", fabs}, {"trunc", trunc}, {"llvm.floor.f64", floor}, {"llvm.ceil.f64", ceil}, {"llvm.fabs.f64", fabs}, {"llvm.round.f64", round}, {"llvm.trunc.f64", trunc}};

static int resolveBuiltin(const Function *F) {
    auto it = biCache.find(F);
    if (it != biCache.end()) return it->second;
    string n = F->getName().str();
    int b = B_NONE;
    if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
        case Intrinsic::eh_typeid_for: b = B_I_EHTYPEID; break;
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: b = B_I_TRAP; break;
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: b = B_I_OVF; break;
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: b = B_I_SAT; break;
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: b = B_I_MINMAX; break;
        case Intrinsic::abs: b = B_I_ABS; break;
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: b = B_I_BITS; break;
        case Intrinsic::fshl: case Intrinsic::fshr: b = B_I_FSH; break;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: b = B_I_ID; break;
        case Intrinsic::is_constant: b = B_I_ISCONST; break;
        case Intrinsic::objectsize: b = B_I_OBJSIZE; break;
        case Intrinsic::stacksave: b = B_ZERO; break;
        case Intrinsic::stackrestore: b = B_VOID; break;
        case Intrinsic::memset: case Intrinsic::memset_inline: b = B_MEMSET; break;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: b = B_MEMCPY; break;
        case Intrinsic::ptrmask: b = B_I_PTRMASK; break;
        default: if (mathNames.count(n)) b = B_MATH;
        }
    } else {
        auto x = biNames.find(n);
        if (x != biNames.end()) b = x->second;
        else if (mathNames.count(n) && F->isDeclaration()) b = B_MATH;
    }
    biCache[F] = b;
    return b;
}

static string locStr(const Instruction *I) {
    if (!I) return "";
    if (const DILocation *L = I->getDebugLoc().get()) return (L->getFilename() + ":" + Twine(L->getLine())).str();
    return "";
}
static string fnName(const Function *F) {
    string d = llvm::demangle(F->getName().str());
    if (d.size() > 160) d = d.substr(0, 157) + "...";
    return d;
}

struct Exec {
    vector<State *> work;
    vector<Function *> inits;
    bool stop = false;
    double t0 = now();
    State *cur = nullptr;

    // ---- reporting
    vector<string> stackOf(State &s) {
        vector<string> r;
        for (int i = (int)s.frames.size() - 1; i >= 0 && r.size() < 40; i--) {
            Frame &f = s.frames[i];
            const Instruction *I = f.pc < f.fn->ops.size() ? f.fn->ops[f.pc].I : nullptr;
            r.push_back(fnName(f.fn->F) + (I && I->getDebugLoc() ? " at " + locStr(I) : ""));
        }
        return r;
    }
    vector<std::pair<string, uint64_t>> inputsOf(State &s, const vector<uint64_t> &m) {
        vector<std::pair<string, uint64_t>> r;
        for (auto &i : s.ins.all()) r.push_back({i.name, P.eval(i.n, m)});
        return r;
    }
    void violation(State &s, const string &kind, const string &msg, const vector<uint64_t> *model = nullptr) {
        Violation v;
        v.kind = kind; v.msg = msg;
        v.stack = stackOf(s);
        // key: message + innermost frame outside of the model runtime
        string where;
        for (auto &f : v.stack) { if (f.find(repoPrefix) != string::npos) { where = f; break; } }
        if (where.empty()) for (auto &f : v.stack) if (f.compare(0, 4, "vf::") != 0) { where = f; break; }
        v.where = where;
        string key = kind + "|" + msg + "|" + where;
        if ((int)st.viols.size() < cfg.maxViol && st.violKeys.insert(key).second) {
            v.ins = inputsOf(s, model ? *model : *s.model);
            st.viols.push_back(std::move(v));
        }
        st.reach["(violations seen)"]++;
    }
    void sample(State &s, const char *end) {
        if ((int)st.samples.size() >= cfg.samples) return;
        // reservoir-less: sample the 1st, 2nd, 4th, 8th ... path
        uint64_t n = st.completed;
        if (n & (n - 1)) return;
        Stats::Sample x;
        x.ins = inputsOf(s, *s.model);
        for (auto &l : s.log.all()) x.log.push_back({l.tag, l.v.e ? P.eval(l.v.e, *s.model) : l.v.c});
        x.end = end;
        st.samples.push_back(x);
    }

    // ---- solver driven decisions (re-execution style forking)
    bool known(State &s, Node *n) { for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it) if (*it == n) return true; return false; }
    State *fork(State &s, Node *extra, vector<uint64_t> m) {
        State *n = new State(s);
        n->pc.push_back(extra);
        n->model = std::make_shared<vector<uint64_t>>(std::move(m));
        n->depth++;
        st.forks++;
        work.push_back(n);
        return n;
    }
    bool branch(State &s, Node *c) {
        if (ExprPool::isC(c)) return c->k;
        Node *nc = P.notb(c);
        if (known(s, c)) return true;
        if (known(s, nc)) return false;
        bool side = P.eval(c, *s.model) & 1;
        Node *mine = side ? c : nc, *other = side ? nc : c;
        vector<uint64_t> m = *s.model;
        int r = S->check(s.pc, other, varsOf(s), &m);
        if (r == 1) fork(s, other, std::move(m));
        else if (r < 0) { st.inconclusive++; }
        if (r != 0) s.pc.push_back(mine);
        return side;
    }
    // sign extension of a number that was cut to fewer bits: the number itself, if it always fits
    Node *widened(State &s, Node *e, unsigned w) {
        if (e->op != N_EXTRACT || e->k != 0 || e->a->width != w || e->width < 16) return P.sext(e, w);
        Node *y = e->a;
        const uint64_t top = 1ull << (e->width - 1);
        Node *low = P.bin(N_SLT, y, P.cst(w, (0 - top) & maskw(w))), *high = P.bin(N_SLT, P.cst(w, top - 1), y);
        Node *out = P.bin(N_OR, low, high);
        if (!ExprPool::isC(out)) { if (S->check(s.pc, out, varsOf(s), nullptr) != 0) return P.sext(e, w); }
        else if (out->k) return P.sext(e, w);
        return y;
    }
    unsigned retryLimit = 300;
    uint64_t conc(State &s, Val v, unsigned w) {
        if (!v.e) return v.c;
        w = v.e->width;
        uint64_t c = P.eval(v.e, *s.model);
        Node *eq = P.bin(N_EQ, v.e, P.cst(w, c));
        if (ExprPool::isC(eq) || known(s, eq)) return c;
        Node *ne = P.notb(eq);
        vector<uint64_t> m = *s.model;
        int r = S->check(s.pc, ne, varsOf(s), &m);
        st.concretizations++;
        if (r == 1) {
            // bound the number of values enumerated at one place
            unsigned k = 0;
            for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it) { Node *q = *it; if (q->op == N_XOR && q->a->op == N_EQ && (q->a->a == v.e)) k++; else break; }
            if (k > retryLimit) { st.boundCut++; st.bounds["value enumeration limit at " + locStr(s.frames.back().fn->ops[s.frames.back().pc].I)]++; }
            else fork(s, ne, std::move(m));
        } else if (r < 0) st.inconclusive++;
        if (r != 0) s.pc.push_back(eq);
        return c;
    }

    // ---- registers
    Val get(State &s, const Frame &f, int o) { return o >= 0 ? s.regs[f.base + o] : f.fn->consts[-1 - o]; }

    // ---- memory
    string describe(State &s, uint64_t addr) {
        uint64_t id = addr >> SHIFT;
        Obj *o = s.mem.get(id);
        std::ostringstream r;
        if (!o) { r << "wild address 0x" << std::hex << addr; return r.str(); }
        r << (o->kind == K_GLOBAL ? "global" : o->kind == K_HEAP ? "heap block" : o->kind == K_STACK ? "stack object" : o->kind == K_DEAD_HEAP ? "freed heap block" : "dead stack object");
        if (o != &deadStack) r << " of " << o->size << " bytes";
        auto g = gvById.find(id);
        if (g != gvById.end()) r << " " << g->second->getName().str();
        if (o->site) { r << " allocated in " << fnName(o->site->getFunction()) << " " << locStr(o->site); }
        if (o->site2) { r << ", freed in " << fnName(o->site2->getFunction()) << " " << locStr(o->site2); }
        return r.str();
    }
    // returns object or nullptr (violation reported, path must end)
    Obj *access(State &s, uint64_t addr, uint64_t size, bool write, uint64_t &off) {
        uint64_t id = addr >> SHIFT;
        if (addr < 65536) { violation(s, "memory", "null pointer dereference"); return nullptr; }
        Obj *o = s.mem.get(id);
        if (!o) { violation(s, "memory", id < firstDyn ? "access to code as data" : "wild pointer dereference"); return nullptr; }
        if (o->kind >= K_DEAD_HEAP) { violation(s, "memory", o->kind == K_DEAD_HEAP ? "heap use after free: " + describe(s, addr) : "use of dead stack object"); return nullptr; }
        off = addr - baseOf(id, o);
        if (off > o->size || size > o->size - off) {
            violation(s, "memory", string("out of bounds ") + (write ? "write" : "read") + ": " + describe(s, addr));
            return nullptr;
        }
        if (write) {
            if (o->ro) { violation(s, "memory", "write to constant " + describe(s, addr)); return nullptr; }
            o = s.mem.wget(id);
        }
        return o;
    }
    Val loadFrom(Obj *o, uint64_t off, unsigned w) {
        unsigned nb = (w + 7) / 8;
        bool sym = false;
        if (o->sym) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { sym = true; break; }
        if (!sym) {
            uint64_t v = 0;
            memcpy(&v, o->data + off, nb);
            return C(v & maskw(w));
        }
        auto byte = [&](unsigned i) { return o->sym[off + i] ? o->sym[off + i] : P.cst(8, o->data[off + i]); };
        // fold from the most significant byte down, concat of hi with next
        Node *n = byte(nb - 1);
        // group from high: hi:next
        for (int i = (int)nb - 2; i >= 0; i--) {
            Node *lo = byte(i);
            n = P.concat(n, lo);
        }
        if (w < nb * 8) n = P.extract(n, 0, w);
        return P.val(n);
    }
    void storeTo(Obj *o, uint64_t off, unsigned w, Val v) {
        unsigned nb = (w + 7) / 8;
        if (!v.e) {
            memcpy(o->data + off, &v.c, nb);
            if (o->sym) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr;
            return;
        }
        if (!o->sym) o->sym = (Node **)calloc(o->size, sizeof(Node *));
        Node *n = v.e;
        if (w < nb * 8) n = P.zext(n, nb * 8);
        for (unsigned i = 0; i < nb; i++) {
            Node *b = P.extract(n, i * 8, 8);
            if (ExprPool::isC(b)) { o->sym[off + i] = nullptr; o->data[off + i] = b->k; }
            else o->sym[off + i] = b;
        }
    }
    bool load(State &s, uint64_t addr, unsigned w, Val &out) {
        uint64_t off;
        Obj *o = access(s, addr, (w + 7) / 8, false, off);
        if (!o) return false;
        out = loadFrom(o, off, w);
        return true;
    }
    bool store(State &s, uint64_t addr, unsigned w, Val v) {
        uint64_t off;
        Obj *o = access(s, addr, (w + 7) / 8, true, off);
        if (!o) return false;
        storeTo(o, off, w, v);
        return true;
    }
    uint64_t alloc(State &s, uint64_t size, ObjKind k, uint8_t fill, const Instruction *site, uint16_t align = 16) {
        Obj *o = Obj::make(size, k, fill, false);
        o->site = site;
        o->align = std::max<uint16_t>(16, align);
        uint64_t id = s.mem.add(o);
        return baseOf(id, o);
    }
    bool cstr(State &s, uint64_t addr, string &out) {
        out.clear();
        for (int i = 0; i < 4096; i++) {
            Val v;
            if (!load(s, addr + i, 8, v)) return false;
            uint64_t c = v.e ? P.eval(v.e, *s.model) : v.c;
            if (!c) return true;
            out.push_back((char)c);
        }
        return true;
    }

    // ---- types (exception matching, dynamic_cast)
    const GlobalVariable *tiOf(uint64_t addr) { auto it = gvById.find(addr >> SHIFT); return it == gvById.end() ? nullptr : it->second; }
    static string tiKind(const GlobalVariable *g) {
        if (!g || !g->hasInitializer()) return "";
        auto *CS = dyn_cast<ConstantStruct>(g->getInitializer());
        if (!CS) return "";
        const Value *v = CS->getOperand(0)->stripInBoundsOffsets();
        if (auto *GV = dyn_cast<GlobalValue>(v)) return GV->getName().str();
        return "";
    }
    static const GlobalVariable *gvStrip(const Value *v) { return dyn_cast<GlobalVariable>(v->stripPointerCasts()); }
    static bool sameType(const GlobalVariable *a, const GlobalVariable *b) { return a == b || (a && b && a->getName() == b->getName()); }
    // finds dst as (public) base of src; fills offset
    bool baseOffset(const GlobalVariable *src, const GlobalVariable *dst, int64_t &off, int64_t acc = 0) {
        if (sameType(src, dst)) { off = acc; return true; }
        string k = tiKind(src);
        if (k.empty()) return false;
        auto *CS = cast<ConstantStruct>(src->getInitializer());
        if (k.find("__si_class_type_info") != string::npos) return baseOffset(gvStrip(CS->getOperand(2)), dst, off, acc);
        if (k.find("__vmi_class_type_info") != string::npos) {
            unsigned n = cast<ConstantInt>(CS->getOperand(3))->getZExtValue();
            for (unsigned i = 0; i < n; i++) {
                auto *b = gvStrip(CS->getOperand(4 + 2 * i));
                int64_t fl = cast<ConstantInt>(CS->getOperand(5 + 2 * i))->getSExtValue();
                if (fl & 1) continue; // virtual base: unsupported
                if (baseOffset(b, dst, off, acc + (fl >> 8))) return true;
            }
        }
        return false;
    }
    bool matches(State &s, uint64_t thrownTi, uint64_t catchTi, uint64_t exc, uint64_t &adjusted) {
        adjusted = exc;
        if (catchTi == 0) return true;
        if (thrownTi == catchTi) {
            if (tiKind(tiOf(catchTi)).find("__pointer_type_info") != string::npos) { Val v; if (load(s, exc, 64, v)) adjusted = v.c; }
            return true;
        }
        auto *a = tiOf(thrownTi), *b = tiOf(catchTi);
        if (!a || !b) return false;
        int64_t off;
        if (baseOffset(a, b, off)) { adjusted = exc + off; return true; }
        return false;
    }

    // ---- frames
    bool pushFrame(State &s, Fn *f, const vector<Val> &args) {
        if (!f->decoded) decode(f);
        if (s.frames.size() > cfg.maxDepth) { violation(s, "hang", "unbounded recursion"); return false; }
        Frame fr;
        fr.fn = f; fr.pc = 0; fr.base = s.regs.size(); fr.allocaMark = s.allocas.size();
        s.regs.resize(fr.base + f->nslots);
        for (size_t i = 0; i < args.size() && (int)i < f->nargSlots; i++) s.regs[fr.base + i] = args[i];
        f->execs++;
        s.frames.push_back(fr);
        return true;
    }
    void popFrame(State &s) {
        Frame &f = s.frames.back();
        for (size_t i = s.allocas.size(); i > f.allocaMark; i--) s.mem.kill(s.allocas[i - 1], &deadStack);
        s.allocas.resize(f.allocaMark);
        s.regs.resize(f.base);
        s.frames.pop_back();
    }
    void take(State &s, Frame &f, const Edge &e) {
        size_t n = e.moves.size();
        if (n) {
            Val tmp[16]; vector<Val> big; Val *t = tmp;
            if (n > 16) { big.resize(n); t = big.data(); }
            for (size_t i = 0; i < n; i++) t[i] = get(s, f, e.moves[i].src);
            for (size_t i = 0; i < n; i++) s.regs[f.base + e.moves[i].dst] = t[i];
        }
        f.pc = e.target;
    }
    // ---- exceptions.  Frames' pc points at the active call.
    bool unwind(State &s, uint64_t exc, bool fromResume) {
        Val tiv;
        if (!load(s, exc - 64, 64, tiv)) return false;
        uint64_t ti = tiv.c, adj;
        Val objv;
        if (!load(s, exc - 8, 64, objv)) return false;
        uint64_t obj = objv.c;
        if (!fromResume) {
            bool found = false;
            for (int i = (int)s.frames.size() - 1; i >= 0 && !found; i--) {
                Frame &f = s.frames[i];
                Op &op = f.fn->ops[f.pc];
                if (op.code != O_CALL || !op.isInvoke) continue;
                Op &lp = f.fn->ops[op.edges[1].target];
                if (lp.code != O_LANDINGPAD) continue;
                for (auto &c : lp.clauses) if (c.first == 0 && matches(s, ti, c.second, obj, adj)) { found = true; break; }
            }
            if (!found) {
                auto *g = tiOf(ti);
                violation(s, "terminate", "uncaught exception of type " + (g ? llvm::demangle(g->getName().str()) : string("?")));
                return false;
            }
        }
        bool first = true;
        while (!s.frames.empty()) {
            Frame &f = s.frames.back();
            Op &op = f.fn->ops[f.pc];
            if (!(first && fromResume) && op.code == O_CALL && op.isInvoke) {
                Op &lp = f.fn->ops[op.edges[1].target];
                if (lp.code == O_LANDINGPAD) {
                    int sel = 0;
                    bool enter = lp.cleanup;
                    for (auto &c : lp.clauses) if (c.first == 0 && matches(s, ti, c.second, obj, adj)) {
                        enter = true;
                        sel = c.second ? typeIds.emplace(c.second, typeIds.size() + 1).first->second : 0x7ffffff;
                        Val a = C(adj);
                        store(s, exc - 56, 64, a);
                        break;
                    }
                    if (enter) {
                        take(s, f, op.edges[1]);
                        Frame &g = s.frames.back();
                        Op &l2 = g.fn->ops[g.pc];
                        s.regs[g.base + l2.dst] = C(exc);
                        s.regs[g.base + l2.dst + 1] = C((uint32_t)sel);
                        g.pc++;
                        return true;
                    }
                }
            }
            popFrame(s);
            first = false;
        }
        violation(s, "terminate", "uncaught exception");
        return false;
    }

    // ---- main loop.  Returns when the path ended.
    enum R { CONT, END };
    R doCall(State &s, Frame &f, Op &op);
    R builtin(State &s, Op &op, const vector<Val> &a, Val *ret);
    void finishCall(State &s, const Val *rv, int n) { // callee already popped (or builtin): advance caller
        Frame &f = s.frames.back();
        Op &op = f.fn->ops[f.pc];
        if (op.dst >= 0) for (int i = 0; i < n && i < (int)std::max<uint64_t>(1, op.k); i++) s.regs[f.base + op.dst + i] = rv[i];
        if (op.isInvoke) take(s, f, op.edges[0]); else f.pc++;
    }
    int initIdx = 0;
    void run(State *sp);
    void icmp(Op &op, Val x, Val y, Val &out);
};

void Exec::icmp(Op &op, Val x, Val y, Val &out) {
    unsigned w = op.w;
    if (!x.e && !y.e) {
        uint64_t a = x.c, b = y.c; bool r;
        switch (op.sub) {
        case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break;
        case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_ULE: r = a <= b; break;
        case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_UGE: r = a >= b; break;
        case CmpInst::ICMP_SLT: r = sx(a, w) < sx(b, w); break; case CmpInst::ICMP_SLE: r = sx(a, w) <= sx(b, w); break;
        case CmpInst::ICMP_SGT: r = sx(a, w) > sx(b, w); break; default: r = sx(a, w) >= sx(b, w);
        }
        out = C(r);
        return;
    }
    Node *a = P.node(x, w), *b = P.node(y, w), *r;
    switch (op.sub) {
    case CmpInst::ICMP_EQ: r = P.bin(N_EQ, a, b); break;
    case CmpInst::ICMP_NE: r = P.notb(P.bin(N_EQ, a, b)); break;
    case CmpInst::ICMP_ULT: r = P.bin(N_ULT, a, b); break;
    case CmpInst::ICMP_ULE: r = P.bin(N_ULE, a, b); break;
    case CmpInst::ICMP_UGT: r = P.bin(N_ULT, b, a); break;
    case CmpInst::ICMP_UGE: r = P.bin(N_ULE, b, a); break;
    case CmpInst::ICMP_SLT: r = P.bin(N_SLT, a, b); break;
    case CmpInst::ICMP_SLE: r = P.bin(N_SLE, a, b); break;
    case CmpInst::ICMP_SGT: r = P.bin(N_SLT, b, a); break;
    default: r = P.bin(N_SLE, b, a);
    }
    out = P.val(r);
}

static double asD(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t v; memcpy(&v, &d, 8); return v; }

void Exec::run(State *sp) {
    State &s = *sp;
    cur = sp;
    static uint64_t tick = 0;
    for (;;) {
        if (((++tick) & 0xffff) == 0 && now() - t0 > cfg.timeLimit) { st.truncated = true; st.bounds["time limit"]++; stop = true; return; }
        Frame &f = s.frames.back();
        Op &op = f.fn->ops[f.pc];
        op.executed = true;
        if (++s.steps > cfg.maxSteps) { violation(s, "hang", "no termination within the step bound"); return; }
        st.insns++;
        Val *rg = s.regs.data() + f.base;
        auto G = [&](int o) -> Val { return o >= 0 ? rg[o] : f.fn->consts[-1 - o]; };
        switch (op.code) {
        case O_NOP: f.pc++; break;
        case O_BIN: {
            Val x = G(op.a), y = G(op.b);
            unsigned w = op.w;
            bool div = op.sub >= N_UDIV && op.sub <= N_SREM;
            if (div) {
                if (!y.e) { if (y.c == 0) { violation(s, "ub", "division by zero"); return; } }
                else if (branch(s, P.bin(N_EQ, y.e, P.cst(w, 0)))) { violation(s, "ub", "division by zero"); return; }
            }
            if (!x.e && !y.e) rg[op.dst] = C(ExprPool::foldBin((NodeOp)op.sub, x.c, y.c, w));
            else rg[op.dst] = P.val(P.bin((NodeOp)op.sub, P.node(x, w), P.node(y, w)));
            f.pc++;
            break;
        }
        case O_ICMP: { Val o; icmp(op, G(op.a), G(op.b), o); rg[op.dst] = o; f.pc++; break; }
        case O_SELECT: {
            Val c = G(op.a);
            for (unsigned i = 0; i < op.leaves.size(); i++) {
                int ob = Decoder::nth(op.b, i), oc = Decoder::nth(op.c, i);
                if (!c.e) rg[op.dst + i] = G(c.c ? ob : oc);
                else { unsigned w = op.leaves[i].w; rg[op.dst + i] = P.val(P.ite(c.e, P.node(G(ob), w), P.node(G(oc), w))); }
            }
            f.pc++;
            break;
        }
        case O_ZEXT: { Val x = G(op.a); rg[op.dst] = x.e ? P.val(P.zext(x.e, op.w)) : x; f.pc++; break; }
        case O_SEXT: { Val x = G(op.a); rg[op.dst] = x.e ? P.val(widened(s, x.e, op.w)) : C((uint64_t)sx(x.c, op.w2) & maskw(op.w)); f.pc++; break; }
        case O_TRUNC: { Val x = G(op.a); rg[op.dst] = x.e ? P.val(P.extract(x.e, 0, op.w)) : C(x.c & maskw(op.w)); f.pc++; break; }
        case O_MOVE: for (unsigned i = 0; i < op.k; i++) rg[op.dst + i] = G(Decoder::nth(op.a, i)); f.pc++; break;
        case O_INSERT: {
            for (unsigned i = 0; i < op.k; i++) rg[op.dst + i] = G(Decoder::nth(op.a, i));
            for (unsigned i = 0; i < op.cases[0]; i++) rg[op.dst + op.c + i] = G(Decoder::nth(op.b, i));
            f.pc++;
            break;
        }
        case O_GEP: {
            Val b = G(op.a);
            bool sym = b.e;
            uint64_t acc = b.c + op.k;
            unsigned li = 0;
            Node *n = sym ? P.bin(N_ADD, b.e, P.cst(64, op.k)) : nullptr;
            for (unsigned i = 0; i < op.terms.size(); i++) {
                Val x = G(op.terms[i].first);
                unsigned w = 64;
                if (li < op.leaves.size() && op.leaves[li].off == i) w = op.leaves[li++].w;
                if (!x.e) {
                    uint64_t d = (uint64_t)(sx(x.c, w) * op.terms[i].second);
                    if (n) n = P.bin(N_ADD, n, P.cst(64, d)); else acc += d;
                } else {
                    if (!n) n = P.cst(64, acc);
                    n = P.bin(N_ADD, n, P.bin(N_MUL, P.sext(x.e, 64), P.cst(64, op.terms[i].second)));
                }
            }
            rg[op.dst] = n ? P.val(n) : C(acc);
            f.pc++;
            break;
        }
        case O_LOAD: {
            uint64_t addr = conc(s, G(op.a), 64);
            for (unsigned i = 0; i < op.leaves.size(); i++) {
                Val v;
                if (!load(s, addr + op.leaves[i].off, op.leaves[i].w, v)) return;
                rg[op.dst + i] = v;
            }
            f.pc++;
            break;
        }
        case O_STORE: {
            uint64_t addr = conc(s, G(op.b), 64);
            for (unsigned i = 0; i < op.leaves.size(); i++)
                if (!store(s, addr + op.leaves[i].off, op.leaves[i].w, G(Decoder::nth(op.a, i)))) return;
            f.pc++;
            break;
        }
        case O_ALLOCA: {
            uint64_t n = conc(s, G(op.a), 64);
            uint64_t a = alloc(s, op.k * n, K_STACK, 0x55, op.I, op.w2);
            s.allocas.push_back(a >> SHIFT);
            rg[op.dst] = C(a);
            f.pc++;
            break;
        }
        case O_BR: take(s, f, op.edges[0]); break;
        case O_CBR: {
            Val c = G(op.a);
            bool b = c.e ? branch(s, c.e) : (c.c & 1);
            take(s, f, op.edges[b ? 0 : 1]);
            break;
        }
        case O_SWITCH: {
            Val v = G(op.a);
            unsigned idx = 0;
            if (!v.e) {
                for (unsigned i = 0; i < op.cases.size(); i++) if (op.cases[i] == v.c) { idx = i + 1; break; }
            } else {
                for (unsigned i = 0; i < op.cases.size(); i++)
                    if (branch(s, P.bin(N_EQ, v.e, P.cst(op.w, op.cases[i])))) { idx = i + 1; break; }
            }
            take(s, f, op.edges[idx]);
            break;
        }
        case O_RET: {
            Val rv[16];
            int n = std::min<int>(op.k, 16);
            for (int i = 0; i < n; i++) rv[i] = G(Decoder::nth(op.a, i));
            popFrame(s);
            if (s.frames.empty()) return;
            finishCall(s, rv, n);
            break;
        }
        case O_CALL: if (doCall(s, f, op) == END) return; break;
        case O_UNREACHABLE: violation(s, "ub", "unreachable code executed"); return;
        case O_LANDINGPAD: f.pc++; break;
        case O_RESUME: { uint64_t exc = G(op.a).c; if (!unwind(s, exc, true)) return; break; }
        case O_CMPXCHG: {
            uint64_t addr = conc(s, G(op.a), 64);
            Val old;
            if (!load(s, addr, op.w, old)) return;
            Val exp = G(op.b);
            bool eq = (!old.e && !exp.e) ? old.c == exp.c : branch(s, P.bin(N_EQ, P.node(old, op.w), P.node(exp, op.w)));
            if (eq && !store(s, addr, op.w, G(op.c))) return;
            rg = s.regs.data() + f.base;
            rg[op.dst] = old; rg[op.dst + 1] = C(eq);
            f.pc++;
            break;
        }
        case O_RMW: {
            uint64_t addr = conc(s, G(op.a), 64);
            Val old;
            if (!load(s, addr, op.w, old)) return;
            Val v = G(op.b), nv;
            auto bin = [&](NodeOp o) { return (!old.e && !v.e) ? C(ExprPool::foldBin(o, old.c, v.c, op.w)) : P.val(P.bin(o, P.node(old, op.w), P.node(v, op.w))); };
            switch (op.sub) {
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Add: nv = bin(N_ADD); break;
            case AtomicRMWInst::Sub: nv = bin(N_SUB); break;
            case AtomicRMWInst::And: nv = bin(N_AND); break;
            case AtomicRMWInst::Or: nv = bin(N_OR); break;
            case AtomicRMWInst::Xor: nv = bin(N_XOR); break;
            default: st.unmodelled["atomicrmw"]++; st.unmodelledPaths++; return;
            }
            if (!store(s, addr, op.w, nv)) return;
            rg[op.dst] = old;
            f.pc++;
            break;
        }
        case O_FBIN: {
            double x = asD(conc(s, G(op.a), op.w), op.w), y = asD(conc(s, G(op.b), op.w), op.w), r = 0;
            switch (op.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; }
            if (op.w == 32) { float a = x, b = y, q = 0; switch (op.sub) { case Instruction::FAdd: q = a + b; break; case Instruction::FSub: q = a - b; break; case Instruction::FMul: q = a * b; break; case Instruction::FDiv: q = a / b; break; default: q = r; } r = q; }
            rg[op.dst] = C(fromD(r, op.w));
            f.pc++;
            break;
        }
        case O_FNEG: rg[op.dst] = C(conc(s, G(op.a), op.w) ^ (1ull << (op.w - 1))); f.pc++; break;
        case O_FCMP: {
            double x = asD(conc(s, G(op.a), op.w), op.w), y = asD(conc(s, G(op.b), op.w), op.w);
            bool uno = std::isnan(x) || std::isnan(y), r = false;
            switch (op.sub) {
            case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
            case CmpInst::FCMP_OEQ: r = !uno && x == y; break; case CmpInst::FCMP_OGT: r = !uno && x > y; break; case CmpInst::FCMP_OGE: r = !uno && x >= y; break;
            case CmpInst::FCMP_OLT: r = !uno && x < y; break; case CmpInst::FCMP_OLE: r = !uno && x <= y; break; case CmpInst::FCMP_ONE: r = !uno && x != y; break;
            case CmpInst::FCMP_ORD: r = !uno; break; case CmpInst::FCMP_UNO: r = uno; break;
            case CmpInst::FCMP_UEQ: r = uno || x == y; break; case CmpInst::FCMP_UGT: r = uno || x > y; break; case CmpInst::FCMP_UGE: r = uno || x >= y; break;
            case CmpInst::FCMP_ULT: r = uno || x < y; break; case CmpInst::FCMP_ULE: r = uno || x <= y; break; case CmpInst::FCMP_UNE: r = uno || x != y; break;
            }
            rg[op.dst] = C(r);
            f.pc++;
            break;
        }
        case O_FPCAST: {
            Val a = G(op.a);
            uint64_t x = conc(s, a, op.w2), r = 0;
            switch (op.sub) {
            case Instruction::FPToSI: r = (uint64_t)(int64_t)asD(x, op.w2); break;
            case Instruction::FPToUI: r = (uint64_t)asD(x, op.w2); break;
            case Instruction::SIToFP: r = op.w == 32 ? fromD((float)sx(x, op.w2), 32) : fromD((double)sx(x, op.w2), 64); break;
            case Instruction::UIToFP: r = op.w == 32 ? fromD((float)x, 32) : fromD((double)x, 64); break;
            default: r = fromD(asD(x, op.w2), op.w);
            }
            rg[op.dst] = C(r & maskw(op.w));
            f.pc++;
            break;
        }
        case O_UNSUPPORTED: default: {
            string t; raw_string_ostream os(t); if (op.I) op.I->print(os);
            st.unmodelled["instruction: " + os.str()]++;
            st.unmodelledPaths++;
            return;
        }
        }
    }
}

Exec::R Exec::doCall(State &s, Frame &f, Op &op) {
    vector<Val> args;
    args.reserve(op.args.size());
    for (size_t i = 0; i < op.args.size(); i++) args.push_back(get(s, f, op.args[i]));
    if (op.builtin) {
        Val ret[2];
        Frame *before = &s.frames.back(); (void)before;
        size_t depth = s.frames.size();
        (void)depth;
        return builtin(s, op, args, ret);
    }
    Fn *fn = op.calleeFn;
    Function *F = op.callee;
    if (!F) {
        uint64_t a = conc(s, get(s, f, op.a), 64);
        uint64_t id = a >> SHIFT;
        if (a < 65536) { violation(s, "memory", "call through null function pointer"); return END; }
        if (id == 0 || id > fnById.size() || (a & maskw(SHIFT)) != 16) { violation(s, "memory", "call through invalid function pointer: " + describe(s, a)); return END; }
        F = fnById[id - 1];
        if (int b = resolveBuiltin(F)) {
            Op tmp = op; tmp.builtin = b; tmp.callee = F;
            Val ret[2];
            return builtin(s, tmp, args, ret);
        }
        if (!F->isDeclaration()) fn = getFn(F);
    }
    if (!fn) {
        st.unmodelled[fnName(F)]++;
        st.unmodelledPaths++;
        return END;
    }
    for (uint64_t bv : op.cases) { // byval copies
        unsigned slot = bv >> 32; uint64_t size = (uint32_t)bv;
        uint64_t src = conc(s, args[slot], 64), off;
        Obj *o = access(s, src, size, false, off);
        if (!o) return END;
        uint64_t a = alloc(s, size, K_STACK, 0, op.I);
        s.allocas.push_back(a >> SHIFT); // freed with the caller's frame
        Obj *d = s.mem.wget(a >> SHIFT);
        o = s.mem.get(src >> SHIFT);
        memcpy(d->data, o->data + off, size);
        if (o->sym) { d->sym = (Node **)calloc(size, sizeof(Node *)); memcpy(d->sym, o->sym + off, size * sizeof(Node *)); }
        args[slot] = C(a);
    }
    if (!pushFrame(s, fn, args)) return END;
    return CONT;
}

Exec::R Exec::builtin(State &s, Op &op, const vector<Val> &a, Val *ret) {
    auto ok = [&](Val v) { Val r[2] = {v, Val{}}; finishCall(s, r, 1); return CONT; };
    auto okv = [&]() { finishCall(s, ret, 0); return CONT; };
    string str;
    switch (op.builtin) {
    case B_NEW: case B_NEWARR: case B_MALLOC: case B_NEWA: case B_NEWARRA: case B_CALLOC: {
        uint64_t n = conc(s, a[0], 64), al = 16;
        if (op.builtin == B_NEWA || op.builtin == B_NEWARRA) al = conc(s, a[1], 64);
        if (op.builtin == B_CALLOC) n *= conc(s, a[1], 64);
        if (n > (1u << SHIFT) - 4096) { violation(s, "memory", "allocation of an absurd size"); return END; }
        uint64_t p = alloc(s, n, K_HEAP, op.builtin == B_CALLOC ? 0 : 0x55, op.I, al);
        Obj *o = s.mem.wget(p >> SHIFT);
        o->newKind = (op.builtin == B_NEW || op.builtin == B_NEWA) ? 1 : (op.builtin == B_NEWARR || op.builtin == B_NEWARRA) ? 2 : 3;
        // remember a useful allocation site: the innermost non-std frame
        for (int i = (int)s.frames.size() - 1; i >= 0; i--) {
            const Instruction *I = s.frames[i].fn->ops[s.frames[i].pc].I;
            if (!I) continue;
            StringRef nm = s.frames[i].fn->F->getName();
            if (nm.starts_with("_ZNSt") || nm.starts_with("_ZSt") || nm.starts_with("_ZN9__gnu_cxx") || nm.starts_with("_ZNKSt")) continue;
            o->site = I; break;
        }
        return ok(C(p));
    }
    case B_REALLOC: {
        uint64_t p = conc(s, a[0], 64), n = conc(s, a[1], 64);
        uint64_t q = alloc(s, n, K_HEAP, 0x55, op.I);
        s.mem.wget(q >> SHIFT)->newKind = 3;
        if (p) {
            uint64_t off;
            Obj *o = access(s, p, 0, false, off);
            if (!o) return END;
            Obj *d = s.mem.wget(q >> SHIFT);
            o = s.mem.get(p >> SHIFT);
            uint64_t m = std::min<uint64_t>(n, o->size);
            memcpy(d->data, o->data, m);
            if (o->sym) { d->sym = (Node **)calloc(n, sizeof(Node *)); memcpy(d->sym, o->sym, m * sizeof(Node *)); }
            Obj *t = new Obj; t->kind = K_DEAD_HEAP; t->size = o->size; t->site = o->site; t->site2 = op.I;
            s.mem.kill(p >> SHIFT, t);
        }
        return ok(C(q));
    }
    case B_DEL: case B_DELARR: case B_FREE: {
        uint64_t p = conc(s, a[0], 64);
        if (!p) return okv();
        uint64_t id = p >> SHIFT;
        Obj *o = s.mem.get(id);
        if (!o || (o->kind != K_HEAP && o->kind != K_DEAD_HEAP) || (o->kind == K_HEAP && p != baseOf(id, o))) { violation(s, "memory", "free of an invalid pointer: " + describe(s, p)); return END; }
        if (o->kind == K_DEAD_HEAP) { violation(s, "memory", "double free: " + describe(s, p)); return END; }
        int k = op.builtin == B_DEL ? 1 : op.builtin == B_DELARR ? 2 : 3;
        if (k != o->newKind) { violation(s, "memory", "mismatched new/delete"); return END; }
        Obj *t = new Obj; t->kind = K_DEAD_HEAP; t->size = o->size; t->site = o->site; t->site2 = op.I; t->align = o->align;
        for (int i = (int)s.frames.size() - 1; i >= 0; i--) {
            const Instruction *I = s.frames[i].fn->ops[s.frames[i].pc].I;
            StringRef nm = s.frames[i].fn->F->getName();
            if (!I || nm.starts_with("_ZNSt") || nm.starts_with("_ZSt") || nm.starts_with("_ZN9__gnu_cxx")) continue;
            t->site2 = I; break;
        }
        s.mem.kill(id, t);
        return okv();
    }
    case B_MEMCPY: {
        uint64_t d = conc(s, a[0], 64), src = conc(s, a[1], 64), n = conc(s, a[2], 64);
        if (n) {
            uint64_t o1, o2;
            Obj *q = access(s, src, n, false, o2);
            if (!q) return END;
            Obj *p = access(s, d, n, true, o1);
            if (!p) return END;
            q = s.mem.get(src >> SHIFT);
            memmove(p->data + o1, q->data + o2, n);
            if (q->sym) {
                if (!p->sym) p->sym = (Node **)calloc(p->size, sizeof(Node *));
                memmove(p->sym + o1, q->sym + o2, n * sizeof(Node *));
            } else if (p->sym) memset(p->sym + o1, 0, n * sizeof(Node *));
        }
        return ok(C(d));
    }
    case B_MEMSET: {
        uint64_t d = conc(s, a[0], 64), n = conc(s, a[2], 64);
        Val v = a[1];
        if (n) {
            uint64_t o1;
            Obj *p = access(s, d, n, true, o1);
            if (!p) return END;
            Val b = v.e ? P.val(P.extract(v.e, 0, 8)) : C(v.c & 0xff);
            for (uint64_t i = 0; i < n; i++) storeTo(p, o1 + i, 8, b);
        }
        return ok(C(d));
    }
    case B_MEMCMP: {
        uint64_t p = conc(s, a[0], 64), q = conc(s, a[1], 64), n = conc(s, a[2], 64);
        if (!n) return ok(C(0));
        uint64_t o1, o2;
        Obj *x = access(s, p, n, false, o1); if (!x) return END;
        Obj *y = access(s, q, n, false, o2); if (!y) return END;
        Node *r = P.cst(32, 0);
        for (uint64_t i = n; i-- > 0;) {
            Val u = loadFrom(x, o1 + i, 8), v = loadFrom(y, o2 + i, 8);
            Node *un = P.node(u, 8), *vn = P.node(v, 8);
            r = P.ite(P.bin(N_EQ, un, vn), r, P.ite(P.bin(N_ULT, un, vn), P.cst(32, 0xffffffffu), P.cst(32, 1)));
        }
        return ok(P.val(r));
    }
    case B_STRLEN: {
        uint64_t p = conc(s, a[0], 64);
        for (uint64_t i = 0;; i++) {
            Val v;
            if (!load(s, p + i, 8, v)) return END;
            bool z = v.e ? branch(s, P.bin(N_EQ, v.e, P.cst(8, 0))) : v.c == 0;
            if (z) return ok(C(i));
        }
    }
    case B_GUARD_ACQ: { Val v; uint64_t p = conc(s, a[0], 64); if (!load(s, p, 8, v)) return END; return ok(C(v.c ? 0 : 1)); }
    case B_GUARD_REL: { uint64_t p = conc(s, a[0], 64); if (!store(s, p, 8, C(1))) return END; return okv(); }
    case B_ZERO: return ok(C(0));
    case B_VOID: return okv();
    case B_ABORT: violation(s, "terminate", "abort() called"); return END;
    case B_TERMINATE: violation(s, "terminate", "std::terminate() called"); return END;
    case B_PUREVIRT: violation(s, "terminate", "pure virtual call"); return END;
    case B_RAISE: return unwind(s, conc(s, a[0], 64), false) ? CONT : END;
    case B_TYPEMATCH: { uint64_t adj; return ok(C(matches(s, conc(s, a[0], 64), conc(s, a[1], 64), 0, adj))); }
    case B_DYNCAST: {
        uint64_t p = conc(s, a[0], 64), dst = conc(s, a[2], 64);
        Val vp, ott, ti;
        if (!load(s, p, 64, vp) || !load(s, vp.c - 16, 64, ott) || !load(s, vp.c - 8, 64, ti)) return END;
        uint64_t whole = p + ott.c;
        int64_t off;
        auto *x = tiOf(ti.c), *y = tiOf(dst);
        if (x && y && baseOffset(x, y, off)) return ok(C(whole + off));
        return ok(C(0));
    }
    case B_VF_SYM: case B_VF_CHOICE: {
        uint64_t np = conc(s, a[0], 64), bits = conc(s, a[1], 64);
        if (!cstr(s, np, str)) return END;
        bool ch = op.builtin == B_VF_CHOICE;
        unsigned w = ch ? 8 : bits;
        if (ch && bits <= 1) return ok(C(0));
        Node *v = P.var(w, s.ins.n);
        s.ins.push({str, (uint8_t)w, v, ch});
        st.choiceNames[str]++;
        s.model = std::make_shared<vector<uint64_t>>(*s.model);
        s.model->resize(s.ins.n);
        (*s.model)[s.ins.n - 1] = 0;
        if (ch && bits < 256) s.pc.push_back(P.bin(N_ULT, v, P.cst(8, bits)));
        return ok(P.val(P.zext(v, 64)));
    }
    case B_VF_ASSUME: {
        Val c = a[0];
        if (!c.e) { if (c.c & 1) return okv(); st.assumeCut++; return END; }
        Node *n = P.extract(c.e, 0, 1);
        if (ExprPool::isC(n)) { if (n->k) return okv(); st.assumeCut++; return END; }
        if (!(P.eval(n, *s.model) & 1)) {
            vector<uint64_t> m = *s.model;
            int r = S->check(s.pc, n, varsOf(s), &m);
            if (r != 1) { if (r < 0) st.inconclusive++; st.assumeCut++; return END; }
            s.model = std::make_shared<vector<uint64_t>>(std::move(m));
        }
        s.pc.push_back(n);
        return okv();
    }
    case B_VF_ASSERT: {
        Val c = a[0];
        st.asserts++;
        if (!c.e) {
            if (c.c & 1) return okv();
            cstr(s, conc(s, a[1], 64), str);
            violation(s, "assert", str);
            return END;
        }
        Node *n = P.extract(c.e, 0, 1), *nn = P.notb(n);
        if (ExprPool::isC(n) && n->k) return okv();
        st.assertQueries++;
        vector<uint64_t> m = *s.model;
        int r = S->check(s.pc, nn, varsOf(s), &m);
        if (r == 0) { S->unsatAssert++; return okv(); }
        if (r < 0) { st.inconclusive++; return okv(); }
        cstr(s, conc(s, a[1], 64), str);
        violation(s, "assert", str, &m);
        // continue on the passing side if there is one
        m = *s.model;
        if (S->check(s.pc, n, varsOf(s), &m) != 1) return END;
        s.model = std::make_shared<vector<uint64_t>>(std::move(m));
        s.pc.push_back(n);
        return okv();
    }
    case B_VF_FAIL: cstr(s, conc(s, a[0], 64), str); violation(s, "assert", str); return END;
    case B_VF_REACH: cstr(s, conc(s, a[0], 64), str); st.reach[str]++; return okv();
    case B_VF_LOG: cstr(s, conc(s, a[0], 64), str); s.log.push({str, a[1]}); return okv();
    case B_VF_PRINT: cstr(s, conc(s, a[0], 64), str); if (cfg.trace) fprintf(stderr, "[trace] %s %llu%s\n", str.c_str(), (unsigned long long)(a[1].e ? P.eval(a[1].e, *s.model) : a[1].c), a[1].e ? " (sym)" : ""); return okv();
    case B_VF_END: st.completed++; st.ended++; sample(s, "end"); return END;
    case B_VF_BOUND: cstr(s, conc(s, a[0], 64), str); st.boundCut++; st.bounds[str]++; return END;
    case B_VF_UNMODELLED: cstr(s, conc(s, a[0], 64), str); st.unmodelled[str]++; st.unmodelledPaths++; return END;
    case B_VF_HEAPMARK: return ok(C(s.mem.nextId));
    case B_VF_LEAKOK: { uint64_t p = conc(s, a[0], 64); if (s.mem.get(p >> SHIFT)) s.mem.wget(p >> SHIFT)->leakOk = true; return okv(); }
    case B_VF_HEAPCHECK: {
        uint64_t m = conc(s, a[0], 64);
        cstr(s, conc(s, a[1], 64), str);
        st.asserts++;
        for (uint64_t id = m; id < s.mem.nextId; id++) {
            Obj *o = s.mem.get(id);
            if (o && o->kind == K_HEAP && !o->leakOk) {
                violation(s, "leak", str + ": leaked " + describe(s, id << SHIFT));
                return okv();
            }
        }
        return okv();
    }
    case B_VF_ISSYM: return ok(C(a[0].e != nullptr));
    case B_VF_CONC: return ok(C(conc(s, a[0], 64)));
    case B_VF_FEAS: { // may the condition hold? (no fork)
        Val c = a[0];
        if (!c.e) return ok(C(c.c & 1));
        Node *n = P.extract(c.e, 0, 1);
        return ok(C(S->check(s.pc, n, varsOf(s), nullptr) == 1));
    }
    case B_VF_ALIVE: { uint64_t p = conc(s, a[0], 64); Obj *o = s.mem.get(p >> SHIFT); return ok(C(o && o->kind < K_DEAD_HEAP)); }
    case B_I_EHTYPEID: { uint64_t p = conc(s, a[0], 64); return ok(C(typeIds.emplace(p, typeIds.size() + 1).first->second)); }
    case B_I_TRAP: violation(s, "terminate", "trap"); return END;
    case B_I_OVF: case B_I_SAT: case B_I_MINMAX: {
        unsigned w = op.argw[0];
        Val x = a[0], y = a[1];
        auto id = op.callee->getIntrinsicID();
        Node *xn = P.node(x, w), *yn = P.node(y, w);
        if (op.builtin == B_I_MINMAX) {
            Node *c = (id == Intrinsic::smax || id == Intrinsic::smin) ? P.bin(N_SLT, xn, yn) : P.bin(N_ULT, xn, yn);
            bool mx = id == Intrinsic::smax || id == Intrinsic::umax;
            return ok(P.val(mx ? P.ite(c, yn, xn) : P.ite(c, xn, yn)));
        }
        Node *r = nullptr, *o = nullptr;
        auto sgn = [&](Node *n) { return P.extract(n, w - 1, 1); };
        switch (id) {
        case Intrinsic::uadd_with_overflow: case Intrinsic::uadd_sat: r = P.bin(N_ADD, xn, yn); o = P.bin(N_ULT, r, xn); break;
        case Intrinsic::usub_with_overflow: case Intrinsic::usub_sat: r = P.bin(N_SUB, xn, yn); o = P.bin(N_ULT, xn, yn); break;
        case Intrinsic::sadd_with_overflow: case Intrinsic::sadd_sat: r = P.bin(N_ADD, xn, yn); o = P.bin(N_AND, P.notb(P.bin(N_XOR, sgn(xn), sgn(yn))), P.bin(N_XOR, sgn(xn), sgn(r))); break;
        case Intrinsic::ssub_with_overflow: case Intrinsic::ssub_sat: r = P.bin(N_SUB, xn, yn); o = P.bin(N_AND, P.bin(N_XOR, sgn(xn), sgn(yn)), P.bin(N_XOR, sgn(xn), sgn(r))); break;
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            bool sg = id == Intrinsic::smul_with_overflow;
            if (ExprPool::isC(xn) && ExprPool::isC(yn)) {
                if (sg) { __int128 p = (__int128)sx(xn->k, w) * sx(yn->k, w); r = P.cst(w, (uint64_t)p); o = P.cst(1, p != (__int128)sx((uint64_t)p & maskw(w), w)); }
                else { unsigned __int128 p = (unsigned __int128)xn->k * yn->k; r = P.cst(w, (uint64_t)p); o = P.cst(1, (p >> w) != 0); }
            } else if (w <= 32) {
                Node *X = sg ? P.sext(xn, 2 * w) : P.zext(xn, 2 * w), *Y = sg ? P.sext(yn, 2 * w) : P.zext(yn, 2 * w);
                Node *p = P.bin(N_MUL, X, Y);
                r = P.extract(p, 0, w);
                o = P.notb(P.bin(N_EQ, p, sg ? P.sext(r, 2 * w) : P.zext(r, 2 * w)));
            } else {
                // 64 bit: constant factor c: overflow iff x > MAX/c (unsigned) or outside [MIN/c, MAX/c]
                if (ExprPool::isC(xn)) std::swap(xn, yn);
                if (!ExprPool::isC(yn) || yn->k == 0 || sx(yn->k, w) < 0) { st.unmodelled["symbolic 64-bit multiply with overflow"]++; st.unmodelledPaths++; return END; }
                r = P.bin(N_MUL, xn, yn);
                if (sg) { int64_t c = sx(yn->k, w); o = P.bin(N_OR, P.bin(N_SLT, P.cst(w, INT64_MAX / c), xn), P.bin(N_SLT, xn, P.cst(w, INT64_MIN / c))); }
                else o = P.bin(N_ULT, P.cst(w, ~0ull / yn->k), xn);
            }
            break;
        }
        default: break;
        }
        if (op.builtin == B_I_SAT) {
            Node *mx = P.cst(w, maskw(w));
            if (id == Intrinsic::usub_sat) mx = P.cst(w, 0);
            if (id == Intrinsic::sadd_sat || id == Intrinsic::ssub_sat) mx = P.ite(sgn(xn), P.cst(w, 1ull << (w - 1)), P.cst(w, maskw(w - 1)));
            return ok(P.val(P.ite(o, mx, r)));
        }
        Val r2[2] = {P.val(r), P.val(o)};
        finishCall(s, r2, 2);
        return CONT;
    }
    case B_I_ABS: { unsigned w = op.argw[0]; Node *x = P.node(a[0], w); return ok(P.val(P.ite(P.bin(N_SLT, x, P.cst(w, 0)), P.bin(N_SUB, P.cst(w, 0), x), x))); }
    case B_I_BITS: {
        unsigned w = op.argw[0];
        uint64_t x = conc(s, a[0], w), r = 0;
        switch (op.callee->getIntrinsicID()) {
        case Intrinsic::ctpop: r = __builtin_popcountll(x); break;
        case Intrinsic::ctlz: r = x ? __builtin_clzll(x) - (64 - w) : w; break;
        case Intrinsic::cttz: r = x ? __builtin_ctzll(x) : w; break;
        default: r = __builtin_bswap64(x) >> (64 - w);
        }
        return ok(C(r));
    }
    case B_I_FSH: {
        unsigned w = op.argw[0];
        uint64_t x = conc(s, a[0], w), y = conc(s, a[1], w), k = conc(s, a[2], w) % w;
        if (op.callee->getIntrinsicID() == Intrinsic::fshl) return ok(C(k ? ((x << k) | (y >> (w - k))) & maskw(w) : x));
        return ok(C(k ? ((y >> k) | (x << (w - k))) & maskw(w) : y));
    }
    case B_I_ID: return ok(a[0]);
    case B_I_ISCONST: return ok(C(0));
    case B_I_OBJSIZE: return ok(C(conc(s, a[1], 1) ? 0 : ~0ull & maskw(op.w)));
    case B_I_PTRMASK: return ok(C(conc(s, a[0], 64) & conc(s, a[1], 64)));
    case B_MATH: return ok(C(fromD(mathNames[op.callee->getName().str()](asD(conc(s, a[0], 64), 64)), 64)));
    }
    st.unmodelled["builtin"]++;
    st.unmodelledPaths++;
    return END;
}

// ------------------------------------------------------------------ output
static string jesc(const string &s) {
    string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void jpairs(std::ostream &o, const vector<std::pair<string, uint64_t>> &v) {
    o << "[";
    for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << "[\"" << jesc(v[i].first) << "\"," << v[i].second << "]";
    o << "]";
}
static void jmap(std::ostream &o, const std::map<string, uint64_t> &m) {
    o << "{";
    bool f = true;
    for (auto &k : m) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; }
    o << "}";
}
static void writeOut(const string &path, double wall) {
    std::ofstream o(path);
    o << "{\"completed\":" << st.completed << ",\"ended\":" << st.ended << ",\"assume_cut\":" << st.assumeCut << ",\"bound_cut\":" << st.boundCut
      << ",\"unmodelled_paths\":" << st.unmodelledPaths << ",\"forks\":" << st.forks << ",\"insns\":" << st.insns
      << ",\"asserts\":" << st.asserts << ",\"assert_queries\":" << st.assertQueries << ",\"assert_unsat\":" << S->unsatAssert << ",\"concretizations\":" << st.concretizations
      << ",\"inconclusive\":" << st.inconclusive << ",\"truncated\":" << (st.truncated ? "true" : "false")
      << ",\"queries\":" << S->queries << ",\"sat\":" << S->sat << ",\"unsat\":" << S->unsat << ",\"unknown\":" << S->unknown
      << ",\"solved\":" << S->solved << ",\"solver_s\":" << S->time << ",\"wall_s\":" << wall;
    o << ",\"unmodelled\":"; jmap(o, st.unmodelled);
    o << ",\"reach\":"; jmap(o, st.reach);
    o << ",\"bounds\":"; jmap(o, st.bounds);
    o << ",\"inputs\":"; jmap(o, st.choiceNames);
    o << ",\"violations\":[";
    for (size_t i = 0; i < st.viols.size(); i++) {
        auto &v = st.viols[i];
        o << (i ? "," : "") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":";
        jpairs(o, v.ins);
        o << ",\"stack\":[";
        for (size_t j = 0; j < v.stack.size(); j++) o << (j ? "," : "") << "\"" << jesc(v.stack[j]) << "\"";
        o << "]}";
    }
    o << "],\"samples\":[";
    for (size_t i = 0; i < st.samples.size(); i++) {
        o << (i ? "," : "") << "{\"inputs\":"; jpairs(o, st.samples[i].ins);
        o << ",\"log\":"; jpairs(o, st.samples[i].log);
        o << ",\"end\":\"" << st.samples[i].end << "\"}";
    }
    o << "],\"functions\":[";
    // functions of the repository executed, with covered lines
    bool first = true;
    for (Fn *f : allFns) {
        if (!f->execs) continue;
        DISubprogram *SP = f->F->getSubprogram();
        string file = SP && SP->getFile() ? (SP->getFilename().starts_with("/") ? SP->getFilename().str() : (SP->getDirectory() + "/" + SP->getFilename()).str()) : "";
        if (file.rfind(repoPrefix, 0) != 0) continue;
        std::set<unsigned> all, cov;
        for (auto &op : f->ops) if (op.I && op.I->getDebugLoc()) { const DILocation *L = op.I->getDebugLoc().get(); if (L->getInlinedAt() || L->getFilename() != SP->getFilename()) continue; if (!L->getLine()) continue; all.insert(L->getLine()); if (op.executed) cov.insert(L->getLine()); }
        o << (first ? "" : ",") << "{\"name\":\"" << jesc(fnName(f->F)) << "\",\"file\":\"" << jesc(file) << "\",\"execs\":" << f->execs << ",\"lines\":[";
        bool ff = true;
        for (unsigned l : all) { o << (ff ? "" : ",") << (cov.count(l) ? (int)l : -(int)l); ff = false; }
        o << "]}";
        first = false;
    }
    o << "]}\n";
}

int main(int argc, char **argv) {
    vector<string> files;
    string entry, out = "/dev/stdout";
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&]() { return string(argv[++i]); };
        if (a == "--entry") entry = nx();
        else if (a == "--out") out = nx();
        else if (a == "--jobs") cfg.jobs = stoi(nx());
        else if (a == "--max-steps") cfg.maxSteps = stoull(nx());
        else if (a == "--max-paths") cfg.maxPaths = stoull(nx());
        else if (a == "--time") cfg.timeLimit = stod(nx());
        else if (a == "--samples") cfg.samples = stoi(nx());
        else if (a == "--seed") cfg.seed = stoull(nx());
        else if (a == "--prefix") repoPrefix = nx();
        else if (a == "--trace") cfg.trace = true;
        else files.push_back(a);
    }
    double t0 = now();
    for (auto &f : files) {
        SMDiagnostic err;
        auto m = parseIRFile(f, err, Ctx);
        if (!m) { err.print("qsym", errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "qsym: link failed: %s\n", f.c_str()); return 2; }
    }
    DL = &M->getDataLayout();
    // ids for functions, then globals
    uint64_t id = 1;
    for (auto &F : *M) { fnId[&F] = id++; fnById.push_back(&F); }
    firstDyn = id;
    State *s0 = new State;
    s0->mem.nextId = firstDyn;
    deadStack.kind = K_DEAD_STACK;
    for (auto &G : M->globals()) { gvId[&G] = id; gvById[id] = &G; id++; }
    for (auto &G : M->globals()) {
        uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
        if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
        Obj *o = Obj::make(sz, K_GLOBAL, 0, false);
        if (G.hasInitializer()) { if (!initBytes(G.getInitializer(), o->data, sz)) { /* rare relocations are left zero */ st.unmodelled["(note) initializer of " + G.getName().str()]++; } }
        o->ro = G.isConstant() && !G.isDeclaration();
        s0->mem.add(o);
    }
    Exec ex;
    S = new Solver(P);
    if (auto *CT = M->getGlobalVariable("llvm.global_ctors")) {
        vector<std::pair<uint64_t, Function *>> v;
        if (auto *A = dyn_cast<ConstantArray>(CT->getInitializer()))
            for (auto &op : A->operands()) {
                auto *CS = cast<ConstantStruct>(op);
                if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
            }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &p : v) {
            if (!ex.pushFrame(*s0, getFn(p.second), {})) return 2;
            ex.run(s0);
            if (!st.viols.empty() || st.unmodelledPaths) {
                for (auto &x : st.viols) { fprintf(stderr, "qsym: in global constructor %s: %s %s\n", p.second->getName().str().c_str(), x.kind.c_str(), x.msg.c_str()); for (auto &f : x.stack) fprintf(stderr, "   %s\n", f.c_str()); }
                for (auto &x : st.unmodelled) fprintf(stderr, "qsym: in global constructor %s: unmodelled %s\n", p.second->getName().str().c_str(), x.first.c_str());
                return 2;
            }
        }
    }
    Function *E = M->getFunction(entry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "qsym: no entry %s\n", entry.c_str()); return 2; }
    ex.t0 = now();
    s0->steps = 0;
    if (!ex.pushFrame(*s0, getFn(E), {})) return 2;
    ex.work.push_back(s0);
    auto step = [&](size_t idx) {
        State *s = ex.work[idx];
        ex.work.erase(ex.work.begin() + idx);
        size_t before = st.viols.size(); (void)before;
        ex.run(s);
        if (s->frames.empty()) { st.completed++; ex.sample(*s, "return"); }
        delete s;
    };
    // breadth first until there are enough states to share
    if (cfg.jobs > 1)
        while (!ex.work.empty() && (int)ex.work.size() < cfg.jobs * 12 && !ex.stop) step(0);
    if (cfg.jobs <= 1 || ex.work.empty() || ex.stop) {
        while (!ex.work.empty() && !ex.stop) {
            step(ex.work.size() - 1);
            if (st.completed >= cfg.maxPaths) { st.truncated = true; st.bounds["path limit"]++; break; }
        }
        if (!ex.work.empty() && ex.stop) st.bounds["states left at time limit"] += ex.work.size();
        writeOut(out, now() - t0);
        return 0;
    }
    // children: strided share of the frontier; parent writes its own part as shard "0"
    vector<State *> all = ex.work;
    vector<pid_t> kids;
    for (int j = 1; j <= cfg.jobs; j++) {
        pid_t p = fork();
        if (p == 0) {
            ex.work.clear();
            for (size_t i = j - 1; i < all.size(); i += cfg.jobs) ex.work.push_back(all[i]);
            Stats keep;
            keep.unmodelled.clear();
            st = keep;
            for (Fn *f : allFns) { f->execs = 0; for (auto &o : f->ops) o.executed = false; }
            S->queries = S->sat = S->unsat = S->unknown = S->unsatAssert = S->solved = 0; S->time = 0;
            while (!ex.work.empty() && !ex.stop) {
                step(ex.work.size() - 1);
                if (st.completed >= cfg.maxPaths / cfg.jobs) { st.truncated = true; st.bounds["path limit"]++; break; }
            }
            writeOut(out + "." + std::to_string(j), now() - t0);
            _exit(0);
        }
        kids.push_back(p);
    }
    bool bad = false;
    for (pid_t p : kids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = true; }
    writeOut(out, now() - t0);
    if (bad) { fprintf(stderr, "qsym: a worker process died\n"); return 3; }
    return 0;
}
