// Hash-consed bit-vector expressions, their simplifier, concrete evaluation and
// translation to z3.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <string>
#include <cstdlib>
#include <cstdio>
#include <z3.h>

enum NodeOp : uint8_t {
    N_CONST, N_VAR, N_ADD, N_SUB, N_MUL, N_UDIV, N_SDIV, N_UREM, N_SREM, N_AND, N_OR, N_XOR,
    N_SHL, N_LSHR, N_ASHR, N_EQ, N_ULT, N_ULE, N_SLT, N_SLE, N_ITE, N_ZEXT, N_SEXT, N_EXTRACT, N_CONCAT
};

struct Node {
    NodeOp op;
    uint8_t width;
    uint32_t id;
    Node *a, *b, *c;
    uint64_t k; // const value / var index / extract low bit
    Z3_ast zbv = nullptr, zbool = nullptr;
    uint64_t evalGen = 0, evalVal = 0;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

struct Val {
    uint64_t c = 0;
    Node *e = nullptr;
    bool sym() const { return e != nullptr; }
};
static inline Val C(uint64_t v) { return Val{v, nullptr}; }

struct ExprPool {
    struct Key { NodeOp op; uint8_t w; Node *a, *b, *c; uint64_t k;
        bool operator==(const Key &o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k; } };
    struct H { size_t operator()(const Key &k) const {
        uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
        auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); mix(k.k); return h; } };
    std::unordered_map<Key, Node *, H> tab;
    uint32_t nextId = 0;
    uint64_t gen = 1;

    Node *raw(NodeOp op, unsigned w, Node *a = nullptr, Node *b = nullptr, Node *c = nullptr, uint64_t k = 0) {
        Key key{op, (uint8_t)w, a, b, c, k};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        Node *n = new Node{op, (uint8_t)w, nextId++, a, b, c, k};
        tab.emplace(key, n);
        return n;
    }
    Node *cst(unsigned w, uint64_t v) { return raw(N_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
    Node *var(unsigned w, uint64_t idx) { return raw(N_VAR, w, nullptr, nullptr, nullptr, idx); }
    Node *node(const Val &v, unsigned w) { return v.e ? v.e : cst(w, v.c); }
    static bool isC(Node *n) { return n->op == N_CONST; }
    Val val(Node *n) { return isC(n) ? Val{n->k, nullptr} : Val{0, n}; }

    static uint64_t foldBin(NodeOp op, uint64_t x, uint64_t y, unsigned w) {
        uint64_t m = maskw(w);
        switch (op) {
        case N_ADD: return (x + y) & m;
        case N_SUB: return (x - y) & m;
        case N_MUL: return (x * y) & m;
        case N_UDIV: return y ? (x / y) & m : m;
        case N_SDIV: if (!y) return sx(x, w) < 0 ? 1 : m; if (sx(y, w) == -1) return (0 - x) & m; return (uint64_t)(sx(x, w) / sx(y, w)) & m;
        case N_UREM: return y ? (x % y) & m : x;
        case N_SREM: if (!y) return x; if (sx(y, w) == -1) return 0; return (uint64_t)(sx(x, w) % sx(y, w)) & m;
        case N_AND: return x & y;
        case N_OR: return x | y;
        case N_XOR: return x ^ y;
        case N_SHL: return y >= w ? 0 : (x << y) & m;
        case N_LSHR: return y >= w ? 0 : x >> y;
        case N_ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
        case N_EQ: return x == y;
        case N_ULT: return x < y;
        case N_ULE: return x <= y;
        case N_SLT: return sx(x, w) < sx(y, w);
        case N_SLE: return sx(x, w) <= sx(y, w);
        default: abort();
        }
    }
    // width of operands is w; result width is w, or 1 for comparisons
    Node *bin(NodeOp op, Node *a, Node *b) {
        unsigned w = a->width;
        bool cmp = op >= N_EQ && op <= N_SLE;
        if (isC(a) && isC(b)) return cst(cmp ? 1 : w, foldBin(op, a->k, b->k, w));
        bool comm = op == N_ADD || op == N_MUL || op == N_AND || op == N_OR || op == N_XOR || op == N_EQ;
        if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
        if (a == b) {
            switch (op) {
            case N_SUB: case N_XOR: return cst(w, 0);
            case N_AND: case N_OR: return a;
            case N_EQ: case N_ULE: case N_SLE: return cst(1, 1);
            case N_ULT: case N_SLT: return cst(1, 0);
            default: break;
            }
        }
        if (w >= 16 && (op == N_ADD || op == N_SUB) && !isC(a) && !isC(b)) { // sums: constants outwards, what cancels is dropped
            auto plusK = [](Node *n) { return n->op == N_ADD && isC(n->b); };
            if (plusK(a)) return bin(N_ADD, bin(op, a->a, b), a->b);
            if (plusK(b)) return bin(N_ADD, bin(op, a, b->a), cst(w, op == N_ADD ? b->b->k : 0 - b->b->k));
            Node *term[16]; int coef[16]; unsigned n = 0; bool fits = true;
            auto collect = [&](auto &self, Node *x, int sign) -> void {
                if (!fits) return;
                if ((x->op == N_ADD || x->op == N_SUB) && !isC(x->b) && !isC(x->a)) { self(self, x->a, sign); self(self, x->b, x->op == N_ADD ? sign : -sign); return; }
                for (unsigned i = 0; i < n; i++) if (term[i] == x) { coef[i] += sign; return; }
                if (n == 16) { fits = false; return; }
                term[n] = x; coef[n++] = sign;
            };
            collect(collect, a, 1); collect(collect, b, op == N_ADD ? 1 : -1);
            for (unsigned i = 0; i < n; i++) if (coef[i] < -1 || coef[i] > 1) fits = false;
            if (fits) {
                for (unsigned i = 1; i < n; i++) for (unsigned j = i; j && term[j - 1]->id > term[j]->id; j--) { std::swap(term[j], term[j - 1]); std::swap(coef[j], coef[j - 1]); }
                Node *sum = nullptr;
                for (unsigned i = 0; i < n; i++) if (coef[i] > 0) sum = sum ? raw(N_ADD, w, sum, term[i]) : term[i];
                if (!sum) sum = cst(w, 0);
                for (unsigned i = 0; i < n; i++) if (coef[i] < 0) sum = raw(N_SUB, w, sum, term[i]);
                return sum;
            }
        }
        if (isC(b)) {
            uint64_t k = b->k, m = maskw(w);
            switch (op) {
            case N_ADD: case N_SUB: case N_OR: case N_XOR: case N_SHL: case N_LSHR: case N_ASHR:
                if (k == 0) return a;
                if (op == N_OR && k == m) return b;
                if (op == N_SUB) return bin(N_ADD, a, cst(w, 0 - k));
                if (op == N_ADD && a->op == N_ADD && isC(a->b)) return bin(N_ADD, a->a, cst(w, a->b->k + k));
                if (op == N_XOR && a->op == N_XOR && isC(a->b)) return bin(N_XOR, a->a, cst(w, a->b->k ^ k));
                if (op == N_LSHR && k >= w) return cst(w, 0);
                if (op == N_SHL && k >= w) return cst(w, 0);
                break;
            case N_MUL: if (k == 0) return b; if (k == 1) return a; break;
            case N_UDIV: case N_SDIV: if (k == 1) return a; break;
            case N_AND: if (k == 0) return b; if (k == m) return a;
                if (a->op == N_ZEXT && (k & maskw(a->a->width)) == maskw(a->a->width)) return a;
                break;
            case N_EQ:
                if (w == 1) return k ? a : bin(N_XOR, a, cst(1, 1));
                if (a->op == N_ZEXT) { if (k > maskw(a->a->width)) return cst(1, 0); return bin(N_EQ, a->a, cst(a->a->width, k)); }
                if (a->op == N_SEXT) { uint64_t kk = k & maskw(a->a->width); if (((uint64_t)sx(kk, a->a->width) & m) != k) return cst(1, 0); return bin(N_EQ, a->a, cst(a->a->width, kk)); }
                if (a->op == N_ADD && isC(a->b)) return bin(N_EQ, a->a, cst(w, k - a->b->k));
                if (a->op == N_ITE && isC(a->b) && isC(a->c)) {
                    bool t = a->b->k == k, f = a->c->k == k;
                    if (t && f) return cst(1, 1); if (!t && !f) return cst(1, 0);
                    return t ? a->a : bin(N_XOR, a->a, cst(1, 1));
                }
                break;
            case N_ULT: if (k == 0) return cst(1, 0);
                if (a->op == N_ZEXT && k > maskw(a->a->width)) return cst(1, 1);
                if (a->op == N_ZEXT) return bin(N_ULT, a->a, cst(a->a->width, k));
                break;
            case N_ULE: if (k == m) return cst(1, 1);
                if (a->op == N_ZEXT) { if (k >= maskw(a->a->width)) return cst(1, 1); return bin(N_ULE, a->a, cst(a->a->width, k)); }
                break;
            case N_SLT: if (a->op == N_ZEXT && sx(k, w) <= 0) return cst(1, 0); break;
            default: break;
            }
        }
        if (isC(a)) {
            if ((op == N_SHL || op == N_LSHR || op == N_ASHR || op == N_UDIV || op == N_SDIV) && a->k == 0 && op < N_UDIV) return a;
            if (op == N_ULE && a->k == 0) return cst(1, 1);
            if (op == N_SLT && b->op == N_ZEXT && sx(a->k, w) < 0) return cst(1, 1);
            if (op == N_SLE && b->op == N_ZEXT && sx(a->k, w) <= 0) return cst(1, 1);
        }
        return raw(op, cmp ? 1 : w, a, b);
    }
    Node *notb(Node *a) { return bin(N_XOR, a, cst(1, 1)); }
    Node *ite(Node *c, Node *t, Node *f) {
        if (isC(c)) return c->k ? t : f;
        if (t == f) return t;
        if (t->width == 1) {
            if (isC(t) && isC(f)) return t->k ? c : notb(c);
        }
        return raw(N_ITE, t->width, c, t, f);
    }
    Node *zext(Node *a, unsigned w) {
        if (w == a->width) return a;
        if (isC(a)) return cst(w, a->k);
        if (a->op == N_ZEXT) a = a->a;
        return raw(N_ZEXT, w, a);
    }
    Node *sext(Node *a, unsigned w) {
        if (w == a->width) return a;
        if (isC(a)) return cst(w, (uint64_t)sx(a->k, a->width));
        if (a->op == N_ZEXT) return zext(a->a, w);
        if (a->op == N_SEXT) a = a->a;
        return raw(N_SEXT, w, a);
    }
    Node *extract(Node *a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->width) return a;
        if (isC(a)) return cst(w, a->k >> lo);
        if (a->op == N_EXTRACT) return extract(a->a, a->k + lo, w);
        if (a->op == N_ZEXT) {
            unsigned iw = a->a->width;
            if (lo >= iw) return cst(w, 0);
            if (lo + w <= iw) return extract(a->a, lo, w);
            if (lo == 0) return zext(a->a, w);
        }
        if (a->op == N_SEXT) {
            unsigned iw = a->a->width;
            if (lo + w <= iw) return extract(a->a, lo, w);
            if (lo == 0) return sext(a->a, w);
        }
        if (a->op == N_CONCAT) { // a = hi, b = lo
            unsigned lw = a->b->width;
            if (lo + w <= lw) return extract(a->b, lo, w);
            if (lo >= lw) return extract(a->a, lo - lw, w);
        }
        if (a->op == N_ITE && isC(a->b) && isC(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
        return raw(N_EXTRACT, w, a, nullptr, nullptr, lo);
    }
    Node *concat(Node *hi, Node *lo) {
        unsigned w = hi->width + lo->width;
        if (isC(hi) && isC(lo)) return cst(w, (hi->k << lo->width) | lo->k);
        if (isC(hi) && hi->k == 0) return zext(lo, w);
        if (hi->op == N_EXTRACT && lo->op == N_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->width)
            return extract(hi->a, lo->k, w);
        if (hi->op == N_EXTRACT && hi->k >= lo->width && extract(hi->a, hi->k - lo->width, lo->width) == lo) // bytes of one value, put together
            return extract(hi->a, hi->k - lo->width, w);
        // extract(x,8..)/x pattern where lo is a full node is covered by zext folding above
        if (hi->op == N_EXTRACT && lo == hi->a) return raw(N_CONCAT, w, hi, lo);
        return raw(N_CONCAT, w, hi, lo);
    }

    // ---- evaluation under an assignment (vars by index; missing = 0)
    uint64_t eval(Node *n, const std::vector<uint64_t> &m) { ++gen; return ev(n, m); }
    uint64_t ev(Node *n, const std::vector<uint64_t> &m) {
        if (n->op == N_CONST) return n->k;
        if (n->op == N_VAR) return n->k < m.size() ? m[n->k] & maskw(n->width) : 0;
        if (n->evalGen == gen) return n->evalVal;
        uint64_t r;
        switch (n->op) {
        case N_ITE: r = ev(n->a, m) ? ev(n->b, m) : ev(n->c, m); break;
        case N_ZEXT: r = ev(n->a, m); break;
        case N_SEXT: r = (uint64_t)sx(ev(n->a, m), n->a->width) & maskw(n->width); break;
        case N_EXTRACT: r = (ev(n->a, m) >> n->k) & maskw(n->width); break;
        case N_CONCAT: r = (ev(n->a, m) << n->b->width) | ev(n->b, m); break;
        default: r = foldBin(n->op, ev(n->a, m), ev(n->b, m), n->a->width);
        }
        n->evalGen = gen; n->evalVal = r;
        return r;
    }
};

struct Solver {
    Z3_context ctx;
    Z3_solver s, ls = nullptr;
    bool linear = getenv("QSYM_NOLIN") == nullptr;
    uint64_t linsolved = 0;
    ExprPool &P;
    std::vector<Z3_func_decl> varDecl; std::vector<unsigned> varWidth;
    std::vector<std::string> varName;
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, unsatAssert = 0, solved = 0;
    double time = 0;
    unsigned timeoutMs = 20000;

    Solver(ExprPool &p) : P(p) {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, s);
        Z3_params ps = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, ps);
        Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
        Z3_solver_set_params(ctx, s, ps);
    }
    unsigned declare(const std::string &name, unsigned w, unsigned idx) {
        while (varDecl.size() <= idx) { varDecl.push_back(nullptr); varWidth.push_back(0); varName.push_back(""); }
        (void)name;
        return idx;
    }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
    Z3_ast keep(Z3_ast a) { return a; } // contexts made by Z3_mk_context keep asts alive
    Z3_ast tb(Node *n) { // as Bool; width 1
        if (n->zbool) return n->zbool;
        Z3_ast r;
        switch (n->op) {
        case N_CONST: r = n->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case N_EQ: r = Z3_mk_eq(ctx, t(n->a), t(n->b)); break;
        case N_ULT: r = Z3_mk_bvult(ctx, t(n->a), t(n->b)); break;
        case N_ULE: r = Z3_mk_bvule(ctx, t(n->a), t(n->b)); break;
        case N_SLT: r = Z3_mk_bvslt(ctx, t(n->a), t(n->b)); break;
        case N_SLE: r = Z3_mk_bvsle(ctx, t(n->a), t(n->b)); break;
        case N_AND: { Z3_ast x[2] = {tb(n->a), tb(n->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case N_OR: { Z3_ast x[2] = {tb(n->a), tb(n->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case N_XOR: if (ExprPool::isC(n->b) && n->b->k) r = Z3_mk_not(ctx, tb(n->a)); else r = Z3_mk_xor(ctx, tb(n->a), tb(n->b)); break;
        case N_ITE: r = Z3_mk_ite(ctx, tb(n->a), tb(n->b), tb(n->c)); break;
        default: r = Z3_mk_eq(ctx, t(n), Z3_mk_unsigned_int64(ctx, 1, bv(1)));
        }
        return n->zbool = keep(r);
    }
    Z3_ast t(Node *n) {
        if (n->zbv) return n->zbv;
        Z3_ast r;
        switch (n->op) {
        case N_CONST: r = Z3_mk_unsigned_int64(ctx, n->k, bv(n->width)); break;
        case N_VAR: { char b[32]; snprintf(b, sizeof b, "v%llu_%u", (unsigned long long)n->k, n->width); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), bv(n->width)); break; }
        case N_ADD: r = Z3_mk_bvadd(ctx, t(n->a), t(n->b)); break;
        case N_SUB: r = Z3_mk_bvsub(ctx, t(n->a), t(n->b)); break;
        case N_MUL: r = Z3_mk_bvmul(ctx, t(n->a), t(n->b)); break;
        case N_UDIV: r = Z3_mk_bvudiv(ctx, t(n->a), t(n->b)); break;
        case N_SDIV: r = Z3_mk_bvsdiv(ctx, t(n->a), t(n->b)); break;
        case N_UREM: r = Z3_mk_bvurem(ctx, t(n->a), t(n->b)); break;
        case N_SREM: r = Z3_mk_bvsrem(ctx, t(n->a), t(n->b)); break;
        case N_SHL: r = Z3_mk_bvshl(ctx, t(n->a), t(n->b)); break;
        case N_LSHR: r = Z3_mk_bvlshr(ctx, t(n->a), t(n->b)); break;
        case N_ASHR: r = Z3_mk_bvashr(ctx, t(n->a), t(n->b)); break;
        case N_ITE: r = Z3_mk_ite(ctx, tb(n->a), t(n->b), t(n->c)); break;
        case N_ZEXT: r = Z3_mk_zero_ext(ctx, n->width - n->a->width, t(n->a)); break;
        case N_SEXT: r = Z3_mk_sign_ext(ctx, n->width - n->a->width, t(n->a)); break;
        case N_EXTRACT: r = Z3_mk_extract(ctx, n->k + n->width - 1, n->k, t(n->a)); break;
        case N_CONCAT: r = Z3_mk_concat(ctx, t(n->a), t(n->b)); break;
        case N_AND: case N_OR: case N_XOR:
            if (n->width != 1) {
                r = n->op == N_AND ? Z3_mk_bvand(ctx, t(n->a), t(n->b)) : n->op == N_OR ? Z3_mk_bvor(ctx, t(n->a), t(n->b)) : Z3_mk_bvxor(ctx, t(n->a), t(n->b));
                break;
            }
            [[fallthrough]];
        default: r = Z3_mk_ite(ctx, tb(n), Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
        }
        return n->zbv = keep(r);
    }
    // 1 sat, 0 unsat, -1 unknown.  On sat fills model for variables listed.
    int check(const std::vector<Node *> &pc, Node *extra, const std::vector<Node *> &vars, std::vector<uint64_t> *model);
};
