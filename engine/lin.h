// Linear integer translation of bit-vector queries, used where multiplication,
// division or remainder by constants make bit-blasting slow.  Every node stands for
// its signed value; wrap-around is kept (as a mod) unless the interval of the value
// shows that it cannot happen, so the translation is exact.
#pragma once
#include "expr.h"
#include <map>

struct LinX {
    typedef __int128 I;
    struct T { Z3_ast a; I lo, hi; };
    Z3_context ctx;
    bool fail = false;
    std::map<Node *, T> memo;
    std::map<Node *, Z3_ast> bmemo;
    std::map<Node *, std::pair<I, I>> bounds; // of variables
    std::vector<Z3_ast> side;
    Z3_sort is;
    explicit LinX(Z3_context c) : ctx(c), is(Z3_mk_int_sort(c)) {}
    static I p2(unsigned k) { return I(1) << k; }
    static bool hard(Node *n, std::map<Node *, bool> &seen) {
        if (n->op == N_CONST || n->op == N_VAR) return false;
        auto it = seen.find(n);
        if (it != seen.end()) return it->second;
        bool r = (n->op >= N_MUL && n->op <= N_SREM && n->width >= 16);
        if (!r) for (Node *c : {n->a, n->b, n->c}) if (c && hard(c, seen)) { r = true; break; }
        return seen[n] = r;
    }
    // sums of several wide variables are compared faster as integers, too
    static unsigned sums(Node *n, std::map<Node *, bool> &seen) {
        if (n->op == N_CONST || n->op == N_VAR || !seen.emplace(n, true).second) return 0;
        unsigned r = (n->op == N_ADD || n->op == N_SUB) && n->width >= 32 && n->a->op != N_CONST && n->b->op != N_CONST;
        for (Node *c : {n->a, n->b, n->c}) if (c) r += sums(c, seen);
        return r;
    }
    Z3_ast num(I v) {
        char b[48]; int p = 47; b[p] = 0;
        bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
        do { b[--p] = '0' + int(u % 10); u /= 10; } while (u);
        if (neg) b[--p] = '-';
        return Z3_mk_numeral(ctx, b + p, is);
    }
    Z3_ast add(Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_add(ctx, 2, v); }
    Z3_ast mul(Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_mul(ctx, 2, v); }
    // floor division by a positive constant, with its remainder, by definition
    Z3_ast fdiv(const T &x, I c, Z3_ast *rem = nullptr) {
        Z3_ast q = Z3_mk_fresh_const(ctx, "q", is), r = Z3_mk_fresh_const(ctx, "r", is);
        side.push_back(Z3_mk_eq(ctx, x.a, add(mul(num(c), q), r)));
        side.push_back(Z3_mk_le(ctx, num(0), r));
        side.push_back(Z3_mk_lt(ctx, r, num(c)));
        if (rem) *rem = r;
        return q;
    }
    static I floorDiv(I a, I b) { I q = a / b; return (a % b && (a < 0)) ? q - 1 : q; }
    T wrap(T x, unsigned w) {
        I lo = w == 1 ? 0 : -p2(w - 1), hi = w == 1 ? 1 : p2(w - 1) - 1;
        if (x.lo >= lo && x.hi <= hi) return x;
        Z3_ast r;
        T y{add(x.a, num(-lo)), x.lo - lo, x.hi - lo};
        fdiv(y, p2(w), &r);
        return T{add(r, num(lo)), lo, hi};
    }
    T uns(Node *n) { // the unsigned value
        T x = t(n);
        if (x.lo >= 0) return x;
        if (n->width > 100) { fail = true; return x; }
        if (x.hi < 0) return T{add(x.a, num(p2(n->width))), x.lo + p2(n->width), x.hi + p2(n->width)};
        return T{Z3_mk_ite(ctx, Z3_mk_lt(ctx, x.a, num(0)), add(x.a, num(p2(n->width))), x.a), 0, p2(n->width) - 1};
    }
    Z3_ast b(Node *n) {
        auto it = bmemo.find(n);
        if (it != bmemo.end()) return it->second;
        Z3_ast r = nullptr;
        switch (n->op) {
        case N_CONST: r = n->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case N_EQ: r = n->a->width == 1 ? Z3_mk_iff(ctx, b(n->a), b(n->b)) : Z3_mk_eq(ctx, t(n->a).a, t(n->b).a); break;
        case N_SLT: r = Z3_mk_lt(ctx, t(n->a).a, t(n->b).a); break;
        case N_SLE: r = Z3_mk_le(ctx, t(n->a).a, t(n->b).a); break;
        case N_ULT: r = Z3_mk_lt(ctx, uns(n->a).a, uns(n->b).a); break;
        case N_ULE: r = Z3_mk_le(ctx, uns(n->a).a, uns(n->b).a); break;
        case N_AND: { Z3_ast x[2] = {b(n->a), b(n->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case N_OR: { Z3_ast x[2] = {b(n->a), b(n->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case N_XOR: r = ExprPool::isC(n->b) && n->b->k ? Z3_mk_not(ctx, b(n->a)) : Z3_mk_xor(ctx, b(n->a), b(n->b)); break;
        case N_ITE: r = Z3_mk_ite(ctx, b(n->a), b(n->b), b(n->c)); break;
        default: r = Z3_mk_eq(ctx, t(n).a, num(1)); // a one bit value: 0 or 1
        }
        return bmemo[n] = r;
    }
    T t(Node *n) {
        auto it = memo.find(n);
        if (it != memo.end()) return it->second;
        T r = t0(n);
        memo[n] = r;
        return r;
    }
    T t0(Node *n) {
        unsigned w = n->width;
        if (w > 64) { fail = true; return T{num(0), 0, 0}; }
        I lo = w == 1 ? 0 : -p2(w - 1), hi = w == 1 ? 1 : p2(w - 1) - 1;
        T top{num(0), lo, hi}; // (the translation is dropped if it fails)
        if (w == 1 && n->op != N_VAR && n->op != N_EXTRACT && n->op != N_CONST) { // truth values
            return T{Z3_mk_ite(ctx, b(n), num(1), num(0)), 0, 1};
        }
        switch (n->op) {
        case N_CONST: { I v = w == 1 ? I(n->k) : I(sx(n->k, w)); return T{num(v), v, v}; }
        case N_VAR: {
            char nm[40]; snprintf(nm, sizeof nm, "i%llu_%u", (unsigned long long)n->k, w);
            Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), is);
            side.push_back(Z3_mk_le(ctx, num(lo), v)); side.push_back(Z3_mk_le(ctx, v, num(hi)));
            auto it = bounds.find(n);
            if (it != bounds.end()) { if (it->second.first > lo) lo = it->second.first; if (it->second.second < hi) hi = it->second.second; if (lo > hi) hi = lo; }
            return T{v, lo, hi};
        }
        case N_ADD: { T x = t(n->a), y = t(n->b); return wrap(T{add(x.a, y.a), x.lo + y.lo, x.hi + y.hi}, w); }
        case N_SUB: { T x = t(n->a), y = t(n->b); Z3_ast v[2] = {x.a, y.a}; return wrap(T{Z3_mk_sub(ctx, 2, v), x.lo - y.hi, x.hi - y.lo}, w); }
        case N_MUL: {
            if (!ExprPool::isC(n->b)) { fail = true; return top; }
            T x = t(n->a); I c = sx(n->b->k, w);
            if (w > 63 && (x.lo < -p2(62) || x.hi > p2(62)) && (c > p2(62) || c < -p2(62))) { fail = true; return top; }
            I p = x.lo * c, q = x.hi * c;
            return wrap(T{mul(x.a, num(c)), p < q ? p : q, p < q ? q : p}, w);
        }
        case N_UDIV: case N_UREM: {
            if (!ExprPool::isC(n->b) || n->b->k == 0) { fail = true; return top; }
            T x = uns(n->a); I c = n->b->k; Z3_ast rem;
            Z3_ast q = fdiv(x, c, &rem);
            return n->op == N_UDIV ? wrap(T{q, x.lo / c, x.hi / c}, w) : wrap(T{rem, 0, x.hi < c - 1 ? x.hi : c - 1}, w);
        }
        case N_SDIV: case N_SREM: {
            if (!ExprPool::isC(n->b) || sx(n->b->k, w) <= 0) { fail = true; return top; }
            T x = t(n->a); I c = sx(n->b->k, w); Z3_ast rem, q;
            if (x.lo >= 0) q = fdiv(x, c, &rem);
            else {
                T nx{mul(x.a, num(-1)), -x.hi, -x.lo}; Z3_ast r2;
                Z3_ast ge = Z3_mk_le(ctx, num(0), x.a);
                T ab{Z3_mk_ite(ctx, ge, x.a, nx.a), 0, x.hi > nx.hi ? x.hi : nx.hi};
                Z3_ast aq = fdiv(ab, c, &r2);
                q = Z3_mk_ite(ctx, ge, aq, mul(aq, num(-1)));
                rem = Z3_mk_ite(ctx, ge, r2, mul(r2, num(-1)));
            }
            if (n->op == N_SDIV) return T{q, x.lo / c, x.hi / c};
            return T{rem, x.lo < 0 ? -(c - 1) : 0, x.hi > 0 ? c - 1 : 0};
        }
        case N_SHL: { if (!ExprPool::isC(n->b) || n->b->k > 62) { fail = true; return top; } T x = t(n->a); I c = p2(n->b->k); return wrap(T{mul(x.a, num(c)), x.lo * c, x.hi * c}, w); }
        case N_ASHR: case N_LSHR: {
            if (!ExprPool::isC(n->b) || n->b->k >= w) { fail = true; return top; }
            T x = n->op == N_ASHR ? t(n->a) : uns(n->a); I c = p2(n->b->k);
            return wrap(T{fdiv(x, c), floorDiv(x.lo, c), floorDiv(x.hi, c)}, w);
        }
        case N_AND: {
            if (!ExprPool::isC(n->b) || (n->b->k & (n->b->k + 1)) || n->b->k == maskw(w)) { fail = true; return top; }
            Z3_ast rem; fdiv(t(n->a), I(n->b->k) + 1, &rem);
            return T{rem, 0, I(n->b->k)};
        }
        case N_ITE: { T x = t(n->b), y = t(n->c); return T{Z3_mk_ite(ctx, b(n->a), x.a, y.a), x.lo < y.lo ? x.lo : y.lo, x.hi > y.hi ? x.hi : y.hi}; }
        case N_ZEXT: return uns(n->a);
        case N_SEXT: if (n->a->width == 1) { return T{Z3_mk_ite(ctx, b(n->a), num(-1), num(0)), -1, 0}; } return t(n->a);
        case N_EXTRACT: { T x = t(n->a); if (n->k) { I c = p2(n->k); x = T{fdiv(x, c), floorDiv(x.lo, c), floorDiv(x.hi, c)}; } return wrap(x, w); }
        case N_CONCAT: { T x = t(n->a), y = uns(n->b); I c = p2(n->b->width); if (n->a->width == 1) x = T{Z3_mk_ite(ctx, b(n->a), num(1), num(0)), 0, 1}; return wrap(T{add(mul(x.a, num(c)), y.a), x.lo * c + y.lo, x.hi * c + y.hi}, w); }
        default: fail = true; return top;
        }
    }
    // bounds of variables that single constraints state
    void learn(Node *n, bool neg = false) {
        if (n->op == N_XOR && n->width == 1 && ExprPool::isC(n->b) && n->b->k) { learn(n->a, !neg); return; }
        if (n->op == N_AND && n->width == 1 && !neg) { learn(n->a); learn(n->b); return; }
        if (n->op != N_SLE && n->op != N_SLT) return;
        Node *x = n->a, *y = n->b; bool strict = n->op == N_SLT;
        if (neg) { std::swap(x, y); strict = !strict; } // not (a<b)  is  b<=a
        auto get = [&](Node *v) -> std::pair<I, I> & { return bounds.emplace(v, std::make_pair(-p2(v->width - 1), p2(v->width - 1) - 1)).first->second; };
        if (x->op == N_VAR && ExprPool::isC(y)) { I k = sx(y->k, y->width) - strict; auto &bd = get(x); if (k < bd.second) bd.second = k; }
        if (y->op == N_VAR && ExprPool::isC(x)) { I k = sx(x->k, x->width) + strict; auto &bd = get(y); if (k > bd.first) bd.first = k; }
    }
};
