// C08: Generator
#include "common.h"
#include <qcorogenerator.h>
#include <iterator>
#include <optional>
using QCoro::Generator;

static const int N = BOUND(4, 6);
struct World {
    int32_t v[8] = {};
    int n = 0, throwAt = -1; // yields n values, throws before yielding number throwAt (n: at the end)
    int produced = 0, bodies = 0, done = 0, alive = 0;
};
struct Alive { World &w; Tracked t; Alive(World &x) : w(x), t(1) { w.alive++; } ~Alive() { w.alive--; } };
static Generator<Tracked> genTracked(World &w, Tracked arg) {
    Alive a(w);
    w.bodies++;
    for (int i = 0; i < w.n; i++) {
        arg.use();
        if (w.throwAt == i) throw BaseError(w.v[i]);
        w.produced++;
        if (i & 1) { Tracked x(w.v[i]); co_yield x; vf::check(x.get() == w.v[i], "a yielded lvalue belongs to the body"); }
        else co_yield Tracked(w.v[i]);
        a.t.use();
    }
    if (w.throwAt == w.n) throw BaseError(77);
    w.done++;
}
static Generator<int32_t> genInt(World &w) {
    Alive a(w);
    w.bodies++;
    for (int i = 0; i < w.n; i++) {
        if (w.throwAt == i) throw BaseError(w.v[i]);
        w.produced++;
        co_yield int32_t(w.v[i]);
    }
    if (w.throwAt == w.n) throw BaseError(77);
    w.done++;
}
static void setup(World &w) {
    w.n = vf::choice("length", N + 1);
    for (int i = 0; i < w.n; i++) { static const char *names[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"}; w.v[i] = vf::i32(names[i]); }
    if (vf::flag("throws")) w.throwAt = vf::choice("throw_at", w.n + 1);
}
template<typename T> int32_t num(const T &t) { if constexpr (std::is_integral_v<T>) return t; else return t.get(); }
// walks the generator, stopping after `take` values (or at the end)
template<typename G>
static void walk(World &w, G &g, int take) {
    vf::check(w.bodies == 0 && w.produced == 0, "nothing is computed before it is asked for");
    int got = 0;
    bool thrown = false;
    if (take == 0) return;
    std::optional<decltype(g.begin())> keep;
    try {
        keep.emplace(g.begin());
        auto &it = *keep;
        vf::check(w.bodies == 1, "the body runs once");
        while (it != g.end()) {
            vf::check(!(it == g.end()), "== and != agree");
            vf::check(got < w.n, "no value is invented");
            vf::check(num(*it) == w.v[got], "the values come in order");
            vf::check(num(*it) == w.v[got], "dereferencing is repeatable");
            got++;
            vf::check(w.produced == got, "no value is computed before it is asked for");
            if (got == take) return;
            ++it;
        }
    } catch (const BaseError &e) {
        thrown = true;
        vf::check(w.throwAt == got, "the exception appears where the body threw it");
        vf::check(e.v == (w.throwAt == w.n ? 77 : w.v[got]), "the exception arrives with its content");
        vf::reach("threw");
    }
    if (keep) { vf::check(*keep == g.end(), "the iterator is past the end when the body is over"); ++*keep; vf::check(*keep == g.end(), "incrementing it there changes nothing"); }
    vf::check(thrown == (w.throwAt >= 0), "an exception of the body is rethrown");
    if (!thrown) { vf::check(got == w.n, "every value is produced"); vf::check(w.done == 1, "iteration ends when the body returns"); vf::reach("complete"); }
}
template<typename G, typename Make>
static void scenario(World &w, World &other, Make make) {
    int take = vf::choice("take", w.n + 2); // n+1: to the end
    switch (vf::choice("shape", 6)) {
    case 0: { auto g = make(w); walk(w, g, take); break; }
    case 1: { auto g = make(w); G h(std::move(g)); walk(w, h, take); vf::check(w.alive == (take && take <= w.n && (w.throwAt < 0 || w.throwAt >= take) ? 1 : w.alive), "locals live while suspended"); break; }
    case 2: { G g; g = make(w); walk(w, g, take); break; } // assign to an empty generator
    case 3: { // overwrite a generator that ran up to some point
        auto g = make(w);
        walk(w, g, take);
        g = make(other);
        vf::check(w.alive == 0, "the body of an overwritten generator is destroyed");
        walk(other, g, other.n + 1);
        break; }
    case 4: { auto g = make(w); auto &r = g; g = std::move(r); walk(w, g, take); break; } // self assignment
    case 5: { // move in the middle
        auto g = make(w);
        if (w.n < 2 || w.throwAt >= 0) vf::skip();
        auto it = g.begin();
        vf::check(num(*it) == w.v[0], "the values come in order");
        G h = std::move(g);
        ++it;
        vf::check(it != h.end() && num(*it) == w.v[1], "a moved generator goes on");
        break; }
    }
    vf::check(w.alive == 0 && other.alive == 0, "the locals of the body are destroyed with the generator");
    vf::log("produced", w.produced);
}
HARNESS(h_c08_values) {
    Scope scope;
    { World w, o; setup(w); o.n = 1; o.v[0] = 5; scenario<Generator<int32_t>>(w, o, [](World &x) { return genInt(x); }); }
    scope.finish();
}
HARNESS(h_c08_objects) {
    Scope scope;
    { World w, o; setup(w); o.n = 2; o.v[0] = 5; o.v[1] = 6; scenario<Generator<Tracked>>(w, o, [](World &x) { return genTracked(x, Tracked(9)); }); }
    scope.finish();
}
// generators of references and of constants, range-for, an infinite body
static Generator<Tracked &> genRef(Tracked *a, int n) { for (int i = 0; i < n; i++) co_yield a[i]; }
static Generator<const int32_t> genConst(const int32_t *a, int n) { for (int i = 0; i < n; i++) co_yield a[i]; }
static Generator<int32_t> endless(int32_t start) { int32_t x = start; while (true) { co_yield x; x = int32_t(uint32_t(x) + 3u); } }
HARNESS(h_c08_kinds) {
    Scope scope;
    {
        int32_t v = vf::i32("value"), w = vf::i32("second");
        int n = vf::choice("length", 3);
        switch (vf::choice("kind", 3)) {
        case 0: { Tracked a[2] = {Tracked(v), Tracked(w)}; int i = 0; auto g = genRef(a, n); for (auto it = g.begin(); it != g.end(); ++it) { vf::check(&*it == &a[i], "a generator of references refers to the originals"); (*it).v = 4; i++; } vf::check(i == n, "every value is produced"); if (n) vf::check(a[0].v == 4, "references are writable"); break; }
        case 1: { int32_t a[2] = {v, w}; int i = 0; auto g = genConst(a, n); for (auto &x : g) { vf::check(x == a[i], "the values come in order"); i++; } vf::check(i == n, "every value is produced"); break; }
        case 2: { int i = 0; auto g = endless(v); for (auto &x : g) { vf::check(x == int32_t(uint32_t(v) + 3u * uint32_t(i)), "the values come in order"); if (++i == 3) break; } break; }
        }
        vf::reach("done");
    }
    scope.finish();
}
// long sequences
static Generator<Tracked> many(int32_t *v, int n) { for (int i = 0; i < n; i++) co_yield Tracked(v[i]); }
static Generator<int32_t> nested(int32_t *v, int n, int depth) {
    if (depth == 0) { for (int i = 0; i < n; i++) co_yield int32_t(v[i]); co_return; }
    for (auto &x : nested(v, n, depth - 1)) co_yield int32_t(x);
}
HARNESS(h_c08_long) {
    static const int N = BOUND(1100, 5000);
    Scope scope;
    {
        int32_t v[N]; for (int i = 0; i < N; i++) v[i] = vf::i32("value");
        int i = 0;
        if (vf::flag("nested")) { for (auto &x : nested(v, N / 10, 8)) { vf::check(x == v[i], "the values come in order"); i++; } vf::check(i == N / 10, "every value is produced"); }
        else { for (auto &x : many(v, N)) { vf::check(x.get() == v[i], "the values come in order"); i++; } vf::check(i == N, "every value is produced"); }
        vf::reach("done");
    }
    scope.finish();
}
