// C09: AsyncGenerator
#include "common.h"
#include <qcoroasyncgenerator.h>
#include <qcorotask.h>
#include <optional>
using QCoro::AsyncGenerator;
using QCoro::Task;

static const int N = BOUND(3, 4);
struct World {
    int32_t v[8] = {};
    int n = 0, throwAt = -1;
    bool before[8] = {}, between[8] = {}; // producer suspends before value i, consumer suspends after value i
    Gate prod, cons;
    int produced = 0, bodies = 0, done = 0, alive = 0, got = 0, ended = 0;
    int thrown = 0;
    int asked = 0;
};
struct Alive { World &w; Tracked t; Alive(World &x) : w(x), t(1) { w.alive++; } ~Alive() { w.alive--; } };
template<typename T>
static AsyncGenerator<T> gen(World &w, Tracked arg) {
    Alive a(w);
    w.bodies++;
    for (int i = 0; i <= w.n; i++) {
        arg.use();
        if (w.before[i]) co_await w.prod;
        if (w.throwAt == i) throw BaseError(i < w.n ? w.v[i] : 77);
        if (i == w.n) break;
        w.produced++;
        vf::check(w.produced <= w.asked, "the producer does not run ahead of the consumer");
        if constexpr (std::is_reference_v<T>) { Tracked x(w.v[i]); co_yield x; }
        else if constexpr (std::is_integral_v<T>) co_yield T(w.v[i]);
        else if (i & 1) { const int32_t c = w.v[i]; T x(c); co_yield x; vf::check(x.get() == c, "a yielded lvalue belongs to the body"); }
        else co_yield T(w.v[i]);
        a.t.use();
    }
    w.done++;
}
template<typename T> int32_t num(const T &t) { if constexpr (std::is_integral_v<T>) return t; else return t.get(); }
static void gotValue(World &w, int32_t x) {
    vf::check(w.got < w.n, "no value is invented");
    vf::check(x == w.v[w.got], "the values come in order");
    w.got++;
    vf::check(w.produced == w.got, "each value is delivered once, none is skipped");
}
static void threw(World &w, const BaseError &e) {
    w.thrown++;
    vf::check(w.throwAt == w.got, "the exception appears where the body threw it");
    vf::check(e.v == (w.throwAt == w.n ? 77 : w.v[w.got]), "the exception arrives with its content");
}
template<typename T>
static Task<> consume(World &w, AsyncGenerator<T> &g, int take) {
    Tracked local(2);
    std::optional<QCoro::AsyncGeneratorIterator<T>> keep;
    try {
        if (take == 0) co_return;
        w.asked = 1;
        keep.emplace(co_await g.begin());
        auto &it = *keep;
        while (it != g.end()) {
            gotValue(w, num(*it));
            if (w.between[w.got - 1]) { co_await w.cons; vf::check(num(*it) == w.v[w.got - 1], "the value stays while the consumer is suspended"); }
            if (w.got == take) co_return;
            w.asked++;
            auto &r = co_await ++it;
            vf::check(&r == &it, "the increment yields the iterator");
        }
        vf::check(it == g.end(), "== and != agree");
        w.ended++;
    } catch (const BaseError &e) { threw(w, e); if (keep) vf::check(*keep == g.end(), "the iterator is past the end after the exception"); }
    local.use();
}
template<typename T>
static Task<> consumeForeach(World &w, AsyncGenerator<T> &g, int take) {
    Tracked local(2);
    try {
        w.asked = 99;
        QCORO_FOREACH(const auto &x, g) {
            gotValue(w, num(x));
            if (w.between[w.got - 1]) { co_await w.cons; }
            if (w.got == take) co_return;
        }
        w.ended++;
    } catch (const BaseError &e) { threw(w, e); }
    local.use();
}
// the generator lives in the consumer
template<typename T>
static Task<> consumeOwned(World &w, AsyncGenerator<T> g, int take) { co_await consume<T>(w, g, take); }
// every step of the iteration is awaited by a coroutine of its own
template<typename T> using It = QCoro::AsyncGeneratorIterator<T>;
template<typename T> static Task<> stepBegin(World &w, AsyncGenerator<T> &g, std::optional<It<T>> &it) { Tracked l(1); it.emplace(co_await g.begin()); l.use(); }
template<typename T> static Task<> stepNext(World &w, std::optional<It<T>> &it) { Tracked l(1); co_await ++*it; l.use(); }
template<typename T>
static Task<> consumeSteps(World &w, AsyncGenerator<T> &g, int take) {
    std::optional<It<T>> it;
    try {
        if (take == 0) co_return;
        w.asked = 1;
        co_await stepBegin<T>(w, g, it);
        while (*it != g.end()) {
            gotValue(w, num(**it));
            if (w.between[w.got - 1]) co_await w.cons;
            if (w.got == take) co_return;
            w.asked++;
            if (w.got & 1) co_await stepNext<T>(w, it); else co_await ++*it;
        }
        w.ended++;
    } catch (const BaseError &e) { threw(w, e); }
}
static void setup(World &w, bool canThrow = true) {
    static const char *names[] = {"v0", "v1", "v2", "v3", "v4", "v5"};
    static const char *pn[] = {"prod_suspends_0", "prod_suspends_1", "prod_suspends_2", "prod_suspends_3", "prod_suspends_4", "prod_suspends_5"};
    static const char *cn[] = {"cons_suspends_0", "cons_suspends_1", "cons_suspends_2", "cons_suspends_3", "cons_suspends_4", "cons_suspends_5"};
    w.n = vf::choice("length", N + 1);
    for (int i = 0; i < w.n; i++) w.v[i] = vf::i32(names[i]);
    for (int i = 0; i <= w.n; i++) w.before[i] = vf::flag(pn[i]);
    for (int i = 0; i < w.n; i++) w.between[i] = vf::flag(cn[i]);
    if (canThrow && vf::flag("throws")) w.throwAt = vf::choice("throw_at", w.n + 1);
}
static void pump(World &w) {
    for (int i = 0; i < 2 * N + 4; i++) {
        if (w.prod.pending()) w.prod.pulse();
        if (w.cons.pending()) w.cons.pulse();
    }
}
static void verdict(World &w, int take) {
    bool complete = take > w.n || (w.throwAt >= 0 && take > w.throwAt);
    int expect = w.throwAt >= 0 && w.throwAt < take ? w.throwAt : (take < w.n ? take : w.n);
    vf::check(w.got == expect, "every value asked for is delivered");
    if (take > 0) vf::check(w.bodies == 1, "the body runs once");
    if (complete) { vf::check(w.ended == (w.throwAt < 0 ? 1 : 0), "iteration ends when the body returns"); vf::check(w.thrown == (w.throwAt >= 0 ? 1 : 0), "an exception of the body is rethrown"); vf::reach(w.thrown ? "threw" : "complete"); }
    else { vf::check(w.ended == 0 && w.thrown == 0, "nothing happens beyond what was asked for"); vf::reach("abandoned"); }
    vf::log("got", w.got);
}
template<typename T>
static void scenario(World &w, int shapes) {
    int take = vf::choice("take", w.n + 2);
    switch (vf::choice("shape", shapes)) {
    case 0: { auto g = gen<T>(w, Tracked(3)); vf::check(w.bodies == 0, "the body does not run before begin()"); auto c = consume<T>(w, g, take); pump(w); vf::check(c.isReady(), "the consumer finishes"); break; }
    case 1: { auto c = consumeOwned<T>(w, gen<T>(w, Tracked(3)), take); pump(w); vf::check(c.isReady(), "the consumer finishes"); break; }
    case 2: { auto g = gen<T>(w, Tracked(3)); AsyncGenerator<T> h(std::move(g)); auto c = consume<T>(w, h, take); pump(w); vf::check(c.isReady(), "the consumer finishes"); break; }
    case 4: { auto g = gen<T>(w, Tracked(3)); auto c = consumeSteps<T>(w, g, take); pump(w); vf::check(c.isReady(), "the consumer finishes"); break; }
    case 3: { if (take == 0) vf::skip(); auto g = gen<T>(w, Tracked(3)); auto c = consumeForeach<T>(w, g, take); pump(w); vf::check(c.isReady(), "the consumer finishes"); break; }
    }
    verdict(w, take);
    vf::check(w.alive == 0, "the body is destroyed with the generator");
}
HARNESS(h_c09_values) {
    Scope scope;
    { World w; setup(w); scenario<int32_t>(w, 5); }
    scope.finish();
}
HARNESS(h_c09_objects) {
    Scope scope;
    { World w; setup(w); if (vf::flag("by_reference")) scenario<Tracked &>(w, 2); else scenario<Tracked>(w, 2); }
    scope.finish();
}
// overwriting, swapping, self-assigning and moving generators between steps
HARNESS(h_c09_assign) {
    Scope scope;
    {
        World w, o;
        setup(w);
        o.n = 2; o.v[0] = vf::i32("o0"); o.v[1] = vf::i32("o1");
        int take = vf::choice("take", w.n + 2);
        {
            auto g = gen<Tracked>(w, Tracked(3));
            switch (vf::choice("shape", 5)) {
            case 0: { // overwrite after some steps
                auto c = consume<Tracked>(w, g, take); pump(w); vf::check(c.isReady(), "the consumer finishes");
                g = gen<Tracked>(o, Tracked(4));
                vf::check(w.alive == 0, "the body of an overwritten generator is destroyed");
                auto d = consume<Tracked>(o, g, 3); pump(o); vf::check(d.isReady(), "the consumer finishes"); verdict(o, 3);
                verdict(w, take);
                break; }
            case 1: { auto &r = g; g = std::move(r); auto c = consume<Tracked>(w, g, take); pump(w); verdict(w, take); break; }
            case 2: { auto h = gen<Tracked>(o, Tracked(4)); swap(g, h); auto c = consume<Tracked>(w, h, take); pump(w); auto d = consume<Tracked>(o, g, 1); pump(o); verdict(w, take); verdict(o, 1); break; }
            case 3: { AsyncGenerator<Tracked> e; e = std::move(g); auto c = consume<Tracked>(w, e, take); pump(w); verdict(w, take); break; }
            case 4: { AsyncGenerator<Tracked> e; auto c = consume<Tracked>(o, e, 3); vf::check(c.isReady() && o.got == 0 && o.ended == 1, "an empty generator yields nothing"); break; }
            }
        }
        vf::check(w.alive == 0 && o.alive == 0, "the body is destroyed with the generator");
        vf::reach("done");
    }
    scope.finish();
}
// generator awaiting another generator and a task inside its body
static AsyncGenerator<int32_t> relay(World &w) {
    auto g = gen<Tracked>(w, Tracked(5));
    QCORO_FOREACH(const Tracked &x, g) { co_yield x.get(); }
}
static Task<> consumeRelay(World &w, int &n) {
    try {
        auto g = relay(w);
        auto it = co_await g.begin();
        for (; it != g.end(); co_await ++it) { vf::check(*it == w.v[n], "the values come in order"); n++; if (w.between[n - 1]) co_await w.cons; }
        w.ended++;
    } catch (const BaseError &) { w.thrown++; }
}
HARNESS(h_c09_nested) {
    Scope scope;
    {
        World w; setup(w); int n = 0; w.asked = 99;
        auto c = consumeRelay(w, n);
        pump(w);
        vf::check(c.isReady(), "the consumer finishes");
        vf::check(n == (w.throwAt >= 0 ? w.throwAt : w.n), "every value is delivered");
        vf::check(w.ended == (w.throwAt < 0) && w.thrown == (w.throwAt >= 0), "end or exception passes through");
        vf::check(w.alive == 0, "the bodies are destroyed");
        vf::reach("done");
    }
    scope.finish();
}
// long sequences, suspending now and then on either side
static AsyncGenerator<Tracked> many(Gate &g, const int32_t *v, int n, int often) { for (int i = 0; i < n; i++) { if (often && i % often == 0) co_await g; co_yield Tracked(v[i]); } }
static Task<> takeAll(AsyncGenerator<Tracked> gen, Gate &g, const int32_t *v, int n, int often, int &got) {
    QCORO_FOREACH(const auto &x, gen) {
        vf::check(got < n && x.get() == v[got], "the values come in order");
        got++;
        if (often && got % often == 0) co_await g;
    }
    vf::check(got == n, "every value is delivered");
}
HARNESS(h_c09_long) {
    static const int N = BOUND(1100, 1500);
    Scope scope;
    {
        int32_t v[N]; for (int i = 0; i < N; i++) v[i] = vf::i32("value");
        Gate prod, cons; int got = 0;
        static const int often[] = {0, 3, 50};
        const int a = often[vf::choice("producer_suspends", 3)], b = often[vf::choice("consumer_suspends", 3)];
        auto t = takeAll(many(prod, v, N, a), cons, v, N, b, got);
        while (prod.pending() || cons.pending()) { if (prod.pending()) prod.pulse(); else cons.pulse(); }
        vf::check(t.isReady() && got == N, "a long sequence is delivered completely");
        vf::reach("done");
    }
    scope.finish();
}
