// C01: the outcome of a coroutine reaches its awaiter unchanged.
#include "common.h"
#include <qcorotask.h>
#include <string>
using QCoro::Task;

// ---- every return form, suspended or not, awaited early or late
struct Conv { int32_t v; operator Tracked() const { return Tracked(v); } };
struct Steal { // converts differently from an lvalue and from an rvalue
    int32_t v; bool stolen = false;
};
struct FromSteal {
    int32_t v = 0;
    FromSteal() = default;
    FromSteal(const Steal &s) : v(s.v) {}
    FromSteal(Steal &&s) : v(s.v) { s.stolen = true; s.v = -1; }
};

struct Source {
    Tracked mem;
    const Tracked cmem;
    Steal steal;
    Gate &g;
    Source(int32_t v, Gate &gate) : mem(v), cmem(v), steal{v}, g(gate) {}
    Task<Tracked> member() { co_await g; co_return mem; }
    Task<Tracked> constMember() { co_await g; co_return cmem; }
    Task<Tracked> explicitMove() { co_await g; co_return std::move(mem); }
    Task<FromSteal> convLvalue() { co_await g; co_return steal; }
    Task<FromSteal> convRvalue() { co_await g; co_return std::move(steal); }
    Task<Tracked> viaRef() { auto &r = mem; co_await g; co_return r; }
};
static Task<int32_t> byValue(Gate &g, int32_t v) { co_await g; co_return v; }
static Task<Tracked> local(Gate &g, int32_t v) { Tracked t(v); co_await g; co_return t; }
static Task<Tracked> param(Gate &g, Tracked t) { co_await g; co_return t; }
static Task<Tracked> temp(Gate &g, int32_t v) { co_await g; co_return Tracked(v); }
static Task<Tracked> conv(Gate &g, int32_t v) { co_await g; co_return Conv{v}; }
static Task<Tracked> lvalueConv(Gate &g, Conv &c) { co_await g; co_return c; }
static Task<MoveOnly> moveOnly(Gate &g, int32_t v) { co_await g; co_return MoveOnly(v); }
static Task<int64_t> widening(Gate &g, int32_t v) { co_await g; co_return static_cast<int64_t>(v); }
static Task<std::pair<int32_t, int32_t>> braces(Gate &g, int32_t v, int32_t w) { co_await g; co_return {v, w}; }
static Task<const int32_t *> pointer(Gate &g, const int32_t *p) { co_await g; co_return p; }

template<typename T, typename F>
static Task<> consume(Task<T> task, F f, int &resumed) {
    auto r = co_await task;
    f(r);
    resumed++;
}
template<typename T, typename F>
static void drive(Gate &g, Task<T> task, bool awaitLate, F f) {
    int resumed = 0;
    if (awaitLate) {
        g.fire();
        vf::check(task.isReady(), "a finished coroutine's task is ready");
        auto c = consume<T>(std::move(task), f, resumed);
        vf::check(resumed == 1, "awaiting a finished task continues at once");
    } else {
        auto c = consume<T>(std::move(task), f, resumed);
        if (!g.open) vf::check(resumed == 0, "the awaiter does not continue before the task finished");
        g.fire();
        vf::check(resumed == 1, "the awaiter continues with the result");
    }
    vf::reach("consumed");
}
HARNESS(h_c01_forms) {
    Scope scope;
    {
        Gate g;
        int32_t v = vf::i32("value");
        unsigned form = vf::choice("form", 16);
        if (vf::flag("already_open")) g.open = true;
        bool late = vf::flag("await_late");
        auto same = [v](auto &r) { vf::check(r.get() == v, "co_await yields the value that was returned"); };
        Source s(v, g);
        switch (form) {
        case 0: drive(g, byValue(g, v), late, [v](int32_t r) { vf::check(r == v, "co_await yields the value that was returned"); }); break;
        case 1: drive(g, local(g, v), late, same); break;
        case 2: drive(g, param(g, Tracked(v)), late, same); break;
        case 3: drive(g, temp(g, v), late, same); break;
        case 4: drive(g, conv(g, v), late, same); break;
        case 5: { Conv c{v}; drive(g, lvalueConv(g, c), late, same); vf::check(c.v == v, "returning an lvalue leaves it untouched"); break; }
        case 6: drive(g, moveOnly(g, v), late, same); break;
        case 7: drive(g, widening(g, v), late, [v](int64_t r) { vf::check(r == v, "co_await yields the value that was returned"); }); break;
        case 8: { int32_t w = vf::i32("second"); drive(g, braces(g, v, w), late, [v, w](auto &r) { vf::check(r.first == v && r.second == w, "co_await yields the value that was returned"); }); break; }
        case 9: drive(g, pointer(g, &v), late, [&v](const int32_t *r) { vf::check(r == &v, "co_await yields the pointer that was returned"); }); break;
        case 10: drive(g, s.member(), late, same); vf::check(s.mem.v == v && !s.mem.moved, "returning an lvalue leaves it untouched"); break;
        case 11: drive(g, s.constMember(), late, same); vf::check(s.cmem.v == v, "returning an lvalue leaves it untouched"); break;
        case 12: drive(g, s.explicitMove(), late, same); break;
        case 13: drive(g, s.convLvalue(), late, [v](auto &r) { vf::check(r.v == v, "co_await yields the converted value"); });
                 vf::check(s.steal.v == v && !s.steal.stolen, "returning an lvalue leaves it untouched"); break;
        case 14: drive(g, s.convRvalue(), late, [v](auto &r) { vf::check(r.v == v, "co_await yields the converted value"); }); break;
        case 15: drive(g, s.viaRef(), late, same); vf::check(s.mem.v == v && !s.mem.moved, "returning an lvalue leaves it untouched"); break;
        }
    }
    scope.finish();
}

// ---- other value types: bool, enum, std::string, optional, vector, big struct
enum class Colour : uint8_t { Red, Green, Blue };
struct Big { int64_t a[6]; };
static Task<bool> tBool(Gate &g, bool b) { co_await g; co_return b; }
static Task<Colour> tEnum(Gate &g, Colour c) { co_await g; co_return c; }
static Task<std::string> tString(Gate &g, const char *s) { co_await g; co_return s; }
static Task<std::optional<int32_t>> tOpt(Gate &g, bool has, int32_t v) { co_await g; if (!has) co_return std::nullopt; co_return v; }
static Task<std::vector<int32_t>> tVec(Gate &g, int32_t v, int32_t w) { co_await g; std::vector<int32_t> r; r.push_back(v); r.push_back(w); co_return r; }
static Task<Big> tBig(Gate &g, int64_t v) { co_await g; Big b; for (int i = 0; i < 6; i++) b.a[i] = v + i; co_return b; }
static Task<int *> tNull(Gate &g) { co_await g; co_return nullptr; }
HARNESS(h_c01_types) {
    Scope scope;
    {
        Gate g;
        int32_t v = vf::i32("value");
        bool late = vf::flag("await_late");
        switch (vf::choice("type", 7)) {
        case 0: drive(g, tBool(g, v & 1), late, [v](bool r) { vf::check(r == bool(v & 1), "co_await yields the value that was returned"); }); break;
        case 1: drive(g, tEnum(g, Colour(v & 3)), late, [v](Colour r) { vf::check(r == Colour(v & 3), "co_await yields the value that was returned"); }); break;
        case 2: {
            static char text[40]; int n = vf::flag("long") ? 30 : 5;
            for (int i = 0; i < n; i++) text[i] = char('a' + i % 20); text[n] = 0; text[2] = char('A' + (v & 7));
            drive(g, tString(g, text), late, [n](std::string &r) { vf::check(int(r.size()) == n, "string length"); for (int i = 0; i < n; i++) vf::check(r[i] == text[i], "co_await yields the value that was returned"); });
            break; }
        case 3: { bool has = vf::flag("has"); drive(g, tOpt(g, has, v), late, [v, has](auto &r) { vf::check(r.has_value() == has && (!has || *r == v), "co_await yields the value that was returned"); }); break; }
        case 4: { int32_t w = vf::i32("second"); drive(g, tVec(g, v, w), late, [v, w](auto &r) { vf::check(r.size() == 2 && r[0] == v && r[1] == w, "co_await yields the value that was returned"); }); break; }
        case 5: drive(g, tBig(g, v), late, [v](Big &r) { for (int i = 0; i < 6; i++) vf::check(r.a[i] == int64_t(v) + i, "co_await yields the value that was returned"); }); break;
        case 6: drive(g, tNull(g), late, [](int *r) { vf::check(r == nullptr, "co_await yields the value that was returned"); }); break;
        }
    }
    scope.finish();
}

// ---- exceptions: kind and payload, value and void tasks, any depth
static void maybeThrow(unsigned kind, int32_t v, int32_t w) {
    switch (kind) {
    case 1: throw PlainError{v};
    case 2: throw BaseError(v);
    case 3: throw DerivedError(v, w);
    case 4: throw v;
    case 5: throw std::out_of_range("oor");
    }
}
struct Outcome { bool value = false; unsigned kind = 0; int32_t v = 0, w = 0, result = 0; int times = 0; };
template<typename F>
static Task<> observe(Outcome &o, Task<F> t) {
    try {
        if constexpr (std::is_void_v<F>) co_await t;
        else o.result = co_await t;
        o.value = true;
    } catch (const DerivedError &e) { o.kind = 3; o.v = e.v; o.w = e.w;
    } catch (const BaseError &e) { o.kind = 2; o.v = e.v;
    } catch (const std::out_of_range &) { o.kind = 5;
    } catch (const PlainError &e) { o.kind = 1; o.v = e.v;
    } catch (int32_t e) { o.kind = 4; o.v = e; }
    o.times++;
}
static Task<int32_t> leafI(Gate &g1, Gate &g2, unsigned kind, int32_t v, int32_t w) { co_await g1; Tracked t(v); maybeThrow(kind, v, w); co_await g2; co_return t.get(); }
static Task<> leafV(Gate &g1, Gate &g2, unsigned kind, int32_t v, int32_t w) { co_await g1; Tracked t(v); maybeThrow(kind, v, w); co_await g2; }
static Task<int32_t> passI(Gate &g1, Gate &g2, unsigned kind, int32_t v, int32_t w, int depth) {
    Tracked local(depth);
    if (depth == 0) { co_return co_await leafI(g1, g2, kind, v, w); }
    auto t = passI(g1, g2, kind, v, w, depth - 1);
    co_return co_await t;
}
static Task<> passV(Gate &g1, Gate &g2, unsigned kind, int32_t v, int32_t w, int depth) {
    Tracked local(depth);
    if (depth == 0) co_await leafV(g1, g2, kind, v, w);
    else co_await passV(g1, g2, kind, v, w, depth - 1);
}
HARNESS(h_c01_exceptions) {
    Scope scope;
    {
        Gate g1, g2;
        int32_t v = vf::i32("value"), w = vf::i32("second");
        unsigned kind = vf::choice("throws", 6);
        int depth = vf::choice("depth", 4);
        bool isVoid = vf::flag("void_task");
        g1.open = vf::flag("g1_open"); g2.open = vf::flag("g2_open");
        bool late = vf::flag("await_late");
        Outcome o;
        auto run = [&](auto task) {
            if (late) { g1.fire(); g2.fire(); vf::check(task.isReady(), "the finished task is ready"); }
            auto c = observe(o, std::move(task));
            if (!late) { g1.fire(); g2.fire(); }
            vf::check(c.isReady(), "the awaiting coroutine finished");
        };
        if (isVoid) run(passV(g1, g2, kind, v, w, depth)); else run(passI(g1, g2, kind, v, w, depth));
        vf::check(o.times == 1, "the awaiter continues exactly once");
        vf::check(o.value == (kind == 0), "a value is delivered exactly when the coroutine did not throw");
        vf::check(o.kind == kind, "the exception arrives with its own type");
        if (kind == 0 && !isVoid) vf::check(o.result == v, "co_await yields the value that was returned");
        if (kind >= 1 && kind <= 4) vf::check(o.v == v, "the exception arrives with its content");
        if (kind == 3) vf::check(o.w == w, "the exception arrives with its content");
        vf::log("kind", o.kind);
        vf::reach(kind ? "threw" : "returned");
    }
    scope.finish();
}

// An exception that leaves an awaiting coroutine is delivered to everybody who awaits, each with the content
HARNESS(h_c01_exception_shared) {
    Scope scope;
    {
        Gate g1, g2;
        int32_t v = vf::i32("value");
        unsigned kind = 1 + vf::choice("throws", 5);
        Outcome o[2];
        bool late2 = vf::flag("second_late");
        auto run = [&](auto t) {
            auto obs = [](Outcome &o, auto &t) -> Task<> {
                try { co_await t; } catch (const DerivedError &e) { o.kind = 3; o.v = e.v; }
                catch (const BaseError &e) { o.kind = 2; o.v = e.v; } catch (const std::out_of_range &) { o.kind = 5; o.v = 0; }
                catch (const PlainError &e) { o.kind = 1; o.v = e.v; } catch (int32_t e) { o.kind = 4; o.v = e; }
                o.times++;
            };
            if (vf::flag("first_late")) g1.fire();
            auto a = obs(o[0], t);
            if (!late2) { auto b = obs(o[1], t); g1.fire(); }
            else { g1.fire(); auto b = obs(o[1], t); }
        };
        if (vf::flag("void_task")) run(leafV(g1, g2, kind, v, v)); else run(leafI(g1, g2, kind, v, v));
        for (auto &x : o) {
            vf::check(x.times == 1, "the awaiter continues exactly once");
            vf::check(x.kind == kind, "the exception arrives with its own type");
            if (kind < 5) vf::check(x.v == v, "the exception arrives with its content");
        }
        vf::reach("both");
    }
    scope.finish();
}
// many tasks: deep chains that finish at once or later, and long loops of awaits
static Task<int32_t> deep(Gate &g, int n, int32_t v, bool thr) {
    Tracked local(v);
    if (n == 0) { co_await g; if (thr) throw BaseError(v); co_return v; }
    int32_t r = co_await deep(g, n - 1, v, thr);
    vf::check(local.get() == v, "locals survive the wait");
    co_return r;
}
static Task<int32_t> quick(int32_t v) { co_return v; }
static Task<> rounds(Gate &g, int n, int32_t *in, int &done) {
    for (int i = 0; i < n; i++) {
        if (i % 16 == 7) co_await g;
        vf::check(co_await quick(in[i]) == in[i], "the awaiter receives exactly that value");
        done++;
    }
}
static Task<> outcome(Task<int32_t> t, int32_t v, bool thr, int &over) {
    try { const int32_t r = co_await t; vf::check(!thr && r == v, "the awaiter receives exactly that value"); }
    catch (const BaseError &e) { vf::check(thr && e.v == v, "the awaiter receives exactly that exception"); }
    over++;
}
HARNESS(h_c01_many) {
    static const int N = BOUND(1100, 1500);
    Scope scope;
    {
        Gate g; int over = 0;
        const int32_t v = vf::i32("value"); const bool thr = vf::flag("throws");
        if (vf::flag("finishes_at_once")) g.open = true;
        auto t = outcome(deep(g, N, v, thr), v, thr, over);
        vf::check(over == g.open, "the awaiter waits for the value");
        g.fire();
        vf::check(over == 1 && t.isReady(), "a long chain of tasks finishes");
        int32_t in[N]; for (int i = 0; i < N; i++) in[i] = vf::i32("payload");
        int done = 0;
        Gate h;
        auto u = rounds(h, N, in, done);
        while (h.pending()) h.pulse();
        vf::check(done == N && u.isReady(), "every await of a long loop continues");
        vf::reach("done");
    }
    scope.finish();
}

// A value that cannot be handed over: what its copying, moving or conversion throws is the coroutine's outcome
struct Refuses { // throws in the way it is told to
    int32_t v; unsigned how; Tracked alive;
    Refuses(int32_t x, unsigned h) : v(x), how(h), alive(x) {}
    Refuses(const Refuses &o) : v(o.v), how(o.how), alive(o.alive) { if (how & 1) throw PlainError{v}; }
    Refuses(Refuses &&o) : v(o.v), how(o.how), alive(std::move(o.alive)) { if (how & 2) throw PlainError{v}; }
    Refuses &operator=(const Refuses &o) { if (o.how & 1) throw PlainError{o.v}; v = o.v; how = o.how; alive = o.alive; return *this; }
    struct Raw { int32_t v; unsigned how; };
    Refuses(const Raw &r) : v(r.v), how(r.how & ~4u), alive(r.v) { if (r.how & 4) throw PlainError{v}; }
};
static Task<Refuses> refuses(Gate &g, unsigned form, Refuses &r) {
    Tracked l(1);
    co_await g;
    switch (form) {
    case 0: co_return r; // copied
    case 1: { const Refuses &c = r; co_return c; }
    case 2: co_return std::move(r);
    case 3: co_return Refuses::Raw{r.v, r.how}; // converted
    default: { const Refuses::Raw raw{r.v, r.how}; co_return raw; }
    }
}
HARNESS(h_c01_refusal) {
    Scope scope;
    {
        Gate g; g.open = vf::flag("open");
        const int32_t v = vf::i32("value"); const unsigned form = vf::choice("form", 5);
        const bool thrown = vf::flag("throws");
        Refuses r(v, thrown ? form < 2 ? 1 : form == 2 ? 2 : 4 : 0);
        bool caught = false; int32_t got = 0; int over = 0;
        {
            auto t = refuses(g, form, r);
            auto c = [](Task<Refuses> &t, bool &caught, int32_t &got, int &over) -> Task<> {
                try { auto r = co_await t; got = r.v; r.alive.use(); } catch (const PlainError &e) { caught = true; got = e.v; }
                over++;
            }(t, caught, got, over);
            g.fire();
            vf::check(t.isReady() && over == 1, "the awaiter continues exactly once");
        }
        vf::check(caught == thrown && got == v, "what handing over the value throws is delivered like any other exception");
        vf::reach(thrown ? "refused" : "returned");
    }
    scope.finish();
}

// A value that can be made of an exception_ptr (as results of the expected<> kind can) is a value, not the coroutine's exception
struct Expected {
    int32_t v = 0; std::exception_ptr error; Tracked alive;
    Expected(int32_t x) : v(x), alive(x) {}
    Expected(std::exception_ptr e) : error(std::move(e)), alive(2) {}
    Expected(std::monostate) : v(-1), alive(3) {}
};
static Task<Expected> outcome(Gate &g, unsigned form, int32_t v) {
    Tracked l(1);
    co_await g;
    const auto e = std::make_exception_ptr(PlainError{v});
    switch (form) {
    case 0: co_return v;
    case 1: co_return e; // a failure the coroutine reports as its value
    case 2: co_return std::make_exception_ptr(PlainError{v});
    case 3: co_return std::exception_ptr{};
    case 4: co_return std::monostate{};
    case 5: co_return Expected(e);
    default: throw PlainError{v};
    }
}
HARNESS(h_c01_outcome) {
    Scope scope;
    {
        Gate g; g.open = vf::flag("open");
        const int32_t v = vf::i32("value"); const unsigned form = vf::choice("form", 7);
        unsigned got = 99; int32_t value = 0; int over = 0;
        {
            auto t = outcome(g, form, v);
            auto c = [](Task<Expected> &t, unsigned &got, int32_t &value, int &over) -> Task<> {
                try {
                    auto r = co_await t; r.alive.use(); value = r.v;
                    if (r.error) { try { std::rethrow_exception(r.error); } catch (const PlainError &e) { value = e.v; } got = 1; }
                    else got = 0;
                } catch (const PlainError &e) { value = e.v; got = 2; }
                over++;
            }(t, got, value, over);
            g.fire();
            vf::check(t.isReady() && over == 1, "the awaiter continues exactly once");
        }
        vf::check(got == (form == 6 ? 2u : form == 1 || form == 2 || form == 5 ? 1u : 0u), "a returned value arrives as a value, a thrown exception as an exception");
        vf::check(value == (form == 3 ? 0 : form == 4 ? -1 : v), "the value is the one returned");
        vf::reach("outcome");
    }
    scope.finish();
}
