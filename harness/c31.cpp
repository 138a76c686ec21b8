// C31: what can be awaited in a coroutine, and how
#include "common.h"
#include <optional>
#include <qcoroasyncgenerator.h>
#include <qcorolazytask.h>
#include <qcorotask.h>
#include <qcorosignal.h>
using QCoro::LazyTask;
using QCoro::Task;

// What an awaitable sees of being awaited; the events must come in the order made, (operator), ready, suspended, resumed, gone.
struct Story {
    Gate g; int32_t v = 0;
    bool ready = false, staysAwake = false; unsigned throwsIn = 0; // 1 ready, 2 suspend, 3 resume, 4 operator co_await
    int made = 0, copied = 0, op = 0, readies = 0, suspends = 0, resumes = 0, gone = 0;
    const void *self = nullptr; std::coroutine_handle<> awaiting;
    bool transfers = false; std::coroutine_handle<> other; // await_suspend hands over to
    int others = 0;
};
// the awaiter proper; Suspend is what await_suspend returns: void, bool or a handle
template<typename Result, typename Suspend> struct Awaiter {
    Story &s; Tracked alive;
    Result result;
    Awaiter(Story &x, Result r) : s(x), alive(1), result(static_cast<Result>(r)) { s.made++; s.self = this; }
    Awaiter(const Awaiter &o) : s(o.s), alive(1), result(static_cast<Result>(o.result)) { s.copied++; s.self = this; }
    ~Awaiter() { s.gone++; }
    bool await_ready() { step(1); s.readies++; if (s.throwsIn == 1) throw PlainError{s.v}; return s.ready; }
    Suspend await_suspend(std::coroutine_handle<> h) {
        step(2); s.suspends++; s.awaiting = h;
        if (s.throwsIn == 2) throw PlainError{s.v};
        if constexpr (std::is_same_v<Suspend, bool>) { if (s.staysAwake) return false; s.g.await_suspend(h); return true; }
        else if constexpr (std::is_void_v<Suspend>) s.g.await_suspend(h);
        else {
            if (s.staysAwake) return h; // symmetric transfer back
            s.g.await_suspend(h);
            if (s.transfers) return s.other;
            return std::noop_coroutine();
        }
    }
    Result await_resume() {
        step(3); s.resumes++;
        if (s.throwsIn == 3) throw PlainError{s.v};
        return static_cast<Result>(result);
    }
    void step(int k) {
        alive.use();
        vf::check(s.self == this && !s.copied, "the awaitable itself is awaited, not a copy");
        vf::check(!s.gone, "an awaitable lives until the await is over");
        vf::check(k == 1 ? s.readies == 0 : k == 2 ? s.readies == 1 && !s.ready && s.suspends == 0 : s.readies == 1 && s.resumes == 0 && (s.ready || s.suspends == 1), "an await asks, suspends and resumes once, in this order");
    }
};
template<typename A, typename Result> struct WithMember {
    Story &s; Tracked alive; Result result;
    WithMember(Story &x, Result r) : s(x), alive(1), result(static_cast<Result>(r)) {}
    WithMember(const WithMember &o) : s(o.s), alive(1), result(static_cast<Result>(const_cast<WithMember &>(o).result)) { s.copied++; }
    A operator co_await() const { alive.use(); s.op++; if (s.throwsIn == 4) throw PlainError{s.v}; return A(s, static_cast<Result>(const_cast<WithMember *>(this)->result)); }
};
template<typename A, typename Result> struct WithFree {
    Story &s; Tracked alive; Result result;
    WithFree(Story &x, Result r) : s(x), alive(1), result(static_cast<Result>(r)) {}
    WithFree(const WithFree &o) : s(o.s), alive(1), result(static_cast<Result>(const_cast<WithFree &>(o).result)) { s.copied++; }
};
template<typename A, typename Result> A operator co_await(const WithFree<A, Result> &x) {
    x.alive.use(); x.s.op++; if (x.s.throwsIn == 4) throw PlainError{x.s.v};
    return A(x.s, static_cast<Result>(const_cast<WithFree<A, Result> &>(x).result));
}
enum Shape { Lvalue, ConstLvalue, Temporary, Moved, Member, MemberTemporary, Free, FreeTemporary, Shapes };
enum Host { InTask, InLazyTask, InAsyncGenerator, Hosts };

struct Outcome { int before = 0, after = 0; bool value = false, same = false, threw = false; int32_t v = 0; };
static int32_t valueOf(const Tracked &t) { return t.get(); }
static int32_t valueOf(int32_t x) { return x; }
// (one macro per expression: the await has to be in the coroutine)
#define AWAIT(...) \
    if constexpr (std::is_void_v<R>) { __VA_ARGS__; } \
    else if constexpr (std::is_lvalue_reference_v<R>) { auto &&r = __VA_ARGS__; o.same = &r == &thing; o.v = valueOf(r); } \
    else { auto r = __VA_ARGS__; o.same = true; o.v = valueOf(r); }
#define BODY \
    Tracked local(7); \
    o.before++; \
    try { \
        switch (shape) { \
        case Lvalue: { A a(s, static_cast<Stored>(thing)); AWAIT(co_await a); break; } \
        case ConstLvalue: { const A a(s, static_cast<Stored>(thing)); AWAIT(co_await const_cast<A &>(a)); break; } \
        case Temporary: { AWAIT(co_await A(s, static_cast<Stored>(thing))); break; } \
        case Moved: { A a(s, static_cast<Stored>(thing)); AWAIT(co_await std::move(a)); break; } \
        case Member: { const M a(s, static_cast<Stored>(thing)); AWAIT(co_await a); break; } \
        case MemberTemporary: { AWAIT(co_await M(s, static_cast<Stored>(thing))); break; } \
        case Free: { F a(s, static_cast<Stored>(thing)); AWAIT(co_await a); break; } \
        default: { AWAIT(co_await F(s, static_cast<Stored>(thing))); } \
        } \
        o.value = true; \
    } catch (const PlainError &e) { o.threw = true; o.v = e.v; } \
    vf::check(s.gone == s.made + s.copied, "a temporary awaiter is destroyed when the await is over"); \
    local.use(); o.after++;
template<typename R> struct StoredFor { typedef R type; };
template<> struct StoredFor<void> { typedef int type; };
template<typename R, typename Suspend> struct VoidAwaiter : Awaiter<int, Suspend> {
    using Awaiter<int, Suspend>::Awaiter;
    void await_resume() { Awaiter<int, Suspend>::await_resume(); }
};
template<typename R, typename Suspend> struct Pick { typedef Awaiter<R, Suspend> type; };
template<typename Suspend> struct Pick<void, Suspend> { typedef VoidAwaiter<void, Suspend> type; };
#define TYPES \
    typedef typename StoredFor<R>::type Stored; \
    typedef typename Pick<R, S>::type A; \
    typedef WithMember<A, Stored> M; typedef WithFree<A, Stored> F; \
    typedef std::remove_reference_t<Stored> Thing; Thing thing(s.v);
template<typename K, typename R, typename S> static K inTask(Story &s, unsigned shape, Outcome &o) { TYPES BODY }
template<typename R, typename S> static QCoro::AsyncGenerator<int> inGenerator(Story &s, unsigned shape, Outcome &o) { TYPES BODY co_yield 3; }
static Task<> consume(Story &s, QCoro::AsyncGenerator<int> g, int &got) { QCORO_FOREACH(int x, g) { got += x; } }
static Probe other(Story &s) { co_await std::suspend_always(); s.others++; }
template<typename R, typename S> static Task<> drive(Story &s, unsigned shape, Outcome &o) { co_await inTask<LazyTask<>, R, S>(s, shape, o); }

template<typename R, typename S>
static void await() {
    Scope scope;
    {
        Story s; Outcome o;
        s.v = vf::i32("value");
        const unsigned host = vf::choice("host", Hosts), shape = vf::choice("shape", Shapes);
        s.ready = vf::flag("ready");
        s.throwsIn = vf::choice("throws_in", 5);
        if ((s.throwsIn == 2 && s.ready) || (s.throwsIn == 4 && shape < Member)) vf::skip();
        if (!std::is_void_v<S> && !s.ready) s.staysAwake = vf::flag("stays_awake");
        std::optional<Probe> p; p.emplace(other(s)); s.other = p->h;
        if (std::is_same_v<S, std::coroutine_handle<>> && !s.ready && !s.staysAwake) s.transfers = vf::flag("transfers");
        int got = 0;
        {
            Task<> t;
            switch (host) {
            case InTask: t = inTask<Task<>, R, S>(s, shape, o); break;
            case InLazyTask: t = drive<R, S>(s, shape, o); break;
            default: t = consume(s, inGenerator<R, S>(s, shape, o), got);
            }
            vf::check(o.before == 1, "the coroutine has got to the await");
            const bool early = s.throwsIn == 1 || s.throwsIn == 4;
            const bool waits = !early && s.throwsIn != 2 && !s.ready && !s.staysAwake;
            vf::check(o.after == !waits, "the coroutine suspends exactly if the awaitable is not ready");
            vf::check(s.others == (waits && s.transfers), "the coroutine that await_suspend names runs");
            if (waits) { vf::check(!t.isReady() && !s.resumes && !s.gone, "an awaitable lives until the await is over"); s.g.fire(); vf::reach("waited"); }
            vf::check(t.isReady() && o.after == 1, "the coroutine goes on when it is resumed");
            vf::check(o.threw == (s.throwsIn != 0) && o.value == !o.threw, "an exception of the awaitable is thrown in the coroutine");
            if (o.threw) vf::check(o.v == s.v, "an exception of the awaitable is thrown in the coroutine");
            else if constexpr (!std::is_void_v<R>) { vf::check(o.v == s.v, "the await gives what the awaitable gives"); vf::check(o.same, "the await gives the very object the awaitable refers to"); }
            vf::check(s.made == (s.throwsIn != 4) && !s.copied && s.op == (shape >= Member), "the awaitable itself is awaited, not a copy");
            vf::check(s.resumes == !(early || s.throwsIn == 2) && s.suspends == (!early && !s.ready) && s.readies == (s.throwsIn != 4), "an await asks, suspends and resumes once, in this order");
            if (host == InAsyncGenerator) vf::check(got == 3, "the generator goes on");
            vf::log("value", o.v); vf::reach(o.threw ? "threw" : "value");
        }
    }
    scope.finish();
}
HARNESS(h_c31_void) { await<void, void>(); }
HARNESS(h_c31_value) { switch (vf::choice("suspend", 3)) { case 0: await<int32_t, void>(); break; case 1: await<int32_t, bool>(); break; default: await<int32_t, std::coroutine_handle<>>(); } }
HARNESS(h_c31_object) { if (vf::flag("handle")) await<Tracked, std::coroutine_handle<>>(); else await<Tracked, bool>(); }
HARNESS(h_c31_reference) { if (vf::flag("const")) await<const Tracked &, bool>(); else await<Tracked &, std::coroutine_handle<>>(); }
