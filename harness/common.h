// Shared pieces of the harnesses: a suspension point under harness control and
// value types whose construction and destruction are observed.
#pragma once
#include "vf.h"
#include <coroutine>
#include <exception>
#include <stdexcept>
#include <utility>
#include <vector>

// A point at which coroutines suspend until the harness fires it.
struct Gate {
    std::vector<std::coroutine_handle<>> waiting;
    bool open = false;
    bool await_ready() const noexcept { return open; }
    void await_suspend(std::coroutine_handle<> h) { waiting.push_back(h); }
    void await_resume() const noexcept {}
    bool pending() const { return !waiting.empty(); }
    void fire() {
        open = true;
        auto w = std::move(waiting);
        waiting.clear();
        for (auto h : w) h.resume();
    }
    // wakes the waiters but leaves the gate closed for later ones
    void pulse() {
        auto w = std::move(waiting);
        waiting.clear();
        for (auto h : w) h.resume();
    }
};

// A task begun on a temporary: what made it is gone before the task is awaited, as for every task that is stored or continued
// with then().
#define TEMPORARY(...) ([&] { return __VA_ARGS__; }())

// A value with a symbolic payload; every instance must be destroyed once.
struct Tracked {
    static inline int live = 0;
    static constexpr uint32_t ALIVE = 0x600d600d, DEAD = 0xdeadbeef;
    uint32_t magic = ALIVE;
    int32_t v = 0;
    bool moved = false;
    int32_t *heap; // owned memory: double destruction and leaks are visible to the heap checks too
    Tracked() : heap(new int32_t(0)) { live++; }
    explicit Tracked(int32_t x) : v(x), heap(new int32_t(x)) { live++; }
    Tracked(const Tracked &o) : v(o.get()), moved(o.moved), heap(new int32_t(o.v)) { o.use(); live++; }
    Tracked(Tracked &&o) noexcept : v(o.get()), moved(o.moved), heap(new int32_t(o.v)) { o.use(); live++; o.v = -777; o.moved = true; }
    Tracked &operator=(const Tracked &o) { use(); o.use(); v = o.v; moved = o.moved; *heap = v; return *this; }
    Tracked &operator=(Tracked &&o) noexcept { use(); o.use(); if (&o != this) { v = o.v; moved = o.moved; *heap = v; o.v = -777; o.moved = true; } return *this; }
    ~Tracked() { vf::check(magic == ALIVE, "object destroyed exactly once"); magic = DEAD; live--; delete heap; heap = nullptr; }
    void use() const { vf::check(magic == ALIVE, "object used only while it is alive"); }
    int32_t get() const { use(); return v; }
    bool operator==(const Tracked &o) const { return get() == o.get(); }
};

// Move-only value.
struct MoveOnly {
    int32_t *p;
    explicit MoveOnly(int32_t v) : p(new int32_t(v)) {}
    MoveOnly(MoveOnly &&o) noexcept : p(o.p) { o.p = nullptr; }
    MoveOnly &operator=(MoveOnly &&o) noexcept { if (&o != this) { delete p; p = o.p; o.p = nullptr; } return *this; }
    MoveOnly(const MoveOnly &) = delete;
    ~MoveOnly() { delete p; }
    int32_t get() const { return p ? *p : -777; }
};

// Exceptions with payload
struct PlainError { int32_t v; };
struct BaseError : std::runtime_error { int32_t v; BaseError(int32_t x) : std::runtime_error("base"), v(x) {} };
struct DerivedError : BaseError { int32_t w; DerivedError(int32_t x, int32_t y) : BaseError(x), w(y) {} };

// Checks at the end of a scope that nothing observed is left over.
struct Scope {
    uint64_t mark;
    int live;
    Scope() : mark(vf::heapMark()), live(Tracked::live) {}
    void finish(const char *what = "all memory is released once nothing refers to it any more") {
        vf::check(Tracked::live == live, "every object is destroyed exactly once");
        vf::heapCheck(mark, what);
    }
};

// A coroutine the harness owns: lets it await anything and be destroyed at will.
struct Probe {
    struct promise_type {
        Probe get_return_object() { return Probe(std::coroutine_handle<promise_type>::from_promise(*this)); }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void unhandled_exception() { vf_fail_("exception escaped into the harness"); }
        void return_void() {}
    };
    std::coroutine_handle<promise_type> h;
    explicit Probe(std::coroutine_handle<promise_type> x) : h(x) {}
    Probe(Probe &&o) noexcept : h(o.h) { o.h = nullptr; }
    Probe(const Probe &) = delete;
    ~Probe() { if (h) h.destroy(); }
    bool done() const { return h.done(); }
};

#ifdef VF_THOROUGH
#define BOUND(quick, thorough) (thorough)
#else
#define BOUND(quick, thorough) (quick)
#endif
