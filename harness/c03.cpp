// C03: tasks may be dropped, moved and overwritten at any time.
#include "common.h"
#include <qcorotask.h>
#include <array>
#include <optional>
using QCoro::Task;

struct World {
    Gate g[2];
    int started[2] = {}, finished[2] = {}, awaiters = 0, resumed = 0;
};
static Task<Tracked> subject(World &w, int i, Tracked arg, bool thr) {
    Tracked local(arg.get());
    w.started[i]++;
    co_await w.g[i];
    vf::check(local.get() == arg.get(), "locals and arguments keep their values across suspension");
    w.finished[i]++;
    if (thr) throw BaseError(local.get());
    co_return local;
}
static Task<> awaitRef(World &w, Task<Tracked> &t, int32_t expect, bool thr) {
    Tracked local(7);
    w.awaiters++;
    try {
        Tracked r = co_await t;
        vf::check(!thr && r.get() == expect, "the awaiter gets the result");
    } catch (const BaseError &e) { vf::check(thr && e.v == expect, "the awaiter gets the exception"); }
    local.use();
    w.resumed++;
}
static Task<> awaitOwned(World &w, Task<Tracked> t, int32_t expect, bool thr) {
    Tracked local(8);
    w.awaiters++;
    try {
        Tracked r = co_await std::move(t);
        vf::check(!thr && r.get() == expect, "the awaiter gets the result");
    } catch (const BaseError &e) { vf::check(thr && e.v == expect, "the awaiter gets the exception"); }
    local.use();
    w.resumed++;
}
HARNESS(h_c03_histories) {
    Scope scope;
    {
        World w;
        struct Slot { std::optional<Task<Tracked>> t; int co = -1; bool consumed = false; } s[2];
        int32_t val[2] = {vf::i32("value0"), vf::i32("value1")};
        bool thr[2] = {vf::flag("throws0"), false};
        int created = 0;
        bool taken[2] = {};
        for (int step = 0; step < BOUND(6, 7); step++) {
            unsigned op = vf::choice("op", 9);
            if (op == 8) break;
            int i = op < 7 ? vf::choice("slot", 2) : 0, j = 1 - i;
            switch (op) {
            case 0: // create in an empty slot
                if (s[i].t || created == 2) vf::skip();
                if (vf::flag("already_open")) w.g[created].open = true;
                s[i].t.emplace(subject(w, created, Tracked(val[created]), thr[created]));
                s[i].co = created++;
                break;
            case 1: // move construct
                if (!s[i].t || s[j].t) vf::skip();
                s[j].t.emplace(std::move(*s[i].t)); s[j].co = s[i].co; s[i].co = -1;
                break;
            case 2: // move assign
                if (!s[i].t || !s[j].t) vf::skip();
                *s[j].t = std::move(*s[i].t); s[j].co = s[i].co; s[i].co = -1;
                break;
            case 3: // self move assign
                if (!s[i].t) vf::skip();
                { auto &self = *s[i].t; *s[i].t = std::move(self); }
                break;
            case 4: // drop
                if (!s[i].t) vf::skip();
                s[i].t.reset(); s[i].co = -1;
                break;
            case 5: // await by reference, once per result (the result is moved to the awaiter)
                if (!s[i].t || s[i].co < 0 || taken[s[i].co]) vf::skip();
                taken[s[i].co] = true;
                { auto a = awaitRef(w, *s[i].t, val[s[i].co], thr[s[i].co]); }
                break;
            case 6: // give the task to an awaiter
                if (!s[i].t || s[i].co < 0 || taken[s[i].co]) vf::skip();
                taken[s[i].co] = true;
                { auto a = awaitOwned(w, std::move(*s[i].t), val[s[i].co], thr[s[i].co]); s[i].co = -1; }
                break;
            case 7: { // a coroutine proceeds
                int k = vf::choice("gate", 2);
                if (!w.g[k].pending()) vf::skip();
                w.g[k].fire();
                break; }
            }
            for (auto &x : s) if (x.t) vf::check(x.t->isReady() == (x.co < 0 || w.finished[x.co]), "a task is ready when it is empty or its coroutine finished");
        }
        w.g[0].fire(); w.g[1].fire();
        for (int k = 0; k < created; k++) vf::check(w.started[k] == 1 && w.finished[k] == 1, "every coroutine runs to completion exactly once");
        vf::check(w.resumed == w.awaiters, "every awaiter continues exactly once");
        vf::log("created", created); vf::log("awaiters", w.awaiters);
        if (w.awaiters) vf::reach("awaited");
        for (auto &x : s) x.t.reset();
    }
    scope.finish();
}
// empty tasks
static Probe probe(Task<int32_t> &t, bool &resumed) { Tracked local(1); co_await t; resumed = true; }
static Probe probeVoid(Task<> &t, bool &resumed) { Tracked local(1); co_await t; resumed = true; }
static Task<int32_t> make(Gate &g, int32_t v) { co_await g; co_return v; }
static Task<> makeVoid(Gate &g) { co_await g; }
HARNESS(h_c03_empty) {
    Scope scope;
    {
        Gate g; g.open = vf::flag("finished_before_move");
        int32_t v = vf::i32("value");
        bool resumed = false;
        if (vf::flag("void_task")) {
            Task<> e;
            if (vf::flag("moved_from")) { e = makeVoid(g); Task<> other = std::move(e); vf::check(e.isReady(), "a moved-from task is ready"); Probe p = probeVoid(e, resumed); g.fire(); vf::check(!resumed, "awaiting an empty task never resumes the awaiter"); }
            else { vf::check(e.isReady(), "a default-constructed task is ready"); Probe p = probeVoid(e, resumed); g.fire(); vf::check(!resumed && !p.done(), "awaiting an empty task never resumes the awaiter"); }
        } else {
            Task<int32_t> e;
            if (vf::flag("moved_from")) { e = make(g, v); Task<int32_t> other = std::move(e); vf::check(e.isReady(), "a moved-from task is ready"); Probe p = probe(e, resumed); g.fire(); vf::check(!resumed, "awaiting an empty task never resumes the awaiter"); vf::check(other.isReady(), "the coroutine finished"); }
            else { vf::check(e.isReady(), "a default-constructed task is ready"); Probe p = probe(e, resumed); g.fire(); vf::check(!resumed && !p.done(), "awaiting an empty task never resumes the awaiter"); }
        }
        vf::reach("done");
    }
    scope.finish();
}
// swap, containers, and a task that outlives its awaiter's scope
HARNESS(h_c03_swap) {
    Scope scope;
    {
        World w;
        int32_t a = vf::i32("value0"), b = vf::i32("value1");
        w.g[0].open = vf::flag("open0"); w.g[1].open = vf::flag("open1");
        {
            auto t = subject(w, 0, Tracked(a), false), u = subject(w, 1, Tracked(b), false);
            std::swap(t, u);
            if (vf::flag("vector")) {
                std::vector<Task<Tracked>> v;
                v.push_back(std::move(t)); v.push_back(std::move(u));
                if (vf::flag("erase")) v.erase(v.begin());
                else { auto x = awaitRef(w, v[0], b, false), y = awaitRef(w, v[1], a, false); w.g[0].fire(); vf::check(w.resumed == 1 + (w.g[1].open ? 1 : 0), "resumed with its own task"); }
            } else {
                auto x = awaitRef(w, t, b, false);
                auto y = awaitOwned(w, std::move(u), a, false);
                if (vf::flag("first")) w.g[0].fire();
            }
        }
        w.g[1].fire(); w.g[0].fire();
        vf::check(w.finished[0] == 1 && w.finished[1] == 1 && w.resumed == w.awaiters, "everything ran to completion once");
        vf::reach("done");
    }
    scope.finish();
}
