// C29: waits on one object do not disturb each other
#include "waits.h"
static Task<> one(Waiter &x, bool destroys) {
    World &w = x.w;
    x.done(co_await x.begin());
    if (destroys && w.s->object()) { w.destroy(); vf::reach("destroyed"); }
}
static void together(unsigned from, unsigned to, bool harm, int happenings, int maxTurns) {
    Scope scope;
    {
        World w(from + vf::choice("situation", to - from));
        w.happenings = happenings;
        Waiter x{w}, y{w};
        x.choose(); y.choose();
        const bool later = vf::flag("second_begins_later");
        {
            auto t = one(x, harm);
            std::optional<Task<>> u;
            if (!later) u.emplace(one(y, false));
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (later && w.turn == 1) { if (!w.s->object()) vf_end_(); u.emplace(one(y, false)); }
            }
            if (!u) vf_end_();
            const bool alive = w.s->object();
            for (Waiter *p : {&x, &y}) {
                if (p->timed) vf::check(p->resumed == 1, "the waiter resumes at the timeout at the latest");
                if (p->first != None && alive) vf::check(p->resumed == 1, "the waiter resumes when what it waits for happened or became impossible");
            }
            vf::log("resumed", x.resumed + 2 * y.resumed); vf::log("result", x.result + 2 * y.result);
            vf::reach(x.resumed && y.resumed ? x.result && y.result ? "both succeed" : x.result || y.result ? "one succeeds" : "none succeeds" : x.resumed || y.resumed ? "one waits" : "both wait");
            if (!x.resumed || !y.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.s->object()) vf::check(vqt::connections(w.s->object()) == 0, "no connection is left behind");
    }
    scope.finish();
}
HARNESS(h_c29_core) { together(0, 4, false, BOUND(3, 4), 20); }
HARNESS(h_c29_sockets) { together(4, 8, false, BOUND(3, 4), 20); }
HARNESS(h_c29_others) { together(8, 10, false, BOUND(3, 4), 20); }
HARNESS(h_c29_core_harm) { together(0, 4, true, BOUND(2, 3), 20); }
HARNESS(h_c29_sockets_harm) { together(4, 8, true, BOUND(2, 3), 20); }
HARNESS(h_c29_others_harm) { together(8, 10, true, BOUND(2, 3), 20); }
