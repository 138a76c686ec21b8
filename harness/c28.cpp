// C28: a wait that is over lets go of its object
#include "waits.h"
static Task<> first(Waiter &x, Waiter &again, unsigned reaction) {
    World &w = x.w;
    x.done(co_await x.begin());
    if (!w.s->object()) co_return;
    if (!x.immediate) vf::check(!vqt::emitting(w.s->object()), "the waiter does not run within an emission of the object: it may destroy it");
    if (reaction == 1) { w.destroy(); vf::reach("destroyed"); }
    if (reaction == 2) {
        again.op = x.op; again.timed = x.timed; again.timeout = x.timeout;
        again.done(co_await again.begin());
        vf::check(again.immediate || !vqt::emitting(w.s->object()), "the waiter does not run within an emission of the object: it may destroy it");
        vf::reach(again.immediate ? "again at once" : again.result ? "again: yes" : "again: no");
    }
}
static void letsGo(unsigned from, unsigned to, int happenings, int maxTurns) {
    Scope scope;
    {
        World w(from + vf::choice("situation", to - from));
        w.happenings = happenings;
        for (int &l : w.s->left) if (l) l = 2;
        Waiter x{w}, y{w};
        x.choose();
        const unsigned reaction = vf::choice("reaction", 3);
        {
            auto t = first(x, y, reaction);
            for (w.turn = 1; vqt::turn(); w.turn++) if (w.turn > maxTurns) vf_bound_("event loop turns");
            const bool alive = w.s->object();
            for (Waiter *p : {&x, &y}) {
                if (!p->begun) continue;
                if (p->timed) vf::check(p->resumed == 1, "the waiter resumes at the timeout at the latest");
                if (p->first != None && alive) vf::check(p->resumed == 1, "the waiter resumes when what it waits for happened or became impossible");
            }
            vf::log("resumed", x.resumed); vf::log("result", x.result);
            vf::reach(!x.resumed ? "waiting" : x.result ? "success" : "no success");
            if (!t.isReady()) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.s->object()) vf::check(vqt::connections(w.s->object()) == 0, "no connection is left behind");
    }
    scope.finish();
}
HARNESS(h_c28_core) { letsGo(0, 4, BOUND(3, 4), 20); }
HARNESS(h_c28_sockets) { letsGo(4, 8, BOUND(3, 4), 20); }
HARNESS(h_c28_others) { letsGo(8, 12, BOUND(3, 4), 20); }
