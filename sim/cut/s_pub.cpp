// Publication: what was written before post/set is visible after the wait it satisfied (weak memory, race detection).
#include "common.hpp"
#include <atomic>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
namespace bs = boost::sync;

enum { OP_WAIT, OP_TRY, OP_TIMED, OP_POST, OP_YIELD };
static const char* opname(int c) { static const char* n[] = {"wait", "try_wait", "timed_wait", "post", "yield"}; return n[c]; }
static void post(bs::semaphore& o) { o.post(); }
static void post(bs::auto_reset_event& o) { o.post(); }
static void post(bs::manual_reset_event& o) { o.set(); }
template<class T> struct Mk { static T* make() { return new T(); } };
template<> struct Mk<bs::semaphore> { static bs::semaphore* make() { return new bs::semaphore(0); } };

struct Sh { long payload[8]; std::atomic<int> flag[8]; long ack; };
static Sh* g;
template<class T> struct G { static T *a, *b; };
template<class T> T* G<T>::a; template<class T> T* G<T>::b;
enum { CTR_DONEPOSTS = 1, CTR_SEEN = 2, CTR_CONSDONE = 3 };

template<class T> static bool timed(T& o, int how, long long ns) {
    typedef std::chrono::nanoseconds N;
    switch (how) {
    case 0: return o.wait_for(N(ns));
    case 1: return o.wait_until(std::chrono::steady_clock::time_point(N(sim_mono() + ns)));
    case 2: return o.wait_until(std::chrono::system_clock::time_point(N(sim_real() + ns)));
    default: return o.timed_wait(std::chrono::microseconds(ns / 1000));
    }
}
// one successful acquisition, by whatever call the operation names
template<class T> static void acquire(T& o, SimOp p) {
    switch (p.code) {
    case OP_TRY: for (int i = 0; i < 6; i++) { if (o.try_wait()) return; sim_yield(); } break;
    case OP_TIMED: for (int i = 0; i < 4; i++) if (timed(o, (p.b + i) & 3, p.a * 50000LL)) return; break;
    }
    o.wait();
}
// mode 0: strict alternation between two threads
template<class T> static void pingpong(int th) {
    int rounds = sim_nops(0) < sim_nops(1) ? sim_nops(0) : sim_nops(1);
    for (int i = 0; i < rounds; i++) {
        if (th == 0) { g->payload[i & 7] = 100 + i; post(*G<T>::a); acquire(*G<T>::b, sim_op(0, i)); EXPECT(g->ack == 100 + i, "publication", "acknowledgement of round %d not visible", i); }
        else if (th == 1) { acquire(*G<T>::a, sim_op(1, i)); EXPECT(g->payload[i & 7] == 100 + i, "publication", "payload of round %d not visible", i); g->ack = g->payload[i & 7]; post(*G<T>::b); }
    }
}
// mode 1: thread 0 publishes once (and may post again), the others consume
template<class T> static void fanout(int th) {
    if (th == 0) { g->payload[0] = 42; g->payload[1] = 43; for (int i = 0; i < sim_nthreads() - 1; i++) { post(*G<T>::a); if (sim_nops(0) > i && sim_op(0, i).code == OP_YIELD) sim_yield(); } }
    else if (sim_nops(th)) { acquire(*G<T>::a, sim_op(th, 0)); EXPECT(g->payload[0] == 42 && g->payload[1] == 43, "publication", "data written before the first post not visible"); if (sim_nops(th) > 1 && sim_param(1)) post(*G<T>::a); }
}
// mode 2: several producers, one consumer that drains everything after every wait; posts may find the object already signalled
template<class T> static void drain(int th) {
    int n = sim_nthreads();
    if (th != n - 1) { for (int i = 0; i < sim_nops(th); i++) { g->flag[th].store(i + 1, std::memory_order_relaxed); post(*G<T>::a); } sim_ctr_add(CTR_DONEPOSTS, 1); return; }
    int posts = 0; for (int k = 0; k < n - 1; k++) posts += sim_nops(k);
    if (posts) for (int i = 0; i < 40; i++) {
        SimOp p = {OP_WAIT, 0, 0, 0}; if (i < sim_nops(th)) p = sim_op(th, i);
        acquire(*G<T>::a, p);
        bool all = true; for (int k = 0; k < n - 1; k++) if (g->flag[k].load(std::memory_order_relaxed) < sim_nops(k)) all = false;
        if (all) { sim_ctr_set(CTR_CONSDONE, 1); return; }
    }
}
template<class T> static void body(int th) { switch (sim_param(0)) { case 0: pingpong<T>(th); break; case 1: fanout<T>(th); break; default: drain<T>(th); } }
template<class T> static void run() {
    G<T>::a = Mk<T>::make(); G<T>::b = Mk<T>::make(); g = new Sh; for (int i = 0; i < 8; i++) { g->payload[i] = 0; g->flag[i].store(0); } g->ack = 0;
    spawn_workers(body<T>);
    int b = sim_quiesce();
    if (sim_param(0) == 1) for (int k = 0; b && k < 12; k++) { post(*G<T>::a); b = sim_quiesce(); } // an auto_reset_event may absorb posts
    if (b && sim_param(0) == 2) sim_violation("publication", "consumer blocks although data published by completed posts was not visible to its last wait");
    EXPECT(!b, "stuck", "%d threads are blocked forever", b);
    join_workers();
    delete G<T>::a; delete G<T>::b; delete g;
}
static void gen(SimGen& s, int modes) {
    int m; do m = s.below(3); while (!(modes >> m & 1)); s.p->params[0] = m; s.p->params[1] = s.below(2);
    static const int w[] = {OP_WAIT, OP_TRY, OP_TIMED};
    if (m == 0) { s.p->nthreads = 2; int r = s.range(1, 5); for (int t = 0; t < 2; t++) for (int i = 0; i < r; i++) s.op(t, w[s.below(3)], s.range(0, 10), s.below(4)); }
    else if (m == 1) { int n = s.p->nthreads = s.range(2, 4); for (int i = 0; i < 3; i++) s.op(0, s.chance(50) ? OP_YIELD : OP_POST); for (int t = 1; t < n; t++) { s.op(t, w[s.below(3)], s.range(0, 10), s.below(4)); if (s.chance(30)) s.op(t, OP_POST); } }
    else { int n = s.p->nthreads = s.range(2, 4); for (int t = 0; t < n - 1; t++) for (int i = 0, k = s.range(1, 3); i < k; i++) s.op(t, OP_POST); for (int i = 0; i < 3; i++) s.op(n - 1, w[s.below(3)], s.range(0, 10), s.below(4)); }
}
static void gen_sem(SimGen& s) { gen(s, 7); }
static void gen_are(SimGen& s) { gen(s, 7); }
static void gen_mre(SimGen& s) { gen(s, 2); }
static void m_sem() { run<bs::semaphore>(); }
static void m_are() { run<bs::auto_reset_event>(); }
static void m_mre() { run<bs::manual_reset_event>(); }
static const unsigned BASE = FB(F_EINTR) | FB(F_SPURIOUS) | FB(F_WEAKCAS) | FB(F_STALE) | FB(F_STALL) | FB(F_EXPIRE) | FB(F_WAKEORDER);
SCENARIOS(
    {"pub_semaphore", gen_sem, m_sem, BASE, SCN_WEAK, opname},
    {"pub_auto_reset_event", gen_are, m_are, BASE, SCN_WEAK, opname},
    {"pub_manual_reset_event", gen_mre, m_mre, BASE, SCN_WEAK, opname},
)
