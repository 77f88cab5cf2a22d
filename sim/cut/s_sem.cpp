// Semaphore and events against their reference models.
#include "common.hpp"
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
namespace bs = boost::sync;

enum { CTR_UNITS = 0 };
enum { OP_POST, OP_WAIT, OP_TRY, OP_TIMED, OP_RESET, OP_SLEEP };
static const char* opname(int c) { static const char* n[] = {"post", "wait", "try_wait", "timed_wait", "reset", "sleep"}; return n[c]; }

template<class T> struct Tr;
template<> struct Tr<bs::semaphore> { enum { MODEL = M_SEM, POST = K_SPOST, WAIT = K_SWAIT, TRY = K_STRY, TIMED = K_STIMED }; static bs::semaphore* make(int n) { return new bs::semaphore(n); } static void post(bs::semaphore& s) { s.post(); } static void reset(bs::semaphore&) {} };
template<> struct Tr<bs::auto_reset_event> { enum { MODEL = M_ARE, POST = K_APOST, WAIT = K_AWAIT, TRY = K_ATRY, TIMED = K_ATIMED }; static bs::auto_reset_event* make(int) { return new bs::auto_reset_event(); } static void post(bs::auto_reset_event& s) { s.post(); } static void reset(bs::auto_reset_event&) {} };
template<> struct Tr<bs::manual_reset_event> { enum { MODEL = M_MRE, POST = K_ESET, WAIT = K_EWAIT, TRY = K_ETRY, TIMED = K_ETIMED }; static bs::manual_reset_event* make(int) { return new bs::manual_reset_event(); } static void post(bs::manual_reset_event& s) { s.set(); } static void reset(bs::manual_reset_event& s) { s.reset(); } };

template<class T> struct G { static T* o; static int obj; };
template<class T> T* G<T>::o; template<class T> int G<T>::obj;

template<class T, class Time> static bool timed_call(T& o, Time const& t, int api) {
    if constexpr (is_dur<Time>::value) { if (api) return o.wait_for(t); }
    else { if (api) return o.wait_until(t); }
    return o.timed_wait(t);
}
template<class T> static void work(int th) {
    T& o = *G<T>::o; int obj = G<T>::obj;
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp p = sim_op(th, i);
        switch (p.code) {
        case OP_POST: { int op = sim_inv(obj, Tr<T>::POST, 0); Tr<T>::post(o); sim_res(op, 1); sim_ctr_add(CTR_UNITS, 1); break; }
        case OP_WAIT: { int op = sim_inv(obj, Tr<T>::WAIT, 0); o.wait(); sim_res(op, 1); sim_ctr_add(CTR_UNITS, -1); break; }
        case OP_TRY: { int op = sim_inv(obj, Tr<T>::TRY, 0); bool r = o.try_wait(); sim_res(op, r); sim_ctr_add(CTR_UNITS, -(long)r); break; }
        case OP_TIMED: { int op = sim_inv(obj, Tr<T>::TIMED, 0); long long ns = (long long)p.a * 100000;
            bool r = with_time_small(op, p.c & 15, ns, [&](auto t) -> long { return timed_call(o, t, p.c & 16); });
            sim_res(op, r); sim_ctr_add(CTR_UNITS, -(long)r); break; }
        case OP_RESET: { int op = sim_inv(obj, K_ERESET, 0); Tr<T>::reset(o); sim_res(op, 1); break; }
        case OP_SLEEP: sim_sleep((long long)p.a * 100000); break;
        }
    }
}
template<class T> static void run_main() {
    T* o = Tr<T>::make(sim_param(0)); G<T>::o = o; int many = sim_param(1);
    if (many > 4000) sim_quiet(1);
    for (int i = 0; i < many; i++) { Tr<T>::post(*o); if ((int)Tr<T>::MODEL == M_MRE && (i & 1) == (many & 1)) Tr<T>::reset(*o); } // a long past without contention
    sim_quiet(0);
    int obj = G<T>::obj = sim_obj(Tr<T>::MODEL, o, (int)Tr<T>::MODEL == M_SEM ? sim_param(0) + many : many > 0);
    spawn_workers(work<T>);
    int blocked = sim_quiesce();
    for (int k = 0; blocked && k < 8 * SIM_MAXT; k++) { // release whoever is legitimately blocked
        int op = sim_inv(obj, Tr<T>::POST, 0); Tr<T>::post(*o); sim_res(op, 1); sim_ctr_add(CTR_UNITS, 1);
        int b2 = sim_quiesce();
        if (k > 24 && b2 >= blocked) sim_violation("lost-post", "posting does not release a blocked thread");
        blocked = b2;
    }
    EXPECT(!blocked, "lost-post", "%d threads stay blocked although the object was posted repeatedly", blocked);
    join_workers();
    for (int k = 0; k < 3; k++) { int op = sim_inv(obj, Tr<T>::TRY, 0); bool r = o->try_wait(); sim_res(op, r); sim_ctr_add(CTR_UNITS, -(long)r); if (!r) break; }
    if ((int)Tr<T>::MODEL == M_SEM) { // conservation: exactly the units that were not taken are left
        long left = sim_param(0) + many + sim_ctr(CTR_UNITS);
        if (left < 6000) { for (long k = 0; k < left; k++) EXPECT(o->try_wait(), "history-semaphore", "%ld units are missing", left - k); EXPECT(!o->try_wait(), "history-semaphore", "more units than were posted"); }
    }
    delete o;
    EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}
static int tmo(SimGen& g) { return g.chance(20) ? -g.range(0, 30) : g.range(0, 50); }
static void gen_common(SimGen& g, int kind) { // 0 sem, 1 are, 2 mre
    int n = g.p->nthreads = g.range(2, 5);
    g.p->params[0] = kind == 0 && g.chance(40) ? g.range(1, 2) : 0;
    if (g.chance(2)) g.p->params[1] = g.chance(85) ? g.range(1, 300) : g.chance(90) ? g.range(300, kind == 0 ? 1500 : 4000) : g.range(65000, 70000);
    if (kind == 0 && g.chance(3)) { static const int big[] = {255, 256, 1023, 1024, 65535, 65536, 2147483600}; g.p->params[1] = 0; g.p->params[0] = big[g.below(7)]; }
    int style = g.below(4);
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, n > 3 ? 3 : 4); i < k; i++) {
        int r = g.below(100); int c;
        if (style == 0) c = t == 0 || (t == 1 && n > 3) ? OP_POST : (r < 40 ? OP_WAIT : r < 60 ? OP_TRY : OP_TIMED);      // producers and consumers
        else if (style == 1) c = r < 45 ? OP_POST : r < 60 ? OP_WAIT : r < 75 ? OP_TRY : OP_TIMED;
        else if (style == 2) c = t == 0 ? (r < 70 ? OP_POST : OP_SLEEP) : (r < 20 ? OP_POST : r < 30 ? OP_TRY : OP_TIMED);    // many timeouts
        else c = t < n / 2 ? OP_POST : OP_WAIT;
        if (kind == 2 && c == OP_POST && g.chance(40)) c = OP_RESET;
        if (c == OP_TIMED) g.op(t, c, tmo(g), 0, g.below(TY_SMALL_N) + (g.chance(50) ? 16 : 0)); else if (c == OP_SLEEP) g.op(t, c, g.range(1, 40)); else g.op(t, c);
    }
}
static void gen_sem(SimGen& g) { gen_common(g, 0); }
static void gen_are(SimGen& g) { gen_common(g, 1); }
static void gen_mre(SimGen& g) { gen_common(g, 2); }
static void m_sem() { run_main<bs::semaphore>(); }
static void m_are() { run_main<bs::auto_reset_event>(); }
static void m_mre() { run_main<bs::manual_reset_event>(); }
static const unsigned BASE = FB(F_EINTR) | FB(F_SPURIOUS) | FB(F_WEAKCAS) | FB(F_STALE) | FB(F_STALL) | FB(F_EXPIRE) | FB(F_WAKEORDER) | FB(F_CLOCKJUMP);
SCENARIOS(
    {"semaphore", gen_sem, m_sem, BASE, SCN_WEAK, opname},
    {"auto_reset_event", gen_are, m_are, BASE, SCN_WEAK, opname},
    {"manual_reset_event", gen_mre, m_mre, BASE, SCN_WEAK, opname},
)
