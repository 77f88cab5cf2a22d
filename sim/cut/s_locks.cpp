// Locks: mutual exclusion, truthful try/timed attempts, progress, publication through locks.
#include <boost/sync/mutexes/shared_spin_mutex.hpp>   // first: must be usable on its own
#include "common.hpp"
#include <boost/move/utility_core.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/assert.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
namespace bs = boost::sync;

enum { OP_LOCK, OP_GUARD, OP_UNIQUE, OP_UNLOCKGUARD, OP_TRY, OP_UTRY, OP_TIMED, OP_SHARED, OP_SGUARD, OP_SLOCK, OP_STRY, OP_SUTRY, OP_HOLD, OP_SHOLD };
static const char* opname(int c) { static const char* n[] = {"lock", "lock_guard", "unique_lock", "unlock_guard", "try_lock", "unique_lock(try)", "timed_lock", "lock_shared", "shared_lock_guard", "shared_lock", "try_lock_shared", "shared_lock(try)", "hold", "hold_shared"}; return n[c]; }

struct Data { long a, b; };
template<class M> struct G { static M* m; static Data* d; static int obj; };
template<class M> M* G<M>::m; template<class M> Data* G<M>::d; template<class M> int G<M>::obj;
enum { CTR_INC = 0, CTR_DONE = 1 };

template<class M> static void body_x(int steps) {
    Data* d = G<M>::d;
    sim_cs_enter(0, 0);
    long v = d->a; EXPECT(d->b == v, "torn-data", "protected data inconsistent: %ld %ld", v, d->b);
    for (int i = 0; i < steps; i++) sim_yield();
    d->a = v + 1; d->b = v + 1;
    sim_ctr_add(CTR_INC, 1);
    sim_cs_leave(0, 0);
}
template<class M> static void body_s(int steps) {
    Data* d = G<M>::d;
    sim_cs_enter(0, 1);
    long v = d->a; for (int i = 0; i < steps; i++) sim_yield();
    EXPECT(d->b == v, "torn-data", "data changed under shared ownership");
    sim_cs_leave(0, 1);
}
#define REC(kind, expr) do { int op_ = sim_inv(G<M>::obj, kind, 0); expr; sim_res(op_, 1); } while (0)

// keep the lock until every other thread has finished: their attempts must all return
template<class M> static void hold() {
    int k = 0; for (; k < 400 && sim_ctr(CTR_DONE) < sim_nthreads() - 1; k++) sim_sleep(1000000);
    EXPECT(k < 400 || sim_faults_fired(F_CLOCKJUMP), "blocked-try", "a try or timed attempt, or a shared acquisition next to a shared owner, does not return while the lock is held");
}
template<class M> static void unlock_x() { REC(K_UNLOCK, G<M>::m->unlock()); }
template<class M> static void common_op(SimOp o) {
    M& m = *G<M>::m; int obj = G<M>::obj;
    switch (o.code) {
    case OP_LOCK: REC(K_LOCK, m.lock()); body_x<M>(o.b); unlock_x<M>(); break;
    case OP_GUARD: { int op = sim_inv(obj, K_LOCK, 0); int op2; { bs::lock_guard<M> l(m); sim_res(op, 1); body_x<M>(o.b); op2 = sim_inv(obj, K_UNLOCK, 0); } sim_res(op2, 1); break; }
    case OP_UNIQUE: { int op = sim_inv(obj, K_LOCK, 0); bs::unique_lock<M> l(m); sim_res(op, 1); body_x<M>(o.b); op = sim_inv(obj, K_UNLOCK, 0); l.unlock(); sim_res(op, 1);
                      if (o.c & 1) { op = sim_inv(obj, K_LOCK, 0); l.lock(); sim_res(op, 1); body_x<M>(o.b); op = sim_inv(obj, K_UNLOCK, 0); { bs::unique_lock<M> tmp(boost::move(l)); } sim_res(op, 1); } break; }
    case OP_UNLOCKGUARD: { int op = sim_inv(obj, K_LOCK, 0); bs::unique_lock<M> l(m); sim_res(op, 1); body_x<M>(0);
                      op = sim_inv(obj, K_UNLOCK, 0); { bs::unlock_guard<bs::unique_lock<M> > u(l); sim_res(op, 1); sim_yield(); op = sim_inv(obj, K_LOCK, 0); } sim_res(op, 1);
                      body_x<M>(o.b); op = sim_inv(obj, K_UNLOCK, 0); l.unlock(); sim_res(op, 1); break; }
    case OP_TRY: { int op = sim_inv(obj, K_TRYLOCK, 0); bool r = m.try_lock(); sim_res(op, r); if (r) { body_x<M>(o.b); unlock_x<M>(); } break; }
    case OP_UTRY: { int op = sim_inv(obj, K_TRYLOCK, 0); bs::unique_lock<M> l(m, bs::try_to_lock); bool r = l.owns_lock(); sim_res(op, r); if (r) { body_x<M>(o.b); op = sim_inv(obj, K_UNLOCK, 0); l.unlock(); sim_res(op, 1); } break; }
    case OP_HOLD: REC(K_LOCK, m.lock()); body_x<M>(0); hold<M>(); unlock_x<M>(); break;
    }
}
template<class M> struct Timed { static void op(SimOp) {} };
template<> struct Timed<bs::timed_mutex> {
    static void op(SimOp o) {
        typedef bs::timed_mutex M; M& m = *G<M>::m; int obj = G<M>::obj;
        long long ns = (long long)o.a * 100000;
        int op = sim_inv(obj, K_TIMEDLOCK, 0);
        bool r = with_time_small(op, o.c & 15, ns, [&](auto t) -> long {
            bool q;
            switch (o.c >> 4) {
            case 1: { bs::unique_lock<M> l(m, bs::defer_lock); q = l.timed_lock(t); if (q) l.release(); return q; }
            case 2: { if constexpr (is_dur<decltype(t)>::value) return m.try_lock_for(t); else return m.try_lock_until(t); }
            case 3: { bs::unique_lock<M> l(m, bs::defer_lock); if constexpr (is_dur<decltype(t)>::value) q = l.try_lock_for(t); else q = l.try_lock_until(t); if (q) l.release(); return q; }
            case 4: { bs::unique_lock<M> l(m, t); q = l.owns_lock(); if (q) l.release(); return q; }
            }
            return m.timed_lock(t); });
        sim_res(op, r);
        if (r) { body_x<M>(o.b); unlock_x<M>(); }
    }
};
template<class M> struct Shared { static void op(SimOp) {} };
template<> struct Shared<bs::shared_spin_mutex> {
    static void op(SimOp o) {
        typedef bs::shared_spin_mutex M; M& m = *G<M>::m; int obj = G<M>::obj;
        switch (o.code) {
        case OP_SHOLD: REC(K_SLOCK, m.lock_shared()); body_s<M>(0); hold<M>(); REC(K_SUNLOCK, m.unlock_shared()); break;
        case OP_SHARED: REC(K_SLOCK, m.lock_shared()); body_s<M>(o.b); REC(K_SUNLOCK, m.unlock_shared()); break;
        case OP_SGUARD: { int op = sim_inv(obj, K_SLOCK, 0); int op2; { bs::shared_lock_guard<M> l(m); sim_res(op, 1); body_s<M>(o.b); op2 = sim_inv(obj, K_SUNLOCK, 0); } sim_res(op2, 1); break; }
        case OP_SLOCK: { int op = sim_inv(obj, K_SLOCK, 0); bs::shared_lock<M> l(m); sim_res(op, 1); body_s<M>(o.b); op = sim_inv(obj, K_SUNLOCK, 0); l.unlock(); sim_res(op, 1); break; }
        case OP_STRY: { int op = sim_inv(obj, K_STRYLOCK, 0); bool r = m.try_lock_shared(); sim_res(op, r); if (r) { body_s<M>(o.b); REC(K_SUNLOCK, m.unlock_shared()); } break; }
        case OP_SUTRY: { int op = sim_inv(obj, K_STRYLOCK, 0); bs::shared_lock<M> l(m, bs::try_to_lock); bool r = l.owns_lock(); sim_res(op, r); if (r) { body_s<M>(o.b); op = sim_inv(obj, K_SUNLOCK, 0); l.unlock(); sim_res(op, 1); } break; }
        }
    }
};
template<class M> static void work(int t) {
    for (int i = 0; i < sim_nops(t); i++) {
        SimOp o = sim_op(t, i);
        if (o.code == OP_TIMED) Timed<M>::op(o);
        else if ((o.code >= OP_SHARED && o.code <= OP_SUTRY) || o.code == OP_SHOLD) Shared<M>::op(o);
        else common_op<M>(o);
    }
    sim_ctr_add(CTR_DONE, 1);
}
template<class M> static void many_shared(M&, int) {}
static void many_shared(bs::shared_spin_mutex& m, int n) { // any number of shared owners
    if (n > 4500) sim_quiet(1);
    for (int i = 0; i < n; i++) {
        if (i & 1) m.lock_shared(); else EXPECT(m.try_lock_shared(), "history-rwlock", "try_lock_shared failed with %d shared owners and no exclusive owner", i);
        if ((i & (i + 1)) == 0) EXPECT(!m.try_lock(), "exclusion", "exclusive lock acquired with %d shared owners", i + 1);
    }
    for (int i = n; i > 0; i--) { if ((i & (i - 1)) == 0) EXPECT(!m.try_lock(), "exclusion", "exclusive lock acquired with %d shared owners", i); m.unlock_shared(); }
    sim_quiet(0);
}
template<class M> static void run_main(int model) {
    M* m = new M(); many_shared(*m, sim_param(0)); G<M>::m = m; G<M>::d = new Data(); G<M>::d->a = G<M>::d->b = 0;
    G<M>::obj = sim_obj(model, m, 0);
    spawn_workers(work<M>);
    int blocked = sim_quiesce();
    if (blocked) { // nobody is inside a critical section: either the lock is free and its waiters were forgotten, or a released or refused ownership was kept
        bool f = m->try_lock();
        if (!f) sim_violation("residue", "%d threads are blocked forever on a lock that nobody owns and that try_lock cannot acquire", blocked);
        sim_violation("deadlock", "%d threads are blocked forever on a free lock", blocked);
    }
    join_workers();
    EXPECT(G<M>::d->a == sim_ctr(CTR_INC), "lost-update", "protected counter is %ld after %ld increments", G<M>::d->a, sim_ctr(CTR_INC));
    // the lock must be free again
    int op = sim_inv(G<M>::obj, K_TRYLOCK, 0); bool r = m->try_lock(); sim_res(op, r);
    EXPECT(r, "residue", "lock cannot be acquired although nobody owns it");
    op = sim_inv(G<M>::obj, K_UNLOCK, 0); m->unlock(); sim_res(op, 1);
    delete m; delete G<M>::d;
    EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}
static int shape(SimGen& g) { g.p->nthreads = g.range(2, 4); return g.p->nthreads; }
static void gen_basic(SimGen& g) {
    int n = shape(g);
    if (g.chance(8)) { g.op(0, OP_HOLD); for (int t = 1; t < n; t++) for (int i = 0, k = g.range(1, 3); i < k; i++) g.op(t, g.chance(50) ? OP_TRY : OP_UTRY, 0, g.below(2)); return; }
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 4); i < k; i++) { static const int c[] = {OP_LOCK, OP_GUARD, OP_UNIQUE, OP_UNLOCKGUARD, OP_TRY, OP_UTRY}; g.op(t, c[g.below(6)], 0, g.below(3), g.below(2)); }
}
static void gen_timed(SimGen& g) {
    int n = shape(g);
    if (g.chance(15)) { // an owner that waits for the timed attempts to give up
        g.op(0, OP_HOLD, 0, 0, 0);
        for (int t = 1; t < n; t++) for (int i = 0, k = g.range(1, 2); i < k; i++) g.op(t, OP_TIMED, g.range(-5, 60), g.below(2), g.below(TY_SMALL_N) + 16 * (g.chance(50) ? g.range(1, 4) : 0));
        if (g.chance(40)) for (int t = 1; t < n; t++) g.op(t, g.chance(50) ? OP_TRY : OP_UTRY, 0, g.below(2));
        return;
    }
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 4); i < k; i++) {
        if (g.chance(45)) g.op(t, OP_TIMED, g.chance(20) ? -g.range(0, 40) : g.range(0, 60), g.below(3), g.below(TY_SMALL_N) + 16 * (g.chance(50) ? g.range(1, 4) : 0));
        else { static const int c[] = {OP_LOCK, OP_GUARD, OP_UNIQUE, OP_UNLOCKGUARD, OP_TRY, OP_UTRY}; g.op(t, c[g.below(6)], 0, g.below(4), g.below(2)); }
    }
}
static void gen_shared(SimGen& g) {
    int n = shape(g); int wr = g.below(3); if (g.chance(1)) g.p->params[0] = g.chance(90) ? g.range(2, 300) : g.chance(80) ? g.range(300, 4500) : g.range(65000, 70000);
    if (g.chance(12)) { bool sh = g.chance(60); g.op(0, sh ? OP_SHOLD : OP_HOLD); for (int t = 1; t < n; t++) for (int i = 0, k = g.range(1, 3); i < k; i++) { static const int c[] = {OP_TRY, OP_UTRY, OP_STRY, OP_SUTRY, OP_SHARED, OP_SGUARD, OP_SLOCK}; g.op(t, c[g.below(sh ? 7 : 4)], 0, g.below(2)); } return; }
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 4); i < k; i++) {
        bool w = wr == 0 ? t == 0 : wr == 1 ? g.chance(50) : g.chance(15);
        if (w) { static const int c[] = {OP_LOCK, OP_GUARD, OP_UNIQUE, OP_TRY, OP_UTRY}; g.op(t, c[g.below(5)], 0, g.below(3), g.below(2)); }
        else { static const int c[] = {OP_SHARED, OP_SGUARD, OP_SLOCK, OP_STRY, OP_SUTRY}; g.op(t, c[g.below(5)], 0, g.below(3), 0); }
    }
}
static void m_mutex() { run_main<bs::mutex>(M_MUTEX); }
static void m_timed() { run_main<bs::timed_mutex>(M_MUTEX); }
static void m_spin() { run_main<bs::spin_mutex>(M_MUTEX); }
static void m_sspin() { run_main<bs::shared_spin_mutex>(M_RW); }
static const unsigned BASE = FB(F_EINTR) | FB(F_SPURIOUS) | FB(F_WEAKCAS) | FB(F_STALE) | FB(F_STALL) | FB(F_EXPIRE) | FB(F_WAKEORDER);
SCENARIOS(
    {"mutex", gen_basic, m_mutex, BASE, SCN_WEAK, opname},
    {"timed_mutex", gen_timed, m_timed, BASE | FB(F_CLOCKJUMP), SCN_WEAK, opname},
    {"spin_mutex", gen_basic, m_spin, BASE, SCN_WEAK, opname},
    {"shared_spin_mutex", gen_shared, m_sspin, BASE, SCN_WEAK, opname},
)
