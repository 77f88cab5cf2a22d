// Condition variables: notification histories, lock discipline of waits, predicate waits, user locks that throw.
#include "common.hpp"
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
namespace bs = boost::sync;

enum { OP_WAIT, OP_TIMED, OP_N1, OP_NALL, OP_SLEEP, OP_PROD, OP_CONS, OP_CONST, OP_NOISE };
static const char* opname(int c) { static const char* n[] = {"wait", "timed_wait", "notify_one", "notify_all", "sleep", "produce", "consume", "timed_consume", "noise"}; return n[c]; }
struct UserEx { int where; };

// ---------------------------------------------------------------- policies
// P::CV, P::M, P::Lock (the object passed to wait), P::XLock (exclusive lock used by notifiers)
template<class Mx> struct PCv { // condition_variable with unique_lock
    typedef bs::condition_variable CV; typedef Mx M; enum { SHARED = 0, THROWS = 0 };
    struct Lock { bs::unique_lock<M> l; explicit Lock(M& m) : l(m) {} bs::unique_lock<M>& get() { return l; } bool owned(M& m) { return l.owns_lock() && l.mutex() == &m && sim_mutex_owner(m.native_handle()) == sim_self(); } void drop() { l.unlock(); } };
    typedef Lock XLock;
    static long arg(M& m) { return (long)m.native_handle(); }
};
template<class Mx> struct PAnyU { // condition_variable_any with the library's unique_lock
    typedef bs::condition_variable_any CV; typedef Mx M; enum { SHARED = 0, THROWS = 0 };
    struct Lock { bs::unique_lock<M> l; explicit Lock(M& m) : l(m) {} bs::unique_lock<M>& get() { return l; } bool owned(M& m) { return l.owns_lock() && l.mutex() == &m; } void drop() { l.unlock(); } };
    typedef Lock XLock;
    static long arg(M&) { return 0; }
};
struct PAnyRaw { // condition_variable_any with a bare mutex
    typedef bs::condition_variable_any CV; typedef bs::mutex M; enum { SHARED = 0, THROWS = 0 };
    struct Lock { M& m; bool on; explicit Lock(M& x) : m(x), on(true) { m.lock(); } ~Lock() { if (on) m.unlock(); } M& get() { return m; } bool owned(M& x) { return sim_mutex_owner(x.native_handle()) == sim_self(); } void drop() { on = false; m.unlock(); } };
    typedef Lock XLock;
    static long arg(M& m) { return (long)m.native_handle(); }
};
template<class Inner> struct Adapter { // user-defined BasicLockable over a library lock: counts ownership and marks its release
    Inner l; int n; bool throws; bool threw_lock;
    template<class M> Adapter(M& m, bool t) : l(m), n(1), throws(t), threw_lock(false) {}
    void lock() {
        EXPECT(n == 0, "cv-lock", "user lock locked while already owned (%d)", n);
        sim_yield();
        if (throws && sim_fault(F_USER)) { threw_lock = true; throw UserEx{1}; }
        l.lock(); n++;
    }
    void unlock() {
        EXPECT(n == 1, "cv-lock", "user lock unlocked while not owned (%d)", n);
        if (throws && sim_fault(F_USER)) throw UserEx{2};
        n--; l.unlock(); sim_mark_release(); sim_yield();
    }
};
template<class Mx, class LockT, int SH, int TH> struct PAnyA {
    typedef bs::condition_variable_any CV; typedef Mx M; enum { SHARED = SH, THROWS = TH };
    struct Lock { Adapter<LockT> a; explicit Lock(M& m) : a(m, TH) {} Adapter<LockT>& get() { return a; } bool owned(M& m) { return a.n == 1 && a.l.owns_lock() && a.l.mutex() == &m; } void drop() { if (a.n) { a.n = 0; a.l.unlock(); } } };
    struct XLock { bs::unique_lock<M> l; explicit XLock(M& m) : l(m) {} void drop() { l.unlock(); } };
    static long arg(M&) { return 0; }
};

template<class P> struct G { static typename P::CV* cv; static typename P::M* m; static long* items; static int obj; };
template<class P> typename P::CV* G<P>::cv; template<class P> typename P::M* G<P>::m; template<class P> long* G<P>::items; template<class P> int G<P>::obj;

template<class CV, class L, class T> static long timed_call(CV& cv, L& l, T const& t, int api) {
    if (!api) return cv.timed_wait(l, t);
    if constexpr (is_dur<T>::value) return cv.wait_for(l, t) == bs::cv_status::no_timeout;
    else return cv.wait_until(l, t) == bs::cv_status::no_timeout;
}
template<class CV, class L, class T, class Pr> static long timed_pcall(CV& cv, L& l, T const& t, Pr p, int api) {
    if (!api) return cv.timed_wait(l, t, p);
    if constexpr (is_dur<T>::value) return cv.wait_for(l, t, p);
    else return cv.wait_until(l, t, p);
}
enum { CS = 0 };
template<class P> static void notify(int kind, int mode) { // mode 0 under the lock, 1 after releasing it, 2 without
    typename P::CV& cv = *G<P>::cv; int op;
    if (mode == 2) { op = sim_inv(G<P>::obj, kind, 0); if (kind == K_CNOTIFY1) cv.notify_one(); else cv.notify_all(); sim_res(op, 1); return; }
    typename P::XLock l(*G<P>::m);
    sim_cs_enter(CS, 0); sim_yield(); sim_cs_leave(CS, 0);
    if (mode == 1) l.drop();
    op = sim_inv(G<P>::obj, kind, 0); if (kind == K_CNOTIFY1) cv.notify_one(); else cv.notify_all(); sim_res(op, 1);
}
template<class P> static void after_wait(typename P::Lock& l, int held, bool threw_lock) {
    EXPECT(threw_lock || l.owned(*G<P>::m), "cv-lock", "wait returned without the lock");
    EXPECT(sim_nheld() == held - (threw_lock && held ? 1 : 0), "cv-lock", "thread %d owns %d native mutexes after the wait, %d before", sim_self(), sim_nheld(), held);
}
template<class P> static bool lock_threw(typename P::Lock& l) { if constexpr (P::THROWS) return l.a.threw_lock; else return false; }
template<class P> static void wait_op(SimOp o) {
    typename P::CV& cv = *G<P>::cv; typename P::M& m = *G<P>::m;
    typename P::Lock l(m);
    int held = sim_nheld();
    sim_cs_enter(CS, P::SHARED); sim_yield(); sim_cs_leave(CS, P::SHARED);
    int op = sim_inv(G<P>::obj, o.code == OP_WAIT ? K_CWAIT : K_CTIMED, P::arg(m));
    bool threw = false;
    try {
        if (o.code == OP_WAIT) { cv.wait(l.get()); sim_res(op, 1); }
        else { long r = with_time_small(op, o.c & 15, (long long)o.a * 100000, [&](auto t) -> long { return timed_call(cv, l.get(), t, o.c & 16); }); sim_res(op, r); }
    } catch (UserEx&) { threw = true; sim_res_ex(op); }
    bool tl = lock_threw<P>(l);
    after_wait<P>(l, held, tl);
    if (!tl) { sim_cs_enter(CS, P::SHARED); if (threw) sim_probe(1); sim_yield(); sim_cs_leave(CS, P::SHARED); }
    if (!tl) l.drop();
}
template<class P> static void work_hist(int th) {
    for (int i = 0; i < sim_nops(th); i++) { SimOp o = sim_op(th, i);
        switch (o.code) {
        case OP_WAIT: case OP_TIMED: wait_op<P>(o); break;
        case OP_N1: notify<P>(K_CNOTIFY1, o.b); break;
        case OP_NALL: notify<P>(K_CNOTIFYALL, o.b); break;
        case OP_SLEEP: sim_sleep((long long)o.a * 100000); break;
        } }
}
template<class P> static void run_hist() {
    G<P>::cv = new typename P::CV(); G<P>::m = new typename P::M(); G<P>::items = 0;
    G<P>::obj = sim_obj(M_CV, G<P>::cv, 0);
    spawn_workers(work_hist<P>);
    int b = sim_quiesce();
    for (int k = 0; b && k < 4 * SIM_MAXT; k++) {
        notify<P>(k == 0 ? K_CNOTIFY1 : K_CNOTIFYALL, k % 3);
        int b2 = sim_quiesce();
        EXPECT(b2 < b || k < 24, "lost-notify", "notifications do not release %d blocked threads", b);
        b = b2;
    }
    EXPECT(!b, "lost-notify", "%d threads stay blocked", b);
    join_workers();
    EXPECT(G<P>::m->try_lock(), "residue", "mutex still locked");
    G<P>::m->unlock();
    delete G<P>::cv; delete G<P>::m;
    EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}

// ---------------------------------------------------------------- predicate waits
enum { CTR_ITEMS = 1, CTR_BLOCKEDC = 2 };
template<class P> struct Pred {
    typename P::Lock* l; long* last; int* evals; int throws;
    bool operator()() const {
        EXPECT(l->owned(*G<P>::m), "pred-lock", "predicate evaluated without the lock");
        sim_cs_enter(CS, P::SHARED); sim_yield();
        bool r = *G<P>::items > 0;
        sim_cs_leave(CS, P::SHARED);
        ++*evals; *last = r;
        if (throws && sim_fault(F_USER)) { *last = 2; throw UserEx{3}; }
        return r;
    }
};
template<class P> static void cons_op(SimOp o) {
    typename P::CV& cv = *G<P>::cv; typename P::M& m = *G<P>::m;
    typename P::Lock l(m); int held = sim_nheld();
    long last = -1; int evals = 0; Pred<P> pr = {&l, &last, &evals, o.c & 32};
    int op = sim_inv(G<P>::obj, o.code == OP_CONS ? K_CWAIT : K_CTIMED, P::arg(m));
    bool threw = false; long r = -1; 
    sim_ctr_add(CTR_BLOCKEDC, 1);
    try {
        if (o.code == OP_CONS) { cv.wait(l.get(), pr); r = 1; sim_res(op, 1); }
        else { r = with_time_small(op, o.c & 15, (long long)o.a * 100000, [&](auto t) -> long { return timed_pcall(cv, l.get(), t, pr, o.c & 16); }); sim_res(op, r); }
    } catch (UserEx&) { threw = true; sim_res_ex(op); }
    sim_ctr_add(CTR_BLOCKEDC, -1);
    bool tl = lock_threw<P>(l);
    after_wait<P>(l, held, tl);
    if (threw) { if (!tl) l.drop(); return; }
    EXPECT(evals > 0, "pred-result", "predicate never evaluated");
    EXPECT(r == last, "pred-result", "predicate wait returned %ld but the predicate last evaluated to %ld", r, last);
    sim_cs_enter(CS, P::SHARED);
    EXPECT((*G<P>::items > 0) == (r == 1), "pred-result", "predicate wait returned %ld but items = %ld under the same lock", r, *G<P>::items);
    if (r && !P::SHARED) { --*G<P>::items; sim_ctr_add(CTR_ITEMS, -1); }
    sim_cs_leave(CS, P::SHARED);
    l.drop();
}
template<class P> static void produce(int mode, int all) {
    typename P::XLock l(*G<P>::m);
    sim_cs_enter(CS, 0); ++*G<P>::items; sim_ctr_add(CTR_ITEMS, 1); sim_cs_leave(CS, 0);
    if (mode == 1) l.drop();
    if (all || P::SHARED) G<P>::cv->notify_all(); else G<P>::cv->notify_one();
}
template<class P> static void work_pred(int th) {
    for (int i = 0; i < sim_nops(th); i++) { SimOp o = sim_op(th, i);
        switch (o.code) {
        case OP_CONS: case OP_CONST: cons_op<P>(o); break;
        case OP_PROD: produce<P>(o.b, o.c); break;
        case OP_NOISE: if (o.b) G<P>::cv->notify_one(); else G<P>::cv->notify_all(); break;
        case OP_SLEEP: sim_sleep((long long)o.a * 100000); break;
        } }
}
template<class P> static void run_pred() {
    G<P>::cv = new typename P::CV(); G<P>::m = new typename P::M(); G<P>::items = new long(0);
    G<P>::obj = sim_obj(M_CV, G<P>::cv, 0); sim_obj_skip(G<P>::obj);
    spawn_workers(work_pred<P>);
    int b = sim_quiesce();
    for (int k = 0; b && k < 8 * SIM_MAXT; k++) {
        EXPECT(sim_ctr(CTR_ITEMS) <= 0 || sim_ctr(CTR_BLOCKEDC) == 0 || P::THROWS, "lost-notify", "%d threads wait for an item while %ld items are available and were notified", b, sim_ctr(CTR_ITEMS));
        produce<P>(k & 1, P::THROWS || sim_param(1));
        b = sim_quiesce();
    }
    EXPECT(!b, "lost-notify", "%d threads stay blocked", b);
    join_workers();
    EXPECT(*G<P>::items == sim_ctr(CTR_ITEMS), "lost-update", "items = %ld instead of %ld", *G<P>::items, sim_ctr(CTR_ITEMS));
    EXPECT(G<P>::m->try_lock(), "residue", "mutex still locked");
    G<P>::m->unlock();
    delete G<P>::cv; delete G<P>::m; delete G<P>::items;
    EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}

// ---------------------------------------------------------------- dispatch on the lock kind (params[0])
typedef PAnyA<bs::mutex, bs::unique_lock<bs::mutex>, 0, 0> A_mutex;
typedef PAnyA<bs::spin_mutex, bs::unique_lock<bs::spin_mutex>, 0, 0> A_spin;
typedef PAnyA<bs::shared_spin_mutex, bs::shared_lock<bs::shared_spin_mutex>, 1, 0> A_shared;
typedef PAnyA<bs::shared_spin_mutex, bs::unique_lock<bs::shared_spin_mutex>, 0, 0> A_xshared;
typedef PAnyA<bs::mutex, bs::unique_lock<bs::mutex>, 0, 1> T_mutex;
typedef PAnyA<bs::spin_mutex, bs::unique_lock<bs::spin_mutex>, 0, 1> T_spin;
template<template<class> class F> static void run_cv() {
#if !defined(SIM_EMUL)
    if (sim_param(0) % 3 == 2) { F<PCv<bs::timed_mutex> >::run(); return; }
#endif
    F<PCv<bs::mutex> >::run();
}
template<template<class> class F> static void run_any() {
    switch (sim_param(0) % 7) {
    case 1: F<PAnyRaw>::run(); break;
    case 2: F<A_spin>::run(); break;
    case 3: F<A_shared>::run(); break;
    case 4: F<PAnyU<bs::timed_mutex> >::run(); break;
    case 5: F<A_xshared>::run(); break;
    case 6: F<PAnyU<bs::spin_mutex> >::run(); break;
    default: F<A_mutex>::run(); break;
    }
}
template<template<class> class F> static void run_throw() { if (sim_param(0) % 2) F<T_spin>::run(); else F<T_mutex>::run(); }
template<class P> struct Hist { static void run() { run_hist<P>(); } };
template<class P> struct PredF { static void run() { run_pred<P>(); } };

static int tmo(SimGen& g) { return g.chance(20) ? -g.range(0, 30) : g.range(0, 50); }
static void gen_hist(SimGen& g) {
    int n = g.p->nthreads = g.range(2, 5); g.p->params[0] = g.below(84);
    int style = g.below(3);
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, n > 3 ? 2 : 3); i < k; i++) {
        int r = g.below(100); int c;
        if (style == 0) c = t == 0 ? (r < 60 ? OP_N1 : OP_NALL) : (r < 60 ? OP_WAIT : OP_TIMED);
        else if (style == 1) c = t == 0 ? (r < 40 ? OP_N1 : r < 60 ? OP_NALL : OP_SLEEP) : (r < 20 ? OP_N1 : r < 40 ? OP_WAIT : OP_TIMED);
        else c = r < 25 ? OP_N1 : r < 40 ? OP_NALL : r < 65 ? OP_WAIT : OP_TIMED;
        if (c == OP_TIMED) g.op(t, c, tmo(g), 0, g.below(TY_SMALL_N) + (g.chance(50) ? 16 : 0)); else if (c == OP_SLEEP) g.op(t, c, g.range(1, 40)); else g.op(t, c, 0, g.below(3));
    }
}
static void gen_pred(SimGen& g) {
    int n = g.p->nthreads = g.range(2, 5); g.p->params[0] = g.below(84);
    int style = g.below(3); bool pthrow = g.chance(15); g.p->params[1] = pthrow;
    for (int t = 0; t < n; t++) {
        if (style == 2 && t == 0) { for (int i = 0; i < 6; i++) { g.op(t, OP_SLEEP, g.range(1, 15)); g.op(t, OP_NOISE, 0, g.below(2)); } continue; } // wakeups that change nothing
        for (int i = 0, k = g.range(1, 3); i < k; i++) {
            int r = g.below(100); int c;
            if (style == 0) c = t == 0 ? OP_PROD : (r < 50 ? OP_CONS : OP_CONST);
            else if (style == 1) c = t == 0 ? (r < 50 ? OP_PROD : OP_SLEEP) : (r < 30 ? OP_PROD : r < 45 ? OP_CONS : r < 85 ? OP_CONST : OP_NOISE);
            else c = r < 20 ? OP_PROD : r < 30 ? OP_CONS : OP_CONST;
            int th = pthrow ? 32 : 0;
            if (c == OP_CONST) g.op(t, c, tmo(g), 0, g.below(TY_SMALL_N) + (g.chance(50) ? 16 : 0) + th); else if (c == OP_SLEEP) g.op(t, c, g.range(1, 40)); else if (c == OP_PROD) g.op(t, c, 0, g.below(2), g.chance(30)); else g.op(t, c, 0, g.below(2), th);
        }
    }
    if (pthrow) for (int t = 0; t < n; t++) for (int i = 0; i < g.p->nops[t]; i++) if (g.p->ops[t][i].code == OP_PROD) g.p->ops[t][i].c = 1; // a waiter that leaves by exception may have taken a notify_one
}
static void m_cvh() { run_cv<Hist>(); }
static void m_cvp() { run_cv<PredF>(); }
static void m_anyh() { run_any<Hist>(); }
static void m_anyp() { run_any<PredF>(); }
static void m_thrh() { run_throw<Hist>(); }
static void m_thrp() { run_throw<PredF>(); }
static const unsigned BASE = FB(F_EINTR) | FB(F_SPURIOUS) | FB(F_STALL) | FB(F_EXPIRE) | FB(F_WAKEORDER);
SCENARIOS(
    {"cv", gen_hist, m_cvh, BASE, 0, opname},
    {"cv_pred", gen_pred, m_cvp, BASE | FB(F_USER), 0, opname},
    {"cv_any", gen_hist, m_anyh, BASE, 0, opname},
    {"cv_any_pred", gen_pred, m_anyp, BASE | FB(F_USER), 0, opname},
    {"cv_any_throw", gen_hist, m_thrh, BASE | FB(F_USER), 0, opname},
    {"cv_any_pred_throw", gen_pred, m_thrp, BASE | FB(F_USER), 0, opname},
)
