// Failing system calls and allocations: documented exceptions, the injected error code, and no effect on the object.
#include "common.hpp"
#include <boost/move/utility_core.hpp>
#include <string.h>
#include <boost/assert.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>
#include <boost/sync/exceptions/overflow_error.hpp>
namespace bs = boost::sync;

enum { OP_LOCK, OP_TRY, OP_TIMED, OP_GUARD, OP_UNLOCKGUARD, OP_WAIT, OP_TWAIT, OP_N1, OP_NALL, OP_SLEEP, OP_POST, OP_RESET, OP_EXTREME, OP_MAKE, OP_TSET, OP_TGET, OP_TREL, OP_TNEW, OP_TDEL, OP_ATEXIT, OP_NOTIFY, OP_PWAIT };
static const char* opname(int c) { static const char* n[] = {"lock", "try", "timed", "guard", "unlock_guard", "wait", "timed_wait", "notify_one", "notify_all", "sleep", "post", "reset", "extreme", "make", "tss_reset", "tss_get", "tss_release", "tss_new", "tss_delete", "at_thread_exit", "notify_at_exit", "predicate_wait"}; return n[c]; }

enum { X_NONE = 0, X_LOCK = 1, X_WAIT = 2, X_RES = 4, X_OVER = 8, X_ALLOC = 16, X_USER = 32 };
static const unsigned ERRS = FB(F_ALLOC) | FB(F_SYS_MUTEX) | FB(F_SYS_COND) | FB(F_SYS_SEM) | FB(F_SYS_TSD) | FB(F_SYS_INIT) | FB(F_USER);
struct UserEx {};
struct Faults { unsigned old; explicit Faults(unsigned m) : old(sim_fault_get_mask()) { sim_fault_mask(~ERRS | m); } ~Faults() { sim_fault_mask(old); } };
// Runs f with the given fault kinds enabled. Returns the kind of the exception it threw. An exception without an injected failure, an
// injected failure without an exception, an exception of another type and a wrong error code are violations.
static const char* xname(int x) { switch (x) { case X_LOCK: return "lock_error"; case X_WAIT: return "wait_error"; case X_RES: return "resource_error"; case X_OVER: return "overflow_error"; case X_ALLOC: return "bad_alloc"; case X_USER: return "user exception"; } return "?"; }
template<class F> static int guarded(const char* what, unsigned faults, unsigned allowed, F f) {
    int before = sim_my_faults(ERRS), sysb = sim_my_faults(ERRS & ~FB(F_ALLOC) & ~FB(F_USER)), allocb = sim_my_faults(FB(F_ALLOC)), userb = sim_my_faults(FB(F_USER));
    int x = X_NONE; int code = 0, nat = 0; bool other = false;
    {
        Faults on(faults);
        try { f(); }
        catch (bs::lock_error& e) { x = X_LOCK; code = e.code().value(); nat = e.native_error(); }
        catch (bs::wait_error& e) { x = X_WAIT; code = e.code().value(); nat = e.native_error(); }
        catch (bs::overflow_error& e) { x = X_OVER; code = e.code().value(); nat = e.native_error(); }
        catch (bs::resource_error& e) { x = X_RES; code = e.code().value(); nat = e.native_error(); }
        catch (std::bad_alloc&) { x = X_ALLOC; }
        catch (UserEx&) { x = X_USER; }
        catch (...) { other = true; }
    }
    int n = sim_my_faults(ERRS) - before; bool sys = sim_my_faults(ERRS & ~FB(F_ALLOC) & ~FB(F_USER)) > sysb, al = sim_my_faults(FB(F_ALLOC)) > allocb, us = sim_my_faults(FB(F_USER)) > userb;
    EXPECT(!other, "wrong-exception", "%s threw an undocumented exception", what);
    EXPECT(x != X_NONE || n == 0, "fault-swallowed", "%s returned normally although a call it made failed with error %d", what, sim_last_error());
    if (x == X_NONE) return x;
    EXPECT(n > 0, "spurious-error", "%s threw %s (code %d) although nothing failed", what, xname(x), code);
    EXPECT((allowed & x) && (x == X_ALLOC ? al : x == X_USER ? us : sys), "wrong-exception", "%s threw %s", what, xname(x));
    if (x != X_ALLOC && x != X_USER) EXPECT(code == sim_last_error() && nat == code, "error-code", "%s threw %s with code %d instead of %d", what, xname(x), code, sim_last_error());
    return x;
}

// ---------------------------------------------------------------- mutexes
struct Data { long a, b; };
template<class M> struct G { static M* m; static Data* d; static int obj; };
template<class M> M* G<M>::m; template<class M> Data* G<M>::d; template<class M> int G<M>::obj;
#if defined(SIM_EMUL)
template<class M> struct MF { enum { LOCK = FB(F_SYS_MUTEX), TIMED = FB(F_SYS_MUTEX) }; };
template<> struct MF<bs::timed_mutex> { enum { LOCK = 0, TIMED = FB(F_SYS_COND) }; }; // the internal mutex of the emulation is not expected to fail
#else
template<class M> struct MF { enum { LOCK = FB(F_SYS_MUTEX), TIMED = FB(F_SYS_MUTEX) }; };
#endif
template<class M> static void body() {
    Data* d = G<M>::d; sim_cs_enter(0, 0); long v = d->a; EXPECT(d->b == v, "torn-data", "protected data inconsistent"); sim_yield(); d->a = v + 1; d->b = v + 1; sim_ctr_add(0, 1); sim_cs_leave(0, 0);
}
template<class M> static void unlock_rec() { int op = sim_inv(G<M>::obj, K_UNLOCK, 0); G<M>::m->unlock(); sim_res(op, 1); }
template<class M> static bool timed(M&, int, SimOp, long*) { return false; }
static int timed_fault(bs::timed_mutex& m, SimOp o, int op, long* r) {
    return guarded("timed_mutex::timed_lock", MF<bs::timed_mutex>::TIMED, X_LOCK, [&] {
        *r = with_time_small(op, o.c & 15, (long long)o.a * 100000, [&](auto t) -> long {
            if (o.c & 16) { bs::unique_lock<bs::timed_mutex> l(m, bs::defer_lock); bool q;
                try { q = l.timed_lock(t); } catch (...) { EXPECT(!l.owns_lock(), "failed-effect", "unique_lock claims ownership after a failed timed_lock"); throw; }
                if (q) l.release(); return q; }
            return m.timed_lock(t); }); });
}
template<class M> static void mutex_work(int th) {
    sim_fault_mask(~ERRS); // error faults only inside guarded()
    M& m = *G<M>::m; int obj = G<M>::obj;
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp o = sim_op(th, i); long r = 0; int op;
        switch (o.code) {
        case OP_LOCK: op = sim_inv(obj, K_LOCK, 0); if (guarded("lock", MF<M>::LOCK, X_LOCK, [&] { m.lock(); })) { sim_res_ex(op); break; } sim_res(op, 1); body<M>(); unlock_rec<M>(); break;
        case OP_TRY: op = sim_inv(obj, K_TRYLOCK, 0); if (guarded("try_lock", MF<M>::LOCK, X_LOCK, [&] { r = m.try_lock(); })) { sim_res_ex(op); break; } sim_res(op, r); if (r) { body<M>(); unlock_rec<M>(); } break;
        case OP_TIMED:
            if constexpr (std::is_same<M, bs::timed_mutex>::value) {
                op = sim_inv(obj, K_TIMEDLOCK, 0); if (timed_fault(m, o, op, &r)) { sim_res_ex(op); break; } sim_res(op, r); if (r) { body<M>(); unlock_rec<M>(); } }
            break;
        case OP_GUARD: { // through the wrappers
            op = sim_inv(obj, K_LOCK, 0);
            bs::unique_lock<M> l(m, bs::defer_lock);
            int x = o.b == 0 ? guarded("unique_lock::lock", MF<M>::LOCK, X_LOCK, [&] { l.lock(); }) : o.b == 1 ? guarded("unique_lock constructor", MF<M>::LOCK, X_LOCK, [&] { bs::unique_lock<M> l2(m); l.swap(l2); }) : guarded("lock_guard constructor", MF<M>::LOCK, X_LOCK, [&] { bs::lock_guard<M> l2(m); sim_res(op, 1); body<M>(); op = sim_inv(obj, K_UNLOCK, 0); });
            if (o.b >= 2) { if (x) sim_res_ex(op); else sim_res(op, 1); break; }
            EXPECT(l.owns_lock() == !x, "failed-effect", "owns_lock() is %d after lock %s", (int)l.owns_lock(), x ? "threw" : "succeeded");
            if (x) { sim_res_ex(op); break; }
            sim_res(op, 1); body<M>(); op = sim_inv(obj, K_UNLOCK, 0); l.unlock(); sim_res(op, 1); break; }
        case OP_SLEEP: sim_sleep((long long)o.a * 100000); break;
        }
    }
}
template<class M> static void mutex_main() {
    M* m = new M(); G<M>::m = m; G<M>::d = new Data(); G<M>::d->a = G<M>::d->b = 0; G<M>::obj = sim_obj(M_MUTEX, m, 0);
    spawn_workers(mutex_work<M>);
    int b = sim_quiesce(); EXPECT(!b, "deadlock", "%d threads are blocked forever on the lock", b);
    join_workers();
    EXPECT(G<M>::d->a == sim_ctr(0), "lost-update", "protected counter is %ld after %ld increments", G<M>::d->a, sim_ctr(0));
    int op = sim_inv(G<M>::obj, K_TRYLOCK, 0); bool r = m->try_lock(); sim_res(op, r); EXPECT(r, "residue", "lock cannot be acquired although nobody owns it");
    unlock_rec<M>(); delete m; delete G<M>::d;
    EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}
static void gen_mutex(SimGen& g) { int n = g.p->nthreads = g.range(1, 4); for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 5); i < k; i++) { int r = g.below(4); if (r == 0) g.op(t, OP_LOCK); else if (r == 1) g.op(t, OP_TRY); else if (r == 2) g.op(t, OP_GUARD, 0, g.below(3)); else g.op(t, OP_TIMED, g.range(-5, 50), 0, g.below(TY_SMALL_N) + (g.chance(40) ? 16 : 0)); } }

// ---------------------------------------------------------------- condition variables
struct UserLock { // a user lock that involves no pthread calls
    bs::spin_mutex* m; int n; explicit UserLock(bs::spin_mutex& x) : m(&x), n(0) { lock(); } ~UserLock() { if (n) unlock(); }
    void lock() { EXPECT(n == 0, "cv-lock", "user lock locked while owned"); m->lock(); n = 1; }
    void unlock() { EXPECT(n == 1, "cv-lock", "user lock unlocked while not owned"); n = 0; m->unlock(); sim_mark_release(); }
};
struct CvA { typedef bs::condition_variable CV; typedef bs::mutex M; typedef bs::unique_lock<bs::mutex> L; static bool owned(L& l, M& m) { return l.owns_lock() && sim_mutex_owner(m.native_handle()) == sim_self(); } static long arg(M& m) { return (long)m.native_handle(); } enum { WF = FB(F_SYS_COND), WX = X_WAIT, NF = 0, NX = 0, HELD = 1 }; };
struct CvB { typedef bs::condition_variable_any CV; typedef bs::spin_mutex M; typedef UserLock L; static bool owned(L& l, M&) { return l.n == 1; } static long arg(M&) { return 0; } enum { WF = FB(F_SYS_COND) | FB(F_SYS_MUTEX), WX = X_WAIT | X_LOCK, NF = FB(F_SYS_MUTEX), NX = X_LOCK, HELD = 0 }; };
template<class P> struct H { static typename P::CV* cv; static typename P::M* m; static int obj; static long* items; };
template<class P> typename P::CV* H<P>::cv; template<class P> typename P::M* H<P>::m; template<class P> int H<P>::obj; template<class P> long* H<P>::items;
template<class P> static void notify(int kind, int mode) {
    typename P::CV& cv = *H<P>::cv;
    { typename P::L l(*H<P>::m); sim_yield(); }
    for (;;) {
        int op = sim_inv(H<P>::obj, kind, 0);
        int x = guarded(kind == K_CNOTIFY1 ? "notify_one" : "notify_all", P::NF, P::NX, [&] { if (kind == K_CNOTIFY1) cv.notify_one(); else cv.notify_all(); });
        EXPECT(sim_nheld() == 0, "failed-effect", "a native mutex is left locked after notification");
        if (!x) { sim_res(op, 1); return; }
        sim_res_ex(op);
    }
}
template<class P> static void cv_work(int th) {
    sim_fault_mask(~ERRS); // error faults only inside guarded()
    typename P::CV& cv = *H<P>::cv; typename P::M& m = *H<P>::m;
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp o = sim_op(th, i);
        switch (o.code) {
        case OP_N1: notify<P>(K_CNOTIFY1, 0); break;
        case OP_NALL: notify<P>(K_CNOTIFYALL, 0); break;
        case OP_SLEEP: sim_sleep((long long)o.a * 100000); break;
        case OP_WAIT: case OP_TWAIT: {
            typename P::L l(m); sim_cs_enter(0, 0); sim_yield(); sim_cs_leave(0, 0);
            int op = sim_inv(H<P>::obj, o.code == OP_WAIT ? K_CWAIT : K_CTIMED, P::arg(m)); long r = 1; int x;
            if (o.code == OP_WAIT) x = guarded("wait", P::WF, P::WX, [&] { cv.wait(l); sim_res(op, 1); });
            else x = guarded("timed wait", P::WF, P::WX, [&] { r = with_time_small(op, o.c & 15, (long long)o.a * 100000, [&](auto t) -> long {
                if (!(o.c & 16)) return cv.timed_wait(l, t);
                if constexpr (is_dur<decltype(t)>::value) return cv.wait_for(l, t) == bs::cv_status::no_timeout; else return cv.wait_until(l, t) == bs::cv_status::no_timeout; }); sim_res(op, r); });
            if (x) sim_res_ex(op);
            EXPECT(P::owned(l, m), "cv-lock", "wait %s without the lock", x ? "threw" : "returned");
            EXPECT(sim_nheld() == P::HELD, "cv-lock", "%d native mutexes owned after the wait", sim_nheld());
            sim_cs_enter(0, 0); sim_yield(); sim_cs_leave(0, 0); break; }
        }
    }
}
template<class P> static void cv_main() {
    H<P>::cv = new typename P::CV(); H<P>::m = new typename P::M(); H<P>::obj = sim_obj(M_CV, H<P>::cv, 0);
    spawn_workers(cv_work<P>);
    int b = sim_quiesce();
    for (int k = 0; b && k < 4 * SIM_MAXT; k++) { notify<P>(k == 0 ? K_CNOTIFY1 : K_CNOTIFYALL, 0); int b2 = sim_quiesce(); EXPECT(b2 < b || k < 24, "lost-notify", "notifications do not release %d blocked threads", b); b = b2; }
    join_workers();
    EXPECT(H<P>::m->try_lock(), "residue", "mutex still locked"); H<P>::m->unlock();
    delete H<P>::cv; delete H<P>::m; EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}
static void gen_cv(SimGen& g) { int n = g.p->nthreads = g.range(1, 4); for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 3); i < k; i++) { int r = g.below(100); if (r < 20) g.op(t, OP_N1); else if (r < 35) g.op(t, OP_NALL); else if (r < 65) g.op(t, OP_WAIT); else g.op(t, OP_TWAIT, g.range(-5, 40), 0, g.below(TY_SMALL_N) + (g.chance(50) ? 16 : 0)); } }

// ---------------------------------------------------------------- semaphore and events
#if defined(SIM_EMUL)
enum { SPF = FB(F_SYS_MUTEX), SWF = FB(F_SYS_MUTEX) | FB(F_SYS_COND), SPX = X_LOCK, SWX = X_LOCK | X_WAIT, SCF = 0, APF = SPF, AWF = SWF, AWX = SWX, APX = SPX };
#else
enum { SPF = FB(F_SYS_SEM), SWF = 0, SPX = X_OVER, SWX = 0, SCF = FB(F_SYS_SEM), APF = 0, AWF = 0, AWX = 0, APX = 0 };
#endif
template<class T> struct Tr;
template<> struct Tr<bs::semaphore> { enum { MODEL = M_SEM, POST = K_SPOST, WAIT = K_SWAIT, TRY = K_STRY, TIMED = K_STIMED, PF = SPF, WF = SWF, PX = SPX, WX = SWX }; static void post(bs::semaphore& s) { s.post(); } static void reset(bs::semaphore&) {} };
template<> struct Tr<bs::auto_reset_event> { enum { MODEL = M_ARE, POST = K_APOST, WAIT = K_AWAIT, TRY = K_ATRY, TIMED = K_ATIMED, PF = APF, WF = AWF, PX = APX, WX = AWX }; static void post(bs::auto_reset_event& s) { s.post(); } static void reset(bs::auto_reset_event&) {} };
template<> struct Tr<bs::manual_reset_event> { enum { MODEL = M_MRE, POST = K_ESET, WAIT = K_EWAIT, TRY = K_ETRY, TIMED = K_ETIMED, PF = APF, WF = AWF, PX = APX, WX = AWX }; static void post(bs::manual_reset_event& s) { s.set(); } static void reset(bs::manual_reset_event& s) { s.reset(); } };
template<class T> struct Q { static T* o; static int obj; };
template<class T> T* Q<T>::o; template<class T> int Q<T>::obj;
template<class T> static void sem_work(int th) {
    sim_fault_mask(~ERRS); // error faults only inside guarded()
    T& s = *Q<T>::o; int obj = Q<T>::obj; typedef Tr<T> R;
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp o = sim_op(th, i); int op, x; long r = 1;
        switch (o.code) {
        case OP_POST: op = sim_inv(obj, R::POST, 0); x = guarded("post", R::PF, R::PX, [&] { R::post(s); }); if (x) sim_res_ex(op); else sim_res(op, 1); break;
        case OP_RESET: op = sim_inv(obj, K_ERESET, 0); x = guarded("reset", R::PF, R::PX, [&] { R::reset(s); }); if (x) sim_res_ex(op); else sim_res(op, 1); break;
        case OP_WAIT: op = sim_inv(obj, R::WAIT, 0); x = guarded("wait", R::WF, R::WX, [&] { s.wait(); }); if (x) sim_res_ex(op); else sim_res(op, 1); break;
        case OP_TRY: op = sim_inv(obj, R::TRY, 0); x = guarded("try_wait", R::WF, R::WX, [&] { r = s.try_wait(); }); if (x) sim_res_ex(op); else sim_res(op, r); break;
        case OP_TWAIT: op = sim_inv(obj, R::TIMED, 0); x = guarded("timed_wait", R::WF, R::WX, [&] { r = with_time_small(op, o.c & 15, (long long)o.a * 100000, [&](auto t) -> long { return s.timed_wait(t); }); }); if (x) sim_res_ex(op); else sim_res(op, r); break;
        case OP_SLEEP: sim_sleep((long long)o.a * 100000); break;
        }
    }
}
template<class T> static void sem_main() {
    T* s = new T(); Q<T>::o = s; int obj = Q<T>::obj = sim_obj(Tr<T>::MODEL, s, 0);
    spawn_workers(sem_work<T>);
    int b = sim_quiesce();
    for (int k = 0; b && k < 8 * SIM_MAXT; k++) { int op = sim_inv(obj, Tr<T>::POST, 0); Tr<T>::post(*s); sim_res(op, 1); int b2 = sim_quiesce(); EXPECT(k <= 24 || b2 < b, "lost-post", "posting does not release a blocked thread"); b = b2; }
    join_workers();
    for (int k = 0; k < 3; k++) { int op = sim_inv(obj, Tr<T>::TRY, 0); bool r = s->try_wait(); sim_res(op, r); if (!r) break; }
    delete s; EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
    EXPECT(sim_native_live() == 0, "leak", "%ld native objects not destroyed", sim_native_live());
}
// counts at INT_MAX: a post either adds a unit or throws overflow_error and changes nothing
static void extreme_work(int th) {
    sim_fault_mask(~ERRS); // error faults only inside guarded()
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp o = sim_op(th, i); static const unsigned c[] = {0x7ffffffcu, 0x7ffffffdu, 0x7ffffffeu, 0x7fffffffu}; // the documented minimum of the upper limit is INT_MAX
        unsigned n = c[o.a % 4]; bs::semaphore* s = 0;
        try { NoFault nf; s = new bs::semaphore(n); } catch (bs::resource_error&) {}
        EXPECT(s, "spurious-error", "semaphore(%u) cannot be constructed", n);
        long total = n;
        for (int k = 0; k < o.b; k++) { try { s->post(); total++; } catch (bs::overflow_error&) { EXPECT(total >= 0x7fffffff, "spurious-error", "post threw overflow_error at count %ld", total); } }
        for (int k = 0; k < 2; k++) EXPECT(s->try_wait(), "lost-post", "try_wait fails on a semaphore that holds %ld units", total);
        delete s;
    }
}
static void extreme_main() { spawn_workers(extreme_work); int b = sim_quiesce(); EXPECT(!b, "stuck", "blocked"); join_workers(); }
static void gen_extreme(SimGen& g) { int n = g.p->nthreads = g.range(1, 2); for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 4); i < k; i++) g.op(t, OP_EXTREME, g.below(4), g.below(6)); }
static void gen_semx(SimGen& g, bool mre) { int n = g.p->nthreads = g.range(1, 4); for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 4); i < k; i++) { int r = g.below(100); if (r < 45) g.op(t, mre && r < 12 ? OP_RESET : OP_POST); else if (r < 60) g.op(t, OP_WAIT); else if (r < 75) g.op(t, OP_TRY); else g.op(t, OP_TWAIT, g.range(-5, 40), 0, g.below(TY_SMALL_N)); } }
static void gen_sem(SimGen& g) { gen_semx(g, false); }
static void gen_mre(SimGen& g) { gen_semx(g, true); }

// ---------------------------------------------------------------- construction
static void use(bs::mutex& m) { m.lock(); m.unlock(); EXPECT(m.try_lock(), "failed-effect", "new mutex is locked"); m.unlock(); }
static void use(bs::timed_mutex& m) { m.lock(); m.unlock(); EXPECT(m.timed_lock(std::chrono::milliseconds(1)), "failed-effect", "new mutex is locked"); m.unlock(); }
static void use(bs::condition_variable& c) { bs::mutex m; bs::unique_lock<bs::mutex> l(m); c.notify_all(); c.wait_for(l, std::chrono::milliseconds(1)); }
static void use(bs::condition_variable_any& c) { bs::spin_mutex m; bs::unique_lock<bs::spin_mutex> l(m); c.notify_all(); c.wait_for(l, std::chrono::milliseconds(1)); }
static void use(bs::semaphore& s) { EXPECT(!s.try_wait(), "failed-effect", "new semaphore has units"); s.post(); s.wait(); }
static void use(bs::auto_reset_event& s) { EXPECT(!s.try_wait(), "failed-effect", "new event is signalled"); s.post(); s.wait(); }
static void use(bs::manual_reset_event& s) { EXPECT(!s.try_wait(), "failed-effect", "new event is signalled"); s.set(); s.wait(); }
template<class T> static void make_one(const char* name) {
    long live = sim_native_live(), mem = sim_live_allocs(); T* p = 0;
    int x = guarded(name, FB(F_SYS_INIT) | FB(F_SYS_SEM) | FB(F_ALLOC), X_RES | X_ALLOC, [&] { p = new T(); });
    EXPECT(!!p == !x, "failed-effect", "constructor result");
    if (p) { Faults off(0); use(*p); delete p; }
    EXPECT(sim_nthreads() > 1 || (sim_native_live() == live && sim_live_allocs() == mem), "leak", "%s %s: %ld native objects and %ld allocations remain", name, x ? "threw" : "succeeded and was destroyed", sim_native_live() - live, sim_live_allocs() - mem);
}
static void make_work(int th) {
    sim_fault_mask(~ERRS); // error faults only inside guarded()
    for (int i = 0; i < sim_nops(th); i++) switch (sim_op(th, i).a) {
        case 0: make_one<bs::mutex>("mutex constructor"); break;
        case 1: make_one<bs::timed_mutex>("timed_mutex constructor"); break;
        case 2: make_one<bs::condition_variable>("condition_variable constructor"); break;
        case 3: make_one<bs::condition_variable_any>("condition_variable_any constructor"); break;
        case 4: make_one<bs::semaphore>("semaphore constructor"); break;
        case 5: make_one<bs::auto_reset_event>("auto_reset_event constructor"); break;
        case 6: make_one<bs::manual_reset_event>("manual_reset_event constructor"); break;
    }
}
static void make_main() { spawn_workers(make_work); int b = sim_quiesce(); EXPECT(!b, "stuck", "blocked"); join_workers(); EXPECT(sim_native_live() == 0 && sim_live_allocs() == 0, "leak", "%ld native objects leaked", sim_native_live()); }
static void gen_make(SimGen& g) { int n = g.p->nthreads = g.range(1, 2); for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 8); i < k; i++) g.op(t, OP_MAKE, g.below(7)); }

// ---------------------------------------------------------------- thread-specific storage
enum { NS_ = 5, STATE = 1000, VKEY = 2000, NEXTID = 400, PEND = 410, COPIES = 440, LIVE = 450, NTDONE = 470, NTOWN = 480 };
enum { ST_NONE, ST_STORED, ST_OWN, ST_CLEANED };
struct Val { int id; };
static void clean(Val* v) { EXPECT(sim_ctr(STATE + v->id) == ST_STORED, "tss-cleanup", "value %d cleaned up in state %ld", v->id, sim_ctr(STATE + v->id)); sim_ctr_set(STATE + v->id, ST_CLEANED); NoFault nf; delete v; }
typedef bs::thread_specific_ptr<Val> Ptr;
static Ptr* g_p[NS_];
struct NT { bs::mutex m; bs::condition_variable c; };
static NT* g_nt[SIM_MAXT];
struct Fn {
    int owner, depth; bool thr;
    Fn(int o, int d, bool t) : owner(o), depth(d), thr(t) { sim_ctr_add(COPIES, 1); }
    Fn(Fn const& f) : owner(f.owner), depth(f.depth), thr(f.thr) { if (thr && sim_fault(F_USER)) throw UserEx(); sim_ctr_add(COPIES, 1); }
    ~Fn() { sim_ctr_add(COPIES, -1); }
    void operator()() const { EXPECT(sim_self() == owner && sim_exiting(), "at-exit", "callback runs in the wrong thread or too early"); EXPECT(sim_ctr(PEND + owner) == depth, "at-exit", "callback %d runs while %ld successful registrations are pending", depth, sim_ctr(PEND + owner)); sim_ctr_add(PEND + owner, -1); }
};
static void tss_work(int th) {
    sim_fault_mask(~ERRS); // error faults only inside guarded()
    int self = sim_self(); Val* cur[NS_] = {0}; Ptr* own[4]; int nown = 0; alignas(Ptr) static char buf[SIM_MAXT][4][sizeof(Ptr)];
    Val* ocur[4] = {0};
    const unsigned TF = FB(F_ALLOC) | FB(F_SYS_TSD); const unsigned TX = X_ALLOC | X_RES;
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp o = sim_op(th, i); int x;
        switch (o.code) {
        case OP_TSET: { int s = o.a % (NS_ + nown); Ptr& p = s < NS_ ? *g_p[s] : *own[s - NS_]; Val*& c = s < NS_ ? cur[s] : ocur[s - NS_];
            Val* v = 0; { NoFault nf; int id = (int)sim_ctr_add(NEXTID, 1); v = new Val(); v->id = id; sim_ctr_set(STATE + id, ST_STORED); }
            Val* old = c; int oldid = old ? old->id : 0;
            x = guarded("thread_specific_ptr::reset", TF, TX, [&] { p.reset(v); });
            if (x) { EXPECT(p.get() == old, "failed-effect", "a failed reset changed the stored value"); EXPECT(!old || sim_ctr(STATE + oldid) == ST_STORED, "failed-effect", "a failed reset cleaned up the old value"); EXPECT(sim_ctr(STATE + v->id) == ST_STORED, "failed-effect", "a failed reset cleaned up the new value"); NoFault nf; sim_ctr_set(STATE + v->id, ST_OWN); delete v; }
            else { EXPECT(p.get() == v, "tss-value", "value not stored"); EXPECT(!oldid || sim_ctr(STATE + oldid) == ST_CLEANED, "tss-cleanup", "replaced value %d not cleaned up", oldid); c = v; }
            break; }
        case OP_TGET: { int s = o.a % (NS_ + nown); EXPECT((s < NS_ ? g_p[s] : own[s - NS_])->get() == (s < NS_ ? cur[s] : ocur[s - NS_]), "tss-value", "stored value lost"); break; }
        case OP_TREL: { int s = o.a % NS_; Val* v = g_p[s]->release(); EXPECT(v == cur[s], "tss-value", "release returned another value"); cur[s] = 0; if (v) { sim_ctr_set(STATE + v->id, ST_OWN); NoFault nf; delete v; } break; }
        case OP_TNEW: if (nown < 4) {
            x = guarded("thread_specific_ptr constructor", TF, TX, [&] { own[nown] = new (buf[self][nown]) Ptr(&clean); });
            if (!x) { EXPECT(own[nown]->get() == 0, "tss-value", "a new pointer already has a value"); ocur[nown] = 0; nown++; } } break;
        case OP_TDEL: if (nown > 0) { nown--; int id = ocur[nown] ? ocur[nown]->id : 0; { NoFault nf; own[nown]->~Ptr(); } EXPECT(!id || sim_ctr(STATE + id) == ST_CLEANED, "tss-cleanup", "value %d not cleaned up with its pointer", id); ocur[nown] = 0; } break;
        case OP_ATEXIT: { int d = (int)sim_ctr(PEND + self) + 1; long copies = sim_ctr(COPIES);
            x = guarded("at_thread_exit", TF | FB(F_USER), TX | X_USER, [&] { Fn f(self, d, true); bs::at_thread_exit(f); });
            if (!x) sim_ctr_set(PEND + self, d);
            break; }
        case OP_NOTIFY: { if (sim_ctr(NTDONE + self)) break; NT* n = g_nt[self]; bs::unique_lock<bs::mutex> l(n->m);
            x = guarded("notify_all_at_thread_exit", TF, TX, [&] { bs::notify_all_at_thread_exit(n->c, boost::move(l)); });
            EXPECT(!l.owns_lock(), "notify-exit", "lock still owned by the caller");
            if (!x) { sim_ctr_set(NTDONE + self, 1); EXPECT(sim_mutex_owner(n->m.native_handle()) == self, "notify-exit", "mutex not held until thread exit"); }
            else EXPECT(sim_mutex_owner(n->m.native_handle()) < 0, "failed-effect", "the mutex stays locked after a failed registration");
            break; }
        }
    }
    NoFault nf; while (nown > 0) own[--nown]->~Ptr();
}
static void tss_main() {
    for (int s = 0; s < NS_; s++) g_p[s] = new Ptr(&clean);
    for (int i = 0; i < SIM_MAXT; i++) g_nt[i] = new NT;
    spawn_workers(tss_work);
    int b = sim_quiesce(); EXPECT(!b, "stuck", "%d threads are blocked forever", b);
    join_workers();
    for (int t = 0; t < SIM_MAXT; t++) EXPECT(sim_ctr(PEND + t) == 0, "at-exit", "%ld successfully registered callbacks of thread %d never ran", sim_ctr(PEND + t), t);
    EXPECT(sim_ctr(COPIES) == 0, "at-exit", "%ld function copies were not destroyed", sim_ctr(COPIES));
    for (int id = 1; id <= sim_ctr(NEXTID); id++) EXPECT(sim_ctr(STATE + id) != ST_STORED, "tss-cleanup", "value %d never cleaned up", id);
    for (int i = 0; i < SIM_MAXT; i++) { EXPECT(g_nt[i]->m.try_lock(), "notify-exit", "mutex still locked after the thread exited"); g_nt[i]->m.unlock(); delete g_nt[i]; }
    for (int s = 0; s < NS_; s++) delete g_p[s];
}
static void gen_tss(SimGen& g) { int n = g.p->nthreads = g.range(1, 3); for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 7); i < k; i++) { int r = g.below(100); if (r < 30) g.op(t, OP_TSET, g.below(9)); else if (r < 38) g.op(t, OP_TGET, g.below(9)); else if (r < 44) g.op(t, OP_TREL, g.below(5)); else if (r < 58) g.op(t, OP_TNEW); else if (r < 66) g.op(t, OP_TDEL); else if (r < 88) g.op(t, OP_ATEXIT); else g.op(t, OP_NOTIFY); } }

// one thread after the other: whether their operations fail or not, threads that are gone leave no memory behind
struct CFn { CFn() { sim_ctr_add(COPIES, 1); } CFn(CFn const&) { sim_ctr_add(COPIES, 1); } ~CFn() { sim_ctr_add(COPIES, -1); } void operator()() const { sim_ctr_add(LIVE, -1); } };
static void churn_clean(Val* v) { sim_ctr_add(LIVE, -1); NoFault nf; delete v; }
static void churn_work(void* p) {
    sim_fault_mask(~ERRS);
    const unsigned TF = FB(F_ALLOC) | FB(F_SYS_TSD), TX = X_ALLOC | X_RES; int i = (int)(intptr_t)p; alignas(Ptr) char buf[sizeof(Ptr)];
    for (int k = 0; k < sim_nops(0); k++) switch (sim_op(0, k).code) {
    case OP_ATEXIT: if (!guarded("at_thread_exit", TF, TX, [&] { bs::at_thread_exit(CFn()); })) sim_ctr_add(LIVE, 1); break;
    case OP_TSET: { Ptr& q = *g_p[(i + k) % NS_]; Val* v; { NoFault nf; v = new Val; v->id = 1; } sim_ctr_add(LIVE, 1); if (guarded("thread_specific_ptr::reset", TF, TX, [&] { q.reset(v); })) { NoFault nf; sim_ctr_add(LIVE, -1); delete v; } break; }
    case OP_TNEW: { Ptr* q = 0; if (!guarded("thread_specific_ptr constructor", TF, TX, [&] { q = new (buf) Ptr(&churn_clean); })) {
        Val* v; { NoFault nf; v = new Val; v->id = 1; } sim_ctr_add(LIVE, 1); if (guarded("thread_specific_ptr::reset", TF, TX, [&] { q->reset(v); })) { NoFault nf; sim_ctr_add(LIVE, -1); delete v; } NoFault nf; q->~Ptr(); } break; }
    case OP_NOTIFY: { NT* n = g_nt[0]; if (sim_mutex_owner(n->m.native_handle()) >= 0) break; bs::unique_lock<bs::mutex> l(n->m); guarded("notify_all_at_thread_exit", TF, TX, [&] { bs::notify_all_at_thread_exit(n->c, boost::move(l)); }); break; }
    }
}
static void churn_main() {
    sim_fault_mask(~ERRS);
    { NoFault nf; for (int s = 0; s < NS_; s++) g_p[s] = new Ptr(&churn_clean); g_nt[0] = new NT; }
    long base = 0;
    for (int i = 0; i < 44; i++) {
        int t = sim_spawn(churn_work, (void*)(intptr_t)i); EXPECT(!sim_quiesce() && sim_join(t), "stuck", "the only thread is blocked");
        EXPECT(sim_ctr(COPIES) == 0, "at-exit", "%ld function copies were not destroyed", sim_ctr(COPIES)); EXPECT(sim_ctr(LIVE) == 0, "tss-cleanup", "%ld values or callbacks of the exited thread are left", sim_ctr(LIVE));
        if (i == 3) base = sim_live_allocs(); else if (i > 3) EXPECT(sim_live_allocs() < base + 8, "leak", "memory use grows: %ld more allocations are alive after %d short-lived threads", sim_live_allocs() - base, i - 3);
    }
    NoFault nf; for (int s = 0; s < NS_; s++) delete g_p[s]; delete g_nt[0];
}
static void gen_churn(SimGen& g) { g.p->nthreads = 1; static const int w[] = {OP_ATEXIT, OP_TSET, OP_TNEW, OP_NOTIFY}; for (int i = 0, k = g.range(1, 3); i < k; i++) g.op(0, w[g.below(4)]); }

static const unsigned BASE = FB(F_SPURIOUS) | FB(F_WAKEORDER) | FB(F_EXPIRE) | FB(F_EINTR);
SCENARIOS(
    {"fail_mutex", gen_mutex, mutex_main<bs::mutex>, BASE | FB(F_SYS_MUTEX), 0, opname},
    {"fail_timed_mutex", gen_mutex, mutex_main<bs::timed_mutex>, BASE | FB(F_SYS_MUTEX) | FB(F_SYS_COND), 0, opname},
    {"fail_cv", gen_cv, cv_main<CvA>, BASE | FB(F_SYS_COND), 0, opname},
    {"fail_cv_any", gen_cv, cv_main<CvB>, BASE | FB(F_SYS_COND) | FB(F_SYS_MUTEX), 0, opname},
    {"fail_semaphore", gen_sem, sem_main<bs::semaphore>, BASE | FB(F_SYS_SEM) | FB(F_SYS_MUTEX) | FB(F_SYS_COND), 0, opname},
    {"fail_auto_reset_event", gen_sem, sem_main<bs::auto_reset_event>, BASE | FB(F_SYS_MUTEX) | FB(F_SYS_COND), 0, opname},
    {"fail_manual_reset_event", gen_mre, sem_main<bs::manual_reset_event>, BASE | FB(F_SYS_MUTEX) | FB(F_SYS_COND), 0, opname},
    {"fail_limits", gen_extreme, extreme_main, 0, 0, opname},
    {"fail_construct", gen_make, make_main, BASE | FB(F_SYS_INIT) | FB(F_SYS_SEM) | FB(F_ALLOC), 0, opname},
    {"fail_tss", gen_tss, tss_main, BASE | FB(F_ALLOC) | FB(F_SYS_TSD) | FB(F_USER), 0, opname},
    {"fail_churn", gen_churn, churn_main, BASE | FB(F_ALLOC) | FB(F_SYS_TSD), 0, opname},
)
