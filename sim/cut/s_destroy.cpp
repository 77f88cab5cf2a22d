// Objects destroyed as soon as the destroying thread may conclude, from its own returned operation, that the others are done.
#include "common.hpp"
#include <boost/assert.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
namespace bs = boost::sync;

enum { OP_ACQ, OP_SHARED, OP_FINAL, OP_POST, OP_WAITER, OP_GIVEUP };
static const char* opname(int c) { static const char* n[] = {"use", "use_shared", "destroy_after", "post", "wait", "timed_wait_giving_up"}; return n[c]; }
enum { CTR_USED = 0, CTR_GONE = 1, CTR_WAITED = 2 };
static volatile char* g_sink;
// what reused memory looks like: the memory of a destroyed object is handed out again and scribbled over
static void reuse(size_t n) { char* p = new char[n]; for (size_t i = 0; i < n; i++) p[i] = (char)0xff; sim_yield(); delete[] p; }

// ---------------------------------------------------------------- mutexes: the last user destroys the object
template<class M> struct Obj { M m; long refs; };
template<class M> struct G { static Obj<M>* o; };
template<class M> Obj<M>* G<M>::o;
template<class M> static void acquire(M& m, int how) {
    for (int n = 0;; n++) {
        if (n == 6) how = 0;
        if constexpr (std::is_same<M, bs::timed_mutex>::value) { if (how == 2) { if (m.timed_lock(std::chrono::microseconds(300))) return; continue; } if (how == 3) { if (m.try_lock_until(std::chrono::steady_clock::now() + std::chrono::microseconds(300))) return; continue; } }
        if (how == 1) { if (m.try_lock()) return; sim_yield(); continue; }
        m.lock(); return;
    }
}
template<class M> static void mutex_work(int th) {
    for (int i = 0; i < sim_nops(th); i++) { // every thread drops its reference in its last operation
        SimOp o = sim_op(th, i); Obj<M>* p = G<M>::o; bool last = i + 1 == sim_nops(th);
        acquire(p->m, o.a); bool del = last && --p->refs == 0; if (o.b) sim_yield(); p->m.unlock();
        if (del) { delete p; sim_ctr_add(CTR_GONE, 1); reuse(sizeof *p); }
    }
}
template<class M> static void mutex_main() {
    Obj<M>* p = G<M>::o = new Obj<M>(); p->refs = 0; for (int t = 0; t < sim_nthreads(); t++) if (sim_nops(t)) p->refs++;
    bool none = p->refs == 0; if (none) delete p;
    spawn_workers(mutex_work<M>); int b = sim_quiesce(); EXPECT(!b, "deadlock", "%d threads are blocked forever", b); join_workers();
    EXPECT(none || sim_ctr(CTR_GONE) == 1, "stuck", "object not destroyed");
    EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}
static void gen_mutex(SimGen& g) { int n = g.p->nthreads = g.range(2, 4); for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 2); i < k; i++) g.op(t, OP_ACQ, g.below(4), g.below(2)); }
// shared owners: the exclusive owner destroys the mutex once all readers announced themselves under shared ownership
static void shared_work(int th) {
    typedef bs::shared_spin_mutex M; Obj<M>* p = G<M>::o;
    SimOp o = sim_op(th, 0);
    if (th == 0) for (;;) {
        acquire(p->m, o.a & 1); bool done = sim_ctr(CTR_USED) == sim_nthreads() - 1; p->m.unlock();
        if (done) { delete p; sim_ctr_add(CTR_GONE, 1); reuse(sizeof *p); return; }
        sim_yield();
    }
    if (o.code == OP_SHARED) { if (o.a & 1) while (!p->m.try_lock_shared()) sim_yield(); else p->m.lock_shared(); sim_ctr_add(CTR_USED, 1); if (o.b) sim_yield(); p->m.unlock_shared(); }
    else { acquire(p->m, o.a & 1); sim_ctr_add(CTR_USED, 1); p->m.unlock(); }
}
static void shared_main() { G<bs::shared_spin_mutex>::o = new Obj<bs::shared_spin_mutex>(); spawn_workers(shared_work); int b = sim_quiesce(); EXPECT(!b, "deadlock", "%d threads are blocked forever", b); join_workers(); EXPECT(sim_live_allocs() == 0, "leak", "memory leaked"); }
static void gen_shared(SimGen& g) { int n = g.p->nthreads = g.range(2, 4); g.op(0, OP_FINAL, g.below(2)); for (int t = 1; t < n; t++) g.op(t, g.chance(70) ? OP_SHARED : OP_ACQ, g.below(2), g.below(2)); }

// ---------------------------------------------------------------- semaphore and events: posters post once; thread 0 destroys after its waits
template<class T> struct Q { static T* o; };
template<class T> T* Q<T>::o;
template<class T> static bool take(T& s, int how) {
    switch (how) { case 1: return s.try_wait(); case 2: return s.timed_wait(std::chrono::microseconds(200)); case 3: return s.wait_until(std::chrono::steady_clock::now() + std::chrono::microseconds(200)); case 4: return s.wait_for(std::chrono::nanoseconds(0)); }
    s.wait(); return true;
}
static void post(bs::semaphore& s) { s.post(); } static void post(bs::auto_reset_event& s) { s.post(); } static void post(bs::manual_reset_event& s) { s.set(); }
template<class T> struct NPosts { enum { MANY = 0 }; }; template<> struct NPosts<bs::semaphore> { enum { MANY = 1 }; };
template<class T> static void sem_work(int th) {
    T* s = Q<T>::o;
    if (th == 0) {
        int need = NPosts<T>::MANY ? sim_nthreads() - 1 : 1, i = 0;
        for (int k = 0; k < need;) { if (take(*s, i < 6 && sim_nops(0) ? sim_op(0, i % sim_nops(0)).a : 0)) k++; else sim_yield(); i++; }
        delete s; sim_ctr_add(CTR_GONE, 1); reuse(sizeof *s); return;
    }
    if (sim_op(th, 0).b) sim_yield();
    post(*s);
}
template<class T> static void sem_main() { Q<T>::o = new T(); spawn_workers(sem_work<T>); int b = sim_quiesce(); EXPECT(!b, "lost-post", "%d threads are blocked forever", b); join_workers(); EXPECT(sim_live_allocs() == 0, "leak", "memory leaked"); }
static void gen_sem(SimGen& g) { int n = g.p->nthreads = g.range(2, 4); for (int i = 0, k = g.range(1, 3); i < k; i++) g.op(0, OP_FINAL, g.below(5)); for (int t = 1; t < n; t++) g.op(t, OP_POST, 0, g.below(2)); }
static void gen_event(SimGen& g) { g.p->nthreads = 2; for (int i = 0, k = g.range(1, 3); i < k; i++) g.op(0, OP_FINAL, g.below(5)); g.op(1, OP_POST, 0, g.below(2)); }
// a set event with several waiters: the last waiter to return (as counted by an atomic of the user) destroys it while set() may still be waking threads;
// waiters that gave up (timed out) count as returned only together with a later successful wait
template<class T> static void multi_work(int th) {
    T* s = Q<T>::o;
    if (th == 0) { if (sim_op(0, 0).b) sim_yield(); int n = NPosts<T>::MANY || std::is_same<T, bs::auto_reset_event>::value ? sim_nthreads() - 1 : 1;
        // each post may be the last use of the object by this thread; an event must not be posted again before it was consumed
        for (int k = 0; k < n; k++) { if (k && std::is_same<T, bs::auto_reset_event>::value) { for (int w = 0; sim_ctr(CTR_WAITED) < k; w++) sim_sleep(100000); sim_hb_acquire(1); } post(*s); }
        return; }
    for (int i = 0;; i++) { if (take(*s, i < 6 && sim_nops(th) ? sim_op(th, i % sim_nops(th)).a : 0)) break; sim_yield(); }
    sim_hb_release(1); bool last = sim_ctr_add(CTR_WAITED, 1) == sim_nthreads() - 1; // the user's own acq_rel reference count
    if (last) { sim_hb_acquire(1); delete s; reuse(sizeof *s); }
}
template<class T> static void multi_main() { Q<T>::o = new T(); spawn_workers(multi_work<T>); int b = sim_quiesce(); EXPECT(!b, "lost-post", "%d threads are blocked forever", b); join_workers(); EXPECT(sim_live_allocs() == 0, "leak", "memory leaked"); }
static void gen_multi(SimGen& g) { int n = g.p->nthreads = g.range(2, 4); g.op(0, OP_POST, 0, g.below(2)); for (int t = 1; t < n; t++) for (int i = 0, k = g.range(1, 2); i < k; i++) g.op(t, OP_WAITER, g.below(5)); }

// ---------------------------------------------------------------- condition variables: destroyed by a waiter after all waiters returned
template<class CV, class M> struct CvObj { M m; CV cv; long ready, waiters; };
template<class CV, class M> struct H { static CvObj<CV, M>* o; };
template<class CV, class M> CvObj<CV, M>* H<CV, M>::o;
template<class CV, class M> static void cv_work(int th) {
    CvObj<CV, M>* p = H<CV, M>::o; SimOp o = sim_op(th, 0);
    if (th == 0) { if (o.b) sim_yield(); bs::unique_lock<M> l(p->m); p->ready = 1; if (o.a & 1) p->cv.notify_all(); else for (int i = 0; i < sim_nthreads(); i++) p->cv.notify_one(); return; } // notified under the lock
    bool last;
    { bs::unique_lock<M> l(p->m);
      switch (o.a % 4) {
      case 0: while (!p->ready) p->cv.wait(l); break;
      case 1: p->cv.wait(l, [&] { return p->ready != 0; }); break;
      case 2: while (!p->ready) p->cv.wait_for(l, std::chrono::microseconds(200)); break;
      default: while (!p->cv.wait_until(l, std::chrono::steady_clock::now() + std::chrono::microseconds(200), [&] { return p->ready != 0; })) {} break; }
      last = --p->waiters == 0; }
    if (last) { delete p; sim_ctr_add(CTR_GONE, 1); reuse(sizeof *p); }
}
template<class CV, class M> static void cv_main() {
    CvObj<CV, M>* p = H<CV, M>::o = new CvObj<CV, M>(); p->ready = 0; p->waiters = sim_nthreads() - 1;
    spawn_workers(cv_work<CV, M>); int b = sim_quiesce(); EXPECT(!b, "lost-notify", "%d threads are blocked forever", b); join_workers(); EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}
static void gen_cv(SimGen& g) { int n = g.p->nthreads = g.range(2, 4); for (int t = 0; t < n; t++) g.op(t, t ? OP_WAITER : OP_POST, g.below(4), g.below(2)); }

static const unsigned BASE = FB(F_EINTR) | FB(F_SPURIOUS) | FB(F_WEAKCAS) | FB(F_STALE) | FB(F_STALL) | FB(F_EXPIRE) | FB(F_WAKEORDER);
SCENARIOS(
    {"destroy_mutex", gen_mutex, mutex_main<bs::mutex>, BASE, SCN_WEAK, opname},
    {"destroy_timed_mutex", gen_mutex, mutex_main<bs::timed_mutex>, BASE, SCN_WEAK, opname},
    {"destroy_spin_mutex", gen_mutex, mutex_main<bs::spin_mutex>, BASE, SCN_WEAK, opname},
    {"destroy_shared_spin_mutex", gen_shared, shared_main, BASE, SCN_WEAK, opname},
    {"destroy_semaphore", gen_sem, sem_main<bs::semaphore>, BASE, SCN_WEAK, opname},
    {"destroy_auto_reset_event", gen_event, sem_main<bs::auto_reset_event>, BASE, SCN_WEAK, opname},
    {"destroy_manual_reset_event", gen_event, sem_main<bs::manual_reset_event>, BASE, SCN_WEAK, opname},
    {"destroy_multi_semaphore", gen_multi, multi_main<bs::semaphore>, BASE, SCN_WEAK, opname},
    {"destroy_multi_auto_reset_event", gen_multi, multi_main<bs::auto_reset_event>, BASE, SCN_WEAK, opname},
    {"destroy_multi_manual_reset_event", gen_multi, multi_main<bs::manual_reset_event>, BASE, SCN_WEAK, opname},
    {"destroy_cv", gen_cv, cv_main<bs::condition_variable, bs::mutex>, BASE, SCN_WEAK, opname},
    {"destroy_cv_any", gen_cv, cv_main<bs::condition_variable_any, bs::spin_mutex>, BASE, SCN_WEAK, opname},
)
