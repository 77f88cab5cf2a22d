// Crowds: up to 300 threads on one object, hundreds of keys, callbacks and registrations (no happens-before tracking in these runs).
#include "common.hpp"
#include <boost/move/utility_core.hpp>
#include <boost/assert.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
namespace bs = boost::sync;

enum { OP_POST, OP_QUIET, OP_TRY, OP_SLEEP, OP_RESET, OP_ALL };
static const char* opname(int c) { static const char* n[] = {"post", "quiesce", "try", "sleep", "reset", "all"}; return n[c]; }
enum { SUCC = 0, HOLD = 1, GAVEUP = 2, NEXT = 10, CL = 100 };
static int N() { int n = sim_param(0); return n < 1 ? 1 : n; }
static unsigned mixu(unsigned a, unsigned b) { unsigned h = a * 2654435761u ^ (b + 0x9e3779b9u) * 40503u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return h; }
static bool is_timed(int i) { return (int)(mixu(i, sim_param(2)) % 100) < sim_param(1); }
static int g_cf[SIM_MAXF];
static void spawn_crowd(void (*f)(void*), int n) { for (int i = 0; i < n; i++) g_cf[i] = sim_spawn(f, (void*)(intptr_t)i); }
static void join_crowd(int n) { for (int i = 0; i < n; i++) EXPECT(sim_join(g_cf[i]), "stuck", "thread %d is blocked forever", g_cf[i]); }
static int tmo(int i) { return (int)(mixu(i, 77) % 400); }

// ---------------------------------------------------------------- semaphore, events
template<class T> struct G { static T* o; }; template<class T> T* G<T>::o;
static void post(bs::semaphore& s) { s.post(); } static void post(bs::auto_reset_event& s) { s.post(); } static void post(bs::manual_reset_event& s) { s.set(); }
template<class T> static void sem_work(void* p) {
    int i = (int)(intptr_t)p; T& s = *G<T>::o; bool ok = true;
    if (is_timed(i)) ok = i & 1 ? s.wait_for(std::chrono::microseconds(tmo(i))) : s.wait_until(std::chrono::steady_clock::now() + std::chrono::microseconds(tmo(i))); else s.wait();
    sim_ctr_add(ok ? SUCC : GAVEUP, 1);
}
template<class T> static void sem_main() {
    enum { ARE = std::is_same<T, bs::auto_reset_event>::value, MRE = std::is_same<T, bs::manual_reset_event>::value, SEM = !ARE && !MRE };
    T* s = G<T>::o = new T(); int n = N(); spawn_crowd(sem_work<T>, n);
    long posts = 0, own = 0, since = 0, base = 0; int parked = -1; bool set = false;
    for (int i = 0; i <= sim_nops(0); i++) {
        SimOp o = {OP_QUIET, 0, 0, 0}; if (i < sim_nops(0)) o = sim_op(0, i);
        switch (o.code) {
        case OP_POST: for (int k = 0; k < o.a; k++) { post(*s); posts++; since++; set = true; } break;
        case OP_ALL: { int m = parked > 0 ? parked : n; for (int k = 0; k < m; k++) { post(*s); posts++; since++; set = true; } break; }
        case OP_TRY: if (s->try_wait()) own++; parked = -1; if ((int)SEM || (int)ARE) EXPECT(sim_ctr(SUCC) + own <= posts, "history-semaphore", "more waits succeeded than units were posted"); break;
        case OP_SLEEP: sim_sleep(o.a * 20000LL); break;
        case OP_RESET: if constexpr ((bool)MRE) { s->reset(); set = false; } break;
        case OP_QUIET: {
            int b = sim_quiesce(); long succ = sim_ctr(SUCC);
            if (MRE) {
                EXPECT(!(set && b), "lost-post", "%d of %d threads stay blocked on a set event", b, n);
                EXPECT(posts || !succ, "history-manual_reset_event", "%ld waits succeeded although the event was never set", succ);
                if (!set && posts) EXPECT(!s->try_wait(), "history-manual_reset_event", "reset event appears set");
            } else {
                EXPECT(succ + own <= posts, ARE ? "history-auto_reset_event" : "history-semaphore", "%ld waits succeeded with %ld posts", succ + own, posts);
                if (SEM) EXPECT(!b || succ + own == posts, "lost-post", "%d threads stay blocked although %ld units are available", b, posts - succ - own);
                if (ARE && b && s->try_wait()) sim_violation("lost-post", "%d threads stay blocked although a signal is available", b);
                if (parked >= 0) {
                    long want = since < parked ? since : parked;
                    EXPECT(succ - base >= want, "lost-post", "%ld posts with %d blocked threads released only %ld", since, parked, succ - base);
                    EXPECT(succ - base <= want, ARE ? "history-auto_reset_event" : "history-semaphore", "%ld posts with %d blocked threads released %ld", since, parked, succ - base);
                    if (ARE && since > parked) { EXPECT(s->try_wait(), "lost-post", "a post without waiters left no signal"); own++; EXPECT(!s->try_wait(), "history-auto_reset_event", "more than one signal was kept"); }
                }
            }
            base = sim_ctr(SUCC); parked = b; since = 0; break; }
        }
    }
    // release the rest
    if (parked > 0) { int b; if (MRE) post(*s); else for (int k = 0; k < parked; k++) { post(*s); posts++; } b = sim_quiesce(); EXPECT(!b, "lost-post", "%d of %d threads stay blocked after being posted to", b, parked); }
    join_crowd(n);
    EXPECT(sim_ctr(SUCC) + sim_ctr(GAVEUP) == n, "stuck", "threads missing");
    if (SEM) { for (long left = posts - own - sim_ctr(SUCC); left > 0; left--) EXPECT(s->try_wait(), "lost-post", "%ld units are missing", left); EXPECT(!s->try_wait(), "history-semaphore", "surplus unit"); }
    delete s;
}
static int crowd_size(SimGen& g) { return g.chance(50) ? g.range(6, 12) : g.chance(70) ? g.range(13, 70) : g.chance(60) ? g.range(70, 140) : g.range(250, 300); }
static void gen_base(SimGen& g) { g.p->nthreads = 1; g.p->params[0] = crowd_size(g); g.p->params[1] = g.chance(50) ? 0 : g.range(5, 90); g.p->params[2] = g.below(1000); }
static void gen_sem_(SimGen& g, bool mre) {
    gen_base(g); int n = g.p->params[0]; if (g.chance(60)) g.op(0, OP_QUIET);
    for (int i = 0, k = g.range(1, 7); i < k; i++) { int r = g.below(100); if (r < 40) g.op(0, OP_POST, mre ? 1 : g.chance(40) ? g.range(1, 3) : g.range(1, n + 2)); else if (r < 55) g.op(0, OP_ALL); else if (r < 85) g.op(0, OP_QUIET); else if (r < 92) g.op(0, mre ? OP_RESET : OP_TRY); else g.op(0, OP_SLEEP, g.below(15)); }
}
static void gen_sem(SimGen& g) { gen_sem_(g, false); } static void gen_mre(SimGen& g) { gen_sem_(g, true); }

// ---------------------------------------------------------------- condition variables
template<class CV, class M> struct C { static CV* c; static M* m; }; template<class CV, class M> CV* C<CV, M>::c; template<class CV, class M> M* C<CV, M>::m;
template<class CV, class M> static void cv_work(void* p) {
    int i = (int)(intptr_t)p; bs::unique_lock<M> l(*C<CV, M>::m);
    if (is_timed(i)) C<CV, M>::c->wait_for(l, std::chrono::microseconds(tmo(i))); else C<CV, M>::c->wait(l);
    EXPECT(l.owns_lock(), "cv-lock", "wait returned without the lock"); sim_cs_enter(0, 0); sim_ctr_add(SUCC, 1); sim_cs_leave(0, 0);
}
template<class CV, class M> static void cv_main() {
    CV* c = C<CV, M>::c = new CV(); M* m = C<CV, M>::m = new M(); int n = N(); spawn_crowd(cv_work<CV, M>, n);
    int parked = -1; long since = 0, base = 0; bool all = false;
    for (int i = 0; i <= sim_nops(0); i++) {
        SimOp o = {OP_QUIET, 0, 0, 0}; if (i < sim_nops(0)) o = sim_op(0, i);
        switch (o.code) {
        case OP_POST: for (int k = 0; k < o.a; k++) { if (o.b & 1) { bs::unique_lock<M> l(*m); c->notify_one(); } else c->notify_one(); since++; } break;
        case OP_ALL: { if (o.b & 1) { bs::unique_lock<M> l(*m); c->notify_all(); } else c->notify_all(); all = true; break; }
        case OP_SLEEP: sim_sleep(o.a * 20000LL); break;
        case OP_QUIET: { int b = sim_quiesce(); long succ = sim_ctr(SUCC);
            m->lock(); m->unlock();
            if (parked >= 0) { long want = all || since > parked ? parked : since; EXPECT(succ - base >= want, "lost-notify", "%s with %d blocked threads released only %ld", all ? "notify_all" : "notify_one", parked, succ - base); }
            parked = b; since = 0; base = succ; all = false; break; }
        }
    }
    if (parked > 0) { c->notify_all(); int b = sim_quiesce(); EXPECT(!b, "lost-notify", "%d of %d threads stay blocked after notify_all", b, parked); }
    join_crowd(n); EXPECT(sim_ctr(SUCC) == n, "stuck", "threads missing"); delete c; delete m;
}
static void gen_cv(SimGen& g) {
    gen_base(g); int n = g.p->params[0]; g.op(0, OP_QUIET);
    for (int i = 0, k = g.range(1, 6); i < k; i++) { int r = g.below(100); if (r < 40) g.op(0, OP_POST, g.chance(50) ? g.range(1, 3) : g.range(1, n), g.below(2)); else if (r < 65) g.op(0, OP_ALL, 0, g.below(2)); else if (r < 93) g.op(0, OP_QUIET); else g.op(0, OP_SLEEP, g.below(15)); }
}

// ---------------------------------------------------------------- locks
template<class M> static void lock_work(void* p) {
    int i = (int)(intptr_t)p; M& m = *G<M>::o; bool ok = true;
    if (is_timed(i)) { if constexpr (std::is_same<M, bs::timed_mutex>::value) ok = i & 1 ? m.try_lock_for(std::chrono::microseconds(tmo(i))) : m.try_lock_until(std::chrono::steady_clock::now() + std::chrono::microseconds(tmo(i))); else ok = m.try_lock(); } else m.lock();
    if (!ok) { sim_ctr_add(GAVEUP, 1); return; }
    sim_cs_enter(0, 0); sim_ctr_add(SUCC, 1); if (i & 1) sim_yield(); sim_cs_leave(0, 0); m.unlock();
}
template<class M> static void lock_main() {
    enum { SPIN = std::is_same<M, bs::spin_mutex>::value || std::is_same<M, bs::shared_spin_mutex>::value };
    M* m = G<M>::o = new M(); int n = N(); bool hold = sim_param(3) & 1; if (hold) { m->lock(); sim_cs_enter(0, 0); }
    spawn_crowd(lock_work<M>, n);
    if (hold) {
        if (SPIN) sim_settle(30 + sim_param(2) % 300); else { sim_quiesce(); EXPECT(sim_ctr(SUCC) == 0, "exclusion", "%ld threads acquired an owned mutex", sim_ctr(SUCC)); EXPECT(!m->try_lock(), "exclusion", "try_lock succeeded on an owned mutex"); }
        sim_cs_leave(0, 0); m->unlock();
    }
    int b = sim_quiesce(); EXPECT(!b, "deadlock", "%d of %d threads stay blocked on a released mutex", b, n);
    join_crowd(n); EXPECT(sim_ctr(SUCC) + sim_ctr(GAVEUP) == n, "stuck", "threads missing");
    EXPECT(m->try_lock(), "residue", "free mutex cannot be locked"); m->unlock(); delete m;
}
static void gen_lock(SimGen& g) { gen_base(g); g.p->params[3] = g.below(4); }
static void gen_spin(SimGen& g) { gen_lock(g); if (g.p->params[0] > 70) g.p->params[0] = g.range(6, 70); }
// every reader holds its shared ownership until all of them do
static void shared_work(void* p) {
    int i = (int)(intptr_t)p, n = N(); bs::shared_spin_mutex& m = *G<bs::shared_spin_mutex>::o;
    if (i & 1) m.lock_shared(); else EXPECT(m.try_lock_shared(), "history-rwlock", "try_lock_shared failed without an exclusive owner");
    sim_cs_enter(0, 1); if (sim_ctr_add(HOLD, 1) == n || i % 16 == 0) EXPECT(!m.try_lock(), "exclusion", "exclusive lock acquired with shared owners");
    for (int k = 0; sim_ctr(HOLD) < n; k++) { EXPECT(k < 100000, "stuck", "shared owners do not coexist"); sim_sleep(20000000); }
    sim_cs_leave(0, 1); m.unlock_shared(); sim_ctr_add(SUCC, 1);
}
static void shared_main() {
    typedef bs::shared_spin_mutex M; M* m = G<M>::o = new M(); int n = N(); spawn_crowd(shared_work, n); int b = sim_quiesce(); EXPECT(!b, "deadlock", "%d threads stay blocked", b); join_crowd(n);
    EXPECT(sim_ctr(SUCC) == n, "stuck", "threads missing"); EXPECT(m->try_lock(), "residue", "free mutex cannot be locked"); m->unlock(); EXPECT(m->try_lock_shared(), "residue", "free mutex cannot be shared"); m->unlock_shared(); delete m;
}

// ---------------------------------------------------------------- thread-specific storage: params[3] pointers, params[4] exit callbacks per thread
struct Val { int id; };
typedef bs::thread_specific_ptr<Val> Ptr;
enum { MAXK = 320 };
static Ptr* g_p[MAXK]; static char g_wave[MAXK];   // which cleanup function the pointer was created with
static int K() { int k = sim_param(3); return k < 1 ? 1 : k > MAXK ? MAXK : k; }
static void clean(Val* v, int kind) {
    EXPECT(v->id > 0 && v->id < 7000, "tss-cleanup", "cleanup called with a pointer that was never stored"); long n = sim_ctr_add(CL + v->id, 2);
    EXPECT(n == 2 || n == 3, "tss-cleanup", "value %d cleaned up twice", v->id); EXPECT((n & 1) == kind, "tss-cleanup", "value %d cleaned up with the function of another pointer", v->id); delete v;
}
static void cleanA(Val* v) { clean(v, 0); } static void cleanB(Val* v) { clean(v, 1); }
static int store(int k) { int id = (int)sim_ctr_add(NEXT, 1); sim_ctr_set(CL + id, g_wave[k]); Val* v = new Val; v->id = id; g_p[k]->reset(v); return id; }
static int nvals() { int k = K(), m = 6500 / (3 * N() + 4); return k < m ? k : m; }
struct Cb { int order; long* left; void operator()() const { EXPECT(*left == order, "at-exit", "callback %d ran out of order (%ld left)", order, *left); --*left; sim_ctr_add(HOLD, 1); } };
static long g_left[SIM_MAXF];
static void tss_work(void* p) {
    int i = (int)(intptr_t)p, k = K(), nv = nvals(), step = 1 + (int)(mixu(i, sim_param(2)) % k); int ids[MAXK]; 
    int nc = sim_param(4); if (nc > 320) nc = 320; g_left[i] = 0;
    for (int j = 0; j < k; j++) ids[j] = 0;
    for (int j = 0, at = (int)(mixu(i, 5) % k); j < nv; j++, at = (at + step) % k) ids[at] = store(at);
    for (int c = 0; c < nc; c++) { g_left[i] = c + 1; Cb cb = {c + 1, &g_left[i]}; bs::at_thread_exit(cb); }
    for (int j = 0; j < k; j++) { Val* v = g_p[j]->get(); EXPECT(v ? v->id == ids[j] : !ids[j], "tss-value", "thread %d sees value %d instead of %d in pointer %d", i, v ? v->id : 0, ids[j], j); }
    sim_ctr_add(SUCC, 1);
}
static void tss_main() {
    int k = K(), n = N() > 100 ? 100 : N(); long regs = 0; int mine[MAXK] = {0};
    for (int j = 0; j < k; j++) { g_wave[j] = j & 1; g_p[j] = new Ptr(g_wave[j] ? cleanB : cleanA); }
    for (int wave = 0; wave < 2; wave++) {
        for (int j = 0; j < k; j++) if ((mixu(j, wave) & 3) == 0 && sim_ctr(NEXT) < 6000) mine[j] = store(j);
        spawn_crowd(tss_work, n); int b = sim_quiesce(); EXPECT(!b, "stuck", "%d threads stay blocked", b); join_crowd(n);
        int nc = sim_param(4); if (nc > 320) nc = 320; regs += (long)n * nc; EXPECT(sim_ctr(HOLD) == regs, "at-exit", "%ld of %ld exit callbacks ran", sim_ctr(HOLD), regs);
        for (int id = 1; id <= sim_ctr(NEXT); id++) { bool m = false; for (int j = 0; j < k; j++) m |= mine[j] == id; long c = sim_ctr(CL + id); if (!m) EXPECT(c >= 2, "tss-cleanup", "value %d was not cleaned up at thread exit", id); }
        for (int j = 0; j < k; j++) { Val* v = g_p[j]->get(); EXPECT(v ? v->id == mine[j] : !mine[j], "tss-value", "the main thread sees value %d instead of %d in pointer %d", v ? v->id : 0, mine[j], j); }
        if (wave == 0) { // replace some pointers: their keys are recycled with another cleanup function
            for (int j = 0; j < k; j++) if (mixu(j, 9) & 1) { delete g_p[j]; g_p[j] = 0; if (mine[j]) { EXPECT(sim_ctr(CL + mine[j]) >= 2, "tss-cleanup", "value %d survived its pointer", mine[j]); mine[j] = 0; } }
            for (int j = 0; j < k; j++) if (!g_p[j]) { g_wave[j] = !g_wave[j]; g_p[j] = new Ptr(g_wave[j] ? cleanB : cleanA); }
        }
        if (sim_param(5) == 0 || sim_ctr(NEXT) + 3 * k > 6900) break;
    }
    for (int j = 0; j < k; j++) delete g_p[j];
    for (int id = 1; id <= sim_ctr(NEXT); id++) EXPECT(sim_ctr(CL + id) >= 2, "tss-cleanup", "value %d was never cleaned up", id);
}
static void gen_tss(SimGen& g) {
    g.p->nthreads = 1; g.p->params[2] = g.below(1000); g.p->params[5] = g.below(2);
    if (g.chance(50)) { g.p->params[0] = g.range(1, 3); g.p->params[3] = g.chance(50) ? g.range(7, 40) : g.chance(50) ? g.range(40, 140) : g.range(250, 320); g.p->params[4] = g.chance(60) ? g.range(0, 10) : g.chance(60) ? g.range(10, 70) : g.range(200, 320); }
    else { g.p->params[0] = g.chance(70) ? g.range(4, 20) : g.range(20, 90); g.p->params[3] = g.range(1, 12); g.p->params[4] = g.range(0, 5); }
}
// ---------------------------------------------------------------- exit notifications: params[3] registrations by one exiting thread, a crowd of waiters
struct NT { bs::mutex m; bs::condition_variable c; long flag; };
static NT* g_nt[64];
static int nreg() { int r = sim_param(3); return r < 1 ? 1 : r > 64 ? 64 : r; }
static void nt_owner(void*) { for (int i = 0; i < nreg(); i++) { bs::unique_lock<bs::mutex> l(g_nt[i]->m); g_nt[i]->flag = 1; bs::notify_all_at_thread_exit(g_nt[i]->c, boost::move(l)); } struct F { void operator()() const { sim_ctr_add(HOLD, 1); } }; bs::at_thread_exit(F()); }
static void nt_wait(void* p) { int i = (int)(intptr_t)p; NT* n = g_nt[i % nreg()]; bs::unique_lock<bs::mutex> l(n->m); while (!n->flag) n->c.wait(l); EXPECT(sim_ctr(HOLD) == 1, "notify-exit", "waiter released before the exit callbacks ran"); sim_ctr_add(SUCC, 1); }
static void notify_main() {
    int n = N(); for (int i = 0; i < nreg(); i++) { g_nt[i] = new NT; g_nt[i]->flag = 0; }
    if (sim_param(4)) { spawn_crowd(nt_wait, n); if (sim_param(4) > 1) sim_quiesce(); }
    int ow = sim_spawn(nt_owner, 0);
    if (!sim_param(4)) spawn_crowd(nt_wait, n);
    int b = sim_quiesce(); EXPECT(!b, "notify-exit", "%d of %d waiters missed the exit of the thread", b, n);
    join_crowd(n); EXPECT(sim_join(ow), "stuck", "exiting thread is blocked"); EXPECT(sim_ctr(SUCC) == n, "stuck", "threads missing");
    for (int i = 0; i < nreg(); i++) { EXPECT(g_nt[i]->m.try_lock(), "notify-exit", "mutex still locked after the thread exited"); g_nt[i]->m.unlock(); delete g_nt[i]; }
}
static void gen_notify(SimGen& g) { g.p->nthreads = 1; g.p->params[0] = crowd_size(g); g.p->params[3] = g.chance(50) ? 1 : g.chance(60) ? g.range(2, 9) : g.range(10, 64); g.p->params[4] = g.below(3); }

static const unsigned BASE = FB(F_EINTR) | FB(F_SPURIOUS) | FB(F_WEAKCAS) | FB(F_STALL) | FB(F_EXPIRE) | FB(F_WAKEORDER);
SCENARIOS(
    {"crowd_semaphore", gen_sem, sem_main<bs::semaphore>, BASE, 0, opname},
    {"crowd_auto_reset_event", gen_sem, sem_main<bs::auto_reset_event>, BASE, 0, opname},
    {"crowd_manual_reset_event", gen_mre, sem_main<bs::manual_reset_event>, BASE, 0, opname},
    {"crowd_cv", gen_cv, cv_main<bs::condition_variable, bs::mutex>, BASE, 0, opname},
    {"crowd_cv_any", gen_cv, cv_main<bs::condition_variable_any, bs::timed_mutex>, BASE, 0, opname},
    {"crowd_mutex", gen_lock, lock_main<bs::mutex>, BASE, 0, opname},
    {"crowd_timed_mutex", gen_lock, lock_main<bs::timed_mutex>, BASE, 0, opname},
    {"crowd_spin_mutex", gen_spin, lock_main<bs::spin_mutex>, BASE, 0, opname},
    {"crowd_shared_spin_mutex", gen_spin, lock_main<bs::shared_spin_mutex>, BASE, 0, opname},
    {"crowd_readers", gen_base, shared_main, BASE, 0, opname},
    {"crowd_tss", gen_tss, tss_main, BASE, 0, opname},
    {"crowd_notify_exit", gen_notify, notify_main, BASE, 0, opname},
)
