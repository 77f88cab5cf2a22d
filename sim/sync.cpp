// Simulated operating system layer: pthread mutexes, condition variables, once, thread-specific data,
// POSIX semaphores, futexes and clocks. Reached from the code under test by symbol redirection.
#include "rt_int.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <chrono>
#include <mutex>
#include <condition_variable>

int cut_eintr_bug = 0;

template<class T> struct Table {
    std::vector<T> v; // small: linear
    T* find(const void* a) { for (auto& x : v) if (x.addr == a) return &x; return 0; }
    T& get(const void* a) { T* p = find(a); if (p) return *p; v.emplace_back(); v.back().addr = a; return v.back(); }
    void erase(const void* a) { for (size_t i = 0; i < v.size(); i++) if (v[i].addr == a) { v.erase(v.begin() + i); return; } }
    void forget(const char* p, size_t n) { for (size_t i = 0; i < v.size();) if ((const char*)v[i].addr >= p && (const char*)v[i].addr < p + n) v.erase(v.begin() + i); else i++; }
};
struct Mtx { const void* addr = 0; int owner = -1; VC vc; int id = 0; bool inited = false; Mtx() { vc.clear(); } };
struct Cnd { const void* addr = 0; std::vector<int> q; int id = 0; int clock = 0; bool inited = false; };
struct Sem { const void* addr = 0; u32 val = 0; VC vc; int id = 0; int waiters = 0; Sem() { vc.clear(); } };
struct Onc { const void* addr = 0; int st = 0; VC vc; Onc() { vc.clear(); } };
struct Ftx { const void* addr = 0; std::vector<int> q; };
static Table<Mtx> mt; static Table<Cnd> ct; static Table<Sem> stb; static Table<Onc> ot; static Table<Ftx> ft;
static int nid;
static struct Key { bool used; void (*d)(void*); } keys[TSD_MAX]; static int nkeys;

void sync_reset() { mt.v.clear(); ct.v.clear(); stb.v.clear(); ot.v.clear(); ft.v.clear(); nid = 0; memset(keys, 0, sizeof keys); nkeys = 0; }
void sync_forget_range(const void* p, size_t n) { mt.forget((const char*)p, n); ct.forget((const char*)p, n); stb.forget((const char*)p, n); ot.forget((const char*)p, n); }
static Mtx& M(const void* a) { Mtx& m = mt.get(a); if (!m.id) m.id = ++nid; return m; }
static Cnd& C(const void* a) { Cnd& c = ct.get(a); if (!c.id) c.id = ++nid; return c; }
static Sem* S(const void* a) { return stb.find(a); }
bool mutex_enabled(const void* a) { return M(a).owner < 0; }
bool sem_enabled(const void* a) { Sem* s = S(a); return !s || s->val > 0; }
bool once_enabled(const void* a) { return ot.get(a).st != 1; }
bool rw_enabled(const void*, int) { return false; }
extern "C" int sim_mutex_owner(const void* a) { Mtx* m = mt.find(a); return m ? m->owner : -1; }

// fresh heap memory is filled with 0xA5: an object still holding that pattern was neither statically nor dynamically initialised
static bool raw(const void* a) { u64 w; memcpy(&w, a, 8); return w == 0xA5A5A5A5A5A5A5A5ull; }
static void m_check(const void* a, const char* what) {
    obj_check(a, what); Mtx* m = mt.find(a);
    if (!(m && m->inited) && raw(a)) violation("uninitialised", "%s called with a mutex that was not initialised", what);
}
static void c_check(const void* a, const char* what) {
    obj_check(a, what); Cnd* c = ct.find(a);
    if (!(c && c->inited) && raw(a)) violation("uninitialised", "%s called with a condition variable that was not initialised", what);
}
static i64 ts2ns(const struct timespec* t) {
    __int128 v = (__int128)t->tv_sec * NS + t->tv_nsec;
    if (v > (__int128)(1LL << 62)) v = 1LL << 62;
    if (v < -(__int128)(1LL << 62)) v = -(1LL << 62);
    return (i64)v;
}
static bool badns(const struct timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= NS; }
static void set_timer(Fiber& f, int clock, i64 dl) { f.has_timer = true; f.tclock = clock; f.tdl = dl; }
static void qremove(std::vector<int>& q, int id) { for (size_t i = 0; i < q.size(); i++) if (q[i] == id) { q.erase(q.begin() + i); return; } }

static void auto_release(const void* m) {
    Fiber& f = CUR(); if (f.opstack.empty()) return;
    HOp& o = R.ops[f.opstack.back()];
    if ((o.kind == K_CWAIT || o.kind == K_CTIMED) && o.release < 0 && (const void*)o.arg == m) o.release = R.step;
}
static void mtx_take(const void* a) { Mtx& m = M(a); Fiber& f = CUR(); m.owner = f.id; f.held++; f.vc.join(m.vc); progress(); }
static void mtx_drop(const void* a) { Mtx& m = M(a); Fiber& f = CUR(); m.owner = -1; f.held--; m.vc.join(f.vc); vc_tick(f); auto_release(a); progress(); }
static void mtx_lock_blocking(const void* a) {
    while (M(a).owner >= 0) { Fiber& f = CUR(); f.has_timer = false; block_current(W_MUTEX, a); }
    mtx_take(a);
}
static int ferr(int e) { CUR().lasterr = e; return e; }
static int mutex_error() { static const int e[] = {EINVAL, EAGAIN, EDEADLK, ENOTRECOVERABLE}; return ferr(e[choose(4, -1)]); }
static bool eintr_bug() { return cut_eintr_bug && fault(F_EINTR); }

extern "C" {
#define PASS if (!R.active) 
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) {
    PASS return 0;
    obj_check(m, "pthread_mutex_init");
    if (fault(F_SYS_INIT)) return ferr(choose(2, -1) ? ENOMEM : EAGAIN);
    mt.erase(m); M(m).inited = true; R.native++; return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) {
    PASS return 0;
    point(11, m); m_check(m, "pthread_mutex_destroy");
    if (eintr_bug()) return EINTR;
    Mtx* x = mt.find(m);
    if (x) {
        if (x->owner >= 0) violation("destroy-busy", "mutex destroyed while locked by thread %d", x->owner);
        for (int i = 0; i < R.nf; i++) if (R.f[i].st == FS_BLOCKED && R.f[i].wk == W_MUTEX && R.f[i].wobj == m) violation("destroy-busy", "mutex destroyed while thread %d is blocked on it", i);
        TR("mutex%d destroy", x->id);
        if (x->inited) R.native--;
        mt.erase(m);
    }
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
    PASS return 0;
    point(10, m); m_check(m, "pthread_mutex_lock");
    if (eintr_bug()) return EINTR;
    if (fault(F_SYS_MUTEX)) return mutex_error();
    mtx_lock_blocking(m);
    TR("mutex%d lock", M(m).id);
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) {
    PASS return 0;
    point(12, m); m_check(m, "pthread_mutex_trylock");
    if (eintr_bug()) return EINTR;
    if (fault(F_SYS_MUTEX)) return mutex_error();
    if (M(m).owner >= 0) { TR("mutex%d trylock busy", M(m).id); hmix(55); return EBUSY; }
    mtx_take(m); TR("mutex%d trylock ok", M(m).id); return 0;
}
static int timedlock(pthread_mutex_t* m, int clock, const struct timespec* t) {
    point(13, m); m_check(m, "pthread_mutex_timedlock");
    if (eintr_bug()) return EINTR;
    if (fault(F_SYS_MUTEX)) return mutex_error();
    if (M(m).owner < 0) { mtx_take(m); TR("mutex%d timedlock ok", M(m).id); return 0; }
    if (badns(t)) return EINVAL;
    i64 dl = ts2ns(t);
    for (;;) {
        Fiber& f = CUR(); set_timer(f, clock, dl);
        f.latecount = true; f.interruptible = cut_eintr_bug;
        TR("mutex%d timedlock block until %lld", M(m).id, (long long)dl);
        block_current(W_MUTEX, m);
        bool exp = timer_expired(f); int we = f.woken ? f.wake_err : 0; f.has_timer = false;
        if (we == EINTR) return EINTR;
        if (M(m).owner < 0 && !(exp && choose(2, -1))) { mtx_take(m); TR("mutex%d timedlock ok", M(m).id); return 0; }
        if (exp) { TR("mutex%d timedlock timeout", M(m).id); hmix(56); return ETIMEDOUT; }
    }
}
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { PASS return 0; return timedlock(m, 0, t); }
int sim_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { PASS return 0; return timedlock(m, c == CLOCK_MONOTONIC ? 1 : 0, t); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
    PASS return 0;
    point(14, m); m_check(m, "pthread_mutex_unlock");
    if (eintr_bug()) return EINTR;
    Mtx& x = M(m);
    if (x.owner != R.cur) violation("unlock-not-owner", "thread %d unlocked a mutex owned by %s", R.cur, x.owner < 0 ? "no thread" : "another thread");
    mtx_drop(m);
    TR("mutex%d unlock", M(m).id);
    return 0;
}
int sim_pthread_mutexattr_init(pthread_mutexattr_t*) { return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t*, int) { return 0; }

int sim_pthread_condattr_init(pthread_condattr_t* a) { memset((void*)a, 0, sizeof *a); return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { *(char*)a = c == CLOCK_MONOTONIC; return 0; }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    PASS return 0;
    obj_check(c, "pthread_cond_init");
    if (fault(F_SYS_INIT)) return ferr(choose(2, -1) ? ENOMEM : EAGAIN);
    ct.erase(c); C(c).clock = a ? *(const char*)a : 0; C(c).inited = true; R.native++; return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t* c) {
    PASS return 0;
    point(21, c); c_check(c, "pthread_cond_destroy");
    if (eintr_bug()) return EINTR;
    Cnd* x = ct.find(c);
    if (x) {
        if (!x->q.empty()) violation("destroy-busy", "condition variable destroyed while thread %d is blocked on it", x->q[0]);
        if (x->inited) R.native--;
        ct.erase(c);
    }
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t, int clock) {
    point(20, c); c_check(c, "pthread_cond_wait"); m_check(m, "pthread_cond_wait (mutex)");
    if (fault(F_SYS_COND)) return ferr(choose(2, -1) ? EPERM : EINVAL);
    if (t && badns(t)) return EINVAL;
    if (M(m).owner != R.cur) violation("wait-not-owner", "thread %d waits on a condition variable without owning the mutex", R.cur);
    Fiber& f = CUR();
    if (clock < 0) clock = C(c).clock;
    C(c).q.push_back(f.id);
    TR("cond%d wait (mutex%d)%s", C(c).id, M(m).id, t ? " timed" : "");
    mtx_drop(m);
    if (t) { set_timer(f, clock, ts2ns(t)); TR("  until %lld (now %lld)", (long long)f.tdl, (long long)(clock ? R.mono : realnow())); } else f.has_timer = false;
    f.spuriable = true; f.interruptible = cut_eintr_bug; f.latecount = true;
    block_current(W_COND, c);
    bool exp = timer_expired(f); bool woken = f.woken; int we = f.wake_err; f.has_timer = false;
    int ret = 0;
    if (woken) { if (we) { Cnd* x = ct.find(c); if (x) qremove(x->q, f.id); if (we == EINTR) ret = EINTR; } }
    else if (exp) { Cnd* x = ct.find(c); if (x) qremove(x->q, f.id); ret = ETIMEDOUT; }
    m_check(m, "pthread_cond_wait (mutex re-acquisition)");
    mtx_lock_blocking(m);
    TR("cond wait returns %d", ret);
    hmix(ret + 300);
    return ret;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { PASS return 0; return cond_wait(c, m, 0, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { PASS return ETIMEDOUT; return cond_wait(c, m, t, -1); }
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { PASS return ETIMEDOUT; return cond_wait(c, m, t, k == CLOCK_MONOTONIC ? 1 : 0); }
static void wake_one(std::vector<int>& q) {
    size_t i = 0;
    if (q.size() > 1 && fault(F_WAKEORDER)) { i = 1 + choose((u32)q.size() - 1, -1); }
    int id = q[i]; q.erase(q.begin() + i);
    R.f[id].woken = true; R.f[id].wake_err = 0;
    progress();
    TR("  wakes t%d", id);
}
// a fiber with a pending injected wakeup is still queued: skip it only if it was already woken
static void drop_woken(std::vector<int>& q) { for (size_t i = 0; i < q.size();) if (R.f[q[i]].woken) q.erase(q.begin() + i); else i++; }
int sim_pthread_cond_signal(pthread_cond_t* c) {
    PASS return 0;
    point(22, c); c_check(c, "pthread_cond_signal");
    Cnd& x = C(c); TR("cond%d signal (%zu waiting)", x.id, x.q.size());
    drop_woken(x.q);
    if (!x.q.empty()) wake_one(x.q);
    return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
    PASS return 0;
    point(23, c); c_check(c, "pthread_cond_broadcast");
    Cnd& x = C(c); TR("cond%d broadcast (%zu waiting)", x.id, x.q.size());
    drop_woken(x.q);
    while (!x.q.empty()) { int id = x.q[0]; x.q.erase(x.q.begin()); R.f[id].woken = true; R.f[id].wake_err = 0; progress(); }
    return 0;
}

// --------------------------------------------------------------- once / guards
int sim_pthread_once(pthread_once_t* o, void (*fn)(void)) {
    PASS { fn(); return 0; }
    point(30, o);
    for (;;) {
        Onc& x = ot.get(o);
        if (x.st == 2) { CUR().vc.join(x.vc); return 0; }
        if (x.st == 0) break;
        CUR().has_timer = false; block_current(W_ONCE, o);
    }
    ot.get(o).st = 1;
    try { fn(); } catch (...) { ot.get(o).st = 0; throw; }
    point(31, o);
    Onc& x = ot.get(o); x.st = 2; x.vc.join(CUR().vc); vc_tick(CUR()); progress();
    return 0;
}
void __tsan_atomic8_store(volatile u8* p, u8 v, int mo);
int sim_cxa_guard_acquire(u64* g) {
    if (*(volatile char*)g) { PASS return 0; Onc& x = ot.get(g); CUR().vc.join(x.vc); return 0; }
    PASS { return 1; }
    point(32, g);
    for (;;) {
        Onc& x = ot.get(g);
        if (x.st == 2) { CUR().vc.join(x.vc); return 0; }
        if (x.st == 0) break;
        CUR().has_timer = false; block_current(W_ONCE, g);
    }
    ot.get(g).st = 1; return 1;
}
void sim_cxa_guard_release(u64* g) {
    PASS { *(char*)g = 1; return; }
    Onc& x = ot.get(g); x.st = 2; x.vc.join(CUR().vc); vc_tick(CUR()); progress();
    __tsan_atomic8_store((volatile u8*)g, 1, 3);
}
void sim_cxa_guard_abort(u64* g) { PASS return; ot.get(g).st = 0; progress(); }
int sim_cxa_thread_atexit(void (*f)(void*), void* p, void*) { PASS return 0; CUR().dtors.push_back({f, p}); return 0; }
int sim_cxa_atexit(void (*)(void*), void*, void*) { return 0; }

// --------------------------------------------------------------- thread-specific data
int sim_pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    PASS return EAGAIN;
    point(40, k);
    for (int i = 0; i < TSD_MAX; i++) if (!keys[i].used) { keys[i].used = true; keys[i].d = d; for (int t = 0; t < R.nf; t++) R.f[t].tsd[i] = 0; mem_access(k, 4, true); *k = i; return 0; }
    return EAGAIN;
}
int sim_pthread_key_delete(pthread_key_t k) { PASS return 0; if (k >= TSD_MAX || !keys[k].used) return EINVAL; keys[k].used = false; return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { PASS return 0; return k < TSD_MAX && keys[k].used ? CUR().tsd[k] : 0; }
int sim_pthread_setspecific(pthread_key_t k, const void* p) {
    PASS return 0;
    point(41, 0);
    if (k >= TSD_MAX || !keys[k].used) return EINVAL;
    if (p && !CUR().exiting && fault(F_SYS_TSD)) return ferr(ENOMEM);
    CUR().tsd[k] = (void*)p; return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t)(R.cur + 1); }

// --------------------------------------------------------------- semaphores
int sim_sem_init(sem_t* s, int, unsigned v) {
    PASS return 0;
    point(50, s); obj_check(s, "sem_init");
    if (fault(F_SYS_SEM)) { errno = ferr(choose(2, -1) ? EPERM : ENOSPC); return -1; }
    if (v > 0x7fffffffu) { errno = EINVAL; return -1; }
    stb.erase(s); Sem& x = stb.get(s); x.val = v; x.id = ++nid; R.native++; return 0;
}
int sim_sem_destroy(sem_t* s) {
    PASS return 0;
    point(51, s); obj_check(s, "sem_destroy");
    for (int i = 0; i < R.nf; i++) if (R.f[i].st == FS_BLOCKED && R.f[i].wk == W_SEM && R.f[i].wobj == s) violation("destroy-busy", "semaphore destroyed while thread %d is blocked on it", i);
    if (S(s)) R.native--;
    stb.erase(s); return 0;
}
static Sem* sem_get(sem_t* s, const char* what) { obj_check(s, what); Sem* x = S(s); if (!x) violation("bad-semaphore", "%s on an uninitialised or destroyed semaphore", what); return x; }
int sim_sem_post(sem_t* s) {
    PASS return 0;
    point(52, s); Sem* x = sem_get(s, "sem_post");
    if (fault(F_SYS_SEM)) { errno = ferr(EOVERFLOW); return -1; }
    if (x->val == 0x7fffffffu) { errno = EOVERFLOW; return -1; }
    x->val++; x->vc.join(CUR().vc); vc_tick(CUR()); progress();
    TR("sem%d post -> %u", x->id, x->val);
    return 0;
}
static void sem_take(Sem* x) { x->val--; CUR().vc.join(x->vc); progress(); TR("sem%d taken -> %u", x->id, x->val); }
static int sem_wait_impl(sem_t* s, const struct timespec* t, int clock) {
    point(53, s); Sem* x = sem_get(s, "sem_wait");
    if (t && badns(t)) { errno = EINVAL; return -1; }
    if (x->val > 0) { sem_take(x); return 0; }
    for (;;) {
        if (fault(F_EINTR)) { if (!CUR().opstack.empty()) R.ops[CUR().opstack.back()].spur = true; errno = EINTR; return -1; }
        Fiber& f = CUR();
        if (t) set_timer(f, clock, ts2ns(t)); else f.has_timer = false;
        f.interruptible = true; f.latecount = true;
        TR("sem%d block%s", x->id, t ? " timed" : "");
        block_current(W_SEM, s);
        bool exp = timer_expired(f); int we = f.woken ? f.wake_err : 0; f.has_timer = false;
        x = sem_get(s, "sem_wait (after wakeup)");
        if (we == EINTR) { TR("sem_wait EINTR"); errno = EINTR; return -1; }
        if (x->val > 0 && !(exp && choose(2, -1))) { sem_take(x); return 0; }
        if (exp) { TR("sem_wait timeout"); errno = ETIMEDOUT; return -1; }
    }
}
int sim_sem_wait(sem_t* s) { PASS return 0; return sem_wait_impl(s, 0, 0); }
int sim_sem_timedwait(sem_t* s, const struct timespec* t) { PASS return 0; return sem_wait_impl(s, t, 0); }
int sim_sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { PASS return 0; return sem_wait_impl(s, t, c == CLOCK_MONOTONIC ? 1 : 0); }
int sim_sem_trywait(sem_t* s) {
    PASS return 0;
    point(54, s); Sem* x = sem_get(s, "sem_trywait");
    if (x->val > 0) { sem_take(x); return 0; }
    TR("sem%d trywait fails", x->id); errno = EAGAIN; return -1;
}
int sim_sem_getvalue(sem_t* s, int* v) { PASS return 0; point(55, s); *v = (int)sem_get(s, "sem_getvalue")->val; return 0; }

// --------------------------------------------------------------- futex
static long futex_wait_impl(int* addr, int val, bool timed, int clock, i64 dl) {
    obj_check(addr, "futex wait");
    mem_observe(addr, 4);
    if (*(volatile int*)addr != val) { TR("futex wait: value changed"); hmix(401); errno = EAGAIN; return -1; }
    if (fault(F_EINTR)) { errno = EINTR; return -1; }
    Fiber& f = CUR();
    ft.get(addr).q.push_back(f.id);
    if (timed) set_timer(f, clock, dl); else f.has_timer = false;
    f.interruptible = true; f.spuriable = true; f.latecount = true;
    TR("futex wait%s val=%x", timed ? " timed" : "", val);
    block_current(W_FUTEX, addr);
    bool exp = timer_expired(f); bool woken = f.woken; int we = f.wake_err; f.has_timer = false;
    if (woken) {
        if (we) qremove(ft.get(addr).q, f.id);
        if (we == EINTR) { TR("futex EINTR"); errno = EINTR; return -1; }
        TR("futex woken%s", we ? " (spurious)" : ""); return 0;
    }
    qremove(ft.get(addr).q, f.id);
    if (exp) { TR("futex timeout"); hmix(402); errno = ETIMEDOUT; return -1; }
    return 0;
}
static long futex_wake_impl(int* addr, int n) {
    Ftx& x = ft.get(addr); drop_woken(x.q);
    int k = 0;
    while (k < n && !x.q.empty()) { wake_one(x.q); k++; }
    TR("futex wake %d -> %d", n, k);
    return k;
}
long sim_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr);
    long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    PASS { errno = ENOSYS; return -1; }
    if (nr == SYS_gettid) return 1000 + R.cur;
    if (nr == SYS_sched_yield) { point(61, 0); return 0; }
    if (nr == SYS_futex) {
        int* addr = (int*)a[0]; int op = (int)a[1]; int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        point(60, addr);
        const struct timespec* t = (const struct timespec*)a[3];
        switch (cmd) {
        case FUTEX_WAIT:
            if (t) { if (badns(t) || t->tv_sec < 0) { errno = EINVAL; return -1; } }
            { i64 d = t ? ts2ns(t) : 0; if (d > (1LL << 58)) d = 1LL << 58; return futex_wait_impl(addr, (int)a[2], t != 0, 1, t ? R.mono + d : 0); }
        case FUTEX_WAIT_BITSET:
            if (t) { if (badns(t) || t->tv_sec < 0) { errno = EINVAL; return -1; } }
            return futex_wait_impl(addr, (int)a[2], t != 0, (op & FUTEX_CLOCK_REALTIME) ? 0 : 1, t ? ts2ns(t) : 0);
        case FUTEX_WAKE: case FUTEX_WAKE_BITSET:
            return futex_wake_impl(addr, (int)a[2]);
        default: violation("harness", "unsupported futex operation %d", cmd);
        }
    }
    errno = ENOSYS; return -1;
}

// --------------------------------------------------------------- clocks
int sim_clock_gettime(clockid_t c, struct timespec* t) {
    i64 v;
    if (R.active) point(70, 0);
    v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? realnow() : R.mono;
    if (c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE) v -= v % 4000000; // the tick of a 250 Hz kernel
    hmix(v); t->tv_sec = v / NS; t->tv_nsec = v % NS; return 0;
}
int sim_gettimeofday(struct timeval* t, void*) { if (R.active) point(71, 0); i64 v = realnow(); t->tv_sec = v / NS; t->tv_usec = (v % NS) / 1000; return 0; }
time_t sim_time(time_t* t) { if (R.active) point(72, 0); time_t v = realnow() / NS; if (t) *t = v; return v; }
i64 sim_std_system_now() { if (R.active) point(73, 0); hmix(realnow()); return realnow(); }
i64 sim_std_steady_now() { if (R.active) point(74, 0); hmix(R.mono); return R.mono; }
int sim_nanosleep(const struct timespec* t, struct timespec*) { PASS return 0; if (fault(F_EINTR)) { errno = EINTR; return -1; } sim_sleep(ts2ns(t)); return 0; }
int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec*) { PASS return 0; i64 d = ts2ns(t); if (flags & TIMER_ABSTIME) d -= (c == CLOCK_REALTIME ? realnow() : R.mono); sim_sleep(d); return 0; }
int sim_usleep(unsigned us) { sim_sleep((i64)us * 1000); return 0; }
unsigned sim_sleep_s(unsigned s) { sim_sleep((i64)s * NS); return 0; }
int sim_sched_yield(void) { point(75, 0); return 0; }

void sim_assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
    const char* b = strrchr(file, '/'); (void)line; (void)fn;
    violation("assert", "assertion failed in %s: %s", b ? b + 1 : file, e);
}
void sim_abort(void) { violation("abort", "abort() called in thread %d", R.cur); }

// std::condition_variable lives in libstdc++; redirect in case the code under test uses it
struct StdCv { pthread_cond_t c; };
void sim_std_cv_ctor(StdCv* c) { memset((void*)c, 0, sizeof *c); sim_pthread_cond_init(&c->c, 0); }
void sim_std_cv_dtor(StdCv* c) { sim_pthread_cond_destroy(&c->c); }
void sim_std_cv_notify_one(StdCv* c) { sim_pthread_cond_signal(&c->c); }
void sim_std_cv_notify_all(StdCv* c) { sim_pthread_cond_broadcast(&c->c); }
void sim_std_cv_wait(StdCv* c, std::unique_lock<std::mutex>& l) { sim_pthread_cond_wait(&c->c, l.mutex()->native_handle()); }
}

void thread_exit_hooks() {
    TR("thread exiting");
    while (!CUR().dtors.empty()) { TlsDtor d = CUR().dtors.back(); CUR().dtors.pop_back(); d.f(d.p); }
    for (int it = 0; it < 4; it++) {
        bool any = false;
        for (int k = 0; k < TSD_MAX; k++) {
            void* v = CUR().tsd[k];
            if (v && keys[k].used) { CUR().tsd[k] = 0; if (keys[k].d) { any = true; keys[k].d(v); } }
        }
        if (!any) break;
    }
}
