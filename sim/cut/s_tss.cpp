// thread_specific_ptr, at_thread_exit, notify_all_at_thread_exit and the TSS manager behind them.
#include "common.hpp"
#include <boost/move/utility_core.hpp>
#include <pthread.h>
#include <boost/assert.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
namespace bs = boost::sync;

enum { OP_SET, OP_GET, OP_REL, OP_CLEAR, OP_CREATE, OP_DELETE, OP_LOCAL, OP_ATEXIT, OP_NOTIFY, OP_WAITEXIT, OP_YIELD, OP_FOREIGN, OP_SAME };
static const char* opname(int c) { static const char* n[] = {"reset", "get", "release", "clear", "create", "destroy", "local", "at_thread_exit", "notify_at_exit", "wait_for_exit", "yield", "foreign_destructor", "reset_same"}; return n[c]; }

// ---- bookkeeping in uninstrumented counters
enum { NS_ = 6, ALIVE = 0, USERS = 10, GEN = 20, KIND = 30, EXP = 40 /* [thread*10+slot] */, EXPGEN = 200, NEXTID = 400, PENDCB = 410 /* pre-exit callbacks per thread, LIFO depth */, NESTCB = 430, NESTA = 700 /* registered by exit callbacks, pending, per thread */, COPIES = 440, CBRUN = 441, CBREG = 442, LIVEVAL = 450, NTFLAG = 470, NTOWNER = 480, DELETING = 490, STATE = 1000, OWNER = 2000, VGEN = 3000, VKIND = 4000, VSLOT = 5000, CBSTK = 6000 };
enum { ST_NONE, ST_STORED, ST_RELEASED, ST_CLEANED };
enum { KD_DEFAULT, KD_A, KD_B, KD_NULL, KD_N };
enum { FL_RESET = 1, FL_ATEXIT = 2, FL_GET = 4, FL_NOTIFY = 8, FL_LOCAL = 16 /* creates, uses and destroys a pointer of its own */, FL_DELETE = 32 /* destroys one of the shared pointers */, FOREIGN_NOTIFY = 1 << 12, FOREIGN_LOCAL = 1 << 13 };
static void do_notify(int slot); static void do_local(int kind, bool store); static void delete_slot(int s);

static void cleaned(int id, int kind, int flags);
struct Val { int id; int flags; Val(int i, int f) : id(i), flags(f) {} ~Val() { if (id) cleaned(id, KD_DEFAULT, flags); id = -1; } };
static void free_val(Val* v) { v->id = 0; delete v; }
static void cleanA(Val* v) { int id = v->id, f = v->flags; free_val(v); cleaned(id, KD_A, f); }
static void cleanB(Val* v) { int id = v->id, f = v->flags; free_val(v); cleaned(id, KD_B, f); }
typedef bs::thread_specific_ptr<Val> Ptr;
static Ptr* g_p[NS_];
static Ptr* make_ptr(int kind) { switch (kind) { case KD_A: return new Ptr(&cleanA); case KD_B: return new Ptr(&cleanB); case KD_NULL: return new Ptr((void (*)(Val*))0); } return new Ptr(); }

static bool use_begin(int s) { if (!sim_ctr(ALIVE + s)) return false; sim_ctr_add(USERS + s, 1); sim_hb_acquire(s); return true; }
static void use_end(int s) { sim_hb_release(s); sim_ctr_add(USERS + s, -1); }
static long cur_exp(int s) { int t = sim_self(); return sim_ctr(EXPGEN + t * 10 + s) == sim_ctr(GEN + s) ? sim_ctr(EXP + t * 10 + s) : 0; }
static void set_exp(int s, long id) { int t = sim_self(); sim_ctr_set(EXPGEN + t * 10 + s, sim_ctr(GEN + s)); sim_ctr_set(EXP + t * 10 + s, id); }
static int new_id() { int id = (int)sim_ctr_add(NEXTID, 1); if (id >= 900) sim_violation("harness", "too many values"); return id; }
static void check_get(int s, Ptr* p) {
    long e = cur_exp(s); Val* v = p->get();
    if (e && !v && sim_exiting() && sim_ctr(KIND + s) == KD_NULL) { set_exp(s, 0); e = 0; } // values without a cleanup function are dropped silently
    EXPECT((v ? v->id : 0) == e, "tss-value", "thread %d sees value %d in pointer %d, it stored %ld last", sim_self(), v ? v->id : 0, s, e);
    EXPECT(!!*p == !!v && !*p == !v && (!v || (&**p == v && p->operator->() == v)) && get_pointer(*p) == v, "tss-value", "accessors disagree");
}
static void record_store(int id, int s, int kind) { sim_ctr_set(STATE + id, ST_STORED); sim_ctr_set(OWNER + id, sim_self()); sim_ctr_set(VGEN + id, sim_ctr(GEN + s)); sim_ctr_set(VKIND + id, kind); sim_ctr_set(VSLOT + id, s); if (kind != KD_NULL) sim_ctr_add(LIVEVAL + sim_self(), 1); }
static void do_set(int s, Ptr* p, int kind, int flags) {
    check_get(s, p);
    long old = cur_exp(s); int id = new_id();
    Val* oldp = p->get();
    Val* v = new Val(id, flags);
    record_store(id, s, kind); set_exp(s, id);
    p->reset(v);
    if (old) EXPECT(kind == KD_NULL ? sim_ctr(STATE + old) == ST_STORED : sim_ctr(STATE + old) == ST_CLEANED, "tss-cleanup", "value %ld was replaced by reset but not cleaned up", old);
    if (old && kind == KD_NULL) { sim_ctr_set(STATE + old, ST_RELEASED); free_val(oldp); }
    check_get(s, p);
}
struct ExitFn {
    int owner, depth, flags, arg; // depth > 0: position in the LIFO stack of the thread; 0: registered by a cleanup function during thread exit; -1: by an exit callback
    ExitFn(int o, int d, int f, int a) : owner(o), depth(d), flags(f), arg(a) { sim_ctr_add(COPIES, 1); }
    ExitFn(ExitFn const& x) : owner(x.owner), depth(x.depth), flags(x.flags), arg(x.arg) { sim_ctr_add(COPIES, 1); }
    ~ExitFn() { owner = -1; sim_ctr_add(COPIES, -1); }
    void operator()() const;
};
static void reg_exit(int flags, int arg, bool from_cb = false) {
    int t = sim_self();
    sim_ctr_add(CBREG, 1);
    if (!sim_exiting()) { int d = (int)sim_ctr_add(PENDCB + t, 1); bs::at_thread_exit(ExitFn(t, d, flags, arg)); }
    else { sim_ctr_add((from_cb ? NESTA : NESTCB) + t, 1); bs::at_thread_exit(ExitFn(t, from_cb ? -1 : 0, flags, arg)); }
}
void ExitFn::operator()() const {
    int t = sim_self();
    EXPECT(t == owner, "at-exit", "callback of thread %d runs in thread %d", owner, t);
    EXPECT(sim_exiting(), "at-exit", "callback runs before the thread exits");
    if (depth > 0) { EXPECT(sim_ctr(PENDCB + t) == depth, "at-exit", "callback registered as number %d runs while number %ld is next", depth, sim_ctr(PENDCB + t)); sim_ctr_add(PENDCB + t, -1); }
    else { int c = (depth ? NESTA : NESTCB) + t; EXPECT(sim_ctr(c) > 0, "at-exit", "callback runs twice"); sim_ctr_add(c, -1); }
    sim_ctr_add(CBRUN, 1);
    sim_yield();
    if (flags & FL_GET) if (use_begin(arg % NS_)) { check_get(arg % NS_, g_p[arg % NS_]); use_end(arg % NS_); }
    if (flags & FL_RESET) if (use_begin(arg % NS_)) { int s = arg % NS_; do_set(s, g_p[s], (int)sim_ctr(KIND + s), 0); use_end(s); }
    if (flags & FL_ATEXIT) reg_exit(arg & 1 ? FL_GET : 0, arg, true);
    if (flags & FL_NOTIFY) do_notify(2);
    if (flags & FL_LOCAL) do_local(arg % KD_NULL, true);
    if (flags & FL_DELETE) delete_slot((arg + 1) % NS_);
}
static void cleaned(int id, int kind, int flags) {
    int t = sim_self(); int s = (int)sim_ctr(VSLOT + id); int own = (int)sim_ctr(OWNER + id);
    EXPECT(id > 0 && id < 900 && sim_ctr(STATE + id) == ST_STORED, "tss-cleanup", "value %d cleaned up while its state is %ld (3 = cleaned before, 2 = released)", id, sim_ctr(STATE + id));
    EXPECT(sim_ctr(VKIND + id) == kind, "tss-cleanup", "value %d of a pointer with cleanup %ld was passed to cleanup %d", id, sim_ctr(VKIND + id), kind);
    sim_ctr_set(STATE + id, ST_CLEANED);
    sim_ctr_add(LIVEVAL + own, -1);
    sim_yield();
    bool at_delete = s >= 0 && sim_ctr(DELETING + t) == s + 1; // the pointer is being destroyed by this thread
    bool at_exit = !at_delete && s >= 0 && sim_exiting() && t == own && sim_ctr(VGEN + id) == sim_ctr(GEN + s) && cur_exp(s) == id;
    if (at_exit) {
        EXPECT(sim_ctr(PENDCB + t) == 0, "at-exit", "thread-specific value %d cleaned up before %ld exit callbacks ran", id, sim_ctr(PENDCB + t));
        EXPECT(sim_ctr(NESTA + t) == 0, "at-exit", "thread-specific value %d cleaned up before %ld callbacks registered by exit callbacks ran", id, sim_ctr(NESTA + t));
        set_exp(s, 0);
    }
    if (flags & FL_LOCAL) do_local(id % KD_NULL, true);
    if (flags & FL_DELETE) delete_slot((s + 1 + id) % NS_);
    if (at_delete) { // the cleanup function may use the other pointers and register exit functions, wherever the value came from
        int s2 = (s + 1) % NS_;
        if ((flags & FL_GET) && use_begin(s2)) { check_get(s2, g_p[s2]); use_end(s2); }
        if ((flags & FL_RESET) && use_begin(s2)) { do_set(s2, g_p[s2], (int)sim_ctr(KIND + s2), 0); use_end(s2); }
        if ((flags & FL_ATEXIT) && t != 0) reg_exit(0, 0);
        return;
    }
    if (at_exit) {
        if ((flags & FL_GET) && use_begin(s)) { check_get(s, g_p[s]); use_end(s); }
        if (flags & FL_RESET) { int s2 = (s + 1) % NS_; if (use_begin(s2)) { do_set(s2, g_p[s2], (int)sim_ctr(KIND + s2), 0); use_end(s2); } }
        if (flags & FL_ATEXIT) reg_exit(0, 0);
        return;
    }
    if (flags && t == own && s >= 0 && sim_ctr(VGEN + id) == sim_ctr(GEN + s) && cur_exp(s) != id && use_begin(s)) { // replaced by reset: the cleanup function may use the pointer again
        if (flags & FL_GET) check_get(s, g_p[s]);
        if (flags & FL_RESET) do_set(s, g_p[s], (int)sim_ctr(KIND + s), 0);
        if (flags & FL_ATEXIT) reg_exit(0, 0);
        use_end(s);
    }
}
// Destructors of other thread-specific facilities (POSIX keys created before and after the library's own, thread_local objects) may use the library as well
static pthread_key_t g_fk[2];
static void foreign(long code) {
    int s = (int)(code >> 4) % NS_; sim_yield();
    if ((code & FL_GET) && use_begin(s)) { check_get(s, g_p[s]); use_end(s); }
    if ((code & FL_RESET) && use_begin(s)) { do_set(s, g_p[s], (int)sim_ctr(KIND + s), 0); use_end(s); }
    if (code & FL_ATEXIT) reg_exit(code & 16 ? FL_GET : 0, s);
    if (code & FOREIGN_NOTIFY) do_notify(2);
    if (code & FOREIGN_LOCAL) do_local(s % KD_NULL, true);
}
extern "C" { static void foreign_dtor(void* p) { foreign((long)(intptr_t)p); } }
struct TLocal { long code; TLocal() : code(0) {} ~TLocal() { if (code) foreign(code); } };
static TLocal& tlocal() { static thread_local TLocal t; return t; }
struct NT { bs::mutex m; bs::condition_variable c; long flag; };
static NT* g_nt[3];
static bool shared_cond() { return sim_param(9) != 0; }
static void do_notify(int slot) { // also called while the thread exits
    NT* n = g_nt[slot]; bs::unique_lock<bs::mutex> l(n->m); n->flag = 1; sim_ctr_set(NTOWNER + slot, sim_self());
    bs::notify_all_at_thread_exit(shared_cond() ? g_nt[0]->c : n->c, boost::move(l));
    EXPECT(!l.owns_lock(), "notify-exit", "lock still owned by the caller");
}

static bool will_notify(int slot) { // does the plan register this slot at all
    for (int t = 0; t < sim_nthreads(); t++) for (int i = 0; i < sim_nops(t); i++) { SimOp o = sim_op(t, i);
        if ((o.code == OP_NOTIFY && o.a % 3 == slot) || (slot == 2 && (o.code == OP_ATEXIT || o.code == OP_FOREIGN) && (o.b & FL_NOTIFY))) return true; }
    return false;
}
static void create_slot(int s, int kind) {
    if (sim_ctr(ALIVE + s) || sim_ctr(USERS + s)) return;
    sim_ctr_add(USERS + s, 1); // reserves the slot
    sim_hb_acquire(s);
    g_p[s] = make_ptr(kind);
    sim_ctr_add(GEN + s, 1); sim_ctr_set(KIND + s, kind);
    sim_hb_release(s);
    sim_ctr_add(USERS + s, -1); sim_ctr_set(ALIVE + s, 1);
}
static void delete_slot(int s) {
    if (!sim_ctr(ALIVE + s) || sim_ctr(USERS + s)) return;
    sim_ctr_set(ALIVE + s, 0); sim_ctr_add(USERS + s, 1);
    sim_hb_acquire(s);
    Ptr* p = g_p[s]; g_p[s] = 0; int t = sim_self(); long outer = sim_ctr(DELETING + t);
    sim_ctr_set(DELETING + t, s + 1);
    delete p;
    sim_ctr_set(DELETING + t, outer);
    sim_hb_release(s);
    sim_ctr_add(USERS + s, -1);
}
static void do_local(int kind, bool store) { // a pointer used by this thread only
    Ptr* p = make_ptr(kind);
    EXPECT(p->get() == 0, "tss-value", "a new pointer already has a value");
    if (!store) { delete p; return; }
    int id = new_id(); sim_ctr_set(STATE + id, ST_STORED); sim_ctr_set(OWNER + id, sim_self()); sim_ctr_set(VKIND + id, kind); sim_ctr_set(VSLOT + id, -1); sim_ctr_add(LIVEVAL + sim_self(), 1); p->reset(new Val(id, 0));
    Val* v = p->get(); EXPECT(v && v->id == id, "tss-value", "value lost");
    delete p; EXPECT(sim_ctr(STATE + id) == ST_CLEANED, "tss-cleanup", "value %d not cleaned up when its pointer was destroyed", id);
}
static void work(int th) {
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp o = sim_op(th, i); int s = o.a % NS_;
        switch (o.code) {
        case OP_SET: if (use_begin(s)) { do_set(s, g_p[s], (int)sim_ctr(KIND + s), o.b); use_end(s); } break;
        case OP_GET: if (use_begin(s)) { check_get(s, g_p[s]); use_end(s); } break;
        case OP_REL: if (use_begin(s)) {
            long e = cur_exp(s); Val* v = g_p[s]->release();
            EXPECT((v ? v->id : 0) == e, "tss-value", "release returned value %d instead of %ld", v ? v->id : 0, e);
            if (v) { EXPECT(sim_ctr(STATE + e) == ST_STORED, "tss-cleanup", "released value was cleaned up"); sim_ctr_set(STATE + e, ST_RELEASED); if (sim_ctr(VKIND + e) != KD_NULL) sim_ctr_add(LIVEVAL + sim_self(), -1); free_val(v); }
            set_exp(s, 0); check_get(s, g_p[s]); use_end(s); } break;
        case OP_CLEAR: if (use_begin(s)) {
            long e = cur_exp(s); Val* v = g_p[s]->get(); int kind = (int)sim_ctr(KIND + s); set_exp(s, 0); g_p[s]->reset();
            if (e) { EXPECT(kind == KD_NULL ? sim_ctr(STATE + e) == ST_STORED : sim_ctr(STATE + e) == ST_CLEANED, "tss-cleanup", "value %ld not cleaned up by reset()", e); if (kind == KD_NULL) { sim_ctr_set(STATE + e, ST_RELEASED); free_val(v); } }
            check_get(s, g_p[s]); use_end(s); } break;
        case OP_CREATE: create_slot(s, o.b % KD_N); break;
        case OP_DELETE: delete_slot(s); break;
        case OP_LOCAL: do_local(o.b % KD_NULL, o.c); break;
        case OP_ATEXIT: reg_exit(o.b, o.a); break;
        case OP_NOTIFY: do_notify(o.a % 3); break;
        case OP_WAITEXIT: { if (!will_notify(o.a % 3)) break; NT* n = g_nt[o.a % 3]; bs::unique_lock<bs::mutex> l(n->m);
            if (shared_cond() && o.a % 3) { if (!n->flag) break; } // one condition with several mutexes: only those of the first may wait on it
            while (!n->flag) n->c.wait(l);
            int own = (int)sim_ctr(NTOWNER + o.a % 3);
            EXPECT(sim_ctr(PENDCB + own) == 0 && sim_ctr(NESTCB + own) == 0 && sim_ctr(NESTA + own) == 0, "notify-exit", "waiter sees the exit of thread %d while %ld+%ld exit callbacks are pending", own, sim_ctr(PENDCB + own), sim_ctr(NESTCB + own) + sim_ctr(NESTA + own));
            EXPECT(sim_ctr(LIVEVAL + own) == 0, "notify-exit", "waiter sees the exit of thread %d while %ld thread-specific values are not cleaned up", own, sim_ctr(LIVEVAL + own));
            break; }
        case OP_YIELD: sim_yield(); break;
        case OP_SAME: if (use_begin(s)) { long e = cur_exp(s); g_p[s]->reset(g_p[s]->get()); if (e) EXPECT(sim_ctr(STATE + e) == ST_STORED, "tss-cleanup", "value %ld cleaned up although it is still stored", e); check_get(s, g_p[s]); use_end(s); } break;
        case OP_FOREIGN: { long code = 8 | (o.b & 7) | s << 4 | (o.b & 8 ? FOREIGN_NOTIFY : 0) | (o.b & 16 ? FOREIGN_LOCAL : 0); if (o.c % 3 == 2) tlocal().code = code; else pthread_setspecific(g_fk[o.c % 3], (void*)(intptr_t)code); break; }
        }
    }
}
// params: [0] initially created slots (bitmask), [1..6] kinds, [7] main thread stores values, [8] ballast pointers, [9] registrations share one condition variable
static Ptr* g_ballast[48];
static void run() {
    pthread_key_create(&g_fk[0], &foreign_dtor);
    for (int i = 0; i < sim_param(8); i++) g_ballast[i] = make_ptr(i % KD_NULL);
    for (int s = 0; s < NS_; s++) if (sim_param(0) >> s & 1) create_slot(s, sim_param(1 + s) % KD_N);
    pthread_key_create(&g_fk[1], &foreign_dtor);
    for (int i = 0; i < 3; i++) { g_nt[i] = new NT; g_nt[i]->flag = 0; }
    if (sim_param(7)) for (int s = 0; s < NS_; s++) if (use_begin(s)) { do_set(s, g_p[s], (int)sim_ctr(KIND + s), 0); use_end(s); }
    spawn_workers(work);
    int b = sim_quiesce();
    EXPECT(!b, "stuck", "%d threads are blocked forever", b);
    join_workers();
    for (int s = 0; s < NS_; s++) if (use_begin(s)) { check_get(s, g_p[s]); use_end(s); }
    for (int t = 0; t < SIM_MAXT; t++) EXPECT(sim_ctr(PENDCB + t) == 0 && sim_ctr(NESTCB + t) == 0 && sim_ctr(NESTA + t) == 0, "at-exit", "%ld exit callbacks of thread %d never ran", sim_ctr(PENDCB + t) + sim_ctr(NESTCB + t) + sim_ctr(NESTA + t), t);
    EXPECT(sim_ctr(COPIES) == 0, "at-exit", "%ld function copies were not destroyed", sim_ctr(COPIES));
    for (int t = 1; t < SIM_MAXT; t++) EXPECT(sim_ctr(LIVEVAL + t) == 0, "tss-cleanup", "%ld values of thread %d were not cleaned up at its exit", sim_ctr(LIVEVAL + t), t);
    for (int s = 0; s < NS_; s++) delete_slot(s);
    for (int i = 0; i < sim_param(8); i++) delete g_ballast[i];
    for (int id = 1; id <= sim_ctr(NEXTID); id++) if (sim_ctr(VKIND + id) != KD_NULL) EXPECT(sim_ctr(STATE + id) == ST_CLEANED || sim_ctr(STATE + id) == ST_RELEASED, "tss-cleanup", "value %d never cleaned up", id);
    for (int i = 0; i < 3; i++) { EXPECT(sim_mutex_owner(g_nt[i]->m.native_handle()) < 0 && g_nt[i]->m.try_lock(), "notify-exit", "mutex still locked after the thread exited"); g_nt[i]->m.unlock(); delete g_nt[i]; }
}
static int vflags(SimGen& g) { return g.chance(30) ? g.below(8) | (g.chance(20) ? FL_LOCAL : 0) | (g.chance(20) ? FL_DELETE : 0) : 0; }
static int cflags(SimGen& g) { return g.below(8) | (g.chance(10) ? FL_LOCAL : 0) | (g.chance(10) ? FL_DELETE : 0); }
static void kinds(SimGen& g) { for (int i = 0; i < NS_; i++) g.p->params[1 + i] = g.chance(85) ? g.below(3) : KD_NULL; g.p->params[7] = g.below(2); if (g.chance(10)) g.p->params[8] = g.range(1, 40); }
static void foreigns(SimGen& g, int n) { if (g.chance(25)) for (int i = 0, k = g.range(1, 3); i < k; i++) g.op(g.below(n), OP_FOREIGN, g.below(NS_), (1 + g.below(7)) | (g.chance(15) ? 16 : 0), g.below(3)); }
static void gen_ptr(SimGen& g) { // all pointers live throughout
    int n = g.p->nthreads = g.range(1, 4); g.p->params[0] = 1 + g.below(63); kinds(g);
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 7); i < k; i++) { int r = g.below(100); int s = g.below(NS_);
        if (r < 50) g.op(t, OP_SET, s, vflags(g)); else if (r < 65) g.op(t, OP_GET, s); else if (r < 75) g.op(t, OP_REL, s); else if (r < 83) g.op(t, OP_CLEAR, s); else if (r < 86) g.op(t, OP_SAME, s); else if (r < 95) g.op(t, OP_LOCAL, 0, g.below(3), g.below(2)); else g.op(t, OP_ATEXIT, s, cflags(g)); }
    foreigns(g, n);
}
static void gen_keys(SimGen& g) { // keys come and go while threads store, grow and exit
    int n = g.p->nthreads = g.range(2, 5); g.p->params[0] = g.below(64); kinds(g);
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 5); i < k; i++) { int r = g.below(100); int s = g.below(g.chance(50) ? 3 : NS_);
        if (r < 40) g.op(t, OP_SET, s, vflags(g)); else if (r < 46) g.op(t, OP_GET, s); else if (r < 50) g.op(t, OP_REL, s); else if (r < 66) g.op(t, OP_DELETE, s); else if (r < 82) g.op(t, OP_CREATE, s, g.below(4)); else if (r < 92) g.op(t, OP_LOCAL, 0, g.below(3), g.below(2)); else g.op(t, OP_ATEXIT, s, cflags(g)); }
    foreigns(g, n);
}
static void gen_exit(SimGen& g) {
    int n = g.p->nthreads = g.range(1, 4); g.p->params[0] = g.below(64); kinds(g);
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 7); i < k; i++) { int r = g.below(100); int s = g.below(NS_);
        if (r < 60) g.op(t, OP_ATEXIT, s, g.chance(50) ? cflags(g) : 0); else if (r < 90) g.op(t, OP_SET, s, vflags(g)); else g.op(t, OP_YIELD); }
    foreigns(g, n);
}
static void gen_notify(SimGen& g) {
    int own = g.range(1, 2), w = g.range(1, 3); g.p->nthreads = own + w; g.p->params[0] = g.below(8); kinds(g); g.p->params[7] = 0;
    bool third = g.chance(30); g.p->params[9] = g.chance(20); int used = third ? 3 : own;
    for (int t = 0; t < own; t++) {
        int before = g.below(3), after = g.below(3);
        for (int i = 0; i < before; i++) if (g.chance(50)) g.op(t, OP_ATEXIT, g.below(NS_), g.chance(50) ? cflags(g) & ~FL_DELETE : 0); else g.op(t, OP_SET, g.below(3), vflags(g) & ~FL_DELETE);
        g.op(t, OP_NOTIFY, t);
        if (third && t == 0) { int how = g.below(3); // in the thread, by an exit callback, by a destructor of another facility
            if (how == 0) g.op(t, OP_NOTIFY, 2); else if (how == 1) g.op(t, OP_ATEXIT, g.below(NS_), FL_NOTIFY | (g.chance(30) ? g.below(8) : 0)); else g.op(t, OP_FOREIGN, 0, FL_NOTIFY, g.below(3));
            if (own == 1) g.op(t, OP_NOTIFY, 1); }
        for (int i = 0; i < after; i++) if (g.chance(50)) g.op(t, OP_ATEXIT, g.below(NS_), g.chance(50) ? cflags(g) & ~FL_DELETE : 0); else g.op(t, OP_SET, g.below(3), vflags(g) & ~FL_DELETE);
    }
    for (int t = own; t < own + w; t++) for (int i = 0, k = g.range(1, 2); i < k; i++) g.op(t, OP_WAITEXIT, g.below(used == 3 ? 3 : own));
}
static const unsigned BASE = FB(F_WAKEORDER) | FB(F_SPURIOUS) | FB(F_STALL);
SCENARIOS(
    {"tss_ptr", gen_ptr, run, BASE, SCN_WEAK, opname},
    {"tss_keys", gen_keys, run, BASE, SCN_WEAK, opname},
    {"at_exit", gen_exit, run, BASE, SCN_WEAK, opname},
    {"notify_exit", gen_notify, run, BASE, SCN_WEAK, opname},
)
