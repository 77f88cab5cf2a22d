// Lock wrappers: ownership bookkeeping of unique_lock, shared_lock, upgrade_lock and the guards over a recording mutex whose
// operations fail, time out or throw at scheduler-chosen points while other threads contend for it.
#include "common.hpp"
#include <boost/move/utility_core.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/locks/lock_options.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/upgrade_lock.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <cerrno>
namespace bs = boost::sync;
typedef std::chrono::nanoseconds Dur; typedef std::chrono::system_clock::time_point TP;

struct UserError {}; struct Busy {};
enum { NM = 2 };
enum { EX, SH, UP };                       // kinds of ownership; also the wrapper kind
// uninstrumented oracle counters: real state of mutex i / expected state of mutex i
static long real_(int m, int k) { return sim_ctr(m * 8 + k); }
static void radd(int m, int k, long d) { sim_ctr_add(m * 8 + k, d); }
static long want(int m, int k) { return sim_ctr(32 + m * 8 + k); }
static void wadd(int m, int k, long d) { sim_ctr_add(32 + m * 8 + k, d); }

struct Call { int m; const char* fn; long long t; int kind; };   // kind: 0 untimed, 1 duration, 2 time point
static thread_local Call g_call;   // last call that reached a mutex from this thread

struct FM {                           // recording mutex: Lockable, SharedLockable, UpgradeLockable and all conversions
    int id;
    bool can(int k) const { long e = real_(id, EX), s = real_(id, SH), u = real_(id, UP); return k == EX ? !e && !s && !u : k == SH ? !e : !e && !u; }
    void note(const char* fn) { g_call.m = id; g_call.fn = fn; g_call.t = 0; g_call.kind = 0; }
    void note(const char* fn, Dur const& d) { note(fn); g_call.t = d.count(); g_call.kind = 1; }
    void note(const char* fn, TP const& t) { note(fn); g_call.t = (long long)std::chrono::duration_cast<Dur>(t.time_since_epoch()).count(); g_call.kind = 2; }
    void wait_lock(int k) { if (sim_fault(F_USER)) throw UserError(); for (int i = 0; !can(k); i++) { if (i == 12) throw Busy(); sim_yield(); } radd(id, k, 1); }
    bool attempt(int k) { if (sim_fault(F_USER)) throw UserError(); if (!can(k)) return false; radd(id, k, 1); return true; }
    bool timed(int k) { if (sim_fault(F_USER)) throw UserError(); int n = 1 + (int)sim_choose(4, -1); for (int i = 0; !can(k); i++) { if (i == n) return false; sim_yield(); } radd(id, k, 1); return true; }
    void rel(int k) { if (real_(id, k) <= 0) sim_violation("unlock-not-owner", "mutex %d released (%s) although nobody owns it that way", id, k == EX ? "exclusive" : k == SH ? "shared" : "upgrade"); radd(id, k, -1); }
    void conv(int a, int b) { rel(a); radd(id, b, 1); }

    void lock() { note("lock"); wait_lock(EX); }
    bool try_lock() { note("try_lock"); return attempt(EX); }
    template<class T> bool timed_lock(T const& t) { note("timed_lock", t); return timed(EX); }
    bool try_lock_for(Dur const& t) { note("try_lock_for", t); return timed(EX); }
    bool try_lock_until(TP const& t) { note("try_lock_until", t); return timed(EX); }
    void unlock() { note("unlock"); rel(EX); }
    void lock_shared() { note("lock_shared"); wait_lock(SH); }
    bool try_lock_shared() { note("try_lock_shared"); return attempt(SH); }
    template<class T> bool timed_lock_shared(T const& t) { note("timed_lock_shared", t); return timed(SH); }
    bool try_lock_shared_for(Dur const& t) { note("try_lock_shared_for", t); return timed(SH); }
    bool try_lock_shared_until(TP const& t) { note("try_lock_shared_until", t); return timed(SH); }
    void unlock_shared() { note("unlock_shared"); rel(SH); }
    void lock_upgrade() { note("lock_upgrade"); wait_lock(UP); }
    bool try_lock_upgrade() { note("try_lock_upgrade"); return attempt(UP); }
    template<class T> bool timed_lock_upgrade(T const& t) { note("timed_lock_upgrade", t); return timed(UP); }
    bool try_lock_upgrade_for(Dur const& t) { note("try_lock_upgrade_for", t); return timed(UP); }
    bool try_lock_upgrade_until(TP const& t) { note("try_lock_upgrade_until", t); return timed(UP); }
    void unlock_upgrade() { note("unlock_upgrade"); rel(UP); }
    // conversions
    void unlock_and_lock_shared() { note("unlock_and_lock_shared"); if (sim_fault(F_USER)) throw UserError(); conv(EX, SH); }
    void unlock_and_lock_upgrade() { note("unlock_and_lock_upgrade"); if (sim_fault(F_USER)) throw UserError(); conv(EX, UP); }
    void unlock_upgrade_and_lock_shared() { note("unlock_upgrade_and_lock_shared"); if (sim_fault(F_USER)) throw UserError(); conv(UP, SH); }
    void unlock_upgrade_and_lock() { note("unlock_upgrade_and_lock"); if (sim_fault(F_USER)) throw UserError(); for (int i = 0; real_(id, SH); i++) { if (i == 12) throw Busy(); sim_yield(); } conv(UP, EX); }
    bool try_unlock_upgrade_and_lock() { note("try_unlock_upgrade_and_lock"); if (sim_fault(F_USER)) throw UserError(); if (real_(id, SH)) return false; conv(UP, EX); return true; }
    bool up_from_shared(int k) { if (sim_fault(F_USER)) throw UserError(); if (real_(id, UP) || (k == EX && real_(id, SH) != 1)) return false; conv(SH, k); return true; }
    bool try_unlock_shared_and_lock() { note("try_unlock_shared_and_lock"); return up_from_shared(EX); }
    template<class T> bool timed_unlock_shared_and_lock(T const& t) { note("timed_unlock_shared_and_lock", t); return up_from_shared(EX); }
    bool try_unlock_shared_and_lock_upgrade() { note("try_unlock_shared_and_lock_upgrade"); return up_from_shared(UP); }
    template<class T> bool timed_unlock_shared_and_lock_upgrade(T const& t) { note("timed_unlock_shared_and_lock_upgrade", t); return up_from_shared(UP); }
};
static FM g_m[NM];
typedef bs::unique_lock<FM> U; typedef bs::shared_lock<FM> S; typedef bs::upgrade_lock<FM> G;

template<int K> struct W; template<> struct W<EX> { typedef U T; }; template<> struct W<SH> { typedef S T; }; template<> struct W<UP> { typedef G T; };
struct Model { int m; bool own; };
enum { NS = 2 };
template<int K> struct Slots { static typename W<K>::T* p[SIM_MAXT][NS]; static Model mo[SIM_MAXT][NS]; };
template<int K> typename W<K>::T* Slots<K>::p[SIM_MAXT][NS]; template<int K> Model Slots<K>::mo[SIM_MAXT][NS];
static int g_ext[SIM_MAXT][NM][3];           // ownerships held by thread t outside any wrapper (released wrappers, raw locks)

static const char* kn(int k) { return k == EX ? "unique_lock" : k == SH ? "shared_lock" : "upgrade_lock"; }
template<int K> static void verify(int t, const char* after) {
    for (int i = 0; i < NS; i++) {
        typename W<K>::T& w = *Slots<K>::p[t][i]; Model& m = Slots<K>::mo[t][i];
        bool b = w ? true : false;
        EXPECT(w.owns_lock() == m.own, "wrapper-state", "after %s: %s %d reports owns_lock=%d but it %s the mutex", after, kn(K), i, (int)w.owns_lock(), m.own ? "owns" : "does not own");
        EXPECT(b == m.own && !w == !m.own, "wrapper-state", "after %s: bool conversion of %s %d disagrees with ownership", after, kn(K), i);
        if (m.own) EXPECT(w.mutex() == &g_m[m.m], "wrapper-state", "after %s: %s %d owns a mutex but mutex() returns another one", after, kn(K), i);
        else if (m.m != -2) EXPECT(w.mutex() == (m.m < 0 ? (FM*)0 : &g_m[m.m]), "wrapper-state", "after %s: mutex() of %s %d is wrong", after, kn(K), i);
    }
}
static void verify_all(int t, const char* after) {
    verify<EX>(t, after); verify<SH>(t, after); verify<UP>(t, after);
    for (int i = 0; i < NM; i++) for (int k = 0; k < 3; k++)
        EXPECT(real_(i, k) == want(i, k), "wrapper-leak", "after %s: mutex %d has %ld %s owners, expected %ld", after, i, real_(i, k), k == EX ? "exclusive" : k == SH ? "shared" : "upgrade", want(i, k));
}
static int code_of(const bs::lock_error& e) { return e.code().value(); }

// expected failure: err = 0 means the call is legal
struct Out { bool threw_user, threw_lock; int code; bool ret; };
template<class F> static Out call(F f) {
    Out o = {false, false, 0, false};
    try { o.ret = f(); }
    catch (bs::lock_error& e) { o.threw_lock = true; o.code = code_of(e); }
    catch (UserError&) { o.threw_user = true; }
    catch (Busy&) { o.threw_user = true; }
    return o;
}
static const char* const TIMED[3][3] = {{"timed_lock", "try_lock_for", "try_lock_until"}, {"timed_lock_shared", "try_lock_shared_for", "try_lock_shared_until"}, {"timed_lock_upgrade", "try_lock_upgrade_for", "try_lock_upgrade_until"}};
static bool same_family(const char* a, const char* b) { // the timed functions of a mutex are interchangeable
    if (!__builtin_strcmp(a, b)) return true;
    for (int k = 0; k < 3; k++) { bool x = false, y = false; for (int i = 0; i < 3; i++) { x |= !__builtin_strcmp(a, TIMED[k][i]); y |= !__builtin_strcmp(b, TIMED[k][i]); } if (x && y) return true; }
    return false;
}
static void expect_fn(int m, const char* fn, const char* what, long long t = 0, int kind = 0) {
    EXPECT(g_call.fn && g_call.m == m && same_family(g_call.fn, fn), "wrapper-call", "%s called %s instead of %s", what, g_call.fn ? g_call.fn : "nothing", fn);
    EXPECT(!kind || g_call.kind != kind || g_call.t == t, "wrapper-call", "%s passed a wrong timeout to the mutex", what);
}
static const char* FN[3][6] = {{"lock", "try_lock", "timed_lock", "try_lock_for", "try_lock_until", "unlock"}, {"lock_shared", "try_lock_shared", "timed_lock_shared", "try_lock_shared_for", "try_lock_shared_until", "unlock_shared"}, {"lock_upgrade", "try_lock_upgrade", "timed_lock_upgrade", "try_lock_upgrade_for", "try_lock_upgrade_until", "unlock_upgrade"}};

template<int K> static void set_(int t, int i, int m, bool own) {       // model update incl. expected mutex state
    Model& o = Slots<K>::mo[t][i]; if (o.own) wadd(o.m, K, -1); o.m = m; o.own = own; if (own) wadd(m, K, 1);
}
template<int K> static void drop(int t, int i) { set_<K>(t, i, -1, false); delete Slots<K>::p[t][i]; Slots<K>::p[t][i] = 0; }

enum { OP_CTOR, OP_LOCK, OP_UNLOCK, OP_RELEASE, OP_SWAP, OP_MOVE, OP_MOVEASSIGN, OP_CONV, OP_CONVASSIGN, OP_GUARD, OP_EXT, OP_SCOPE, OP_N };
static const char* opname(int c) { static const char* n[] = {"construct", "lock", "unlock", "release", "swap", "move", "move_assign", "convert", "convert_assign", "guard", "external", "scope"}; return n[c]; }

template<int K> static void op_ctor(int t, int i, int m, int variant) {
    typedef typename W<K>::T T; long long ns = 1000 + variant * 7; Dur d(ns); TP tp{Dur(ns)};
    drop<K>(t, i);
    T* w = 0; bool own = false; int mm = m; const char* what = "constructor";
    g_call.fn = 0;
    Out o = {false, false, 0, false};
    switch (variant) {
    case 0: w = new T(); mm = -1; what = "default constructor"; break;
    case 1: what = "locking constructor"; o = call([&] { w = new T(g_m[m]); return true; }); expect_fn(m, FN[K][0], what); own = true; break;
    case 2: { what = "adopting constructor"; if (!g_m[m].can(K)) { w = new T(); mm = -1; break; } radd(m, K, 1); g_call.fn = 0; w = new T(g_m[m], bs::adopt_lock); own = true; EXPECT(!g_call.fn, "wrapper-call", "adopting constructor called %s", g_call.fn); break; }
    case 3: what = "deferring constructor"; w = new T(g_m[m], bs::defer_lock); EXPECT(!g_call.fn, "wrapper-call", "deferring constructor called %s", g_call.fn); break;
    case 4: what = "try constructor"; o = call([&] { w = new T(g_m[m], bs::try_to_lock); return true; }); expect_fn(m, FN[K][1], what); break;
    case 5: what = "timed constructor"; o = call([&] { w = new T(g_m[m], d); return true; }); expect_fn(m, FN[K][2], what, ns, 1); break;
    case 6: what = "timed constructor"; o = call([&] { w = new T(g_m[m], tp); return true; }); expect_fn(m, FN[K][2], what, ns, 2); break;
    }
    EXPECT(!o.threw_lock, "wrapper-error", "%s threw lock_error", what);
    if (!w) { EXPECT(o.threw_user, "wrapper-error", "%s failed without an exception", what); w = new T(); mm = -1; own = false; }
    else if (variant >= 4) own = real_(m, K) != want(m, K);     // whether the attempt succeeded is known from the mutex
    Slots<K>::p[t][i] = w; set_<K>(t, i, mm, own);
    verify_all(t, what);
}
template<int K> static void op_lock(int t, int i, int variant) {
    typename W<K>::T& w = *Slots<K>::p[t][i]; Model m = Slots<K>::mo[t][i]; long long ns = 500 + variant; Dur d(ns); TP tp{Dur(ns)}; static const char* names[] = {"lock", "try_lock", "timed_lock(duration)", "timed_lock(time point)", "try_lock_for", "try_lock_until"};
    static const int fnidx[] = {0, 1, 2, 2, 3, 4};
    g_call.fn = 0; long before = m.m >= 0 ? real_(m.m, K) : 0; (void)before;
    Out o = call([&]() -> bool { switch (variant) { case 0: w.lock(); return true; case 1: return w.try_lock(); case 2: return w.timed_lock(d); case 3: return w.timed_lock(tp); case 4: return w.try_lock_for(d); default: return w.try_lock_until(tp); } });
    const char* what = names[variant];
    if (m.m < 0 || m.own) {
        EXPECT(o.threw_lock, "wrapper-error", "%s on a %s that %s did not throw lock_error", what, kn(K), m.m < 0 ? "has no mutex" : "already owns its mutex");
        EXPECT(o.code == (m.m < 0 ? EPERM : EDEADLK), "wrapper-error", "%s threw lock_error with code %d", what, o.code);
        EXPECT(!g_call.fn, "wrapper-call", "misused %s called %s", what, g_call.fn);
    } else {
        EXPECT(!o.threw_lock, "wrapper-error", "%s threw lock_error although it was legal", what);
        expect_fn(m.m, FN[K][fnidx[variant]], what, ns, variant < 2 ? 0 : variant == 3 || variant == 5 ? 2 : 1);
        bool got = real_(m.m, K) != want(m.m, K);
        if (o.threw_user) EXPECT(!got, "harness", "fake mutex threw after acquiring");
        else EXPECT(o.ret == got, "wrapper-result", "%s returned %d but the mutex %s acquired", what, (int)o.ret, got ? "was" : "was not");
        if (got) set_<K>(t, i, m.m, true);
    }
    verify_all(t, what);
}
template<int K> static void op_unlock(int t, int i) {
    typename W<K>::T& w = *Slots<K>::p[t][i]; Model m = Slots<K>::mo[t][i]; g_call.fn = 0;
    Out o = call([&] { w.unlock(); return true; });
    if (!m.own) { EXPECT(o.threw_lock && o.code == EPERM, "wrapper-error", "unlock of a %s without ownership: %s", kn(K), o.threw_lock ? "wrong error code" : "no lock_error"); EXPECT(!g_call.fn, "wrapper-call", "misused unlock called %s", g_call.fn); }
    else { EXPECT(!o.threw_lock && !o.threw_user, "wrapper-error", "unlock threw"); expect_fn(m.m, FN[K][5], "unlock"); set_<K>(t, i, m.m, false); }
    verify_all(t, "unlock");
}
template<int K> static void op_release(int t, int i) {
    typename W<K>::T& w = *Slots<K>::p[t][i]; Model m = Slots<K>::mo[t][i]; g_call.fn = 0;
    FM* r = w.release();
    EXPECT(r == (m.m < 0 ? (FM*)0 : &g_m[m.m]), "wrapper-result", "release returned a wrong mutex"); EXPECT(!g_call.fn, "wrapper-call", "release called %s", g_call.fn);
    set_<K>(t, i, -1, false); if (m.own) { wadd(m.m, K, 1); g_ext[t][m.m][K]++; }
    verify_all(t, "release");
}
template<int K> static void op_swap(int t, int i, int j, int fr) {
    typename W<K>::T &a = *Slots<K>::p[t][i], &b = *Slots<K>::p[t][j]; g_call.fn = 0;
    if (fr) { using boost::sync::swap; swap(a, b); } else a.swap(b);
    EXPECT(!g_call.fn, "wrapper-call", "swap called %s", g_call.fn);
    Model x = Slots<K>::mo[t][i]; Slots<K>::mo[t][i] = Slots<K>::mo[t][j]; Slots<K>::mo[t][j] = x;
    verify_all(t, "swap");
}
template<int K> static void op_move(int t, int i, int j) {
    typedef typename W<K>::T T; if (i == j) return;
    drop<K>(t, i); g_call.fn = 0;
    Slots<K>::p[t][i] = new T(boost::move(*Slots<K>::p[t][j]));
    EXPECT(!g_call.fn, "wrapper-call", "move construction called %s", g_call.fn);
    Slots<K>::mo[t][i] = Slots<K>::mo[t][j]; Slots<K>::mo[t][j].m = -1; Slots<K>::mo[t][j].own = false;
    verify_all(t, "move construction");
}
template<int K> static void op_moveassign(int t, int i, int j, int self) {
    typedef typename W<K>::T T; T &a = *Slots<K>::p[t][i], &b = *Slots<K>::p[t][j];
    if (i == j && !self) return;
    Model ma = Slots<K>::mo[t][i], mb = Slots<K>::mo[t][j];
    a = boost::move(b);
    if (i != j) {
        Slots<K>::mo[t][i] = mb;
        // the previous ownership of the target either moved to the source (swap) or was released
        Slots<K>::mo[t][j].m = ma.m; Slots<K>::mo[t][j].own = ma.own;
        if (!b.owns_lock() && ma.own) { EXPECT(real_(ma.m, K) == want(ma.m, K) - 1, "wrapper-leak", "move assignment lost the ownership of the target"); wadd(ma.m, K, -1); Slots<K>::mo[t][j].m = -2; Slots<K>::mo[t][j].own = false; }
        else if (!b.owns_lock()) Slots<K>::mo[t][j].m = -2;
        if (Slots<K>::mo[t][j].m == -2) { Slots<K>::mo[t][j].m = b.mutex() ? b.mutex()->id : -1; }
    }
    verify_all(t, "move assignment");
}
// conversions: from kind A slot j to kind B slot i. mode 0 plain, 1 try, 2 timed duration, 3 timed time point
template<int A, int B> struct Conv;
#define PLAIN(A, B, FNAME) template<> struct Conv<A, B> { static W<B>::T* mk(W<A>::T& s, int) { return new W<B>::T(boost::move(s)); } static const char* fn(int) { return FNAME; } static bool tryish(int) { return false; } };
PLAIN(EX, SH, "unlock_and_lock_shared") PLAIN(EX, UP, "unlock_and_lock_upgrade") PLAIN(UP, SH, "unlock_upgrade_and_lock_shared")
template<> struct Conv<UP, EX> { static U* mk(G& s, int mode) { return mode ? new U(boost::move(s), bs::try_to_lock) : new U(boost::move(s)); } static const char* fn(int mode) { return mode ? "try_unlock_upgrade_and_lock" : "unlock_upgrade_and_lock"; } static bool tryish(int mode) { return mode != 0; } };
template<> struct Conv<SH, EX> { static U* mk(S& s, int mode) { return mode < 2 ? new U(boost::move(s), bs::try_to_lock) : mode == 2 ? new U(boost::move(s), Dur(77)) : new U(boost::move(s), TP(Dur(77))); } static const char* fn(int mode) { return mode < 2 ? "try_unlock_shared_and_lock" : "timed_unlock_shared_and_lock"; } static bool tryish(int) { return true; } };
template<> struct Conv<SH, UP> { static G* mk(S& s, int mode) { return mode < 2 ? new G(boost::move(s), bs::try_to_lock) : mode == 2 ? new G(boost::move(s), Dur(77)) : new G(boost::move(s), TP(Dur(77))); } static const char* fn(int mode) { return mode < 2 ? "try_unlock_shared_and_lock_upgrade" : "timed_unlock_shared_and_lock_upgrade"; } static bool tryish(int) { return true; } };
template<int A, int B> static void op_conv(int t, int i, int j, int mode) {
    drop<B>(t, i); g_call.fn = 0; typename W<B>::T* w = 0; Model m = Slots<A>::mo[t][j];
    Out o = call([&] { w = Conv<A, B>::mk(*Slots<A>::p[t][j], mode); return true; });
    EXPECT(!o.threw_lock, "wrapper-error", "conversion threw lock_error");
    if (m.own) expect_fn(m.m, Conv<A, B>::fn(mode), "lock conversion", 77, A == SH && mode == 2 ? 1 : A == SH && mode == 3 ? 2 : 0); else EXPECT(!g_call.fn, "wrapper-call", "conversion of a lock without ownership called %s", g_call.fn);
    if (!w) { EXPECT(o.threw_user && m.own, "wrapper-error", "conversion failed without an exception"); Slots<B>::p[t][i] = new typename W<B>::T(); set_<B>(t, i, -1, false); verify_all(t, "conversion that threw"); return; }
    Slots<B>::p[t][i] = w;
    if (!m.own) { set_<B>(t, i, m.m, false); set_<A>(t, j, -1, false); verify_all(t, "conversion of an unlocked lock"); return; }
    bool got = real_(m.m, B) != want(m.m, B);
    if (got) { set_<A>(t, j, -1, false); set_<B>(t, i, m.m, true); }
    else { bool tr = Conv<A, B>::tryish(mode); EXPECT(tr, "wrapper-result", "conversion did not happen"); set_<B>(t, i, -2, false); Slots<B>::mo[t][i].m = w->mutex() ? w->mutex()->id : -1; }
    verify_all(t, got ? "conversion" : "failed conversion");
}
template<int A, int B> static void op_convassign(int t, int i, int j) {       // unique=upgrade, shared=unique, shared=upgrade, upgrade=unique
    typename W<B>::T& b = *Slots<B>::p[t][i]; typename W<A>::T& a = *Slots<A>::p[t][j]; Model m = Slots<A>::mo[t][j], mb = Slots<B>::mo[t][i];
    g_call.fn = 0;
    Out o = call([&] { b = boost::move(a); return true; });
    EXPECT(!o.threw_lock, "wrapper-error", "converting assignment threw lock_error");
    if (o.threw_user) { EXPECT(m.own, "wrapper-error", "converting assignment threw"); // nothing may have changed
        verify_all(t, "converting assignment that threw"); return; }
    set_<A>(t, j, -1, false); set_<B>(t, i, m.m, m.own);   // the former ownership of the target is given back
    (void)mb; verify_all(t, "converting assignment");
}
static void op_guard(int t, int m, int variant) {
    g_call.fn = 0; Out o = {false, false, 0, false}; bool in = false;
    switch (variant) {
    case 0: o = call([&] { bs::lock_guard<FM> l(g_m[m]); in = true; expect_fn(m, "lock", "lock_guard"); EXPECT(real_(m, EX) == want(m, EX) + 1, "wrapper-leak", "lock_guard does not own the mutex"); wadd(m, EX, 1); sim_yield(); wadd(m, EX, -1); return true; }); break;
    case 1: if (!g_m[m].can(EX)) return; radd(m, EX, 1); o = call([&] { bs::lock_guard<FM> l(g_m[m], bs::adopt_lock); in = true; EXPECT(!g_call.fn, "wrapper-call", "adopting lock_guard called %s", g_call.fn); wadd(m, EX, 1); sim_yield(); wadd(m, EX, -1); return true; }); break;
    case 2: o = call([&] { bs::shared_lock_guard<FM> l(g_m[m]); in = true; expect_fn(m, "lock_shared", "shared_lock_guard"); wadd(m, SH, 1); sim_yield(); wadd(m, SH, -1); return true; }); break;
    case 3: if (!g_m[m].can(SH)) return; radd(m, SH, 1); o = call([&] { bs::shared_lock_guard<FM> l(g_m[m], bs::adopt_lock); in = true; EXPECT(!g_call.fn, "wrapper-call", "adopting shared_lock_guard called %s", g_call.fn); wadd(m, SH, 1); sim_yield(); wadd(m, SH, -1); return true; }); break;
    }
    EXPECT(in || o.threw_user, "wrapper-error", "guard not constructed"); EXPECT(!(in && o.threw_user) && !o.threw_lock, "wrapper-error", "guard threw");
    verify_all(t, "guard scope");
}
template<int K> static void op_scope(int t, int i, int exc) {       // unlock_guard over a wrapper, left normally or by an exception
    typename W<K>::T& w = *Slots<K>::p[t][i]; Model m = Slots<K>::mo[t][i]; if (!m.own) return;
    bool reached = false; struct Mine {};
    Out o = {false, false, 0, false}; bool mine = false;
    if (exc) { unsigned mask = sim_fault_get_mask(); sim_fault_mask(mask & ~FB(F_USER)); if (!g_m[m.m].can(K) && real_(m.m, EX) + real_(m.m, SH) + real_(m.m, UP) > 1) { sim_fault_mask(mask); return; } // a relock that throws while unwinding terminates, by the rules of C++
        if (sim_nthreads() > 1) { sim_fault_mask(mask); return; }
        try { bs::unlock_guard<typename W<K>::T> g(w); reached = true; set_<K>(t, i, m.m, false); verify_all(t, "unlock_guard construction"); throw Mine(); } catch (Mine&) { mine = true; }
        sim_fault_mask(mask); EXPECT(mine, "wrapper-error", "exception lost by unlock_guard"); }
    else o = call([&] { bs::unlock_guard<typename W<K>::T> g(w); reached = true; set_<K>(t, i, m.m, false); verify_all(t, "unlock_guard construction"); sim_yield(); return true; });
    EXPECT(reached && !o.threw_lock, "wrapper-error", "unlock_guard scope not entered");
    bool got = real_(m.m, K) != want(m.m, K);
    EXPECT(got == !o.threw_user, "wrapper-leak", "after an unlock_guard scope the lock is %s", got ? "held although locking failed" : "not held");
    if (got) set_<K>(t, i, m.m, true);
    verify_all(t, "unlock_guard scope");
}
static void op_ext(int t, int m, int k, int acq) {  // ownership outside the wrappers
    if (acq) { if (g_m[m].can(k)) { radd(m, k, 1); wadd(m, k, 1); g_ext[t][m][k]++; } }
    else if (g_ext[t][m][k]) { g_ext[t][m][k]--; radd(m, k, -1); wadd(m, k, -1); }
}
#define BYK(K, F, ...) do { switch (K) { case 0: F<EX>(__VA_ARGS__); break; case 1: F<SH>(__VA_ARGS__); break; default: F<UP>(__VA_ARGS__); } } while (0)
static void work(int t) {
    for (int i = 0; i < NS; i++) { Slots<EX>::p[t][i] = new U(); Slots<SH>::p[t][i] = new S(); Slots<UP>::p[t][i] = new G(); Slots<EX>::mo[t][i].m = Slots<SH>::mo[t][i].m = Slots<UP>::mo[t][i].m = -1; }
    for (int n = 0; n < sim_nops(t); n++) {
        SimOp o = sim_op(t, n); int k = o.a % 3, i = (o.a / 3) % NS, j = (o.a / 6) % NS, m = o.b % NM, v = o.c;
        sim_yield();
        switch (o.code) {
        case OP_CTOR: BYK(k, op_ctor, t, i, m, v % 7); break;
        case OP_LOCK: BYK(k, op_lock, t, i, v % 6); break;
        case OP_UNLOCK: BYK(k, op_unlock, t, i); break;
        case OP_RELEASE: BYK(k, op_release, t, i); break;
        case OP_SWAP: BYK(k, op_swap, t, i, j, v & 1); break;
        case OP_MOVE: BYK(k, op_move, t, i, j); break;
        case OP_MOVEASSIGN: BYK(k, op_moveassign, t, i, j, 1); break;
        case OP_CONV: switch (v % 6) { case 0: op_conv<EX, SH>(t, i, j, 0); break; case 1: op_conv<EX, UP>(t, i, j, 0); break; case 2: op_conv<UP, SH>(t, i, j, 0); break; case 3: op_conv<UP, EX>(t, i, j, o.b & 1); break; case 4: op_conv<SH, EX>(t, i, j, 1 + o.b % 3); break; default: op_conv<SH, UP>(t, i, j, 1 + o.b % 3); } break;
        case OP_CONVASSIGN: switch (v % 4) { case 0: op_convassign<UP, EX>(t, i, j); break; case 1: op_convassign<EX, SH>(t, i, j); break; case 2: op_convassign<UP, SH>(t, i, j); break; default: op_convassign<EX, UP>(t, i, j); } break;
        case OP_GUARD: op_guard(t, m, v % 4); break;
        case OP_EXT: op_ext(t, m, k, v & 1); break;
        case OP_SCOPE: BYK(k, op_scope, t, i, v & 1); break;
        }
    }
    for (int i = 0; i < NS; i++) { drop<EX>(t, i); drop<SH>(t, i); drop<UP>(t, i); }
    for (int m = 0; m < NM; m++) for (int k = 0; k < 3; k++) while (g_ext[t][m][k]) op_ext(t, m, k, 0);
}
static void run_main() {
    for (int i = 0; i < NM; i++) g_m[i].id = i;
    spawn_workers(work); int blocked = sim_quiesce(); EXPECT(!blocked, "deadlock", "%d threads blocked", blocked); join_workers();
    for (int i = 0; i < NM; i++) for (int k = 0; k < 3; k++) EXPECT(real_(i, k) == 0, "wrapper-leak", "all wrappers are gone but mutex %d still has %ld owners", i, real_(i, k));
    EXPECT(sim_live_allocs() == 0, "leak", "memory leaked");
}
static void gen(SimGen& g) {
    int n = g.p->nthreads = g.chance(50) ? 1 : g.range(2, 3); static const int weights[] = {22, 18, 8, 5, 5, 7, 7, 14, 8, 5, 4, 6};
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(3, n == 1 ? 22 : 12); i < k; i++) {
        int w = g.below(109), c = 0; while (w >= weights[c]) w -= weights[c++];
        g.op(t, c, g.below(12), g.below(6), g.below(84));
    }
}
SCENARIOS({"wrappers", gen, run_main, FB(F_USER), 0, opname})
