// Timed operations of every primitive with every supported time type and extreme magnitudes.
#include <chrono>
#define BOOST_CHRONO_HEADER_ONLY
#define BOOST_ERROR_CODE_HEADER_ONLY
#include <boost/chrono.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include "common.hpp"
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
namespace bs = boost::sync;
namespace bc = boost::chrono;
namespace pt = boost::posix_time;

enum { OP_TIMED, OP_POST, OP_SLEEP, OP_RESET, OP_PTIMED, OP_NOISE };
static const char* opname(int c) { static const char* n[] = {"timed", "post", "sleep", "reset", "timed_pred", "noise"}; return n[c]; }

// duration or time point?
template<class T> struct isdur : is_dur<T> {};
template<class R, class P> struct isdur<bc::duration<R, P> > { enum { value = 1 }; };
template<> struct isdur<pt::time_duration> { enum { value = 1 }; };
template<> struct isdur<pt::seconds> { enum { value = 1 }; };

// user-defined clocks: steady with another epoch, coarse, running at half speed, floating point
enum : long long { UC_OFF = 777777777777777LL };
struct UClk { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<UClk> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(sim_mono() - UC_OFF)); } };
struct UClkMs { typedef std::chrono::milliseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<UClkMs> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(fdiv(sim_mono(), 1000000))); } };
struct UClkHalf { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<UClkHalf> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(fdiv(sim_mono(), 2))); } };
struct UClkDbl { typedef std::chrono::duration<double, std::micro> duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<UClkDbl> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(sim_mono() / 1e3)); } };
struct BUClk { typedef bc::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef bc::time_point<BUClk> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(sim_mono() - UC_OFF)); } };
static long long clampv(long long v, long long lo, long long hi) { return v < lo ? lo : v > hi ? hi : v; }

template<class F> static long with_time(int op, int ty, long long ns, F f) {
    using namespace std::chrono;
    switch (ty) {
    case TY_STD_S: { long long k = fdiv(ns, 1000000000); sim_deadline(op, 0, 0, 1, k * 1000000000, 0); return f(seconds(k)); }
    case TY_STD_H: { long long k = fdiv(ns, 3600000000000LL); sim_deadline(op, 0, 0, 1, k * 3600000000000LL, 0); return f(hours(k)); }
    case TY_TIMESPEC: { long long a = sim_real() + ns; struct timespec t; t.tv_sec = fdiv(a, 1000000000); t.tv_nsec = a - t.tv_sec * 1000000000LL; sim_deadline(op, 0, a, 0, 0, 0); return f(t); }
#ifdef BOOST_DATE_TIME_HAS_NANOSECONDS
    case TY_PT_DUR: { sim_deadline(op, 0, 0, 1, ns, 0); return f(pt::time_duration(pt::nanoseconds(ns))); }
    case TY_PT_TIME: { long long k = sim_real() + ns; sim_deadline(op, 0, k, 0, 0, 0); return f(pt::ptime(boost::gregorian::date(1970, 1, 1)) + pt::nanoseconds(k)); }
#else
    case TY_PT_DUR: { long long k = fdiv(ns, 1000); sim_deadline(op, 0, 0, 1, k * 1000, 0); return f(pt::time_duration(pt::microseconds(k))); }
    case TY_PT_TIME: { long long k = fdiv(sim_real() + ns, 1000); sim_deadline(op, 0, k * 1000, 0, 0, 0); return f(pt::ptime(boost::gregorian::date(1970, 1, 1)) + pt::microseconds(k)); }
#endif
    case TY_BC_NS: { sim_deadline(op, 0, 0, 1, ns, 0); return f(bc::nanoseconds(ns)); }
    case TY_BC_MS: { long long k = fdiv(ns, 1000000); sim_deadline(op, 0, 0, 1, k * 1000000, 0); return f(bc::milliseconds(k)); }
    case TY_BC_DBL: { sim_deadline(op, 0, 0, 1, ns, 64 + (ns > 0 ? ns >> 40 : 0)); return f(bc::duration<double>(ns / 1e9)); }
    case TY_BC_SYS: { long long a = sim_real() + ns; sim_deadline(op, 0, a, 0, 0, 0); return f(bc::system_clock::time_point(bc::duration_cast<bc::system_clock::duration>(bc::nanoseconds(a)))); }
    case TY_BC_STEADY: { long long a = sim_mono() + ns; sim_deadline(op, 1, a, 0, 0, 0); return f(bc::steady_clock::time_point(bc::nanoseconds(a))); }
    case TY_STD_SYS_US: { long long k = fdiv(sim_real() + ns, 1000); sim_deadline(op, 0, k * 1000, 0, 0, 0); return f(time_point<system_clock, microseconds>(microseconds(k))); }
    case TY_STD_SYS_H: { long long k = fdiv(sim_real() + ns, 3600000000000LL); sim_deadline(op, 0, k * 3600000000000LL, 0, 0, 0); return f(time_point<system_clock, hours>(hours(k))); }
    case TY_STD_R30: { long long k = clampv(fdiv(ns, 1000000000 / 30), -90000000000LL, 90000000000LL); sim_deadline(op, 0, 0, 1, k / 30 * 1000000000 + k % 30 * 1000000000 / 30, 1); return f(duration<long long, std::ratio<1, 30> >(k)); }
    case TY_BC_R30: { long long k = clampv(fdiv(ns, 1000000000 / 30), -90000000000LL, 90000000000LL); sim_deadline(op, 0, 0, 1, k / 30 * 1000000000 + k % 30 * 1000000000 / 30, 1); return f(bc::duration<long long, boost::ratio<1, 30> >(k)); }
    case TY_STD_MIN: { long long k = fdiv(ns, 60000000000LL); sim_deadline(op, 0, 0, 1, k * 60000000000LL, 0); return f(duration<int, std::ratio<60> >((int)k)); }
    case TY_STD_U32MS: { long long k = clampv(fdiv(ns, 1000000), 0, 4294967295LL); sim_deadline(op, 0, 0, 1, k * 1000000, 0); return f(duration<unsigned, std::milli>((unsigned)k)); }
    case TY_STD_I16MS: { long long k = clampv(fdiv(ns, 1000000), -32768, 32767); sim_deadline(op, 0, 0, 1, k * 1000000, 0); return f(duration<short, std::milli>((short)k)); }
    case TY_STD_FLT: { ns = clampv(ns, -4000000000LL, 4000000000LL); float x = (float)(ns / 1e9); sim_deadline(op, 0, 0, 1, ns, 64 + (ns > 0 ? ns >> 20 : 0)); return f(duration<float>(x)); }
    case TY_STD_PS: { long long k = clampv(ns, -9000000000000000LL, 9000000000000000LL); sim_deadline(op, 0, 0, 1, k, 0); return f(duration<long long, std::pico>(k * 1000)); }
    case TY_UCLK: { long long a = sim_mono() + ns; sim_deadline(op, 1, a, 0, 0, 0); return f(UClk::time_point(UClk::duration(a - UC_OFF))); }
    case TY_BC_UCLK: { long long a = sim_mono() + ns; sim_deadline(op, 1, a, 0, 0, 0); return f(BUClk::time_point(BUClk::duration(a - UC_OFF))); }
    case TY_UCLK_MS: { long long k = fdiv(sim_mono() + ns, 1000000); sim_deadline(op, 1, k * 1000000, 0, 0, 0); return f(UClkMs::time_point(UClkMs::duration(k))); }
    case TY_UCLK_HALF: { long long a = fdiv(sim_mono() + ns, 2); sim_deadline(op, 1, a * 2, 0, 0, 0); return f(UClkHalf::time_point(UClkHalf::duration(a))); }
    case TY_UCLK_DBL: { long long a = sim_mono() + ns; sim_deadline(op, 1, a, 0, 0, 2000 + (a > 0 ? a >> 40 : 0)); return f(UClkDbl::time_point(UClkDbl::duration(a / 1e3))); }
    case TY_PT_SEC: { long long k = clampv(fdiv(ns, 1000000000), -2000000000, 2000000000); sim_deadline(op, 0, 0, 1, k * 1000000000, 0); return f(pt::seconds((long)k)); }
    case TY_BC_SYS_MS: { long long k = fdiv(sim_real() + ns, 1000000); sim_deadline(op, 0, k * 1000000, 0, 0, 0); return f(bc::time_point<bc::system_clock, bc::milliseconds>(bc::milliseconds(k))); }
    case TY_STD_SYS_DBL: { long long a = sim_real() + ns; sim_deadline(op, 0, a, 0, 0, 2000 + (a > 0 ? a >> 40 : 0)); return f(time_point<system_clock, duration<double> >(duration<double>(a / 1e9))); }
    default: return with_time_small(op, ty < TY_SMALL_N ? ty : 0, ns, f);
    }
}
static long long mag(int code) { // magnitude table, extremes included
    static const long long t[] = {0, 1, 999, 1000, 100000, 1000000, 5000000, 123456789, 999999999, 1000000000, 1000000001, 59999999999LL, 3600000000000LL, 86400000000000LL, 31557600000000000LL /* 1 y */, 315576000000000000LL /* 10 y */, 3155760000000000000LL /* 100 y */, 4000000000000000000LL };
    int n = sizeof t / sizeof t[0]; bool neg = code < 0; if (neg) code = -code; code %= n;
    long long v = t[code]; if (neg && v > 1600000000000000000LL) v = 1800000000000000000LL; // before the epoch
    return neg ? -v : v;
}
enum { MAG_N = 18, MAG_SHORT = 9 };

template<class T> struct Tr;
template<> struct Tr<bs::semaphore> { enum { MODEL = M_SEM, POST = K_SPOST, TIMED = K_STIMED, RESET = 0 }; static bs::semaphore* make() { return new bs::semaphore(0); } };
template<> struct Tr<bs::auto_reset_event> { enum { MODEL = M_ARE, POST = K_APOST, TIMED = K_ATIMED, RESET = 0 }; static bs::auto_reset_event* make() { return new bs::auto_reset_event(); } };
template<> struct Tr<bs::manual_reset_event> { enum { MODEL = M_MRE, POST = K_ESET, TIMED = K_ETIMED, RESET = K_ERESET }; static bs::manual_reset_event* make() { return new bs::manual_reset_event(); } };
template<class T> static void post(T& o) { o.post(); }
static void post(bs::manual_reset_event& o) { o.set(); }
template<class T> static void reset(T&) {}
static void reset(bs::manual_reset_event& o) { o.reset(); }

template<class T> struct G { static T* o; static int obj; };
template<class T> T* G<T>::o; template<class T> int G<T>::obj;
template<class T> static void work(int th) {
    T& o = *G<T>::o; int obj = G<T>::obj;
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp p = sim_op(th, i);
        switch (p.code) {
        case OP_POST: { int op = sim_inv(obj, Tr<T>::POST, 0); post(o); sim_res(op, 1); break; }
        case OP_RESET: if (Tr<T>::RESET) { int op = sim_inv(obj, Tr<T>::RESET, 0); reset(o); sim_res(op, 1); } break;
        case OP_SLEEP: sim_sleep((long long)p.a * 100000); break;
        case OP_TIMED: case OP_PTIMED: { int op = sim_inv(obj, Tr<T>::TIMED, 0); int api = p.c;
            bool r = with_time(op, p.b, mag(p.a), [&](auto t) -> long { if (api) { if constexpr (isdur<decltype(t)>::value) return o.wait_for(t); else return o.wait_until(t); } return o.timed_wait(t); });
            sim_res(op, r); break; }
        }
    }
}
template<class T> static void run_main() {
    T* o = Tr<T>::make(); G<T>::o = o; int obj = G<T>::obj = sim_obj(Tr<T>::MODEL, o, 0);
    spawn_workers(work<T>);
    int b = sim_quiesce();
    for (int k = 0; b && k < 60; k++) { int op = sim_inv(obj, Tr<T>::POST, 0); post(*o); sim_res(op, 1); b = sim_quiesce(); }
    EXPECT(!b, "lost-post", "%d threads stay blocked although the object was posted repeatedly", b);
    join_workers(); delete o;
}

// timed_mutex: thread 0 owns the lock until told otherwise
enum { CTR_HELD = 3, CTR_OWNER = 4 };
static bs::timed_mutex* g_tm; static int g_tmobj;
static void work_tm(int th) {
    bs::timed_mutex& m = *g_tm; int obj = g_tmobj;
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp p = sim_op(th, i);
        switch (p.code) {
        case OP_POST: { int op = sim_inv(obj, K_LOCK, 0); m.lock(); sim_res(op, 1); sim_sleep((long long)p.a * 100000); op = sim_inv(obj, K_UNLOCK, 0); m.unlock(); sim_res(op, 1); break; }
        case OP_SLEEP: sim_sleep((long long)p.a * 100000); break;
        case OP_TIMED: case OP_PTIMED: { int op = sim_inv(obj, K_TIMEDLOCK, 0); int api = p.c;
            bool r = with_time(op, p.b, mag(p.a), [&](auto t) -> long {
                if (api == 1) { if constexpr (isdur<decltype(t)>::value) return m.try_lock_for(t); else return m.try_lock_until(t); }
                if (api == 2) { bs::unique_lock<bs::timed_mutex> l(m, t); bool q = l.owns_lock(); if (q) l.release(); return q; }
                if (api == 3) { bs::unique_lock<bs::timed_mutex> l(m, bs::defer_lock); bool q; if constexpr (isdur<decltype(t)>::value) q = l.try_lock_for(t); else q = l.try_lock_until(t); if (q) l.release(); return q; }
                return m.timed_lock(t); });
            sim_res(op, r);
            if (r) { sim_yield(); op = sim_inv(obj, K_UNLOCK, 0); m.unlock(); sim_res(op, 1); }
            break; }
        }
    }
}
static void run_tm() {
    g_tm = new bs::timed_mutex(); g_tmobj = sim_obj(M_MUTEX, g_tm, 0);
    bool own = sim_param(0);
    if (own) { int op = sim_inv(g_tmobj, K_LOCK, 0); g_tm->lock(); sim_res(op, 1); }
    spawn_workers(work_tm);
    int b = sim_quiesce();
    if (own) { int op = sim_inv(g_tmobj, K_UNLOCK, 0); g_tm->unlock(); sim_res(op, 1); b = sim_quiesce(); }
    EXPECT(!b, "deadlock", "%d threads are blocked forever on a free mutex", b);
    join_workers(); delete g_tm;
}

// condition variables
template<class CV> struct GC { static CV* cv; static bs::mutex* m; static long* flag; static int obj; };
template<class CV> CV* GC<CV>::cv; template<class CV> bs::mutex* GC<CV>::m; template<class CV> long* GC<CV>::flag; template<class CV> int GC<CV>::obj;
template<class CV> static void work_cv(int th) {
    CV& cv = *GC<CV>::cv; bs::mutex& m = *GC<CV>::m; int obj = GC<CV>::obj;
    for (int i = 0; i < sim_nops(th); i++) {
        SimOp p = sim_op(th, i);
        switch (p.code) {
        case OP_POST: { bs::unique_lock<bs::mutex> l(m); *GC<CV>::flag = 1; cv.notify_all(); break; }
        case OP_RESET: { bs::unique_lock<bs::mutex> l(m); *GC<CV>::flag = 0; break; }
        case OP_NOISE: cv.notify_all(); break;
        case OP_SLEEP: sim_sleep((long long)p.a * 100000); break;
        case OP_TIMED: { bs::unique_lock<bs::mutex> l(m); if (*GC<CV>::flag) break; int op = sim_inv(obj, K_CTIMED, (long)m.native_handle()); int api = p.c;
            long r = with_time(op, p.b, mag(p.a), [&](auto t) -> long { if (api) { if constexpr (isdur<decltype(t)>::value) return cv.wait_for(l, t) == bs::cv_status::no_timeout; else return cv.wait_until(l, t) == bs::cv_status::no_timeout; } return cv.timed_wait(l, t); });
            sim_res(op, r); EXPECT(l.owns_lock() && sim_mutex_owner(m.native_handle()) == sim_self(), "cv-lock", "wait returned without the lock"); break; }
        case OP_PTIMED: { bs::unique_lock<bs::mutex> l(m); int op = sim_inv(obj, K_CTIMED, (long)m.native_handle()); int api = p.c; long last = -1;
            auto pr = [&]() { last = *GC<CV>::flag != 0; return last != 0; };
            long r = with_time(op, p.b, mag(p.a), [&](auto t) -> long { if (api) { if constexpr (isdur<decltype(t)>::value) return cv.wait_for(l, t, pr); else return cv.wait_until(l, t, pr); } return cv.timed_wait(l, t, pr); });
            sim_res(op, r); EXPECT(r == last, "pred-result", "predicate wait returned %ld, predicate was %ld", r, last); EXPECT(l.owns_lock() && sim_mutex_owner(m.native_handle()) == sim_self(), "cv-lock", "wait returned without the lock"); break; }
        }
    }
}
template<class CV> static void run_cv() {
    GC<CV>::cv = new CV(); GC<CV>::m = new bs::mutex(); GC<CV>::flag = new long(0); GC<CV>::obj = sim_obj(M_CV, 0, 0); sim_obj_skip(GC<CV>::obj);
    spawn_workers(work_cv<CV>);
    int b = sim_quiesce();
    for (int k = 0; b && k < 60; k++) { bs::unique_lock<bs::mutex> l(*GC<CV>::m); *GC<CV>::flag = 1; GC<CV>::cv->notify_all(); l.unlock(); b = sim_quiesce(); }
    EXPECT(!b, "lost-notify", "%d threads stay blocked", b);
    join_workers(); delete GC<CV>::cv; delete GC<CV>::m; delete GC<CV>::flag;
}
static int gmag(SimGen& g) { int r = g.below(100); int v = r < 65 ? g.below(MAG_SHORT) : g.below(MAG_N); return g.chance(25) ? -v : v; }
static int gty(SimGen& g) { int t; do t = g.below(TY_N); while (t == TY_STD_STEADY_MS); return t; }
static void gen(SimGen& g) {
    int n = g.p->nthreads = g.range(1, 3); g.p->params[0] = g.below(2);
    for (int t = 0; t < n; t++) for (int i = 0, k = g.range(1, 3); i < k; i++) {
        int r = g.below(100);
        if (r < 60) g.op(t, g.chance(40) ? OP_PTIMED : OP_TIMED, gmag(g), gty(g), g.below(4));
        else if (r < 75) g.op(t, OP_POST, g.range(0, 30));
        else if (r < 85) g.op(t, OP_RESET); else if (r < 92) g.op(t, OP_NOISE); else g.op(t, OP_SLEEP, g.range(1, 50));
    }
}
static void m_sem() { run_main<bs::semaphore>(); }
static void m_are() { run_main<bs::auto_reset_event>(); }
static void m_mre() { run_main<bs::manual_reset_event>(); }
static void m_cv() { run_cv<bs::condition_variable>(); }
static void m_cva() { run_cv<bs::condition_variable_any>(); }
static const unsigned BASE = FB(F_EINTR) | FB(F_SPURIOUS) | FB(F_STALL) | FB(F_EXPIRE) | FB(F_WAKEORDER) | FB(F_CLOCKJUMP);
SCENARIOS(
    {"time_semaphore", gen, m_sem, BASE, 0, opname},
    {"time_auto_reset_event", gen, m_are, BASE, 0, opname},
    {"time_manual_reset_event", gen, m_mre, BASE, 0, opname},
    {"time_timed_mutex", gen, run_tm, BASE, 0, opname},
    {"time_cv", gen, m_cv, BASE, 0, opname},
    {"time_cv_any", gen, m_cva, BASE, 0, opname},
)
