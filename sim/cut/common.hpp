// Shared helpers for scenario code (compiled together with boostorg/sync under instrumentation).
#ifndef SIM_CUT_COMMON_HPP
#define SIM_CUT_COMMON_HPP
#include "../rt.h"
#include <chrono>
#include <new>
#include <boost/config.hpp>

// ------------------------------------------------------------------ plan-driven workers
struct Worker { int t; void (*body)(int t); };
static void worker_entry(void* p) { Worker* w = (Worker*)p; w->body(w->t); }
static Worker g_workers[SIM_MAXT];
static int g_fib[SIM_MAXT];
static inline void spawn_workers(void (*body)(int)) {
    for (int i = 0; i < sim_nthreads(); i++) { g_workers[i].t = i; g_workers[i].body = body; }
    for (int i = 0; i < sim_nthreads(); i++) g_fib[i] = sim_spawn(worker_entry, &g_workers[i]);
}
static inline void join_workers() { for (int i = 0; i < sim_nthreads(); i++) if (!sim_join(g_fib[i])) sim_violation("stuck", "thread %d is blocked forever", g_fib[i]); }
#define EXPECT(cond, cls, ...) do { if (!(cond)) sim_violation(cls, __VA_ARGS__); } while (0)

struct NoFault { NoFault() { sim_nofault_push(); } ~NoFault() { sim_nofault_pop(); } };

// ------------------------------------------------------------------ time arguments
enum TimeTy { TY_STD_NS, TY_STD_US, TY_STD_MS, TY_STD_DBL, TY_STD_SYS, TY_STD_STEADY, TY_STD_SYS_S, TY_SMALL_N,
              TY_STD_STEADY_MS = TY_SMALL_N, TY_STD_S, TY_STD_H, TY_TIMESPEC, TY_PT_DUR, TY_PT_TIME, TY_BC_NS, TY_BC_MS, TY_BC_SYS, TY_BC_STEADY, TY_STD_SYS_US, TY_STD_SYS_H, TY_BC_DBL,
              TY_STD_R30, TY_STD_MIN, TY_STD_U32MS, TY_STD_FLT, TY_STD_PS, TY_STD_I16MS, TY_UCLK, TY_UCLK_MS, TY_UCLK_HALF, TY_UCLK_DBL, TY_BC_R30, TY_BC_UCLK, TY_PT_SEC, TY_BC_SYS_MS, TY_STD_SYS_DBL, TY_N };
static inline bool ty_is_duration(int ty) { switch (ty) { case TY_STD_NS: case TY_STD_US: case TY_STD_MS: case TY_STD_DBL: case TY_STD_S: case TY_STD_H: case TY_PT_DUR: case TY_BC_NS: case TY_BC_MS: case TY_BC_DBL: return true; } return false; }

static inline long long fdiv(long long a, long long b) { long long q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }

// f(time_object, bool is_duration_tag_type) -> long result
template<class F> static long with_time_small(int op, int ty, long long ns, F f) {
    using namespace std::chrono;
    switch (ty) {
    case TY_STD_US: { long long k = fdiv(ns, 1000); sim_deadline(op, 0, 0, 1, k * 1000, 0); return f(microseconds(k)); }
    case TY_STD_MS: { long long k = fdiv(ns, 1000000); sim_deadline(op, 0, 0, 1, k * 1000000, 0); return f(milliseconds(k)); }
    case TY_STD_DBL: { sim_deadline(op, 0, 0, 1, ns, 64 + (ns > 0 ? ns >> 40 : 0)); return f(duration<double>(ns / 1e9)); }
    case TY_STD_SYS: { long long a = sim_real() + ns; sim_deadline(op, 0, a, 0, 0, 0); return f(system_clock::time_point(nanoseconds(a))); }
    case TY_STD_STEADY: { long long a = sim_mono() + ns; sim_deadline(op, 1, a, 0, 0, 0); return f(steady_clock::time_point(nanoseconds(a))); }
    case TY_STD_SYS_S: { long long k = fdiv(sim_real() + ns, 1000000000); sim_deadline(op, 0, k * 1000000000, 0, 0, 0); return f(time_point<system_clock, seconds>(seconds(k))); }
    default: sim_deadline(op, 0, 0, 1, ns, 0); return f(nanoseconds(ns));
    }
}

template<class D> struct is_dur { enum { value = 0 }; };
template<class R, class P> struct is_dur<std::chrono::duration<R, P> > { enum { value = 1 }; };

extern "C" { void sim_tls_touch(void); }
static __thread volatile int g_tls_anchor;
extern "C" __attribute__((visibility("default"))) void sim_tls_touch(void) { g_tls_anchor = 0; }
#ifdef BOOST_SYNC_HAS_PTHREAD_EINTR_BUG
extern "C" { __attribute__((visibility("default"))) int sim_cut_eintr_bug = 1; }
#else
extern "C" { __attribute__((visibility("default"))) int sim_cut_eintr_bug = 0; }
#endif
#define SCENARIOS(...) static const SimScenario g_scn[] = { __VA_ARGS__ }; \
  extern "C" __attribute__((visibility("default"))) const SimScenario* sim_scenarios(int* n) { *n = (int)(sizeof g_scn / sizeof g_scn[0]); return g_scn; }
#endif
