// Simulator API shared by the runtime (simrt executable, uninstrumented) and the code under test
// (scenario .so: scenario code + boostorg/sync, compiled with -fsanitize=thread instrumentation).
#ifndef SIM_RT_H
#define SIM_RT_H
#include <stdint.h>
#include <stddef.h>

enum { SIM_MAXT = 10 };           // planned threads incl. main (fiber 0); these have clocks, so races and weak memory are simulated
enum { SIM_MAXF = 320 };          // fibers; a run that starts more than SIM_MAXT ("crowd") is sequentially consistent and not checked for races
enum { SIM_MAXOPS = 24 };

struct SimOp { int code, a, b, c; };
struct SimPlan {
    int nthreads;                  // worker threads
    int nops[SIM_MAXT];
    SimOp ops[SIM_MAXT][SIM_MAXOPS];
    int params[16];                // scenario-specific, minimised towards 0 where allowed
};

// fault kinds (also bits in the allow mask)
enum SimFault {
    F_EINTR = 0,      // blocking call interrupted by a signal
    F_SPURIOUS,       // spurious futex / condition variable wakeup
    F_WEAKCAS,        // weak compare-exchange fails spuriously
    F_STALE,          // relaxed/acquire load observes an older store allowed by the C++ model
    F_STALL,          // running thread stalls: virtual time jumps
    F_EXPIRE,         // virtual time jumps to the next pending deadline while others are runnable
    F_CLOCKJUMP,      // CLOCK_REALTIME steps forward or backward
    F_ALLOC,          // operator new fails
    F_SYS_MUTEX,      // pthread_mutex_lock/trylock/timedlock returns an error
    F_SYS_COND,       // pthread_cond_wait/timedwait returns an error
    F_SYS_SEM,        // sem_init / sem_post fail
    F_SYS_TSD,        // pthread_setspecific fails (ENOMEM)
    F_SYS_INIT,       // pthread_mutex_init/cond_init fail
    F_WAKEORDER,      // wake a waiter other than the oldest
    F_PREEMPT,        // preemption (counted, not maskable)
    F_USER,           // fault inside scenario-provided code (user lock or callback throws)
    F_N
};

// history op kinds / models
enum SimModel { M_MUTEX = 1, M_RW, M_SEM, M_MRE, M_ARE, M_CV };
enum SimKind {
    // M_MUTEX / M_RW
    K_LOCK = 1, K_TRYLOCK, K_TIMEDLOCK, K_UNLOCK, K_SLOCK, K_STRYLOCK, K_SUNLOCK,
    // M_SEM
    K_SPOST, K_SWAIT, K_STRY, K_STIMED,
    // M_MRE
    K_ESET, K_ERESET, K_EWAIT, K_ETRY, K_ETIMED,
    // M_ARE
    K_APOST, K_AWAIT, K_ATRY, K_ATIMED,
    // M_CV
    K_CWAIT, K_CTIMED, K_CNOTIFY1, K_CNOTIFYALL,
    K_QUIET // recorded by sim_quiesce: every pending operation is blocked for good at this point
};

extern "C" {
// --- plan (inside run) ---
int sim_nthreads(void);
int sim_nops(int t);
SimOp sim_op(int t, int i);
int sim_param(int i);

// --- threads ---
int sim_self(void);
int sim_spawn(void (*f)(void*), void* arg);  // returns fiber id
int sim_quiesce(void);        // block until every other fiber finished or is blocked for good; returns number still blocked
int sim_done(int fiber);
int sim_join(int fiber);      // only for a finished fiber: creates the happens-before edge; returns 1 if finished
void sim_block_note(void);
void sim_yield(void);
void sim_quiet(int on);         // long set-up phases before any thread is started: no scheduling points, no steps counted
void sim_sleep(long long ns);   // virtual
void sim_settle(long n);        // let others run up to n steps / time to pass
int sim_weak(void);           // weak memory enabled in this run
int sim_fair(void);
int sim_faults_fired(int kind);
int sim_my_faults(unsigned mask);        // error faults (of the kinds in mask) injected into the current fiber so far
int sim_last_error(void);                // error code of the last error fault injected into the current fiber
long sim_native_live(void);              // native mutexes, condition variables and semaphores initialised and not destroyed

// --- history ---
void sim_obj_skip(int obj);                                // do not check the history of this object
int sim_obj(int model, const void* addr, long init);      // register an object for linearizability checking
int sim_inv(int obj, int kind, long arg);                 // operation invoked (current fiber)
void sim_res(int id, long result);                        // operation returned
void sim_res_ex(int id);                                  // operation threw: must have had no effect
void sim_mark_release(void);                              // user lock released inside a wait (cv oracle)
// timed op deadline declaration for the current op id: absolute deadlines in virtual ns
// clock: 0 = realtime (system), 1 = monotonic (steady). relative: 1 when a duration was requested
void sim_deadline(int id, int clock, long long abs_ns, int relative, long long dur_ns, long long tol_early_ns);

long long sim_mono(void);
long long sim_real(void);

// --- oracle helpers: uninstrumented counters ---
long sim_ctr(int i);
long sim_ctr_add(int i, long d);
void sim_ctr_set(int i, long v);
void sim_cs_enter(int cs, int shared);   // critical section occupancy check
void sim_cs_leave(int cs, int shared);
int sim_mutex_owner(const void* m);      // fiber id owning the simulated pthread mutex, -1 if free/unknown
int sim_nheld(void);                     // simulated pthread mutexes owned by the current fiber
void sim_violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_probe(int id);                  // reach probe
unsigned sim_choose(unsigned n, int faultkind); // scenario-level decision (0 default); faultkind<0: plain choice
int sim_fault(int kind);                 // maybe inject
void sim_fault_mask(unsigned set_mask);  // restrict enabled faults from here on for the current fiber (bits enabled)
unsigned sim_fault_get_mask(void);
void sim_nofault_push(void);             // disable error-type faults in the current fiber
void sim_nofault_pop(void);
long sim_live_allocs(void);
void sim_hb_release(int ch);             // user-level synchronisation the scenario assumes: happens-before edges only
void sim_hb_acquire(int ch);
int sim_exiting(void);                   // current fiber has left its body and runs thread-exit handlers
}

// --- plan generation (outside runs) ---
struct SimGen {
    uint64_t s;
    SimPlan* p;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
    void op(int t, int code, int a = 0, int b = 0, int c = 0) { if (p->nops[t] < SIM_MAXOPS) { SimOp o = {code, a, b, c}; p->ops[t][p->nops[t]++] = o; } }
};

struct SimScenario {
    const char* name;
    void (*gen)(SimGen&);
    void (*main)();               // runs in fiber 0
    unsigned faults;              // allowed fault kinds
    int flags;                    // bit0: weak memory allowed
    const char* (*opname)(int code);
};
enum { SCN_WEAK = 1, SCN_NOLATE = 2 };
#define FB(k) (1u << (k))

extern "C" {
// each .so exports: const SimScenario* sim_scenarios(int* n)
const SimScenario* sim_scenarios(int* n);
}
#endif
