#ifndef RT_INT_H
#define RT_INT_H
#include "rt.h"
#include <vector>
#include <string>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;
static const i64 NS = 1000000000LL;
static const i64 FAR = 1LL << 60;

struct VC {
    u32 c[SIM_MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < SIM_MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    bool leq(const VC& o) const { for (int i = 0; i < SIM_MAXT; i++) if (c[i] > o.c[i]) return false; return true; }
};

struct Rng {
    u64 s;
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
    bool p1000(u32 p) { return (next() % 1000) < p; }
};

enum FState { FS_NONE = 0, FS_READY, FS_BLOCKED, FS_DONE };
enum WaitKind { W_NONE = 0, W_MUTEX, W_COND, W_SEM, W_FUTEX, W_SLEEP, W_QUIESCE, W_ONCE, W_RWLOCK };
enum { TSD_MAX = 64 };

struct TlsDtor { void (*f)(void*); void* p; };

struct Fiber {
    int id; FState st; void* sp; char* stack; size_t stack_sz;
    void (*fn)(void*); void* arg;
    WaitKind wk; const void* wobj; bool woken; int wake_err; // wake_err: 0 normal, else errno-like reason (EINTR, spurious=0 with woken)
    bool has_timer; int tclock; i64 tdl;    // tclock 0 realtime, 1 monotonic
    i64 block_start; bool interruptible; bool spuriable; bool latecount;
    VC vc, acq_pend, rel_fence; bool has_rel_fence;
    int saved_errno; char eh[16]; std::vector<char> tls;
    void* tsd[TSD_MAX];
    std::vector<TlsDtor> dtors;
    std::vector<int> opstack;
    int nofault; unsigned fmask; int errs[F_N]; int lasterr;
    int prio; int consec; int held; bool exiting;
};

struct Store { u64 val; VC sync; bool has_sync; signed char tid; u32 clk; };
struct Loc { const void* addr; int size; std::vector<Store> st; int floor[SIM_MAXT]; int id; Loc* next; };

struct HOp {
    int id, obj, kind, tid; long arg; i64 inv, res; VC ivc, rvc; long result; bool done, ex;
    i64 park, unpark; i64 release;
    bool has_dl; int clock; i64 abs; int relative; i64 dur; i64 tol; i64 inv_mono, inv_real; i64 maxreal, minreal; bool jumped; i64 late, back; bool relclk;
    bool spur; i64 res_mono; i64 blocked;
};
struct HObj { int model; const void* addr; long init; bool skip; };

struct RunCfg {
    u32 fmask;        // enabled fault kinds
    int weak;
    int strategy;     // 0 random, 1 pct, 2 delay
    int preempt;      // per mille
    int pctd; int pctk;
    u32 rate[F_N];    // per mille
    int tick;         // ns per step
    int nsec0;        // realtime ns at start
    int fairat;       // step at which faults stop and scheduling turns fair
    int limit;        // extra steps after that
};

struct Violation { std::string cls, detail; bool set; };

struct RT {
    // run state
    bool active; bool in_cut;
    int cur; Fiber f[SIM_MAXF + 1]; int nf; bool crowd;
    i64 step; i64 mono; i64 realoff; i64 noprog; bool fair; bool quiet; int rr; int rrq;
    bool jumped;
    RunCfg cfg; SimPlan plan;
    Rng rng; bool replay; std::vector<u8> choices; size_t cpos; const std::vector<u8>* rchoices;
    u64 hash; u64 ilhash; // determinism hash, interleaving hash
    u64 fired[F_N]; int fbudget; u64 switches;
    std::vector<HOp> ops; std::vector<HObj> objs;
    long ctr[8192]; struct CS { int ex, sh; int who; } cs[16];
    Violation viol; void* host_sp; char host_eh[16]; std::vector<char> host_tls;
    bool trace; std::string tracebuf;
    std::vector<i64> pctpts; int pctlow;
    i64 delay_at; int delay_who; i64 delay_len;
    u64 probes[64];
    i64 simtime;
    long lateslack;
    VC hb[64]; long native;
};
extern RT R;

// module info for the CUT .so
struct Module { void* handle; char* rw; size_t rwlen; std::vector<char> snap; char* tls; size_t tlslen; std::vector<char> tlsinit; char* base; char* end; const SimScenario* scns; int nscn; };
extern Module MOD;

// core
u32 choose(u32 n, int kind);            // generic recorded choice, search policy uniform
u32 choose_biased(u32 n, u32 permille, int kind); // 0 with prob 1-permille/1000
bool fault(int kind);                    // recorded
void point(int kind, const void* addr);  // scheduling point
void progress();
void hmix(u64 v);
void block_current(WaitKind wk, const void* obj);  // returns when woken/timer expired
bool timer_expired(const Fiber& f);
i64 timer_mono(const Fiber& f);
void violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define TR(...) do { if (R.trace) tracef(__VA_ARGS__); } while (0)
inline bool in_fiber() { return R.active; }
inline Fiber& CUR() { return R.f[R.cur]; }
inline int ci(int id) { return id < SIM_MAXT ? id : 0; } // clock index
inline i64 realnow() { return R.mono + R.realoff; }
int start_fiber(void (*fn)(void*), void* arg);
void run_one();   // executes R.plan with R.cfg; result in R.viol
void mem_reset(); void sync_reset();
void thread_exit_hooks();
int lin_check(std::string& why, int objid);
bool mutex_enabled(const void* m); bool sem_enabled(const void* s); bool once_enabled(const void* o);
bool rw_enabled(const void* o, int fid);
void mem_release_range(const void* p, size_t n);
void sync_forget_range(const void* p, size_t n);
void vc_tick(Fiber& f);
const char* fault_name(int k);
// memory
void* arena_alloc(size_t n); bool arena_owns(const void* p); void arena_free(void* p);
long arena_live();
void obj_check(const void* p, const char* what);
extern int cut_eintr_bug;
extern u64 lin_capped, lin_total;
void set_scn(const SimScenario* s);
void mem_observe(const void* p, int size);
void mem_access(const void* p, size_t n, bool write);
#endif
