// Fibers, scheduler, virtual time, choices, history recording.
#include "rt_int.h"
#include <stdarg.h>
#include <errno.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>

RT R;
Module MOD;

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

const char* fault_name(int k) {
    static const char* n[] = {"eintr", "spurious_wakeup", "weak_cas_failure", "stale_load", "stall", "deadline_expiry", "realtime_clock_jump", "alloc_failure", "mutex_syscall_error", "cond_syscall_error", "sem_syscall_error", "setspecific_enomem", "init_error", "wake_order", "preemption", "user_code_throw"};
    return n[k];
}

void hmix(u64 v) { R.hash = (R.hash ^ v) * 0x100000001b3ull; R.hash ^= R.hash >> 29; }
static void ilmix(u64 v) { R.ilhash = (R.ilhash ^ v) * 0x100000001b3ull; R.ilhash ^= R.ilhash >> 31; }

void tracef(const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char h[64]; snprintf(h, sizeof h, "%6lld t%d %10.6fms ", (long long)R.step, R.cur, (R.mono - 1000 * NS) / 1e6);
    R.tracebuf += h; R.tracebuf += b; R.tracebuf += '\n';
    if (R.tracebuf.size() > 4000000) R.trace = false;
}

// ---------------------------------------------------------------- choices
static u32 record(u32 v, u32 n) {
    if (v >= n) v = 0;
    R.choices.push_back((u8)v); hmix(v + 77); return v;
}
static u32 next_replay(u32 n) {
    u32 v = 0;
    if (R.cpos < R.rchoices->size()) v = (*R.rchoices)[R.cpos];
    R.cpos++;
    if (v >= n) v %= n;
    return record(v, n);
}
u32 choose(u32 n, int) {
    if (n <= 1) return 0;
    if (n > 255) n = 255;
    if (R.replay) return next_replay(n);
    return record(R.rng.below(n), n);
}
u32 choose_biased(u32 n, u32 pm, int) {
    if (n <= 1) return 0;
    if (n > 255) n = 255;
    if (R.replay) return next_replay(n);
    if (!R.rng.p1000(pm)) return record(0, n);
    return record(1 + R.rng.below(n - 1), n);
}
static const unsigned ERRFAULTS = FB(F_ALLOC) | FB(F_SYS_MUTEX) | FB(F_SYS_COND) | FB(F_SYS_SEM) | FB(F_SYS_TSD) | FB(F_SYS_INIT) | FB(F_USER);
bool fault(int kind) {
    Fiber& f = CUR();
    if (!(R.cfg.fmask & FB(kind)) || R.fair) return false;
    if (f.nofault && (FB(kind) & ERRFAULTS)) return false;
    if (!(f.fmask & FB(kind))) return false;
    if (R.fbudget <= 0) return false;
    if (!choose_biased(2, R.cfg.rate[kind], kind)) return false;
    R.fired[kind]++; f.errs[kind]++;
    R.fbudget--;
    if (R.trace) TR("FAULT %s", fault_name(kind));
    return true;
}

// ---------------------------------------------------------------- violations
static void to_host() __attribute__((noreturn));
static void tls_save(std::vector<char>& v) { if (MOD.tls) { v.resize(MOD.tlslen); memcpy(v.data(), MOD.tls, MOD.tlslen); } }
static void tls_load(const std::vector<char>& v) { if (MOD.tls && v.size() == MOD.tlslen) memcpy(MOD.tls, v.data(), MOD.tlslen); }
static void to_host() {
    void* dummy;
    R.active = false;
    memcpy(__cxxabiv1::__cxa_get_globals(), R.host_eh, 16);
    sim_switch(&dummy, R.host_sp);
    abort();
}
void violation(const char* cls, const char* fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!R.viol.set) { R.viol.set = true; R.viol.cls = cls; R.viol.detail = b; }
    TR("VIOLATION %s: %s", cls, b);
    if (R.active) to_host();
    fprintf(stderr, "violation outside run: %s: %s\n", cls, b); _exit(3);
}
extern "C" void sim_violation(const char* cls, const char* fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    violation(cls, "%s", b);
}

// ---------------------------------------------------------------- scheduling
i64 timer_mono(const Fiber& f) { // monotonic time at which the timer fires
    if (!f.has_timer) return FAR;
    if (f.tclock == 1) return f.tdl;
    i64 v = f.tdl - R.realoff;
    return v;
}
bool timer_expired(const Fiber& f) { return f.has_timer && timer_mono(f) <= R.mono; }

static bool enabled(Fiber& f) {
    if (f.st == FS_READY) return true;
    if (f.st != FS_BLOCKED) return false;
    if (f.woken) return true;
    if (timer_expired(f)) return true;
    switch (f.wk) {
    case W_MUTEX: return mutex_enabled(f.wobj);
    case W_SEM: return sem_enabled(f.wobj);
    case W_ONCE: return once_enabled(f.wobj);
    case W_RWLOCK: return rw_enabled(f.wobj, f.id);
    default: return false;
    }
}

static void switch_to(int n) {
    int o = R.cur;
    if (n == o) return;
    Fiber& a = R.f[o]; Fiber& b = R.f[n];
    a.saved_errno = errno;
    memcpy(a.eh, __cxxabiv1::__cxa_get_globals(), 16);
    tls_save(a.tls);
    a.consec = 0; b.consec = 0;
    R.cur = n; R.switches++;
    memcpy(__cxxabiv1::__cxa_get_globals(), b.eh, 16);
    tls_load(b.tls);
    errno = b.saved_errno;
    hmix(n + 1000); ilmix(n + 1);
    sim_switch(&a.sp, b.sp);
}

static bool next_timer(i64& t) {
    bool any = false; t = 0;
    for (int i = 0; i < R.nf; i++) {
        Fiber& f = R.f[i];
        if (f.st == FS_BLOCKED && f.has_timer && !f.woken) {
            i64 m = timer_mono(f);
            if (m > R.mono + (1LL << 56) || m >= FAR) continue;
            if (!any || m < t) { t = m; any = true; }
        }
    }
    return any;
}
void progress() { R.noprog = 0; }

static void advance_to(i64 t) { if (t > R.mono) R.mono = t; }

// choose who runs next; cur may be blocked
static int pick(bool cur_ok) {
    int en[SIM_MAXF + 1], n = 0;
    for (;;) {
        n = 0;
        if (cur_ok) en[n++] = R.cur;
        for (int i = 0; i < R.nf; i++) if (!(cur_ok && i == R.cur) && enabled(R.f[i])) en[n++] = i;
        if (n) break;
        i64 t;
        if (next_timer(t)) { advance_to(t); progress(); continue; }
        // quiescence: wake main if it is waiting for it
        bool q = false;
        for (int i = 0; i < R.nf; i++) if (R.f[i].st == FS_BLOCKED && R.f[i].wk == W_QUIESCE) { R.f[i].woken = true; q = true; break; }
        if (q) continue;
        violation("deadlock", "no thread can run (all blocked)");
    }
    if (n > 250) n = 250; // a decision is recorded in one byte
    if (n == 1) return en[0];
    if (R.fair) {
        if (cur_ok && R.rrq > 0) { R.rrq--; return R.cur; }
        R.rrq = 3;
        for (int k = 1; k <= R.nf; k++) { int i = (R.cur + k) % R.nf; for (int j = 0; j < n; j++) if (en[j] == i) return i; }
        return en[0];
    }
    u32 v = 0;
    if (R.replay) { v = next_replay(n); }
    else {
        u32 want = 0;
        bool force = cur_ok && CUR().consec > 60;
        switch (R.cfg.strategy) {
        case 1: { // PCT
            if (R.pctpts.size() && cur_ok) for (size_t i = 0; i < R.pctpts.size(); i++) if (R.pctpts[i] == R.step) { CUR().prio = R.pctlow--; }
            if (force) CUR().prio = R.pctlow--;
            int best = 0; for (int j = 1; j < n; j++) if (R.f[en[j]].prio > R.f[en[best]].prio) best = j;
            want = best; break; }
        case 2: { // delay one thread for a while, otherwise mostly run-to-block with light randomness
            int cand[SIM_MAXF + 1], m = 0;
            bool delaying = R.step >= R.delay_at && R.step < R.delay_at + R.delay_len;
            for (int j = 0; j < n; j++) if (!(delaying && en[j] == R.delay_who)) cand[m++] = j;
            if (!m) { want = 0; break; }
            if (cur_ok && cand[0] == 0 && !force && !R.rng.p1000(R.cfg.preempt)) want = 0; else want = cand[R.rng.below(m)];
            break; }
        default:
            if (cur_ok && !force && !R.rng.p1000(R.cfg.preempt)) want = 0;
            else if (force) want = 1 + R.rng.below(n - 1);
            else want = R.rng.below(n);
        }
        v = record(want, n);
    }
    return en[v];
}

static void time_faults() {
    if (R.fair) return;
    if ((R.cfg.fmask & (FB(F_EXPIRE) | FB(F_STALL) | FB(F_CLOCKJUMP))) == 0) return;
    i64 t;
    if ((R.cfg.fmask & FB(F_EXPIRE)) && next_timer(t) && t > R.mono && fault(F_EXPIRE)) {
        static const i64 d[] = {0, 1, 1000, 5000000};
        advance_to(t + d[choose(4, -1)]); progress();
    }
    if ((R.cfg.fmask & FB(F_STALL)) && fault(F_STALL)) {
        static const i64 d[] = {100000, 1000000, 7000000, 40000000};
        R.mono += d[choose(4, -1)]; progress();
    }
    if ((R.cfg.fmask & FB(F_CLOCKJUMP)) && fault(F_CLOCKJUMP)) {
        static const i64 d[] = {-20000000, 15000000, -3000000000LL, 3000000000LL, -1, 999999999};
        i64 before = realnow();
        for (auto& o : R.ops) if (!o.done && before > o.maxreal) o.maxreal = before;
        i64 jd = d[choose(6, -1)];
        R.realoff += jd; R.jumped = true;
        for (auto& o : R.ops) if (!o.done) { o.jumped = true; if (jd < 0) o.back -= jd; if (realnow() > o.maxreal) o.maxreal = realnow(); if (realnow() < o.minreal) o.minreal = realnow(); }
    }
    // interrupts delivered to blocked threads
    if (R.cfg.fmask & (FB(F_EINTR) | FB(F_SPURIOUS))) {
        int c[2 * SIM_MAXF + 2], n = 0; int kind[2 * SIM_MAXF + 2];
        for (int i = 0; i < R.nf; i++) {
            Fiber& f = R.f[i];
            if (f.st != FS_BLOCKED || f.woken) continue;
            if (f.interruptible && (R.cfg.fmask & FB(F_EINTR))) { c[n] = i; kind[n++] = F_EINTR; }
            if (f.spuriable && (R.cfg.fmask & FB(F_SPURIOUS))) { c[n] = i; kind[n++] = F_SPURIOUS; }
        }
        if (n && R.fbudget > 0) {
            u32 v = choose_biased(n + 1, R.cfg.rate[F_SPURIOUS], -1);
            if (v) {
                Fiber& f = R.f[c[v - 1]]; int k = kind[v - 1];
                f.woken = true; f.wake_err = k == F_EINTR ? EINTR : -1;
                R.fired[k]++; R.fbudget--;
                if (!f.opstack.empty()) R.ops[f.opstack.back()].spur = true;
                TR("FAULT %s -> t%d", fault_name(k), f.id);
            }
        }
    }
}

static void account_step(int kind, const void* addr) {
    R.step++; R.noprog++;
    R.mono += R.cfg.tick;
    hmix(kind); ilmix((u64)kind << 8 | (u64)R.cur << 2);
    (void)addr;
    if (!R.fair && R.step > R.cfg.fairat) { R.fair = true; TR("-- fair mode, faults off"); }
    if (R.step > R.cfg.fairat + (i64)R.cfg.limit * (R.crowd ? 1 + R.nf / 4 : 1)) violation("no-progress", "run did not finish within %d fair steps after faults stopped", R.cfg.limit);
    if (R.noprog > 400) { i64 t; if (next_timer(t)) { advance_to(t); } R.noprog = 0; }
}

void point(int kind, const void* addr) {
    if (!R.active || R.quiet) return;
    account_step(kind, addr);
    CUR().consec++;
    time_faults();
    int n = pick(true);
    if (n != R.cur) { R.fired[F_PREEMPT]++; switch_to(n); }
}

void block_current(WaitKind wk, const void* obj) {
    Fiber& f = CUR();
    account_step(200 + wk, obj);
    f.st = FS_BLOCKED; f.wk = wk; f.wobj = obj; f.woken = false; f.wake_err = 0; f.block_start = R.mono;
    if (!f.opstack.empty() && (wk == W_COND || wk == W_SEM || wk == W_FUTEX)) {
        HOp& o = R.ops[f.opstack.back()];
        if (o.park < 0 || o.unpark >= 0) { o.park = R.step; o.unpark = -1; }
        if (o.kind == K_CTIMED && !f.has_timer) f.latecount = false; // re-acquisition of the user lock
    }
    progress();
    time_faults();
    int n = pick(enabled(f));
    if (n != R.cur) switch_to(n);
    // woken up
    if (!f.woken && f.has_timer && (wk == W_COND || wk == W_SEM || wk == W_FUTEX) && !f.opstack.empty()) R.ops[f.opstack.back()].unpark = R.step; // timed out
    f.st = FS_READY; f.wk = W_NONE;
    progress();
    // lateness accounting
    if (f.latecount && !f.opstack.empty()) {
        HOp& o = R.ops[f.opstack.back()];
        if (o.has_dl) {
            i64 end = R.mono;
            if (f.has_timer) { i64 tm = timer_mono(f); i64 e2 = tm > f.block_start ? tm : f.block_start; if (e2 < end) end = e2; }
            i64 nominal = o.clock == 1 || o.relclk ? o.abs : o.abs - (o.inv_real - o.inv_mono);
            i64 s = f.block_start > nominal ? f.block_start : nominal;
            if (end > s) o.late += end - s;
        }
        { i64 end = R.mono; if (f.has_timer) { i64 tm = timer_mono(f); i64 e2 = tm > f.block_start ? tm : f.block_start; if (e2 < end) end = e2; } o.blocked += end - f.block_start; }
    }
    f.latecount = false; f.interruptible = false; f.spuriable = false;
}

// ---------------------------------------------------------------- fibers
static void fiber_main() {
    Fiber& f = CUR();
    try {
        f.fn(f.arg);
    } catch (std::exception& e) {
        violation("uncaught-exception", "thread %d terminated by exception %s: %s", R.cur, typeid(e).name(), e.what());
    } catch (...) {
        violation("uncaught-exception", "thread %d terminated by an unknown exception", R.cur);
    }
    if (R.cur != 0) {
        f.exiting = true;
        try { thread_exit_hooks(); }
        catch (...) { violation("uncaught-exception", "exception escaped from thread exit of thread %d", R.cur); }
    }
    Fiber& g = CUR();
    vc_tick(g);
    TR("thread done");
    g.st = FS_DONE;
    progress();
    if (R.cur == 0) to_host();
    int n = pick(false);
    switch_to(n);
    abort();
}

int start_fiber(void (*fn)(void*), void* arg) {
    if (R.nf >= SIM_MAXF) violation("harness", "too many threads");
    int id = R.nf++; if (id >= SIM_MAXT) { R.crowd = true; R.cfg.weak = 0; }
    Fiber& f = R.f[id];
    if (!f.stack) {
        f.stack_sz = 128 * 1024;
        char* p = (char*)mmap(0, f.stack_sz + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(p, 4096, PROT_NONE);
        f.stack = p + 4096;
    }
    f.id = id; f.st = FS_READY; f.fn = fn; f.arg = arg; f.wk = W_NONE; f.woken = false; f.has_timer = false; f.interruptible = f.spuriable = f.latecount = false;
    f.vc.clear(); f.acq_pend.clear(); f.rel_fence.clear(); f.has_rel_fence = false;
    f.vc.c[ci(id)] = 1;
    f.saved_errno = 0; memset(f.eh, 0, 16); f.tls = MOD.tlsinit;
    memset(f.tsd, 0, sizeof f.tsd); f.dtors.clear(); f.opstack.clear();
    f.nofault = 0; memset(f.errs, 0, sizeof f.errs); f.lasterr = 0; f.fmask = ~0u; f.prio = R.replay ? 0 : 100 + (int)R.rng.below(1000); f.consec = 0; f.held = 0; f.exiting = false;
    u64* sp = (u64*)(f.stack + f.stack_sz);
    *--sp = 0;                        // fake return address; keeps rsp = 8 mod 16 at entry
    *--sp = (u64)fiber_main;          // ret target
    for (int i = 0; i < 6; i++) *--sp = 0;
    f.sp = sp;
    return id;
}

void vc_tick(Fiber& f) { f.vc.c[ci(f.id)]++; }

static const SimScenario* g_scn;
void set_scn(const SimScenario* s) { g_scn = s; }
static void main_entry(void*) { g_scn->main(); }

static void on_terminate() {
    if (!R.active) { fprintf(stderr, "terminate outside run\n"); _exit(3); }
    const char* n = "?"; 
    std::type_info* t = abi::__cxa_current_exception_type(); if (t) n = t->name();
    violation("terminate", "std::terminate called in thread %d (exception %s)", R.cur, n);
}

void run_one() {
    std::set_terminate(on_terminate);
    R.nf = 0; R.cur = 0; R.step = 0; R.noprog = 0; R.fair = false; R.quiet = false; R.crowd = false; R.rr = 0; R.rrq = 0; R.jumped = false;
    R.mono = 1000 * NS; R.realoff = 1700000000LL * NS + R.cfg.nsec0 - R.mono;
    R.choices.clear(); R.cpos = 0; R.hash = 0xcbf29ce484222325ull; R.ilhash = 0x9ae16a3b2f90404full;
    memset(R.fired, 0, sizeof R.fired); R.switches = 0; R.fbudget = 24;
    R.ops.clear(); R.objs.clear(); memset(R.ctr, 0, sizeof R.ctr); memset(R.cs, 0, sizeof R.cs); for (auto& v : R.hb) v.clear(); R.native = 0;
    R.viol.set = false; R.viol.cls.clear(); R.viol.detail.clear(); R.tracebuf.clear();
    R.pctlow = 50; R.lateslack = 1500000;
    // restore module data
    if (MOD.rwlen) memcpy(MOD.rw, MOD.snap.data(), MOD.rwlen);
    mem_reset(); sync_reset();
    start_fiber(main_entry, 0);
    R.f[0].nofault = 1;
    memcpy(R.host_eh, __cxxabiv1::__cxa_get_globals(), 16);
    tls_save(R.host_tls);
    tls_load(R.f[0].tls);
    memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
    int e = errno;
    R.active = true;
    sim_switch(&R.host_sp, R.f[0].sp);
    R.active = false;
    errno = e;
    tls_load(R.host_tls);
    hmix(R.mono); hmix(R.step);
    R.simtime = R.mono - 1000 * NS;
    if (!R.viol.set) {
        std::string why;
        for (int i = 0; i < (int)R.objs.size(); i++) {
            if (lin_check(why, i)) { R.viol.set = true; static const char* mn[] = {"?", "mutex", "rwlock", "semaphore", "manual_reset_event", "auto_reset_event", "condvar"}; R.viol.cls = std::string("history-") + mn[R.objs[i].model]; R.viol.detail = why; if (R.trace) tracef("VIOLATION %s: %s", R.viol.cls.c_str(), why.c_str()); break; }
        }
    }
    if (R.viol.set) for (char ch : R.viol.cls) hmix(ch);
}

// ---------------------------------------------------------------- API
extern "C" {
int sim_nthreads(void) { return R.plan.nthreads; }
int sim_nops(int t) { return R.plan.nops[t]; }
SimOp sim_op(int t, int i) { return R.plan.ops[t][i]; }
int sim_param(int i) { return R.plan.params[i]; }
int sim_self(void) { return R.cur; }
int sim_spawn(void (*f)(void*), void* arg) {
    int id = start_fiber(f, arg);
    R.f[id].vc.join(CUR().vc); vc_tick(CUR());
    TR("spawn t%d", id);
    point(100, 0);
    return id;
}
int sim_inv(int obj, int kind, long arg); void sim_res(int id, long r);
int sim_quiesce(void) {
    Fiber& f = CUR();
    f.has_timer = false;
    block_current(W_QUIESCE, 0);
    // long after the others stopped, everything they did is visible here
    for (int i = 0; i < R.nf; i++) if (i != R.cur) CUR().vc.join(R.f[i].vc);
    int n = 0;
    for (int i = 0; i < R.nf; i++) if (i != R.cur && R.f[i].st == FS_BLOCKED) {
        n++;
        Fiber& g = R.f[i];
        if (!g.opstack.empty()) { HOp& o = R.ops[g.opstack.back()]; i64 nominal = o.clock == 1 || o.relclk ? o.abs : o.abs - (o.inv_real - o.inv_mono);
            if (o.has_dl && nominal < R.mono + (1LL << 50)) violation("timed-op-stuck", "timed operation kind %d of thread %d is blocked forever although its deadline is finite", o.kind, i); }
    }
    { int id = sim_inv(-1, K_QUIET, 0); sim_res(id, 0); }
    return n;
}
int sim_done(int i) { return R.f[i].st == FS_DONE; }
int sim_join(int i) { if (R.f[i].st != FS_DONE) return 0; CUR().vc.join(R.f[i].vc); return 1; }
void sim_yield(void) { point(101, 0); }
void sim_quiet(int on) { R.quiet = on != 0; }
void sim_sleep(long long ns) {
    if (!R.active) return;
    Fiber& f = CUR(); f.has_timer = true; f.tclock = 1; f.tdl = R.mono + (ns > 0 ? ns : 0);
    block_current(W_SLEEP, 0); f.has_timer = false;
}
void sim_settle(long n) { for (long i = 0; i < n; i++) point(102, 0); }
int sim_weak(void) { return R.cfg.weak; }
int sim_fair(void) { return R.fair; }
int sim_faults_fired(int k) { return (int)R.fired[k]; }
int sim_obj(int model, const void* addr, long init) { HObj o = {model, addr, init, false}; R.objs.push_back(o); return (int)R.objs.size() - 1; }
void sim_obj_skip(int i) { R.objs[i].skip = true; }
int sim_inv(int obj, int kind, long arg) {
    HOp o; o.id = (int)R.ops.size(); o.obj = obj; o.kind = kind; o.tid = R.cur; o.arg = arg; o.inv = ++R.step; o.res = 1LL << 62; o.ivc = CUR().vc; o.result = 0; o.done = false; o.ex = false;
    o.park = -1; o.unpark = -1; o.release = -1; o.has_dl = false; o.late = 0; o.back = 0; o.maxreal = o.minreal = realnow(); o.jumped = false; o.inv_mono = R.mono; o.inv_real = realnow(); o.spur = false; o.relclk = false; o.clock = 0; o.abs = 0; o.relative = 0; o.dur = 0; o.tol = 0; o.blocked = 0; o.res_mono = 0;
    vc_tick(CUR()); // operations of one thread are ordered by distinct clock values
    o.ivc = CUR().vc;
    R.ops.push_back(o); CUR().opstack.push_back(o.id);
    TR("op%d invoke obj%d kind=%d arg=%ld", o.id, obj, kind, arg);
    return o.id;
}
static void op_done(int id, long r, bool ex) {
    HOp& o = R.ops[id]; o.res_mono = R.mono; o.result = r; o.ex = ex; o.done = true; o.res = ++R.step; vc_tick(CUR()); o.rvc = CUR().vc;
    Fiber& f = CUR();
    if (!f.opstack.empty() && f.opstack.back() == id) f.opstack.pop_back();
    hmix(id * 31 + r);
    TR("op%d return %ld%s", id, r, ex ? " (threw)" : "");
    if (o.has_dl && !ex) {
        if (realnow() > o.maxreal) o.maxreal = realnow();
        if (r == 0) { // timeout reported
            // A wait may be measured by the monotonic clock from a reading of the system clock or the other way round: when the
            // system clock was stepped meanwhile, any span consistent with such a measurement is accepted.
            i64 me = R.mono - o.inv_mono, re = o.maxreal - o.minreal;
            bool ok;
            if (o.relative) ok = me >= o.dur - o.tol || re >= o.dur - o.tol;
            else if (o.clock == 1) ok = R.mono >= o.abs - o.tol;
            else ok = o.maxreal >= o.abs - o.tol || (o.jumped && me >= o.abs - o.maxreal - o.tol);
            if (!ok) {
                i64 early = o.relative ? o.dur - me : o.clock == 1 ? o.abs - R.mono : o.abs - o.maxreal;
                violation("timeout-early", "timed operation kind %d reported timeout %lld ns before its deadline", o.kind, (long long)early);
            }
        }
        // time during which the thread was not blocked in a wait (preempted, stalled, waiting for another lock) may delay the start of a wait
        // A deadline on the steady clock or a duration may be waited for by the system clock: setting that clock back delays the expiry by as much, setting it forward must not.
        if (o.late > R.lateslack + (R.mono - o.inv_mono - o.blocked) + o.back && !(o.jumped && o.clock == 0 && !o.relative)) violation("timeout-late", "timed operation kind %d stayed blocked %lld ns past its deadline", o.kind, (long long)o.late);
    }
}
void sim_res(int id, long r) { op_done(id, r, false); }
void sim_res_ex(int id) { op_done(id, -1, true); }
void sim_mark_release(void) { Fiber& f = CUR(); if (!f.opstack.empty()) { HOp& o = R.ops[f.opstack.back()]; if (o.release < 0) o.release = R.step; } }
void sim_deadline(int id, int clock, long long abs_ns, int relative, long long dur_ns, long long tol) {
    HOp& o = R.ops[id]; o.has_dl = true; o.clock = clock; o.abs = abs_ns; o.relative = relative; o.dur = dur_ns; o.tol = tol;
    if (relative) { o.relclk = true; __int128 a = (__int128)o.inv_mono + dur_ns; if (a > (__int128)(1LL << 62)) a = 1LL << 62; o.abs = (i64)a; }
}
long long sim_mono(void) { return R.mono; }
long long sim_real(void) { return realnow(); }
long sim_ctr(int i) { return R.ctr[i & 8191]; }
long sim_ctr_add(int i, long d) { return R.ctr[i & 8191] += d; }
void sim_ctr_set(int i, long v) { R.ctr[i & 8191] = v; }
void sim_cs_enter(int c, int sh) {
    RT::CS& s = R.cs[c];
    if (sh) { if (s.ex) violation("exclusion", "thread %d got shared ownership while thread %d owns exclusively", R.cur, s.who); s.sh++; }
    else { if (s.ex) violation("exclusion", "threads %d and %d own the lock exclusively at the same time", R.cur, s.who); if (s.sh) violation("exclusion", "thread %d got exclusive ownership while %d shared owners exist", R.cur, s.sh); s.ex = 1; s.who = R.cur; }
}
void sim_cs_leave(int c, int sh) { RT::CS& s = R.cs[c]; if (sh) s.sh--; else s.ex = 0; }
void sim_note(const char* fmt, ...) { if (!R.trace) return; char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); tracef("%s", b); }
void sim_probe(int id) { if (id >= 0 && id < 64) R.probes[id]++; }
unsigned sim_choose(unsigned n, int) { if (R.fair) return 0; return choose(n, -1); }
int sim_fault(int kind) { return fault(kind); }
int sim_my_faults(unsigned mask) { int n = 0; for (int k = 0; k < F_N; k++) if (mask >> k & 1) n += CUR().errs[k]; return n; }
int sim_last_error(void) { return CUR().lasterr; }
long sim_native_live(void) { return R.native; }
void sim_fault_mask(unsigned m) { CUR().fmask = m; }
unsigned sim_fault_get_mask(void) { return CUR().fmask; }
void sim_nofault_push(void) { CUR().nofault++; }
void sim_nofault_pop(void) { CUR().nofault--; }
void sim_hb_release(int ch) { R.hb[ch & 63].join(CUR().vc); vc_tick(CUR()); }
void sim_hb_acquire(int ch) { CUR().vc.join(R.hb[ch & 63]); }
int sim_exiting(void) { return CUR().exiting; }
long sim_live_allocs(void) { return arena_live(); }
int sim_nheld(void) { return CUR().held; }
}
