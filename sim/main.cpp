// simrt: seeded search, replay and minimisation of simulated runs.
#include "rt_int.h"
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <unistd.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unordered_set>
#include <algorithm>
#include <string>
#include <fstream>
#include <sstream>

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void die(const char* m) { fprintf(stderr, "simrt: %s\n", m); _exit(3); }

// ---------------------------------------------------------------- module
static int phdr_cb(struct dl_phdr_info* i, size_t, void* want) {
    if (!i->dlpi_name || strcmp(i->dlpi_name, (const char*)want)) return 0;
    char* base = (char*)i->dlpi_addr; char *lo = 0, *hi = 0, *rel = 0; char* top = base;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr)& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD) { char* e = base + p.p_vaddr + p.p_memsz; if (e > top) top = e; if (p.p_flags & PF_W) { lo = base + p.p_vaddr; hi = e; } }
        if (p.p_type == PT_GNU_RELRO) rel = base + p.p_vaddr + p.p_memsz;
        if (p.p_type == PT_TLS) { MOD.tls = (char*)i->dlpi_tls_data; MOD.tlslen = p.p_memsz; MOD.tlsinit.assign(p.p_memsz, 0); memcpy(MOD.tlsinit.data(), base + p.p_vaddr, p.p_filesz); if (!MOD.tls) die("TLS block not allocated"); }
    }
    if (rel) { rel = (char*)(((size_t)rel + 4095) & ~4095ull); if (rel > lo) lo = rel; }
    if (hi > lo) { MOD.rw = lo; MOD.rwlen = hi - lo; }
    MOD.base = base; MOD.end = top;
    return 1;
}
static void load(const char* so) {
    char* rp = realpath(so, 0); if (!rp) die("scenario library not found");
    MOD.handle = dlopen(rp, RTLD_NOW | RTLD_LOCAL);
    if (!MOD.handle) { fprintf(stderr, "%s\n", dlerror()); die("dlopen failed"); }
    typedef const SimScenario* (*F)(int*);
    F f = (F)dlsym(MOD.handle, "sim_scenarios"); if (!f) die("no sim_scenarios");
    typedef void (*T)(); T touch = (T)dlsym(MOD.handle, "sim_tls_touch"); if (touch) touch();
    MOD.scns = f(&MOD.nscn);
    int* eb = (int*)dlsym(MOD.handle, "sim_cut_eintr_bug"); if (eb) cut_eintr_bug = *eb;
    if (!dl_iterate_phdr(phdr_cb, rp)) die("module not found in link map");
    MOD.snap.assign(MOD.rw, MOD.rw + MOD.rwlen);
    free(rp);
}
static void on_segv(int sig, siginfo_t* si, void*) {
    if (!R.active) { const char m[] = "simrt: fatal signal outside a run\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); }
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, 0);
    long a = (long)si->si_addr;
    violation("crash", "thread %d: signal %d (%s address)", R.cur, sig, a < 4096 ? "null" : "wild");
}
static void install_sig() {
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL}; for (int s : sg) sigaction(s, &sa, 0);
}
// watchdog: code under test that loops without reaching any scheduling point (no step) burns CPU time only
static volatile i64 wd_step = -1; static volatile int wd_n; static volatile u64 wd_run, wd_lastrun;
static void on_vtalrm(int sig, siginfo_t*, void*) {
    if (!R.active) { wd_step = -1; wd_n = 0; return; }
    if (R.step == wd_step && wd_lastrun == wd_run) { if (++wd_n >= 4) { wd_n = 0; wd_step = -1; sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, 0); violation("no-progress", "thread %d loops without end", R.cur); } }
    else { wd_step = R.step; wd_lastrun = wd_run; wd_n = 0; }
}
static void install_watchdog() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_vtalrm; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_VIRTUAL, &it, 0);
}
static const SimScenario* find_scn(const char* n) { for (int i = 0; i < MOD.nscn; i++) if (!strcmp(MOD.scns[i].name, n)) return &MOD.scns[i]; return 0; }

// ---------------------------------------------------------------- run configuration from a seed
static u64 mix64(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 hstr(const char* s) { u64 h = 0xcbf29ce484222325ull; for (; *s; s++) h = (h ^ (u8)*s) * 0x100000001b3ull; return h; }

static bool shrink_plans; // --shrink: search over the sub-plans minimisation can reach (self-check of the workloads: they must be quiet too)
static void gen_plan(const SimScenario* s, u64 seed) {
    memset(&R.plan, 0, sizeof R.plan);
    SimGen g; g.s = mix64(seed ^ hstr(s->name)); g.p = &R.plan; s->gen(g);
    if (!shrink_plans) return;
    SimPlan& p = R.plan; int pc = 10 + g.below(80);
    for (int t = 0; t < p.nthreads; t++) {
        if (g.chance(20)) { p.nops[t] = 0; continue; }
        for (int i = p.nops[t] - 1; i >= 0; i--) if (g.chance(pc)) { for (int k = i; k + 1 < p.nops[t]; k++) p.ops[t][k] = p.ops[t][k + 1]; p.nops[t]--; }
    }
}
static void gen_cfg(const SimScenario* s, u64 seed, Rng& r) {
    r.s = mix64(seed * 3 + 1) ^ hstr(s->name);
    RunCfg& c = R.cfg; memset(&c, 0, sizeof c);
    // swarm: each run enables a random subset of the fault kinds the scenario allows
    u32 f = s->faults & ((1u << F_N) - 1);
    u32 m = 0;
    switch (r.below(4)) {
    case 0: m = 0; break;
    case 1: m = f; break;
    default: for (int k = 0; k < F_N; k++) if ((f >> k & 1) && r.below(2)) m |= 1u << k;
    }
    // always keep deadline expiry available half of the time
    if ((f & FB(F_EXPIRE)) && r.below(2)) m |= FB(F_EXPIRE);
    c.weak = (s->flags & SCN_WEAK) && r.below(2);
    if (!c.weak) m &= ~FB(F_STALE); else { m |= f & FB(F_STALE); }
    c.fmask = m;
    for (int k = 0; k < F_N; k++) { static const int rt[] = {8, 30, 90, 250}; c.rate[k] = rt[r.below(4)]; }
    { static const int rt[] = {3, 10, 30}; c.rate[F_EXPIRE] = rt[r.below(3)]; c.rate[F_STALL] = rt[r.below(3)]; c.rate[F_CLOCKJUMP] = rt[r.below(3)]; }
    { static const int rt[] = {100, 250, 500}; c.rate[F_STALE] = rt[r.below(3)]; }
    { static const int rt[] = {10, 40, 120}; c.rate[F_SPURIOUS] = rt[r.below(3)]; }
    { static const int rt[] = {30, 100, 300}; int e = rt[r.below(3)]; c.rate[F_ALLOC] = e; c.rate[F_SYS_MUTEX] = e; c.rate[F_SYS_COND] = e; c.rate[F_SYS_SEM] = e; c.rate[F_SYS_TSD] = e; c.rate[F_SYS_INIT] = e; c.rate[F_USER] = e; }
    c.rate[F_WAKEORDER] = 500;
    u32 st = r.below(10);
    c.strategy = st < 4 ? 0 : st < 7 ? 1 : 2;
    static const int pre[] = {20, 60, 150, 300, 600, 1000};
    c.preempt = pre[r.below(c.strategy == 2 ? 4 : 6)];
    c.tick = (int[]){1, 25, 100, 1000}[r.below(4)];
    c.nsec0 = (int[]){0, 999999999, 123456789, 500000000}[r.below(4)];
    c.pctd = 1 + r.below(4); static const int pk[] = {20, 60, 150, 400}; c.pctk = pk[r.below(4)];
    c.fairat = 4000; c.limit = 60000;
    R.pctpts.clear();
    if (c.strategy == 1) for (int i = 0; i < c.pctd; i++) R.pctpts.push_back(1 + r.below(c.pctk));
    R.delay_at = r.below(c.pctk); R.delay_who = 1 + r.below(R.plan.nthreads ? R.plan.nthreads : 1); R.delay_len = 20 + r.below(300);
}
static void run_seed(const SimScenario* s, u64 seed) {
    gen_plan(s, seed);
    Rng r; gen_cfg(s, seed, r);
    R.rng.s = mix64(seed * 7 + 5) ^ hstr(s->name); R.replay = false; R.rchoices = 0;
    wd_run++; set_scn(s); run_one();
}
static void run_choices(const SimScenario* s, const std::vector<u8>& ch) { R.replay = true; R.rchoices = &ch; R.rng.s = 1; R.pctpts.clear(); wd_run++; set_scn(s); run_one(); R.replay = false; }

// ---------------------------------------------------------------- replay file
struct Rep { std::string scn, cls, detail, cfgname, prop; u64 seed; RunCfg cfg; SimPlan plan; std::vector<u8> ch; u64 hash; };
static void save_rep(const char* path, const Rep& r, const SimScenario* s, const std::string& trace, bool minimised) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); return; }
    fprintf(f, "simreplay 1\nproperty %s\nconfig %s\nscenario %s\nseed %llu\nminimised %d\nclass %s\nhash %016llx\ndetail %s\n", r.prop.c_str(), r.cfgname.c_str(), r.scn.c_str(), (unsigned long long)r.seed, (int)minimised, r.cls.c_str(), (unsigned long long)r.hash, r.detail.c_str());
    fprintf(f, "cfg %u %d %d %d %d %d %d %d %d %d", r.cfg.fmask, r.cfg.weak, r.cfg.strategy, r.cfg.preempt, r.cfg.pctd, r.cfg.pctk, r.cfg.tick, r.cfg.nsec0, r.cfg.fairat, r.cfg.limit);
    for (int k = 0; k < F_N; k++) fprintf(f, " %u", r.cfg.rate[k]);
    fprintf(f, "\nplan %d", r.plan.nthreads);
    for (int i = 0; i < 16; i++) fprintf(f, " %d", r.plan.params[i]);
    fprintf(f, "\n");
    for (int t = 0; t < r.plan.nthreads; t++) { fprintf(f, "thread %d", r.plan.nops[t]); for (int i = 0; i < r.plan.nops[t]; i++) { const SimOp& o = r.plan.ops[t][i]; fprintf(f, " %d %d %d %d", o.code, o.a, o.b, o.c); } fprintf(f, "\n"); }
    fprintf(f, "choices %zu ", r.ch.size()); for (u8 c : r.ch) fprintf(f, "%02x", c); fprintf(f, "\nend\n");
    int nz = 0; for (u8 c : r.ch) nz += c != 0;
    fprintf(f, "# %d scheduling and fault decisions differ from the default\n", nz);
    for (int t = 0; t < r.plan.nthreads; t++) { fprintf(f, "# thread %d:", t + 1); for (int i = 0; i < r.plan.nops[t]; i++) { const SimOp& o = r.plan.ops[t][i]; fprintf(f, " %s(%d,%d,%d)", s->opname ? s->opname(o.code) : "op", o.a, o.b, o.c); } fprintf(f, "\n"); }
    std::istringstream is(trace); std::string l; while (std::getline(is, l)) fprintf(f, "# %s\n", l.c_str());
    fclose(f);
}
static bool load_rep(const char* path, Rep& r) {
    std::ifstream f(path); if (!f) return false;
    std::string l; int t = 0; memset(&r.plan, 0, sizeof r.plan); memset(&r.cfg, 0, sizeof r.cfg);
    while (std::getline(f, l)) {
        if (l[0] == '#') continue;
        std::istringstream is(l); std::string k; is >> k;
        auto rest = [&]() { std::string x; std::getline(is, x); if (!x.empty() && x[0] == ' ') x.erase(0, 1); return x; };
        if (k == "property") r.prop = rest(); else if (k == "config") r.cfgname = rest(); else if (k == "scenario") r.scn = rest();
        else if (k == "seed") is >> r.seed; else if (k == "class") r.cls = rest(); else if (k == "detail") r.detail = rest();
        else if (k == "hash") { std::string h = rest(); r.hash = strtoull(h.c_str(), 0, 16); }
        else if (k == "cfg") { is >> r.cfg.fmask >> r.cfg.weak >> r.cfg.strategy >> r.cfg.preempt >> r.cfg.pctd >> r.cfg.pctk >> r.cfg.tick >> r.cfg.nsec0 >> r.cfg.fairat >> r.cfg.limit; for (int i = 0; i < F_N; i++) is >> r.cfg.rate[i]; }
        else if (k == "plan") { is >> r.plan.nthreads; for (int i = 0; i < 16; i++) is >> r.plan.params[i]; }
        else if (k == "thread") { is >> r.plan.nops[t]; for (int i = 0; i < r.plan.nops[t] && i < SIM_MAXOPS; i++) { SimOp& o = r.plan.ops[t][i]; is >> o.code >> o.a >> o.b >> o.c; } t++; }
        else if (k == "choices") { size_t n; std::string h; is >> n >> h; r.ch.clear(); for (size_t i = 0; i + 1 < h.size(); i += 2) r.ch.push_back((u8)strtoul(h.substr(i, 2).c_str(), 0, 16)); }
        else if (k == "end") return true;
    }
    return false;
}

// ---------------------------------------------------------------- minimisation
static bool try_ch(const SimScenario* s, Rep& r, const SimPlan& plan, const RunCfg& cfg, const std::vector<u8>& ch) {
    R.plan = plan; R.cfg = cfg; run_choices(s, ch);
    if (R.viol.set && R.viol.cls == r.cls) { 
        std::vector<u8> c = R.choices; while (!c.empty() && c.back() == 0) c.pop_back();
        r.plan = plan; r.cfg = cfg; r.ch = c; r.detail = R.viol.detail; return true; }
    return false;
}
static bool research(const SimScenario* s, Rep& r, const SimPlan& plan, int tries, u64 salt) {
    if (try_ch(s, r, plan, r.cfg, r.ch)) return true;
    for (int i = 0; i < tries; i++) {
        R.plan = plan; Rng q; RunCfg keep = r.cfg; gen_cfg(s, mix64(r.seed + salt * 131 + i), q);
        RunCfg c = R.cfg; c.fmask = keep.fmask; c.weak = keep.weak; c.nsec0 = keep.nsec0; c.tick = keep.tick; memcpy(c.rate, keep.rate, sizeof c.rate); R.cfg = c;
        R.rng.s = mix64(r.seed * 1000 + salt * 77 + i); R.replay = false; wd_run++; set_scn(s); run_one();
        if (R.viol.set && R.viol.cls == r.cls) { std::vector<u8> ch = R.choices; if (try_ch(s, r, plan, c, ch)) return true; }
    }
    return false;
}
static void minimise(const SimScenario* s, Rep& r, double budget) {
    double t0 = now_s(); u64 salt = 1;
    auto over = [&]() { return now_s() - t0 > budget; };
    { RunCfg c = r.cfg; SimPlan p = r.plan; std::vector<u8> ch = r.ch; try_ch(s, r, p, c, ch); }
    bool chg = true;
    while (chg && !over()) {
        chg = false;
        for (int t = r.plan.nthreads - 1; t >= 0 && !over(); t--) { // drop all ops of a thread
            if (!r.plan.nops[t]) continue;
            SimPlan p = r.plan; p.nops[t] = 0; if (research(s, r, p, 150, salt++)) { chg = true; }
        }
        for (int t = 0; t < r.plan.nthreads && !over(); t++) for (int i = r.plan.nops[t] - 1; i >= 0 && !over(); i--) {
            SimPlan p = r.plan; for (int k = i; k + 1 < p.nops[t]; k++) p.ops[t][k] = p.ops[t][k + 1]; p.nops[t]--;
            if (research(s, r, p, 80, salt++)) chg = true;
        }
    }
    if (!strncmp(s->name, "crowd", 5)) for (int q : {0, 3, 4}) for (int v = r.plan.params[q] / 2; v >= 1 && !over(); v = v == r.plan.params[q] ? v / 2 : v + (r.plan.params[q] - v + 1) / 2) { // smaller crowds
        if (v >= r.plan.params[q]) break; SimPlan p = r.plan; p.params[q] = v; if (!research(s, r, p, 20, salt++) && r.plan.params[q] - v <= 1) break; }
    for (int k = 0; k < F_N && !over(); k++) if (r.cfg.fmask >> k & 1) { RunCfg c = r.cfg; c.fmask &= ~(1u << k); SimPlan p = r.plan; RunCfg old = r.cfg; r.cfg = c; Rep r2 = r; if (research(s, r2, p, 60, salt++)) r = r2; else r.cfg = old; }
    if (r.cfg.weak && !over()) { RunCfg old = r.cfg; r.cfg.weak = 0; Rep r2 = r; SimPlan p = r.plan; if (research(s, r2, p, 100, salt++)) r = r2; else r.cfg = old; }
    // zero out decisions
    for (size_t blk = r.ch.size(); blk >= 1 && !over(); blk /= 2) {
        for (size_t i = 0; i < r.ch.size() && !over(); i += blk) {
            std::vector<u8> c = r.ch; bool any = false; for (size_t k = i; k < i + blk && k < c.size(); k++) { any |= c[k] != 0; c[k] = 0; }
            if (any) { SimPlan p = r.plan; RunCfg cf = r.cfg; size_t n0 = r.ch.size(); std::vector<u8> keep = r.ch; Rep r2 = r; if (try_ch(s, r2, p, cf, c)) { int a = 0, b = 0; for (u8 x : keep) a += x != 0; for (u8 x : r2.ch) b += x != 0; if (b <= a && r2.ch.size() <= n0 + 64) r = r2; } }
        }
        if (blk == 1) break;
    }
    R.plan = r.plan; R.cfg = r.cfg; run_choices(s, r.ch); r.hash = R.hash; r.detail = R.viol.detail;
}

// ---------------------------------------------------------------- main
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

int main(int argc, char** argv) {
    if (!getenv("SIMRT_NOASLR")) { setenv("SIMRT_NOASLR", "1", 1); int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    std::string mode = argc > 1 ? argv[1] : "", so, scn, out, rep, cfgname = "?", prop = "?"; u64 seed = 1; long count = -1; double secs = -1; bool trace = false; std::string only, excl; bool needintr = false;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i]; auto v = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--so") so = v(); else if (a == "--scn") scn = v(); else if (a == "--seed") seed = strtoull(v(), 0, 10); else if (a == "--count") count = atol(v());
        else if (a == "--secs") secs = atof(v()); else if (a == "--out") out = v(); else if (a == "--replay") rep = v(); else if (a == "--config") cfgname = v(); else if (a == "--prop") prop = v(); else if (a == "--trace") trace = true;
        else if (a == "--only") only = v(); else if (a == "--exclude") excl = v(); else if (a == "--interruption") needintr = true; else if (a == "--shrink") shrink_plans = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    if (so.empty()) die("usage: simrt search|replay|minimise|list --so X.so [--scn S] ...");
    load(so.c_str()); install_sig(); install_watchdog();
    if (mode == "list") { for (int i = 0; i < MOD.nscn; i++) printf("%s\n", MOD.scns[i].name); return 0; }
    if (mode == "replay") {
        Rep r; if (!load_rep(rep.c_str(), r)) die("cannot read replay file");
        const SimScenario* s = find_scn(r.scn.c_str()); if (!s) die("scenario not found");
        R.trace = trace; R.plan = r.plan; R.cfg = r.cfg; run_choices(s, r.ch);
        if (trace) fputs(R.tracebuf.c_str(), stdout);
        if (R.viol.set) printf("replayed: class=%s hash=%016llx %s\n  %s\n", R.viol.cls.c_str(), (unsigned long long)R.hash, R.hash == r.hash ? "exact" : "DIFFERENT EXECUTION", R.viol.detail.c_str());
        else printf("replayed: no violation (hash %016llx)\n", (unsigned long long)R.hash);
        return R.viol.set && R.viol.cls == r.cls ? 0 : 5;
    }
    if (mode == "minimise") {
        Rep r; if (!load_rep(rep.c_str(), r)) die("cannot read replay file");
        const SimScenario* s = find_scn(r.scn.c_str()); if (!s) die("scenario not found");
        minimise(s, r, secs > 0 ? secs : 15);
        if (!R.viol.set) { fprintf(stderr, "minimise: lost the violation\n"); return 5; }
        R.trace = true; R.plan = r.plan; R.cfg = r.cfg; run_choices(s, r.ch); r.hash = R.hash; r.detail = R.viol.detail;
        save_rep(out.c_str(), r, s, R.tracebuf, true);
        return 0;
    }
    if (mode != "search") die("unknown mode");
    const SimScenario* s = find_scn(scn.c_str()); if (!s) die("scenario not found");
    if (trace) { R.trace = true; run_seed(s, seed); fputs(R.tracebuf.c_str(), stdout); printf("%s %s\n", R.viol.cls.c_str(), R.viol.detail.c_str()); return 0; }
    double t0 = now_s(); u64 runs = 0, steps = 0, nontriv = 0, sw = 0, weakruns = 0, fairruns = 0, detchk = 0; double simt = 0; u64 k = seed; u64 fired[F_N] = {0}, probes[64] = {0}; u64 strat[3] = {0};
    u64 foreign = 0; std::string foreigncls;
    auto inlist = [](const std::string& l, const std::string& c) { return ("," + l + ",").find("," + c + ",") != std::string::npos; };
    const u32 INTR = FB(F_EINTR) | FB(F_SPURIOUS) | FB(F_WEAKCAS);
    // does a violation concern the property being checked? (a different property broken by this run is counted, not reported)
    auto relevant = [&]() -> bool {
        std::string c = R.viol.cls;
        if (c == "harness") return true;
        if (!only.empty() && !inlist(only, c)) return false;
        if (inlist(excl, c)) return false;
        if (needintr) {
            u64 n = R.fired[F_EINTR] + R.fired[F_SPURIOUS] + R.fired[F_WEAKCAS]; if (!n) return false;
            if (foreign > 60) return false;
            // attribution: the same workload must not break in the same way without interruptions
            SimPlan p = R.plan; RunCfg keep = R.cfg; Violation kv = R.viol; std::vector<u8> kc = R.choices; u64 kh = R.hash; bool without = false;
            for (int i = 0; i < 400 && !without; i++) {
                R.plan = p; Rng q; gen_cfg(s, mix64(k * 977 + i), q); R.cfg.fmask = keep.fmask & ~INTR; R.cfg.weak = keep.weak; R.cfg.nsec0 = keep.nsec0; R.cfg.tick = keep.tick;
                R.rng.s = mix64(k * 1000 + i); R.replay = false; wd_run++; set_scn(s); run_one();
                if (R.viol.set && R.viol.cls == c) without = true;
            }
            R.plan = p; R.cfg = keep; R.viol = kv; R.choices = kc; R.hash = kh;
            if (without) return false;
        }
        return true;
    };
    std::unordered_set<u64> il; std::vector<u64> samples; bool viol = false;
    for (;; k++) {
        if (count >= 0 && runs >= (u64)count) break;
        if (secs >= 0 && (runs & 15) == 0 && now_s() - t0 >= secs) break;
        run_seed(s, k);
        runs++; steps += R.step; simt += R.simtime / 1e9; sw += R.switches; strat[R.cfg.strategy]++; if (R.cfg.weak) weakruns++; if (R.fair) fairruns++;
        bool nt = false; for (int i = 0; i < F_N; i++) { fired[i] += R.fired[i]; if (R.fired[i]) nt = true; }
        for (int i = 0; i < 64; i++) { probes[i] += R.probes[i] ? 1 : 0; R.probes[i] = 0; }
        if (nt && il.size() < 4000000) { if (il.insert(R.ilhash).second) nontriv++; }
        if (samples.size() < 8 && nt) samples.push_back(k);
        if (R.viol.set && !relevant()) { foreign++; if (foreigncls.empty()) foreigncls = R.viol.cls + ": " + R.viol.detail; if (foreign > 3000) break; continue; }
        if (R.viol.set) {
            viol = true;
            if (R.viol.cls == "harness") { fprintf(stderr, "simrt: harness error: %s (scenario %s seed %llu)\n", R.viol.detail.c_str(), s->name, (unsigned long long)k); return 4; }
            break;
        }
        if (runs % 250 == 1) { // determinism gate
            u64 h = R.hash; run_seed(s, k); detchk++;
            if (R.hash != h) { fprintf(stderr, "simrt: nondeterministic run: scenario %s seed %llu\n", s->name, (unsigned long long)k); return 4; }
        }
    }
    double wall = now_s() - t0;
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w"); if (!f) die("cannot write output");
        fprintf(f, "{\"scenario\":\"%s\",\"config\":\"%s\",\"seed0\":%llu,\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"simtime_s\":%.6f,\"wall_s\":%.3f,\"distinct\":%llu,\"weak_runs\":%llu,\"runs_reaching_fair_phase\":%llu,\"determinism_checks\":%llu,\"foreign\":%llu,\"foreign_first\":\"%s\",\"histories_checked\":%llu,\"histories_over_budget\":%llu,\"strategies\":{\"random\":%llu,\"pct\":%llu,\"delay\":%llu},\"faults\":{",
            s->name, cfgname.c_str(), (unsigned long long)seed, (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, simt, wall, (unsigned long long)nontriv, (unsigned long long)weakruns, (unsigned long long)fairruns, (unsigned long long)detchk, (unsigned long long)foreign, jesc(foreigncls).c_str(), (unsigned long long)lin_total, (unsigned long long)lin_capped, (unsigned long long)strat[0], (unsigned long long)strat[1], (unsigned long long)strat[2]);
        for (int i = 0; i < F_N; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", fault_name(i), (unsigned long long)fired[i]);
        fprintf(f, "},\"probes\":["); for (int i = 0; i < 64; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)probes[i]);
        fprintf(f, "],\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)samples[i]);
        fprintf(f, "],\"violation\":");
        if (viol) fprintf(f, "{\"seed\":%llu,\"class\":\"%s\",\"detail\":\"%s\"}", (unsigned long long)k, R.viol.cls.c_str(), jesc(R.viol.detail).c_str()); else fprintf(f, "null");
        fprintf(f, "}\n"); fclose(f);
        FILE* h = fopen((out + ".il").c_str(), "wb"); if (h) { for (u64 x : il) fwrite(&x, 8, 1, h); fclose(h); }
    }
    if (viol) {
        Rep r; r.scn = s->name; r.cls = R.viol.cls; r.detail = R.viol.detail; r.cfgname = cfgname; r.prop = prop; r.seed = k; r.cfg = R.cfg; r.plan = R.plan; r.ch = R.choices; 
        // confirm by choice replay
        R.plan = r.plan; R.cfg = r.cfg; std::vector<u8> ch = r.ch; R.trace = true; run_choices(s, ch); r.hash = R.hash; R.trace = false;
        bool same = R.viol.set && R.viol.cls == r.cls;
        if (!rep.empty()) save_rep(rep.c_str(), r, s, R.tracebuf, false);
        fprintf(stderr, "violation seed=%llu class=%s: %s%s\n", (unsigned long long)k, r.cls.c_str(), r.detail.c_str(), same ? "" : " (choice replay differs!)");
        if (!same) return 4;
        return 1;
    }
    return 0;
}
