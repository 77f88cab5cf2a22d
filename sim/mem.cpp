// Memory: allocation arena, shadow memory (data races, use after free), atomics with a weak memory model.
#include "rt_int.h"
#include <sys/mman.h>
#include <new>
#include <errno.h>

// ---------------------------------------------------------------- arena
static const size_t ARENA = 8 << 20;
static const size_t GRAN = 8;
static char* arena; static size_t arena_top; static long live_allocs;
struct Acc { u32 clk; u8 mask; };
struct Shadow {
    u32 gen; u8 state;                  // state: 0 not allocated, 1 allocated, 2 freed
    signed char freed_by;
    Acc w[SIM_MAXT][2], r[SIM_MAXT][2]; // plain accesses
    u32 a[SIM_MAXT];                    // last atomic access clock (0 none)
    Loc* loc;
};
static Shadow* ash; static Shadow* msh; static size_t msh_n; static u32 gen = 1;

static std::vector<Loc*> locpool; static size_t nlocs;

static void init_once() {
    if (arena) return;
    arena = (char*)mmap((void*)0x10000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (arena == MAP_FAILED) { perror("mmap"); _exit(3); }
    ash = (Shadow*)mmap(0, sizeof(Shadow) * (ARENA / GRAN), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (MOD.rwlen) { msh_n = MOD.rwlen / GRAN + 2; msh = (Shadow*)mmap(0, sizeof(Shadow) * msh_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
}
void mem_reset() { init_once(); gen++; arena_top = 64; live_allocs = 0; nlocs = 0; }
bool arena_owns(const void* p) { return (char*)p >= arena && (char*)p < arena + ARENA && arena; }
long arena_live() { return live_allocs; }

static Shadow* shadow(const void* p) {
    char* c = (char*)p;
    Shadow* s;
    if (c >= arena && c < arena + ARENA) s = &ash[(c - arena) / GRAN];
    else if (c >= MOD.rw && c < MOD.rw + MOD.rwlen) s = &msh[(c - MOD.rw) / GRAN];
    else return 0;
    if (s->gen != gen) { memset((void*)s, 0, sizeof *s); s->gen = gen; }
    return s;
}

struct AHdr { size_t n; u32 magic; u32 freed; };
void* arena_alloc(size_t n) {
    size_t sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
    size_t need = sizeof(AHdr) + sz + 16;
    if (arena_top + need > ARENA) violation("harness", "arena exhausted");
    char* h = arena + arena_top; arena_top += need;
    AHdr* a = (AHdr*)h; a->n = sz; a->magic = 0x5eed; a->freed = 0;
    char* p = h + sizeof(AHdr);
    for (size_t i = 0; i < sz; i += GRAN) { Shadow* s = shadow(p + i); s->state = 1; }
    memset(p, 0xA5, sz);
    live_allocs++;
    return p;
}
static void race_range(const char* p, size_t n, bool write, bool isfree);
void arena_free(void* p) {
    if (!p) return;
    AHdr* a = (AHdr*)((char*)p - sizeof(AHdr));
    if (a->magic != 0x5eed) { if (R.active) violation("bad-free", "invalid pointer freed"); return; }
    if (a->freed) { if (R.active) violation("double-free", "memory block of %zu bytes freed twice", a->n); return; }
    if (R.active) race_range((char*)p, a->n, true, true);
    a->freed = 1; live_allocs--;
    for (size_t i = 0; i < a->n; i += GRAN) { Shadow* s = shadow((char*)p + i); s->state = 2; s->freed_by = (signed char)R.cur; if (s->loc) { s->loc = 0; } }
    sync_forget_range(p, a->n);
}

// ---------------------------------------------------------------- race detection
static bool hb(int t, u32 clk) { return CUR().vc.c[t] >= clk; }
static void report_race(const char* what, const void* p, int other) {
    violation("data-race", "%s: thread %d races with thread %d on %s memory", what, R.cur, other, arena_owns(p) ? "heap" : "global");
}
// A store after a release fence is ordered by coherence and the fence although it does not itself happen before the reader.
static bool observed_store(Shadow* s, int t) {
    for (Loc* l = s->loc; l; l = l->next) for (int i = l->floor[R.cur]; i >= 0; i--) { Store& st = l->st[i]; if (st.tid == t && st.clk == s->a[t]) return st.has_sync && hb(t, st.sync.c[t]); }
    return false;
}
static inline void check_gran(Shadow* s, const void* p, u8 mask, bool write, bool isfree) {
    int me = R.cur;
    if (!isfree && arena_owns(p)) {
        if (s->state == 2) violation("use-after-free", "thread %d %s memory already freed by thread %d", me, write ? "wrote" : "read", s->freed_by);
        if (s->state == 0) violation("out-of-bounds", "thread %d %s unallocated memory", me, write ? "wrote" : "read");
    }
    if (R.crowd) return;
    for (int t = 0; t < R.nf; t++) {
        if (t == me) continue;
        for (int k = 0; k < 2; k++) {
            Acc& w = s->w[t][k];
            if (w.clk && (w.mask & mask) && !hb(t, w.clk)) report_race(isfree ? "free vs earlier write" : write ? "write/write" : "read after unsynchronised write", p, t);
            if (write) { Acc& r = s->r[t][k]; if (r.clk && (r.mask & mask) && !hb(t, r.clk)) report_race(isfree ? "free vs earlier read" : "write after unsynchronised read", p, t); }
        }
        if (s->a[t] && !hb(t, s->a[t]) && write && !observed_store(s, t)) report_race(isfree ? "free vs concurrent atomic access" : "plain write vs atomic access", p, t);
    }
    Acc* e = write ? s->w[me] : s->r[me];
    u32 clk = CUR().vc.c[me];
    if (e[0].mask == mask) e[0].clk = clk;
    else if (e[1].mask == mask) e[1].clk = clk;
    else { int k = !e[0].clk ? 0 : !e[1].clk ? 1 : e[0].clk < e[1].clk ? 0 : 1; e[k].clk = clk; e[k].mask = mask; }
}
static void race_range(const char* p, size_t n, bool write, bool isfree) {
    while (n) {
        size_t off = (size_t)p & (GRAN - 1), len = GRAN - off; if (len > n) len = n;
        Shadow* s = shadow(p);
        if (s) {
            u8 mask = (u8)(((1u << len) - 1) << off);
            check_gran(s, p, mask, write, isfree);
            if (write && s->loc) { // plain (re)initialisation of an atomic object
                Loc** pl = &s->loc;
                while (*pl) { const char* a = (const char*)(*pl)->addr; if (a < p + len && p < a + (*pl)->size) *pl = (*pl)->next; else pl = &(*pl)->next; }
            }
        }
        p += len; n -= len;
    }
}
void mem_access(const void* p, size_t n, bool write) {
    if (!R.active) return;
    char* c = (char*)p;
    if (!((c >= arena && c < arena + ARENA) || (c >= MOD.rw && c < MOD.rw + MOD.rwlen))) {
        if (c < (char*)4096) violation("null-deref", "thread %d accessed address %p", R.cur, p);
        return;
    }
    race_range((const char*)p, n, write, false);
}

void obj_check(const void* p, const char* what) {
    if (!R.active) return;
    if (arena_owns(p)) { Shadow* s = shadow(p); if (s->state == 2) violation("use-after-free", "thread %d called %s on an object whose memory was already freed by thread %d", R.cur, what, s->freed_by); if (s->state == 0) violation("out-of-bounds", "%s on unallocated memory", what); }
    else if ((char*)p < (char*)4096) violation("null-deref", "%s on %p", what, p);
}
// ---------------------------------------------------------------- atomics
static Loc* get_loc(const void* p, int size) {
    Shadow* s = shadow(p);
    if (s) for (Loc* l = s->loc; l; l = l->next) if (l->addr == p) return l;
    // not in shadow-covered memory or new: linear lookup for uncovered addresses
    if (!s) for (size_t i = 0; i < nlocs; i++) if (locpool[i]->addr == p) return locpool[i];
    if (nlocs == locpool.size()) locpool.push_back(new Loc());
    Loc* l = locpool[nlocs]; l->id = (int)nlocs; nlocs++;
    l->addr = p; l->size = size; l->st.clear(); memset(l->floor, 0, sizeof l->floor);
    Store st; st.val = 0; memcpy(&st.val, p, size); st.has_sync = false; st.sync.clear(); st.tid = -1; st.clk = 0;
    l->st.push_back(st);
    l->next = 0;
    if (s) { l->next = s->loc; s->loc = l; }
    return l;
}
static void touch_atomic(const void* p, int size, bool write) {
    Shadow* s = shadow(p); if (!s) { if ((char*)p < (char*)4096) violation("null-deref", "atomic access to %p", p); return; }
    int me = R.cur; u8 mask = (u8)(((1u << size) - 1) << ((size_t)p & 7));
    if (size == 8) mask = 0xff;
    if (arena_owns(p)) {
        if (s->state == 2) violation("use-after-free", "thread %d performed an atomic operation on memory already freed by thread %d", me, s->freed_by);
        if (s->state == 0) violation("out-of-bounds", "thread %d performed an atomic operation on unallocated memory", me);
    }
    if (R.crowd) return;
    for (int t = 0; t < R.nf; t++) if (t != me) for (int k = 0; k < 2; k++) {
        Acc& w = s->w[t][k]; if (w.clk && (w.mask & mask) && !hb(t, w.clk)) report_race("atomic access vs unsynchronised plain write", p, t);
        if (write) { Acc& r = s->r[t][k]; if (r.clk && (r.mask & mask) && !hb(t, r.clk)) report_race("atomic write vs unsynchronised plain read", p, t); }
    }
    s->a[me] = CUR().vc.c[me];
}
// the kernel read the newest value on behalf of this thread: coherence forbids older values from here on
void mem_observe(const void* p, int size) { Loc* l = get_loc(p, size); l->floor[ci(R.cur)] = (int)l->st.size() - 1; }
enum { MO_RLX = 0, MO_CONSUME, MO_ACQ, MO_REL, MO_AR, MO_SC };
static bool is_acq(int m) { return m == MO_CONSUME || m == MO_ACQ || m == MO_AR || m == MO_SC; }
static bool is_rel(int m) { return m == MO_REL || m == MO_AR || m == MO_SC; }
static void sync_read(Fiber& f, const Store& s, int mo) {
    if (!s.has_sync) return;
    f.acq_pend.join(s.sync);
    if (is_acq(mo)) f.vc.join(s.sync);
}
static void push_store(Loc* l, u64 v, int mo, const Store* rmw_from) {
    Fiber& f = CUR(); Store s; s.val = v; s.sync.clear(); s.has_sync = false; s.tid = (signed char)ci(f.id); s.clk = f.vc.c[ci(f.id)];
    if (is_rel(mo)) { s.sync = f.vc; s.has_sync = true; }
    else if (f.has_rel_fence) { s.sync = f.rel_fence; s.has_sync = true; }
    if (rmw_from && rmw_from->has_sync) { s.sync.join(rmw_from->sync); s.has_sync = true; }
    bool changed = l->st.back().val != v;
    l->st.push_back(s);
    l->floor[ci(f.id)] = (int)l->st.size() - 1;
    vc_tick(f);
    if (changed) progress();
    memcpy((void*)l->addr, &v, l->size);
    if (l->st.size() > 512) { // loads look back at most a few stores: forget the oldest ones
        int drop = (int)l->st.size() - 64; l->st.erase(l->st.begin(), l->st.begin() + drop);
        for (int t = 0; t < SIM_MAXT; t++) l->floor[t] = l->floor[t] > drop ? l->floor[t] - drop : 0;
    }
}
static u64 a_load(const void* p, int size, int mo) {
    if (!R.active) { u64 v = 0; memcpy(&v, p, size); return v; }
    point(1, p);
    touch_atomic(p, size, false);
    Loc* l = get_loc(p, size); Fiber& f = CUR();
    int last = (int)l->st.size() - 1, idx = last;
    if (R.cfg.weak && mo != MO_SC && !R.fair && last > 0) {
        int lo = l->floor[ci(f.id)];
        for (int i = last; i > lo; i--) { Store& s = l->st[i]; if (s.tid < 0 || f.vc.c[(int)s.tid] >= s.clk) { lo = i; break; } }
        if (lo < last && fault(F_STALE)) { int n = last - lo; if (n > 6) n = 6; idx = last - 1 - (int)choose(n, F_STALE); }
    }
    l->floor[ci(f.id)] = idx;
    sync_read(f, l->st[idx], mo);
    u64 v = l->st[idx].val;
    hmix(v * 3 + 1);
    TR("load%d loc%d -> %llx%s mo=%d", size * 8, l->id, (unsigned long long)v, idx != last ? " (stale)" : "", mo);
    return v;
}
static void a_store(void* p, int size, u64 v, int mo) {
    if (!R.active) { memcpy(p, &v, size); return; }
    point(2, p);
    touch_atomic(p, size, true);
    Loc* l = get_loc(p, size);
    if (size < 8) v &= (1ull << (size * 8)) - 1;
    push_store(l, v, mo, 0);
    TR("store%d loc%d <- %llx mo=%d", size * 8, l->id, (unsigned long long)v, mo);
}
template<class F> static u64 a_rmw(void* p, int size, int mo, F fn) {
    u64 mask = size == 8 ? ~0ull : (1ull << (size * 8)) - 1;
    if (!R.active) { u64 v = 0; memcpy(&v, p, size); u64 n = fn(v) & mask; memcpy(p, &n, size); return v; }
    point(3, p);
    touch_atomic(p, size, true);
    Loc* l = get_loc(p, size); Fiber& f = CUR();
    Store old = l->st.back();
    sync_read(f, old, mo);
    u64 n = fn(old.val) & mask;
    push_store(l, n, mo, &old);
    hmix(old.val * 5 + 2);
    TR("rmw%d loc%d %llx -> %llx mo=%d", size * 8, l->id, (unsigned long long)old.val, (unsigned long long)n, mo);
    return old.val;
}
static bool a_cas(void* p, int size, void* exp, u64 des, int mo, int fmo, bool weak) {
    u64 mask = size == 8 ? ~0ull : (1ull << (size * 8)) - 1;
    u64 e = 0; memcpy(&e, exp, size); des &= mask;
    if (!R.active) { u64 v = 0; memcpy(&v, p, size); if (v == e) { memcpy(p, &des, size); return true; } memcpy(exp, &v, size); return false; }
    point(4, p);
    touch_atomic(p, size, true);
    Loc* l = get_loc(p, size); Fiber& f = CUR();
    Store old = l->st.back();
    l->floor[ci(f.id)] = (int)l->st.size() - 1;
    hmix(old.val * 7 + 3);
    if (old.val == e && !(weak && fault(F_WEAKCAS))) {
        sync_read(f, old, mo);
        push_store(l, des, mo, &old);
        TR("cas%d loc%d %llx -> %llx mo=%d", size * 8, l->id, (unsigned long long)e, (unsigned long long)des, mo);
        return true;
    }
    sync_read(f, old, fmo);
    memcpy(exp, &old.val, size);
    TR("cas%d loc%d failed (expected %llx, is %llx)", size * 8, l->id, (unsigned long long)e, (unsigned long long)old.val);
    return false;
}
static void a_fence(int mo) {
    if (!R.active) return;
    point(5, 0);
    Fiber& f = CUR();
    if (is_acq(mo)) f.vc.join(f.acq_pend);
    if (mo == MO_SC) { // sequentially consistent fence: all stores so far become the floor for this thread
        for (size_t i = 0; i < nlocs; i++) locpool[i]->floor[ci(f.id)] = (int)locpool[i]->st.size() - 1;
    }
    if (is_rel(mo)) { f.rel_fence = f.vc; f.has_rel_fence = true; vc_tick(f); }
    TR("fence mo=%d", mo);
}

extern "C" {
#define DEF(N, T) \
 T __tsan_atomic##N##_load(const volatile T* p, int mo) { return (T)a_load((const void*)p, N / 8, mo); } \
 void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { a_store((void*)p, N / 8, (u64)v, mo); } \
 T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return (T)a_rmw((void*)p, N / 8, mo, [&](u64) { return (u64)v; }); } \
 T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return (T)a_rmw((void*)p, N / 8, mo, [&](u64 o) { return o + (u64)v; }); } \
 T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return (T)a_rmw((void*)p, N / 8, mo, [&](u64 o) { return o - (u64)v; }); } \
 T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return (T)a_rmw((void*)p, N / 8, mo, [&](u64 o) { return o & (u64)v; }); } \
 T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return (T)a_rmw((void*)p, N / 8, mo, [&](u64 o) { return o | (u64)v; }); } \
 T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return (T)a_rmw((void*)p, N / 8, mo, [&](u64 o) { return o ^ (u64)v; }); } \
 T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return (T)a_rmw((void*)p, N / 8, mo, [&](u64 o) { return ~(o & (u64)v); }); } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas((void*)p, N / 8, (void*)e, (u64)d, mo, fmo, false); } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas((void*)p, N / 8, (void*)e, (u64)d, mo, fmo, true); } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { a_cas((void*)p, N / 8, (void*)&e, (u64)d, mo, fmo, false); return e; }
DEF(8, u8) DEF(16, uint16_t) DEF(32, u32) DEF(64, u64)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(N) \
 void __tsan_read##N(void* p) { mem_access(p, N, false); } \
 void __tsan_write##N(void* p) { mem_access(p, N, true); } \
 void __tsan_unaligned_read##N(void* p) { mem_access(p, N, false); } \
 void __tsan_unaligned_write##N(void* p) { mem_access(p, N, true); } \
 void __tsan_volatile_read##N(void* p) { mem_access(p, N, false); } \
 void __tsan_volatile_write##N(void* p) { mem_access(p, N, true); } \
 void __tsan_unaligned_volatile_read##N(void* p) { mem_access(p, N, false); } \
 void __tsan_unaligned_volatile_write##N(void* p) { mem_access(p, N, true); } \
 void __tsan_read##N##_pc(void* p, void*) { mem_access(p, N, false); } \
 void __tsan_write##N##_pc(void* p, void*) { mem_access(p, N, true); } \
 void __tsan_read_write##N(void* p) { mem_access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { mem_access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { mem_access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { mem_access(p, 8, true); }
void __tsan_vptr_read(void** p) { mem_access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { mem_access(s, n, false); mem_access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { mem_access(s, n, false); mem_access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { mem_access(d, n, true); return memset(d, c, n); }

// redirected from the code under test
void* sim_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
static void* cut_new(size_t n, bool nothrow) {
    if (!R.active) { void* p = malloc(n ? n : 1); return p; }
    if (fault(F_ALLOC)) { if (nothrow) return 0; throw std::bad_alloc(); }
    return arena_alloc(n);
}
void* sim_Znwm(size_t n) { return cut_new(n, false); }
void* sim_Znam(size_t n) { return cut_new(n, false); }
void* sim_ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) { return cut_new(n, true); }
void* sim_ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t&) { return cut_new(n, true); }
void* sim_ZnwmSt11align_val_t(size_t n, std::align_val_t) { return cut_new(n, false); }
void* sim_malloc(size_t n) { return cut_new(n, true); }
void* sim_calloc(size_t a, size_t b) { void* p = cut_new(a * b, true); if (p) memset(p, 0, a * b); return p; }
void sim_free(void* p) { if (arena_owns(p)) arena_free(p); else free(p); }
}
// global delete: arena-aware (libstdc++ may free what the CUT allocated and vice versa)
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (arena_owns(p)) arena_free(p); else free(p); }
void operator delete[](void* p) noexcept { if (arena_owns(p)) arena_free(p); else free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
