// Checks recorded histories against small sequential reference models (linearizability-style search).
#include "rt_int.h"
#include <unordered_set>

namespace {
struct St { u64 lin, reg; i64 v; };
struct Key { u64 a, b; bool operator==(const Key& o) const { return a == o.a && b == o.b; } };
struct KH { size_t operator()(const Key& k) const { return k.a ^ (k.b * 0x9E3779B97F4A7C15ull); } };
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

struct Lin {
    int model; std::vector<HOp*> o; u64 pred[64]; u64 mustreg[64]; u64 latearr[64]; u64 donemask; int n;
    std::unordered_set<Key, KH> memo; long nodes; bool capped;
    i64 bestn; 

    static bool bit(u64 m, int i) { return m >> i & 1; }
    static int pc(u64 m) { return __builtin_popcountll(m); }

    // is the blocking operation i able to complete in state s?
    bool could_complete(int i, const St& s) {
        HOp& p = *o[i];
        switch (model) {
        case M_MUTEX: return s.v == 0;
        case M_RW: return (p.kind == K_LOCK) ? s.v == 0 : (s.v >> 8) == 0;
        case M_SEM: return s.v > 0;
        case M_MRE: return s.v != 0;
        case M_ARE: return s.v > 0;
        }
        return false;
    }
    // apply op i in state s; returns false if not allowed. (single-step models)
    bool apply(int i, St& s) {
        HOp& p = *o[i];
        if (p.ex) { // threw: no effect, but a waiter may have been blocked (registered) until then
            if (model == M_ARE && bit(s.reg, i)) { if (s.v > pc(s.reg & ~(1ull << i))) return false; s.reg &= ~(1ull << i); }
            return true;
        }
        switch (model) {
        case M_MUTEX:
            switch (p.kind) {
            case K_LOCK: if (s.v) return false; s.v = p.tid + 1; return true;
            case K_TRYLOCK: case K_TIMEDLOCK:
                if (p.result) { if (s.v) return false; s.v = p.tid + 1; return true; }
                return s.v != 0;
            case K_UNLOCK: if (s.v != p.tid + 1) return false; s.v = 0; return true;
            }
            return false;
        case M_RW: {
            i64 w = s.v >> 8, r = s.v & 255;
            switch (p.kind) {
            case K_LOCK: if (s.v) return false; s.v = (i64)(p.tid + 1) << 8; return true;
            case K_TRYLOCK: if (p.result) { if (s.v) return false; s.v = (i64)(p.tid + 1) << 8; return true; } return s.v != 0;
            case K_UNLOCK: if (w != p.tid + 1) return false; s.v = 0; return true;
            case K_SLOCK: if (w) return false; s.v = r + 1; return true;
            case K_STRYLOCK: if (p.result) { if (w) return false; s.v = r + 1; return true; } return w != 0;
            case K_SUNLOCK: if (w || !r) return false; s.v = r - 1; return true;
            }
            return false; }
        case M_SEM:
            switch (p.kind) {
            case K_SPOST: s.v++; return true;
            case K_SWAIT: if (s.v <= 0) return false; s.v--; return true;
            case K_STRY: case K_STIMED: if (p.result) { if (s.v <= 0) return false; s.v--; return true; } return s.v == 0;
            }
            return false;
        case M_MRE:
            switch (p.kind) {
            case K_ESET: s.v = 1; return true;
            case K_ERESET: s.v = 0; return true;
            case K_EWAIT: return s.v != 0;
            case K_ETRY: case K_ETIMED: return p.result ? s.v != 0 : s.v == 0;
            }
            return false;
        case M_ARE:
            switch (p.kind) {
            case K_APOST: if (s.v <= pc(s.reg)) s.v++; return true;
            case K_AWAIT: if (s.v <= 0) return false; s.v--; s.reg &= ~(1ull << i); return true;
            case K_ATRY: case K_ATIMED:
                if (p.result) { if (s.v <= 0) return false; s.v--; s.reg &= ~(1ull << i); return true; }
                if (s.v > pc(s.reg & ~(1ull << i))) return false;
                s.reg &= ~(1ull << i); return true;
            }
            return false;
        }
        return false;
    }
    bool quiet_ok(int i, const St& s) {
        HOp& q = *o[i];
        for (int j = 0; j < n; j++) {
            if (j == i || o[j]->kind == K_QUIET) continue;
            if (o[j]->inv < q.inv && o[j]->res > q.inv) { // pending at quiescence
                if (bit(s.lin, j)) return false;
                if (model == M_CV) { if (o[j]->kind == K_CWAIT || o[j]->kind == K_CTIMED) if (bit(entered(s), j) && !bit(s.reg, j)) return false; }
                else if (could_complete(j, s)) return false;
            }
        }
        return true;
    }
    // CV: s.reg = blocked waiters, s.v = mask of waiters that entered
    static u64 entered(const St& s) { return (u64)s.v; }

    bool seen(const St& s) {
        Key k; k.a = mixh(mixh(mixh(1, s.lin), s.reg), (u64)s.v); k.b = mixh(mixh(mixh(77, (u64)s.v), s.lin), s.reg);
        return !memo.insert(k).second;
    }
    bool dfs(St s) {
        if ((s.lin & donemask) == donemask) return true;
        if (seen(s)) return false;
        if (++nodes > 150000) { capped = true; return true; }
        if (pc(s.lin) > bestn) bestn = pc(s.lin);
        for (int i = 0; i < n; i++) {
            if (bit(s.lin, i) || !bit(donemask, i)) continue;
            if ((pred[i] & ~s.lin) != 0) continue;
            HOp& p = *o[i];
            if (p.kind == K_QUIET) { if (quiet_ok(i, s)) { St t = s; t.lin |= 1ull << i; if (dfs(t)) return true; } continue; }
            if (model == M_CV) {
                if (p.ex && p.release < 0) { St t = s; t.lin |= 1ull << i; if (dfs(t)) return true; continue; }
                if (p.kind == K_CWAIT || p.kind == K_CTIMED) {
                    if (!bit(entered(s), i)) continue;
                    if (latearr[i] & ~s.lin) continue;   // timed out: may not leave before these notifications
                    St t = s; t.lin |= 1ull << i; t.reg &= ~(1ull << i); if (dfs(t)) return true; continue;
                }
                if (mustreg[i] & ~entered(s)) continue;
                if (p.kind == K_CNOTIFYALL) { 
                    bool bad = false; for (int j = 0; j < n; j++) if (bit(s.reg, j) && o[j]->done && !o[j]->ex && o[j]->kind == K_CTIMED && o[j]->result == 0) bad = true;
                    if (bad) continue;
                    St t = s; t.lin |= 1ull << i; t.reg = 0; if (dfs(t)) return true; continue; }
                // notify_one
                u64 cand = 0; for (int j = 0; j < n; j++) if (bit(s.reg, j) && !(o[j]->done && !o[j]->ex && o[j]->kind == K_CTIMED && o[j]->result == 0)) cand |= 1ull << j;
                if (!s.reg) { St t = s; t.lin |= 1ull << i; if (dfs(t)) return true; continue; }
                for (int j = 0; j < n; j++) if (bit(cand, j)) { St t = s; t.lin |= 1ull << i; t.reg &= ~(1ull << j); if (dfs(t)) return true; }
                continue;
            }
            if (model == M_ARE && (p.kind == K_APOST) && (mustreg[i] & ~(s.reg | s.lin))) continue;
            St t = s;
            if (apply(i, t)) { t.lin |= 1ull << i; if (dfs(t)) return true; }
        }
        // registration / entering events
        if (model == M_ARE || model == M_CV) for (int i = 0; i < n; i++) {
            HOp& p = *o[i];
            if (bit(s.lin, i) || (p.ex && model == M_CV && p.release < 0)) continue;
            bool waiter = model == M_ARE ? (p.kind == K_AWAIT || p.kind == K_ATIMED) : (p.kind == K_CWAIT || p.kind == K_CTIMED);
            if (!waiter || (pred[i] & ~s.lin) != 0) continue;
            if (model == M_ARE) { if (bit(s.reg, i)) continue; St t = s; t.reg |= 1ull << i; if (dfs(t)) return true; }
            else { if (bit(entered(s), i)) continue; if (!p.done && p.release < 0) continue; St t = s; t.reg |= 1ull << i; t.v |= (i64)(1ull << i); if (dfs(t)) return true; }
        }
        return false;
    }
};
const char* kname(int k) {
    static const char* s[] = {"?", "lock", "try_lock", "timed_lock", "unlock", "lock_shared", "try_lock_shared", "unlock_shared", "post", "wait", "try_wait", "timed_wait", "set", "reset", "wait", "try_wait", "timed_wait", "post", "wait", "try_wait", "timed_wait", "wait", "timed_wait", "notify_one", "notify_all", "quiescent"};
    return s[k];
}
}
u64 lin_capped, lin_total;

int lin_check(std::string& why, int objid) {
    static Lin* L = new Lin;
    L->o.clear(); L->memo.clear(); L->nodes = 0; L->capped = false; L->bestn = 0;
    L->model = R.objs[objid].model;
    if (R.objs[objid].skip) return 0;
    for (auto& p : R.ops) if (p.obj == objid || p.kind == K_QUIET) L->o.push_back(&p);
    int n = L->n = (int)L->o.size();
    if (n > 62) { lin_capped++; return 0; }
    lin_total++;
    L->donemask = 0;
    bool weak = R.cfg.weak;
    for (int i = 0; i < n; i++) {
        HOp& a = *L->o[i];
        if (a.done) L->donemask |= 1ull << i;
        L->pred[i] = 0; L->mustreg[i] = 0; L->latearr[i] = 0;
        for (int j = 0; j < n; j++) if (j != i) {
            HOp& b = *L->o[j];
            if (b.done) {
                bool before;
                if (!weak || a.kind == K_QUIET || b.kind == K_QUIET) before = b.res < a.inv;
                else before = b.res < a.inv && (b.tid == a.tid || a.ivc.c[b.tid] >= b.rvc.c[b.tid]);
                if (before) L->pred[i] |= 1ull << j;
            }
            if (L->model == M_ARE && !weak && a.kind == K_APOST && (b.kind == K_AWAIT || b.kind == K_ATIMED) && !b.ex && b.park >= 0 && b.park < a.inv && (b.unpark < 0 || a.inv < b.unpark)) L->mustreg[i] |= 1ull << j;
            if (L->model == M_CV && (a.kind == K_CNOTIFY1 || a.kind == K_CNOTIFYALL) && (b.kind == K_CWAIT || b.kind == K_CTIMED) && b.release >= 0 && b.release < a.inv) L->mustreg[i] |= 1ull << j;
            if (L->model == M_CV && a.kind == K_CTIMED && a.done && !a.ex && a.result == 0 && a.has_dl && !R.jumped && (b.kind == K_CNOTIFY1 || b.kind == K_CNOTIFYALL) && b.done && a.release >= 0 && a.release < b.inv) {
                i64 nominal = a.clock == 1 || a.relclk ? a.abs : a.abs - (a.inv_real - a.inv_mono);
                if (b.res_mono < nominal) L->latearr[i] |= 1ull << j;
            }
        }
    }
    St s; s.lin = 0; s.reg = 0; s.v = L->model == M_CV ? 0 : R.objs[objid].init;
    if (L->dfs(s)) { if (L->capped) lin_capped++; return 0; }
    why = "no sequential order of the recorded operations explains their results:";
    char b[160]; int shown = 0;
    for (int i = 0; i < n && shown < 40; i++) {
        HOp& p = *L->o[i];
        if (p.kind == K_QUIET) { snprintf(b, sizeof b, " [quiescent]"); }
        else if (p.done && p.ex) snprintf(b, sizeof b, " t%d:%s->threw", p.tid, kname(p.kind));
        else if (p.done) snprintf(b, sizeof b, " t%d:%s->%ld", p.tid, kname(p.kind), p.result);
        else snprintf(b, sizeof b, " t%d:%s->(blocked)", p.tid, kname(p.kind));
        why += b; shown++;
    }
    return 1;
}
