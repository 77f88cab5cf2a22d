#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--secs N]   decide one property by simulated runs
   check.py setup                                            build the simulator and the scenario libraries
   check.py replay <file> [--trace]                          rebuild and replay a saved violation
Seeds derive from VERIF_SEED (default 1)."""
import os, sys, json, time, hashlib, subprocess, threading, queue, shutil, struct, re
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build'); SIM = os.path.join(HERE, 'sim')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from jobs import PROPS, CONFIGS, SOURCES, COMPONENTS, FAULTDOC
NCPU = max(1, min(16, os.cpu_count() or 1))

def log(*a): print(*a, flush=True)
def run(cmd, timeout=600): 
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''))

# ---------------------------------------------------------------- build
_tree = None
def tree_hash():
    """content of everything the scenario libraries are made from (the whole library tree plus the simulator)"""
    global _tree
    if _tree: return _tree
    h = hashlib.sha256()
    for root in (REPO + '/include', REPO + '/src', SIM, HERE + '/tools'):
        for d, dn, fn in os.walk(root):
            dn.sort()
            if '__pycache__' in d: continue
            for f in sorted(fn):
                p = os.path.join(d, f); h.update(p.encode()); h.update(b'\0')
                try: h.update(hashlib.sha256(open(p, 'rb').read()).digest())
                except OSError: pass
    _tree = h.hexdigest()[:16]; return _tree
def rt_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SIM)):
        p = os.path.join(SIM, f)
        if os.path.isfile(p): h.update(f.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
def build_rt():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'simrt-' + rt_hash())
    if os.path.exists(out): return out
    srcs = [os.path.join(SIM, x) for x in ('core.cpp', 'mem.cpp', 'sync.cpp', 'lin.cpp', 'main.cpp')]
    tmp = '%s.tmp%d' % (out, os.getpid())
    objs = []; ps = []
    for s in srcs:
        o = '%s.%s.o' % (tmp, os.path.basename(s)); objs.append(o)
        ps.append(subprocess.Popen(['g++', '-std=c++17', '-O2', '-g', '-c', s, '-o', o]))
    if any(p.wait() for p in ps): raise SystemExit(fail('simulator does not build'))
    r = run(['g++', '-rdynamic', '-o', tmp] + objs + ['-ldl'])
    for o in objs:
        if os.path.exists(o): os.unlink(o)
    if r.returncode: log(r.stdout); raise SystemExit(fail('simulator does not link'))
    os.rename(tmp, out); return out
def fail(msg): log('ERROR: ' + msg); return 2

def so_path(src, cfg): return os.path.join(BUILD, tree_hash(), '%s.%s.so' % (src, cfg))
def build_so(src, cfg):
    """returns (path, None) or (None, compiler output)"""
    out = so_path(src, cfg)
    if os.path.exists(out): return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cxx, opts = CONFIGS[cfg]
    files = [os.path.join(SIM, 'cut', src + '.cpp')] + [os.path.join(REPO, x) for x in SOURCES[src]]
    tmp = '%s.tmp%d' % (out, os.getpid()); objs = []
    procs = []
    for i, f in enumerate(files):
        o = '%s.%d.o' % (tmp, i); objs.append(o)
        cmd = [cxx, '-std=c++17', '-g1', '-fPIC', '-fsanitize=thread', '-U_FORTIFY_SOURCE', '-w', '-include', os.path.join(SIM, 'cut', 'prelude.hpp'), '-I' + REPO + '/include'] + opts + ['-c', f, '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
    err = ''
    for cmd, p in procs:
        t, _ = p.communicate()
        if p.returncode: err += ' '.join(cmd) + '\n' + t
    if not err:
        for o in objs:
            r = run(['objcopy', '--redefine-syms=' + os.path.join(HERE, 'tools', 'redirect.txt'), o])
            if r.returncode: err += r.stdout
    if not err:
        r = run(['g++', '-shared', '-o', tmp] + objs + ['-Wl,-z,now'])
        if r.returncode: err += r.stdout
    for o in objs:
        if os.path.exists(o): os.unlink(o)
    if err: return None, err
    os.rename(tmp, out); return out, None

def pmap(fn, items, n=NCPU):
    res = [None] * len(items); it = iter(range(len(items))); lock = threading.Lock()
    def w():
        while True:
            with lock:
                i = next(it, None)
            if i is None: return
            try: res[i] = fn(items[i])
            except BaseException as e: res[i] = e
    ts = [threading.Thread(target=w) for _ in range(min(n, max(1, len(items))))]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res
def prune():
    """keep only the libraries of the newest few trees"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch('[0-9a-f]{16}', d)]
        for d in sorted(ds, key=os.path.getmtime)[:-6]: shutil.rmtree(d, ignore_errors=True)
    except OSError: pass
MUST_COMPILE = ('linux', 'stdsyserr')
def build_all(pairs):
    rt = build_rt()
    res = pmap(lambda p: build_so(*p), pairs)
    libs = {}; skipped = []; broken = []
    for p, r in zip(pairs, res):
        if isinstance(r, BaseException): raise r
        if r[0]: libs[p] = r[0]
        elif p[1] in MUST_COMPILE: log(r[1][-3000:]); broken.append((p[0], p[1], r[1]))
        else:
            skipped.append({'scenario_source': p[0], 'config': p[1], 'reason': 'does not compile', 'output': r[1][-400:]})
            log('NOTE: %s does not compile in configuration %s; skipped' % p)
    return rt, libs, skipped, broken

# ---------------------------------------------------------------- one property
def known_findings(prop):
    res = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'KNOWN-FINDING: property=(\S+) scenario=(\S+) config=(\S+) class=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == prop: res.append(m.groups())
    except OSError: pass
    return res

def write_evidence(prop, ev):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    os.rename(p + '.tmp', p)

def check(prop, tier, secs):
    t0 = time.time(); P = PROPS[prop]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = [j for j in P['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
    pairs = sorted(set((j['src'], j['cfg']) for j in jobs))
    log('property %s: %s' % (prop, P['title'])); log('VERIF_SEED=%d tier=%s workers=%d' % (seed, tier, NCPU))
    rt, libs, skipped, broken = build_all(pairs)
    prune()
    if broken:   # a user of the public interface no longer compiles: there is no behaviour to simulate
        src, cfg, out = broken[0]
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        final = os.path.join(HERE, 'evidence', 'replay', '%s.%s.%s.compile' % (prop, src, cfg))
        with open(final, 'w') as f: f.write('simrt-compile\nsource %s\nconfig %s\nend\n%s' % (src, cfg, out))
        rep = (dict(scn=src, cfg=cfg), final, {'seed': 0, 'class': 'does-not-compile', 'detail': 'code using the public interface does not compile'}, '')
        write_evidence(prop, evidence(prop, P, tier, seed, [], [], skipped, rep, [], time.time() - t0, []))
        log('scenario source %s, configuration %s: does not compile against /repo' % (src, cfg)); log('VIOLATION property=%s replay=%s' % (prop, final)); return 1
    jobs = [j for j in jobs if (j['src'], j['cfg']) in libs]
    log('built %d scenario libraries in %.1f s' % (len(libs), time.time() - t0))
    if not secs: secs = P.get('quick_s', 40) if tier == 'quick' else P.get('thorough_s', 900)
    tmp = os.path.join(BUILD, 'run.%s.%d' % (prop, os.getpid())); os.makedirs(tmp, exist_ok=True)
    repdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(repdir, exist_ok=True)
    # seeded search: job j, slice s explores seeds starting at a value derived from VERIF_SEED, j and s
    tot = sum(j.get('weight', 1) for j in jobs); budget = secs * NCPU
    slices = []
    for n, j in enumerate(jobs):
        share = budget * j.get('weight', 1) / tot; ns = max(1, int(round(share / (4.0 if tier == 'quick' else 30.0))))
        for s in range(ns): slices.append((s / ns, n, s, share / ns))
    slices.sort()
    stats = []; stop = threading.Event(); viol = []; errs = []; lock = threading.Lock()
    known = known_findings(prop); knownhit = {}
    def work(sl):
        if stop.is_set(): return
        _, n, s, dur = sl; j = jobs[n]
        key = '%s|%s|%s|%d|%d' % (prop, j['cfg'], j['scn'], seed, s)
        seed0 = int.from_bytes(hashlib.sha256(key.encode()).digest()[:6], 'big')
        out = os.path.join(tmp, '%d.%d.json' % (n, s)); rep = os.path.join(tmp, '%d.%d.replay' % (n, s))
        cmd = [rt, 'search', '--so', libs[(j['src'], j['cfg'])], '--scn', j['scn'], '--seed', str(seed0), '--secs', '%.2f' % dur, '--out', out, '--replay', rep, '--config', j['cfg'], '--prop', prop]
        if j.get('only'): cmd += ['--only', ','.join(j['only'])]
        if j.get('exclude'): cmd += ['--exclude', ','.join(j['exclude'])]
        if j.get('interruption'): cmd += ['--interruption']
        for attempt in range(2):
            r = run(cmd, timeout=dur * 4 + 120)
            if r.returncode in (0, 1): break
        with lock:
            if os.path.exists(out):
                d = json.load(open(out)); d['job'] = n
                try: d['il'] = open(out + '.il', 'rb').read()
                except OSError: d['il'] = b''
                stats.append(d)
            if r.returncode == 1:
                v = d['violation']
                for k in known:
                    if k[1] in (j['scn'], '*') and k[2] in (j['cfg'], '*') and k[3] == v['class'] and re.search(k[4], v['detail']): knownhit[k[5]] = knownhit.get(k[5], 0) + 1; return
                viol.append((n, rep, v)); stop.set()
            elif r.returncode != 0:
                errs.append('scenario %s config %s seed %d: exit %d: %s' % (j['scn'], j['cfg'], seed0, r.returncode, r.stdout[-400:])); stop.set() if len(errs) > 5 else None
    pmap(work, slices)
    reported = None
    for n, rep, v in viol:
        j = jobs[n]; so = libs[(j['src'], j['cfg'])]
        final = os.path.join(repdir, '%s.%s.%s.replay' % (prop, j['scn'], j['cfg']))
        r = run([rt, 'minimise', '--so', so, '--replay', rep, '--out', final, '--secs', '20'], timeout=150)
        if r.returncode: shutil.copy(rep, final)
        r = run([rt, 'replay', '--so', so, '--replay', final], timeout=120)   # a fresh process must reproduce it exactly
        if r.returncode or 'exact' not in r.stdout:
            shutil.copy(rep, final); r = run([rt, 'replay', '--so', so, '--replay', final], timeout=120)
        if r.returncode or 'exact' not in r.stdout:
            errs.append('violation of %s in %s/%s does not replay: %s' % (prop, j['scn'], j['cfg'], r.stdout[-300:])); continue
        reported = (j, final, v, r.stdout); break
    # ------------------------------------------------------------ evidence
    ev = evidence(prop, P, tier, seed, jobs, stats, skipped, reported, errs, time.time() - t0, viol)
    write_evidence(prop, ev)
    shutil.rmtree(tmp, ignore_errors=True)
    c = ev['coverage']
    log('%d simulated runs, %d distinct interleavings, %.0f s simulated time, faults %s' % (c['evaluations'], c['distinct_nontrivial'], c['simulated_time_s'], json.dumps({k: v for k, v in c['faults_injected'].items() if v})))
    for k, n in knownhit.items(): log('KNOWN-FINDING: property=%s %s' % (prop, k))
    if reported:
        j, final, v, txt = reported
        log('scenario %s, configuration %s, seed %d' % (j['scn'], j['cfg'], v['seed']))
        log(txt.strip()); log('VIOLATION property=%s replay=%s' % (prop, final)); return 1
    if errs:
        for e in errs[:5]: log('ERROR: ' + e)
        return 2
    log('property %s held on everything explored' % prop); return 0

def evidence(prop, P, tier, seed, jobs, stats, skipped, reported, errs, wall, viol):
    il = {}; per = {}; faults = {}; probes = {}
    for d in stats:
        k = (d['scenario'], d['config']); e = per.setdefault(k, dict(runs=0, steps=0, wall_s=0.0, distinct=set(), seeds=[], weak_runs=0, fair=0, switches=0, sim=0.0, hist=0, over=0, det=0, foreign=0, samples=[], strat={}))
        e['runs'] += d['runs']; e['steps'] += d['steps']; e['wall_s'] += d['wall_s']; e['switches'] += d['switches']; e['weak_runs'] += d['weak_runs']; e['fair'] += d['runs_reaching_fair_phase']; e['sim'] += d['simtime_s']; e['hist'] += d['histories_checked']; e['over'] += d['histories_over_budget']; e['det'] += d['determinism_checks']; e['foreign'] += d['foreign']
        e['distinct'].update(x[0] for x in struct.iter_unpack('<Q', d['il'])); e['seeds'].append([d['seed0'], d['seed0'] + d['runs'] - 1]); e['samples'] += d['samples'][:1]
        for s, n in d['strategies'].items(): e['strat'][s] = e['strat'].get(s, 0) + n
        for f, n in d['faults'].items(): faults[f] = faults.get(f, 0) + n
    runs = sum(e['runs'] for e in per.values()); cpu = sum(e['wall_s'] for e in per.values())
    samples = []
    for (s, c), e in sorted(per.items()):
        if e['samples']: samples.append({'scenario': s, 'configuration': c, 'seed': e['samples'][0], 'rerun': 'simrt search --so <%s library> --scn %s --seed %d --count 1 --trace' % (c, s, e['samples'][0])})
    strat = {}
    for e in per.values():
        for s, n in e['strat'].items(): strat[s] = strat.get(s, 0) + n
    cov = dict(
        evaluations=runs, distinct_nontrivial=sum(len(e['distinct']) for e in per.values()),
        rule='One evaluation is one simulated run: a workload (threads, operations, arguments), a fault mix and a scheduling strategy are generated from one 64-bit seed and executed against the real library code. A run is non-trivial if at least one preemption or fault actually fired in it; two runs are distinct if their sequences of (thread, synchronisation operation, fault decision) hash differently (64-bit hash, counted per scenario and configuration).',
        samples=samples[:12], simulated_time_s=round(sum(e['sim'] for e in per.values()), 3), scheduling_steps=sum(e['steps'] for e in per.values()), context_switches=sum(e['switches'] for e in per.values()),
        runs_per_hour=int(runs / max(wall, 1e-3) * 3600), seeds_per_hour=int(runs / max(wall, 1e-3) * 3600), search_cpu_s=round(cpu, 1),
        faults_injected=faults, fault_meaning=FAULTDOC, runs_with_weak_memory=sum(e['weak_runs'] for e in per.values()), runs_reaching_fair_phase=sum(e['fair'] for e in per.values()),
        histories_checked=sum(e['hist'] for e in per.values()), histories_over_budget=sum(e['over'] for e in per.values()), determinism_double_runs=sum(e['det'] for e in per.values()),
        scheduling_strategies=strat, violations_of_other_properties_seen=sum(e['foreign'] for e in per.values()),
        per_scenario=[dict(scenario=s, configuration=c, runs=e['runs'], distinct=len(e['distinct']), seeds=sorted(e['seeds'])[:6], foreign=e['foreign']) for (s, c), e in sorted(per.items())],
        skipped_configurations=skipped, components=COMPONENTS, errors=errs[:5])
    if reported: cov['violation'] = dict(scenario=reported[0]['scn'], configuration=reported[0]['cfg'], seed=reported[2]['seed'], cls=reported[2]['class'], detail=reported[2]['detail'], replay=reported[1])
    return dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(wall, 2), violations=1 if reported else 0,
        assumptions=['pthread, semaphore, futex, clock and allocation services behave as the simulated ones do (POSIX semantics, FIFO or arbitrary wake order, any allowed spurious wakeup)',
                     'memory model: happens-before with stale reads; no load buffering (out-of-thin-air) behaviours',
                     'sampling: a clean batch is evidence, not proof'])

def replay(path, trace):
    h = dict(l.split(' ', 1) for l in open(path).read().split('\nend')[0].split('\n')[1:] if ' ' in l)
    if 'source' in h:
        so, err = build_so(h['source'].strip(), h['config'].strip()); log(err[-3000:] if err else 'compiles'); return 1 if err else 0
    scn = h['scenario'].strip(); cfg = h['config'].strip()
    src = next(j['src'] for P in PROPS.values() for j in P['jobs'] if j['scn'] == scn)
    rt, libs, sk, br = build_all([(src, cfg)])
    if (src, cfg) not in libs: return fail('%s does not compile in configuration %s' % (src, cfg))
    r = run([rt, 'replay', '--so', libs[(src, cfg)], '--replay', path] + (['--trace'] if trace else [])); log(r.stdout)
    return r.returncode

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'setup':
        rt, libs, sk, br = build_all(sorted(set((j['src'], j['cfg']) for P in PROPS.values() for j in P['jobs']))); log('ready: %s, %d scenario libraries' % (rt, len(libs))); return 0
    if a[0] == 'replay': return replay(a[1], '--trace' in a)
    tier = os.environ.get('VERIF_TIER', 'quick'); secs = None
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--secs' in a: secs = float(a[a.index('--secs') + 1])
    if a[0] not in PROPS: return fail('unknown property ' + a[0])
    return check(a[0], tier, secs)
if __name__ == '__main__':
    try: rc = main()
    except SystemExit as e: rc = e.code
    sys.stdout.flush(); sys.exit(rc)
