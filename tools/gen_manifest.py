#!/usr/bin/env python3
# Source of truth for MANIFEST.json (run: python3 tools/gen_manifest.py > MANIFEST.json)
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from jobs import PROPS, _P
NOTE = 'Seeded search over schedules, faults, timeouts and weak-memory outcomes of real library code in a single-process simulator; every violation is minimised and replayed in a fresh process before it is reported. Sampling: a clean run is evidence, not proof. Trusted: the simulated pthread/semaphore/futex/clock services and the oracle (see DESIGN.md).'
NA = {}
m = dict(version=1, setup_cmd='python3 check.py setup',
  hooks=dict(guard='none (no source hooks: the library is compiled with -fsanitize=thread instrumentation and its system calls are redirected at link time)', enable='check.py compiles /repo/include and /repo/src/tss_pthread.cpp as they are; nothing to enable', source_commits=[]),
  checks=[dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p, technique='deterministic simulation with fault injection (seeded schedule, fault and weak-memory search; %s)' % PROPS[p].get('oracle', 'history and invariant oracles'), level='exploration', level_note=NOTE) for p in sorted(PROPS)],
  not_applicable=[dict(property=p, reason=NA.get(p, 'scenario under construction')) for p in sorted(_P) if p not in PROPS])
json.dump(m, sys.stdout, indent=1); print()
