# Regenerates /verif/MANIFEST.json (from sim/meta.py and properties.jsonl) and checks it against the schema when available
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sim.meta import META
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
PURE = 'a pure function of its argument: no schedule, clock, randomness, fault, crash point or history for a simulator to decide, so seeded schedule and fault search does not apply'
NA = {'C20': PURE + ' (what searches make of simplification is decided by C03 and C10)', 'C21': PURE + ' (that a search recognises equal kernels is decided by C03)',
      'C22': PURE + ' (that covariances follow the displayed parameters through any history is decided by C09)', 'C23': PURE + ' (that models are scored by the requested utility from their own fit is decided by C01 and C08)',
      'C24': PURE + ' (that predictions and quantiles come from the last successful fit is decided by C08)'}
NOTE = 'Seeded search over {what}; no violation in the runs explored, not a proof. Trusted: the simulator and its seams (sim/seams.py, sim/simpool.py), the reference models, CPython, numpy, GPy and paramz (which run for real where the evidence says so). {extra}'
checks = []
for p in props:
    i = p['id']
    if i not in META: assert i in NA, i; continue
    m = META[i]
    checks.append({'property': i, 'quick_cmd': f'python3 -m sim.check {i}', 'thorough_cmd': f'python3 -m sim.check {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
                   'technique': 'deterministic simulation with fault injection (seeded search over histories, schedules and faults)', 'level': 'exploration',
                   'level_note': NOTE.format(what = m['rule'].replace('; non-trivial', ' (non-trivial').replace('as C01', 'searches as for C01') + (')' if '; non-trivial' in m['rule'] else ''), extra = ' '.join(m.get('assumptions', []))).strip()})
M = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import GPy, numba, scipy" && (python3 -m sim.selftest --quick || echo the self-test of the simulator did not pass)', 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': NA[p['id']]} for p in props if p['id'] in NA],
     'notes': 'No hooks in /repo: all seams are third-party classes, the standard library\'s process pools, and the public model_list_fitter argument. Replay a violation with: python3 -m sim.replay FILE'}
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent = 1)
print(len(checks), 'checks')
