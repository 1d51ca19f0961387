'''Check one property: python3 -m sim.check PROP [--tier quick|thorough] [--budget S]

Starts worker interpreters (one per environment: string hash seed, JIT or not, configuration), each of which executes simulated
runs until the time budget or the run cap is used up; confirms, minimises and reports the first violation; writes the evidence.'''
import argparse, importlib, json, os, selectors, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
sys.path.insert(0, VERIF)
from sim.core import h64
from sim.boot import environment, REPO
from sim.meta import META
from sim.shrink import minimise


class Proc:
    def __init__(self, mode, arg, scratch):
        env = environment(arg['env']['hashseed'], arg['env'].get('jit'))
        env.update(SIM_SCRATCH = scratch, VERIF_REPO = REPO, PYTHONPATH = VERIF, TMPDIR = scratch)
        self.arg = arg
        self.err = open(os.path.join(scratch, f'err-{id(self)}'), 'w+')
        self.p = subprocess.Popen([PY, '-m', 'sim.runner', mode, json.dumps(arg)], stdin = subprocess.PIPE, stdout = subprocess.PIPE, stderr = self.err, cwd = VERIF, env = env, start_new_session = True)
        os.set_blocking(self.p.stdout.fileno(), mode == 'serve')
        self.buf = b''
    def lines(self):
        '''Complete lines available now; None at the end'''
        try: b = os.read(self.p.stdout.fileno(), 1 << 20)
        except BlockingIOError: return []
        if not b: return None
        self.buf += b
        *ls, self.buf = self.buf.split(b'\n')
        return [json.loads(l) for l in ls]
    def ask(self, plan, limit = 150):
        self.p.stdin.write(json.dumps({'plan': plan, 'limit': limit}).encode() + b'\n'); self.p.stdin.flush()
        while True:
            l = self.p.stdout.readline()
            if not l: raise RuntimeError('the replaying process ended: ' + self.errors())
            d = json.loads(l)
            if 'ready' not in d: return d
    def errors(self):
        self.err.seek(0)
        return self.err.read()[-3000:]
    def stop(self):
        if self.p.poll() is None:
            try: os.killpg(self.p.pid, 9)
            except ProcessLookupError: pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try: f.close()
            except Exception: pass


def server(plan, scratch): return Proc('serve', {'prop': plan['prop'], 'env': plan['env'], 'scratch': scratch}, scratch)

def helpers(hashseeds, scratch): return [Proc('helper', {'env': {'hashseed': h}, 'scratch': scratch}, scratch) for h in hashseeds]


def environments(prop, seed, tier, n):
    meta = META[prop]
    hs = [h64('helper', prop, seed, i) % 4294967295 for i in range(meta.get('helpers', 0))]
    out = []
    for w in range(n):
        e = {'hashseed': h64('hash', prop, seed, w) % 4294967295, 'jit': w >= n - meta.get('jit', 0)}
        cfgs = meta.get('configs')
        if cfgs: e['config'] = cfgs[w % len(cfgs)]
        if hs: e['helpers'] = hs
        out.append(e)
    return out, hs


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    return [k for k in json.load(open(path))['findings'] if k['property'] == prop] if os.path.exists(path) else []

def is_known(k, res): return k['kind'] == res.get('kind') and all(c in res.get('message', '') for c in k.get('contains', []))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type = int, default = int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--budget', type = float)
    ap.add_argument('--workers', type = int, default = int(os.environ.get('SIM_WORKERS', '0')))
    ap.add_argument('--max', type = int)
    ap.add_argument('--keep-going', action = 'store_true', help = 'report every kind of violation (for development)')
    a = ap.parse_args()
    t0 = time.time()
    meta = META[a.prop]
    thorough = a.tier == 'thorough'
    budget = a.budget or meta.get('thorough_s' if thorough else 'quick_s', 600 if thorough else 30)
    most = a.max or meta.get('thorough_max' if thorough else 'quick_max', 10 ** 9)
    n = a.workers or 8
    scratch = tempfile.mkdtemp(prefix = 'sim-')
    procs, code = [], 2
    try:
        envs, hs = environments(a.prop, a.seed, a.tier, n)
        hp = helpers(hs, scratch)
        procs += hp
        ws = [Proc('search', {'prop': a.prop, 'seed': a.seed, 'tier': a.tier, 'env': e, 'budget': budget, 'first': i, 'step': n, 'max': most, 'scratch': scratch}, scratch) for i, e in enumerate(envs)]
        procs += ws
        code = search(a, meta, ws, scratch, t0, budget, envs, procs)
    finally:
        for p in procs: p.stop()
        shutil.rmtree(scratch, ignore_errors = True)
    sys.exit(code)


def search(a, meta, ws, scratch, t0, budget, envs, procs):
    sel = selectors.DefaultSelector()
    for w in ws: sel.register(w.p.stdout, selectors.EVENT_READ, w)
    stats = {'runs': 0, 'hashes': set(), 'states': set(), 'faults': {}, 'probes': {}, 'ran': {}, 'evaluations': 0, 'simtime': 0.0, 'events': 0, 'nontrivial': set(), 'samples': [], 'invalid': 0, 'slowest': 0.0}
    bad, errors, known, ready = [], [], {}, 0
    open_ = len(ws)
    kf = known_findings(a.prop)
    deadline = None
    hard = time.time() + budget + 420
    while open_ and time.time() < hard and (deadline is None or time.time() < deadline):
        for key, _ in sel.select(1):
            w = key.data
            ls = w.lines()
            if ls is None:
                sel.unregister(w.p.stdout); open_ -= 1
                if w.p.wait() != 0: errors.append('a worker ended: ' + w.errors())
                continue
            for r in ls:
                if 'ready' in r: ready += 1; continue
                account(stats, r)
                if r['status'] in ('violation', 'timeout'):
                    k = next((k for k in kf if is_known(k, r)), None)
                    if k: known.setdefault(k['what'], r)
                    else: bad.append(r)
                elif r['status'] == 'error': errors.append(r['message'] + '\nplan: ' + json.dumps(r.get('plan'))[:1500])
        if bad and deadline is None and not a.keep_going: deadline = time.time() + 1
    for w in ws: w.stop()
    wall = time.time() - t0
    for what in known: print(f'KNOWN-FINDING: property={a.prop} {what}')
    code, n_viol = 0, 0
    if a.keep_going:
        kinds = {}
        for r in bad: kinds.setdefault((r['kind'], r['message'][:60]), []).append(r)
        for (k, m), rs in sorted(kinds.items(), key = lambda x: -len(x[1])): print(len(rs), k, min(rs, key = lambda r: len(json.dumps(r['plan'])))['message'][:1200], '\n   ', json.dumps(min(rs, key = lambda r: len(json.dumps(r['plan'])))['plan'])[:1500])
    if bad and not a.keep_going:
        bad.sort(key = lambda r: (r['status'] == 'timeout', r['idx']))
        picked, kinds = [], set()
        for r in bad: # One of each kind first
            if r['kind'] not in kinds: kinds.add(r['kind']); picked.append(r)
        for r in (picked + [r for r in bad if r not in picked])[:8]:
            path = report(a.prop, r, scratch, procs)
            if path:
                n_viol, code = len(bad), 1
                print(f'VIOLATION property={a.prop} replay={path}')
                break
        else: errors.append('a violation could not be reproduced: ' + json.dumps(bad[0])[:3000])
    elif bad: code, n_viol = 1, len(bad)
    if code == 0 and errors:
        code = 2
        print(f'ERROR of the check: {len(errors)} run(s) failed outside the code under test; the first:\n{errors[0]}', file = sys.stderr)
    if code == 0 and stats['runs'] == 0:
        code = 2
        print('ERROR of the check: no run was completed', file = sys.stderr)
    evidence(a, meta, stats, wall, budget, envs, n_viol)
    print(f"{a.prop}: {stats['runs']} runs, {len(stats['hashes'])} distinct, {stats['evaluations']} checks, {len(stats['states'])} states, faults {sum(stats['faults'].values())}, {wall:.0f} s, slowest run {stats['slowest']:.1f} s -> exit {code}")
    return code


def account(s, r):
    if r['status'] == 'invalid': s['invalid'] += 1; return
    s['runs'] += 1
    s['hashes'].add(r['hash'])
    if r['nontrivial']: s['nontrivial'].add(r['hash'])
    s['states'].update(r['states'])
    for k in ('faults', 'probes', 'ran'):
        for x, n in r[k].items(): s[k][x] = s[k].get(x, 0) + n
    s['evaluations'] += r['evaluations']; s['simtime'] += r['simtime']; s['events'] += r['events']
    s['slowest'] = max(s['slowest'], r.get('t', 0))
    if len(s['samples']) < 3 and r.get('plan') and r['status'] == 'ok' and r['nontrivial']: s['samples'].append({'plan': r['plan']['p'], 'env': r['plan']['env'], 'log': r['log'][:25], 'faults': r['faults']})


def report(prop, r, scratch, procs):
    '''Confirm in another process, minimise, write the replay file and confirm it in a fresh process; None if it does not reproduce'''
    plan, kind = r['plan'], r['kind']
    timeout = r['status'] == 'timeout'
    srv = server(plan, scratch)
    procs.append(srv)
    def again(p, limit = 150): return srv.ask(p, limit)
    first = again(plan, 400 if timeout else 150)
    for _ in range(2): # In case the code under test is itself not deterministic
        if first['status'] not in ('violation', 'timeout') and not timeout: first = again(plan)
    if timeout and first['status'] == 'timeout': best, res = plan, first
    elif first['status'] != 'violation': return None
    else:
        kind = first['kind']
        best, res = minimise(dict(plan, choices = first['taken'], tail = 'zero'), first, again, 75)
    srv.stop()
    path = os.path.join(VERIF, 'replays', f"{prop}-{h64(json.dumps(best, sort_keys = True)):016x}.json")
    os.makedirs(os.path.dirname(path), exist_ok = True)
    fresh = server(best, scratch)
    procs.append(fresh)
    if not timeout or first['status'] == 'violation':
        final = fresh.ask(best)
        if final['status'] != 'violation' or final['kind'] != kind:
            best = plan # Fall back on the original
            final = fresh.ask(best)
            if final['status'] != 'violation': return None
        res = final
    fresh.stop()
    json.dump({'plan': best, 'kind': res['kind'], 'message': res['message'], 'hash': res['hash'], 'trace': res['log'], 'faults': res['faults'], 'original_plan': plan}, open(path, 'w'), indent = 1)
    print(f"[{res['kind']}] {res['message'][:1500]}")
    return path


def evidence(a, meta, s, wall, budget, envs, n_viol):
    hours = max(wall, 1e-9) / 3600
    d = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': n_viol,
         'assumptions': meta.get('assumptions', []),
         'coverage': {'evaluations': s['runs'], 'distinct_nontrivial': len(s['nontrivial']), 'rule': meta['rule'], 'samples': s['samples'],
                      'checks_evaluated': s['evaluations'], 'runs_per_hour': round(s['runs'] / hours), 'seeds': 'every run has a seed of its own', 'distinct_event_logs': len(s['hashes']),
                      'simulated_time_units': s['simtime'], 'logged_events': s['events'], 'distinct_states': len(s['states']), 'state_measure': meta.get('states', ''),
                      'faults_fired': s['faults'], 'probes': s['probes'], 'executed_components': s['ran'], 'real_components': meta['real'], 'stub_components': meta['stub'],
                      'environments': envs, 'budget_s': budget, 'slowest_run_s': round(s['slowest'], 2)}}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok = True)
    json.dump(d, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent = 1)


if __name__ == '__main__': main()
