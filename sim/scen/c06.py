'''C06: failing fits are retried up to the limit, from scratch, and then reported'''
import warnings
import numpy as np

from .. import search as S
from ..core import InvalidPlan, h64, unit
from ..seams import World, make_exc, RETRIABLE, FINAL, EXC, signature
from ..refmodel import Grammar

ENTRIES = ['one', 'list', 'list', 'list', 'pool', 'pool', 'search', 'search', 'search-pool']

def gen(r, tier, idx):
    entry = r.choice(ENTRIES)
    g = Grammar()
    if entry.startswith('search'):
        p = S.gen(r, tier, fitters = ('pool' if entry == 'search-pool' else 'serial',), small = True, rounds = (0, 1, 1), n_rules = (1,))
        p['segs'] = p['segs'][:2]
        p['rate'] = r.choice([0.05, 0.15, 0.15, 0.4, 1.])
        p['deep'] = r.choice([0, 0, 0, 1, 2]) # How far beyond the limit failures go
    else:
        n = 1 if entry == 'one' else r.choice([1, 2, 2, 3, 3, 4, 6])
        kexs, seen = [], set()
        most_terms = r.choice([5, 5, 5, 12, 20])
        for _ in range(40):
            c = g.root(g.random(r, r.choice([0, 0, 1, 1, 2, 3])))
            if c not in seen and g.size(c) <= most_terms: seen.add(c); kexs.append(g.code(c))
            if len(kexs) == n: break
        p = {'kexs': kexs, 'n': r.choice([3, 5, 8]), 'retries': r.choice([0, 1, 1, 1, 2, 3, 5]), 'restarts': r.choice([1, 1, 2, 3, 5]), 'optimiser': r.choice(['lbfgsb', 'scg', 'org-bfgs']),
             'mode': 'fake' if entry == 'pool' or r.random() < 0.7 else 'script', 'default': r.random() < 0.15, 'seed': r.randrange(10 ** 6)}
        most = r.choice(['few', 'all', 'limit', 'one over'])
        p['fails'] = []
        for i in range(len(kexs)):
            k = {'few': r.choice([0, 0, 0, 1]), 'all': r.randrange(p['retries'] + 2), 'limit': p['retries'], 'one over': r.choice([0, p['retries'], p['retries'] + 1])}[most]
            p['fails'].append([failure(r, p) for _ in range(k)])
        if r.random() < 0.25 and p['fails']:
            l = r.choice(p['fails'])
            l.insert(r.randrange(len(l) + 1), dict(failure(r, p), exc = r.choice(FINAL)))
        p['bare'] = p['mode'] == 'fake' and r.random() < 0.3 # Errors which all read alike
        p['twice'] = entry == 'list' and r.random() < 0.2 # The first kernel is in the list again
    p['entry'] = entry
    p['cpus'] = r.choice([1, 2, 3, 4])
    p['speeds'] = [r.choice([1, 1, 2, 7]) for _ in range(4)]
    return p

def failure(r, p): return {'at': r.choice(['construct', 'restart', 'restart']), 'j': r.randrange(p['restarts']), 'exc': r.choice(RETRIABLE)}


class Warned:
    '''Every warning issued in the package or around it, also in worker processes, becomes an event of the world'''
    def __init__(self, w): self.w = w
    def __enter__(self):
        self.cm = warnings.catch_warnings()
        self.cm.__enter__()
        warnings.simplefilter('always')
        for c in (DeprecationWarning, PendingDeprecationWarning, FutureWarning, ImportWarning, ResourceWarning): warnings.simplefilter('ignore', c)
        def show(message, category, filename, lineno, file = None, line = None):
            from .. import seams
            if seams.world is not None: seams.world.note('warn', str(message))
        warnings.showwarning = show
    def __exit__(self, *exc): return self.cm.__exit__(*exc)


def run(p, ctx):
    return searches(p, ctx) if p['entry'].startswith('search') else lists(p, ctx)


def lists(p, ctx):
    from ..search import package
    G = package()
    if not p['kexs'] or len(p['fails']) != len(p['kexs']) or p['restarts'] < 1: raise InvalidPlan('kernels')
    env = {'SumKE': G.SumKE, 'ProductKE': G.ProductKE, 'ChangeKE': G.ChangeKE}
    kexs = [eval(k, env)._initialise() for k in p['kexs']]
    reprs = [repr(k) for k in kexs]
    x, y = S.make_data(p['n'], p['seed'])
    X, Y = S.shape(x, 'col'), S.shape(y, 'col')
    data = h64(X.tobytes(), Y.tobytes())
    retries, restarts, optimiser = (1, 5, 'lbfgsb') if p['default'] else (p['retries'], p['restarts'], p['optimiser'])
    w = World(ctx, p['mode'], p['seed'], p['cpus'])
    w.sched = {'speeds': p['speeds'], 'deaths': []}
    # What a fit from scratch starts from
    sigs, starts = [], []
    for k in kexs:
        ker = k.to_kernel()
        sigs.append(signature(ker))
        starts.append(h64(np.asarray(ker.param_array).round(12).tolist()))
    if len(set(sigs)) < len(sigs): raise InvalidPlan('kernels of the same shape')
    plan = {}
    for sig, fs in zip(sigs, p['fails']):
        for i, f in enumerate(fs):
            if f['j'] >= restarts: raise InvalidPlan('restart')
            plan[sig, i] = dict(f, token = f'<{sigs.index(sig)}.{i}>')
    w.fault_of = lambda sig, attempt: plan.get((sig, attempt))
    ctx.probe(f"entry {p['entry']}")
    w.bare = bool(p.get('bare'))
    if p.get('twice'):
        kexs.append(kexs[0] if p['seed'] % 2 else eval(p['kexs'][0], env)._initialise())
        reprs.append(reprs[0])
    fitter = G.fit_mods_parallel_processes if p['entry'] == 'pool' else G.fit_mods_not_parallel
    args = (X, Y, kexs) if p['default'] else (X, Y, kexs, restarts, optimiser, retries)
    with w, Warned(w): models, error = ctx.attempt('fitting a list of kernels', fitter, *args)
    if error is not None and not hasattr(error, 'sim_token') and 'injected' not in str(error): raise error
    # The reference: what happens to each kernel
    want = []
    for i, fs in enumerate(p['fails']):
        n, last = 0, None
        for n, f in enumerate(fs):
            last = f
            if f['exc'] in FINAL or n == retries: break
        else: n, last = len(fs), None
        want.append({'attempts': n + 1, 'error': last and (last['exc'], f'<{i}.{n}>'), 'retries': n})
    if p.get('twice'): want.append({'attempts': want[0]['attempts'] + 1, 'error': None, 'retries': 0}) # (Attempts are counted per shape)
    lost = [v['error'] for v in want if v['error']]
    ctx.nontrivial = bool(ctx.faults)
    ctx.state(p['entry'], retries, [(v['attempts'], bool(v['error'])) for v in want])
    name = lambda i: f'{kexs[i]} (number {i})'
    # The outcome
    if lost:
        ctx.check(error is not None, 'swallowed', lambda: f'{len(lost)} kernels cannot be fitted within {retries} retries, but no error is raised')
        ctx.check(any(type(error) is EXC[e] and getattr(error, 'sim_token', '') == t for e, t in lost), 'wrong-error', lambda: f'the last errors of the kernels which cannot be fitted are {lost}, but the error raised is {error!r}')
    else:
        ctx.check(error is None, 'gave-up', lambda: f'every kernel can be fitted within {retries} retries, but an error is raised: {error!r}')
        ctx.check(len(models) == len(kexs), 'models', lambda: f'{len(models)} models for {len(kexs)} kernels')
        for i, m in enumerate(models):
            ctx.check(repr(m.kernel_expression) == reprs[i], 'order', lambda: f'model {i} is for {m.kernel_expression}, not for {kexs[i]}')
            ctx.check(m.restarts == restarts, 'settings', lambda: f'{name(i)} has {m.restarts} restarts, not {restarts}')
            last = m.model.attempt if p['mode'] == 'fake' else m.model.__dict__.get('_sim_id', (0, -1))[1]
            ctx.check(last == want[i]['attempts'] - 1, 'wrong-attempt', lambda: f'{name(i)} has the outcome of attempt {last + 1}; the successful one is {want[i]["attempts"]}')
    ctx.check([repr(k) for k in kexs] == reprs, 'changed', 'the given kernel expressions were changed')
    # Every attempt
    for i, sig in enumerate(sigs):
        evs = [e for e in w.events if len(e) > 2 and e[1] == sig]
        tries = [e for e in evs if e[0] == 'construct']
        if p.get('twice') and i == 0: want[0]['attempts'] += not lost
        others_lost = any(v['error'] for j, v in enumerate(want) if j != i)
        if others_lost and not want[i]['error']: # May never have been reached
            ctx.check(len(tries) <= want[i]['attempts'], 'attempts', lambda: f'{name(i)} was tried {len(tries)} times, {want[i]["attempts"]} expected')
        elif not (others_lost and not tries): ctx.check(len(tries) == want[i]['attempts'], 'attempts', lambda: f'{name(i)} was tried {len(tries)} times, {want[i]["attempts"]} expected ({len(p["fails"][i])} failures planned, {retries} retries allowed)')
        for t in tries:
            ctx.check(t[5] == data, 'data', lambda: f'attempt {t[2] + 1} for {name(i)} is on other data')
            ctx.check(t[6] == starts[i], 'not-from-scratch', lambda: f'attempt {t[2] + 1} for {name(i)} does not start from the default parameters')
            f = plan.get((sig, t[2]))
            runs = [e for e in evs if e[2] == t[2] and e[0] == 'optimise']
            planned = restarts if f is None else 0 if f['at'] == 'construct' else f['j'] + 1
            ctx.check(len(runs) == planned, 'restarts', lambda: f'attempt {t[2] + 1} for {name(i)} made {len(runs)} optimisation runs, {planned} expected ({restarts} restarts)')
            for e in runs: ctx.check(e[4] == optimiser, 'optimiser', lambda: f'attempt {t[2] + 1} for {name(i)} used optimiser {e[4]}, not {optimiser}')
        warned = [e[1] for e in w.events if e[0] == 'warn' and f'<{i}.' in e[1]]
        for a in range(0 if w.bare else len(tries)):
            mine = [m for m in warned if f'<{i}.{a}>' in m]
            retried = a + 1 < len(tries) - bool(p.get('twice') and i == 0 and not lost)
            ctx.check(len(mine) == retried, 'warnings', lambda: f'{len(mine)} warnings about failed attempt {a + 1} of {name(i)}, which was{"" if retried else " not"} retried')
            for m in mine: ctx.check(str(kexs[i]) in m, 'warning-text', lambda: f'the warning does not name {kexs[i]}: {m}')
    total = sum(e[0] == 'warn' for e in w.events)
    retried = sum(e[0] == 'construct' and e[2] > 0 for e in w.events) - bool(p.get('twice') and not lost)
    if w.bare and p['mode'] == 'fake':
        for i, k in enumerate(p['kexs']): ctx.check(sum(e[0] == 'warn' and str(kexs[i]) in e[1] for e in w.events) >= max(0, sum(e[0] == 'construct' and e[1] == sigs[i] for e in w.events) - 1 - bool(p.get('twice') and not i)), 'warnings', lambda: f'too few warnings name {kexs[i]}')
    if p['mode'] == 'fake': ctx.check(total == retried, 'warnings', lambda: f'{total} warnings for {retried} retries')
    ctx.log(p['entry'], type(error).__name__, [(v['attempts'], v['error']) for v in want])
    ctx.ran('list fitter ' + fitter.__name__)


def searches(p, ctx):
    S.valid(p)
    ref = S.Search(p, ctx, 'without failures')
    with ref.world() as rw: want = S.state_digest(ref.run()[-1])
    s = S.Search(p, ctx, 'with failures')
    w = s.world()
    limit = p['retries']
    def planned(sig):
        u = unit(p['lseed'], 'fails', sig)
        return 0 if u >= p['rate'] else 1 + h64('n', sig, p['lseed']) % max(1, limit + p['deep']) if limit + p['deep'] else 0
    def fault_of(sig, attempt):
        if attempt >= planned(sig): return None
        h = h64('what', sig, attempt, p['lseed'])
        return {'at': ['construct', 'restart', 'restart'][h % 3], 'j': h // 3 % p['restarts'], 'exc': RETRIABLE[h // 97 % len(RETRIABLE)], 'token': f'<{h % 10 ** 9}>'}
    w.fault_of = fault_of
    with w, Warned(w):
        states, error = ctx.attempt('a search', s.run, None, lambda what, f, *a: f(*a))
    if error is not None and 'injected' not in str(error): raise error
    fails = [e for e in w.events if e[0] == 'fail']
    warns = [e[1] for e in w.events if e[0] == 'warn']
    ctx.nontrivial = bool(fails)
    ctx.state('search', p['retries'], len(fails), error is None)
    # Per kernel shape (equally shaped kernels share their planned failures)
    final = []
    for e in fails:
        later = [c for c in w.events if c[0] == 'construct' and c[1] == e[1] and c[2] == e[2] + 1]
        mine = [m for m in warns if e[4] in m]
        if mine: ctx.check(len(mine) == 1 and later, 'warnings', lambda: f'{len(mine)} warnings for {e}, which was {"" if later else "not "}retried: {mine[:2]}')
        else: final.append(e)
    ctx.check(len(warns) == len(fails) - len(final), 'warnings', lambda: f'{len(warns)} warnings for {len(fails)} failures, {len(final)} of them final: {warns[:3]}')
    lost = {e[1] for e in w.events if e[0] == 'fail' and planned(e[1]) > limit}
    if not lost:
        ctx.check(not final, 'warnings', lambda: f'no warning about the retried failure {final[0]}')
        ctx.check(error is None, 'gave-up', lambda: f'no kernel fails more than {limit} times, but the search ends with {error!r}')
        d = S.first_difference(S.state_digest(states[-1]), want)
        ctx.check(not d, 'result-differs', lambda: f'retried failures change the result of the search: {d}')
        for sig in {e[1] for e in fails}:
            ctx.check(not [e for e in w.events if e[0] == 'construct' and e[1] == sig and e[2] > planned(sig) + len([1 for c in rw.events if c[0] == 'construct' and c[1] == sig]) - 1], 'attempts', lambda: f'too many attempts at {sig}')
    elif error is not None:
        last = [e for e in final if e[1] in lost]
        ctx.check(any(type(error) is EXC[e[3]] and e[4] in str(error) and e[2] >= limit for e in last), 'wrong-error', lambda: f'the search ends with {error!r}, but the errors which were not retried are {last}')
    else: ctx.check(False, 'swallowed', f'kernels of shape {sorted(lost)[:2]} fail more than {limit} times, but the search ends without an error')
    ctx.log('search', type(error).__name__, len(fails), len(warns))
    ctx.ran('searches with fitter ' + p['fitter'])
