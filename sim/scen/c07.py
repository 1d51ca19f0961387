'''C07: parallel fitting returns one model per kernel in order, or raises; no hangs'''
import numpy as np

from .. import search as S
from ..core import InvalidPlan, h64
from ..seams import World, make_exc, RETRIABLE, FINAL, EXC, signature
from ..refmodel import Grammar

FAULTS = ['none', 'none', 'none', 'none', 'fit', 'fit', 'death', 'death', 'death', 'both', 'interrupt', 'unloadable']

def gen(r, tier, idx):
    g = Grammar()
    fault = r.choice(FAULTS)
    cpus = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
    if r.random() < 0.2:
        p = S.gen(r, tier, fitters = ('pool',), small = True, rounds = (0, 1, 1), n_rules = (1,))
        p['segs'] = p['segs'][:2]
        p['kind'] = 'search'
    else:
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, cpus, cpus + 1, max(0, cpus - 1), 2 * cpus, 2 * cpus + 1, 12])
        kexs, seen = [], set()
        for _ in range(80):
            if len(kexs) >= n: break
            c = g.root(g.random(r, r.choice([0, 0, 1, 1, 2])))
            if c not in seen and g.size(c) <= 4: seen.add(c); kexs.append(g.code(c))
        p = {'kind': 'list', 'kexs': kexs, 'n': r.choice([3, 5, 8]), 'retries': r.choice([0, 1, 2]), 'restarts': r.choice([1, 2, 3]), 'optimiser': r.choice(['lbfgsb', 'scg']),
             'mode': r.choice(['fake', 'fake', 'fake', 'script']), 'seed': r.randrange(10 ** 6), 'tuple': r.random() < 0.15, 'repeat': r.random() < 0.15}
    p['cpus'], p['speeds'], p['fault'] = cpus, [r.choice([1, 1, 1, 2, 7, 50]) for _ in range(8)], fault
    p['exc'] = 'Unloadable' if fault == 'unloadable' else r.choice(RETRIABLE)
    p['which'] = [r.randrange(10000) for _ in range(2)]
    p['deaths'] = [{'task': r.choice([0, 0, 1, 2, 3, 5]), 'item': r.choice([0, 0, 1, 2, 99])} for _ in range(r.choice([1, 1, 2]))]
    p['interrupt'] = r.choice([0, 1, 2, 3, 5])
    return p


def nobody_left(ctx, w, when):
    left = sum(len(pool.live()) for pool in w.pools)
    ctx.check(not left, 'workers-left', lambda: f'{left} worker processes are left running after {when}')
    w.pools.clear()


def run(p, ctx):
    ctx.probe('fault ' + p['fault'])
    return searches(p, ctx) if p['kind'] == 'search' else lists(p, ctx)


def lists(p, ctx):
    from ..search import package
    G = package()
    if len(p['speeds']) < 1 or p['cpus'] < 1 or p['restarts'] < 1: raise InvalidPlan('workers')
    env = {'SumKE': G.SumKE, 'ProductKE': G.ProductKE, 'ChangeKE': G.ChangeKE}
    kexs = [eval(k, env)._initialise() for k in p['kexs']]
    if p['repeat'] and kexs: kexs = kexs + [eval(p['kexs'][0], env)._initialise()] # The same kernel twice
    if p['tuple']: kexs = tuple(kexs)
    reprs = [repr(k) for k in kexs]
    sigs = [signature(k.to_kernel()) for k in kexs]
    if not p['repeat'] and len(set(sigs)) < len(sigs): raise InvalidPlan('kernels of the same shape')
    x, y = S.make_data(p['n'], p['seed'])
    X, Y = S.shape(x, 'col'), S.shape(y, 'col')
    args = (p['restarts'], p['optimiser'], p['retries'])
    w = World(ctx, p['mode'], p['seed'], p['cpus'])
    w.sched = {'speeds': p['speeds'], 'deaths': []}
    with w:
        alone = [S.model_digest(ctx.call('fitting one kernel', G.fit_mods_not_parallel, X, Y, [k], *args)[0]) for k in kexs]
        # With the fault
        lost = None
        w.attempts, w.events = {}, []
        if kexs and p['fault'] in ('fit', 'both', 'unloadable'):
            lost = {sigs[i * len(kexs) // 10000] for i in p['which'][:1 + p['which'][0] % 2]}
            h = p['which'][1]
            w.fault_of = lambda sig, attempt: {'at': ['construct', 'restart'][h % 2], 'j': h % p['restarts'], 'exc': p['exc'], 'token': f'<{h64(sig) % 1000}.{attempt}>'} if sig in lost else None
        if p['fault'] in ('death', 'both'): w.sched['deaths'] = p['deaths']
        if p['fault'] == 'interrupt': w.sched['interrupt'] = p['interrupt']
        models, error = ctx.attempt('fitting in parallel', G.fit_mods_parallel_processes, X, Y, kexs, *args)
        killed, interrupted = ctx.faults.get('worker killed', 0), ctx.faults.get('interrupt while waiting for workers', 0)
        nobody_left(ctx, w, f'fitting in parallel {"ended with " + type(error).__name__ if error else "returned"}')
        if error is not None and not (killed or interrupted or lost): raise error
        if not killed and not interrupted and not lost: same(ctx, models, error, reprs, alone, p, X, Y)
        elif interrupted and error is None: same(ctx, models, error, reprs, alone, p, X, Y) # An interrupt may come too late to matter
        elif interrupted: ctx.check(isinstance(error, KeyboardInterrupt), 'wrong-error', lambda: f'a user interrupt was reported as {error!r}')
        elif killed or p['fault'] == 'unloadable': ctx.check(isinstance(error, Exception), 'swallowed', lambda: f'a worker process died, but the outcome is {models and len(models)} models ({error!r})')
        else:
            ctx.check(error is not None, 'swallowed', lambda: f'fits of {len(lost)} kernels fail for good, but {models and len(models)} models are returned')
            tokens = [f'<{h64(s) % 1000}.{p["retries"]}>' for s in lost]
            ctx.check(type(error) is EXC[p['exc']] and any(t in str(error) for t in tokens), 'wrong-error', lambda: f'the error of the failing fit is {p["exc"]} {tokens}, but {error!r} was raised')
        # And again without: nothing of the failure lingers
        w.fault_of, w.sched['deaths'], w.sched['interrupt'] = (lambda sig, attempt: None), [], None
        w.attempts, w.events = {}, []
        models, error = ctx.attempt('fitting in parallel', G.fit_mods_parallel_processes, X, Y, kexs, *args)
        nobody_left(ctx, w, 'fitting in parallel again')
        if error is not None: raise error
        same(ctx, models, error, reprs, alone, p, X, Y)
    ctx.nontrivial = len(kexs) > 1 or bool(ctx.faults)
    ctx.state(p['cpus'], len(kexs), p['fault'], bool(killed))
    ctx.log('list', len(kexs), p['cpus'], type(error).__name__)
    ctx.ran('fit_mods_parallel_processes', 2)


def same(ctx, models, error, reprs, alone, p, X, Y):
    ctx.check(error is None and models is not None, 'failed', lambda: f'no fit fails and no worker dies, but {error!r} was raised')
    ctx.check(len(models) == len(reprs), 'count', lambda: f'{len(models)} models for {len(reprs)} kernels on {p["cpus"]} processors')
    for i, m in enumerate(models):
        ctx.check(repr(m.kernel_expression) == reprs[i], 'order', lambda: f'model {i} is for {m.kernel_expression!r}, kernel {i} is {reprs[i]}')
        d = S.first_difference(S.model_digest(m), alone[i])
        ctx.check(not d, 'differs', lambda: f'model {i} ({reprs[i]}) is not what fitting its kernel alone gives: {d}')
        ctx.check(np.array_equal(np.asarray(m.model.X), X) and np.array_equal(np.asarray(m.model.Y), Y), 'data', lambda: f'model {i} is not fitted to the given data')
    ctx.check(len({id(m) for m in models}) == len(models), 'shared', 'the same model object appears twice')


def searches(p, ctx):
    '''Searches with the parallel fitter (the default one) against the same ones fitting sequentially'''
    S.valid(p)
    ref = S.Search(dict(p, fitter = 'serial'), ctx, 'sequential')
    with ref.world(): want = S.state_digest(ref.run()[-1])
    s = S.Search(p, ctx, 'parallel')
    w = s.world()
    with w:
        if p['fault'] in ('death', 'both'): w.sched['deaths'] = p['deaths']
        states, error = ctx.attempt('a search fitting in parallel', s.run, None, lambda what, f, *a: f(*a))
        killed = ctx.faults.get('worker killed', 0)
        nobody_left(ctx, w, f'a search fitting in parallel {"ended with " + type(error).__name__ if error else "returned"}')
        if killed: ctx.check(isinstance(error, Exception), 'swallowed', lambda: f'a worker process died during a search, but its outcome is {error!r}')
        elif error is not None: raise error
        else:
            d = S.first_difference(S.state_digest(states[-1]), want)
            ctx.check(not d, 'search-differs', lambda: f'a search fitting in parallel differs from one fitting sequentially: {d}')
    ctx.nontrivial = True
    ctx.state('search', p['cpus'], bool(killed), len(want['kexs']))
    ctx.ran('searches with fitter pool')
