'''C09: a kernel's covariance always reflects its current displayed parameters'''
import copy, pickle
import numpy as np

from .. import search as S, refkern as R
from ..core import InvalidPlan, unit
from ..inject import Lines
from ..seams import World, make_exc, RETRIABLE
from ..refmodel import Grammar

OPS = ['param'] * 5 + ['vector'] * 3 + ['array', 'randomize', 'optimise', 'restarts', 'fail-update', 'fail-update', 'fail-eval', 'fail-eval', 'fail-optimise', 'copy', 'copy', 'pickle', 'fix', 'bad-update', 'names', 'refit']
EVALS = ['K', 'K', 'Kdiag', 'cross', 'cross', 'll', 'predict', 'K-of-data']

def gen(r, tier, idx):
    g = Grammar(se = True)
    for _ in range(50):
        c = g.root(g.random(r, r.choice([0, 1, 1, 2, 2])))
        if g.size(c) <= 7: break
    p = {'kex': g.code(c), 'n': r.choice([3, 5, 8]), 'seed': r.randrange(10 ** 6), 'restarts': r.choice([0, 1, 2]), 'kern_only': r.random() < 0.25, 'change': r.choice(['', '', 'CP', 'CW']), 'xs': r.choice([2, 3, 4, 5])}
    p['ops'] = []
    for _ in range(r.choice([3, 6, 10, 16, 25])):
        p['ops'].append({'op': r.choice(OPS), 'on': r.randrange(1000), 'i': r.randrange(1000), 'v': round(r.random(), 6), 'wild': r.random() < 0.15, 'at': r.randrange(10000), 'exc': r.choice(RETRIABLE + ['KeyboardInterrupt']),
                         'evals': [{'what': r.choice(EVALS), 'on': r.randrange(1000), 'x': r.randrange(100), 'x2': r.randrange(100)} for _ in range(r.choice([0, 1, 1, 2, 3]))]})
    return p


def value(name, u, wild):
    if name in ('location', 'offset', 'stop_location'): return (60 if wild else 14) * (u - 0.5)
    lo, hi = (-6, 6) if wild else (-1.2, 1.5)
    return float(np.exp(lo + (hi - lo) * u))


def params(kern):
    '''The displayed parameters, as objects'''
    from GPy.kern import Kern
    out = []
    for p in kern.parameters: out += params(p) if isinstance(p, Kern) else [p]
    return out


class Obj:
    def __init__(self, model, kern, fresh, x, y): self.model, self.kern, self.fresh, self.x, self.y = model, kern, fresh, x, y
    def noise(self): return float(self.model.likelihood.variance[0]) if self.model is not None else None


class Failing:
    '''Makes the inference fail when armed'''
    armed = None
    def __init__(self, ctx):
        from GPy.inference.latent_function_inference.exact_gaussian_inference import ExactGaussianInference as E
        real = E.inference
        me = self
        def inference(*a, **k):
            if me.armed is not None:
                e, me.armed = me.armed, None
                ctx.fault(f'inference:{type(e).__name__}')
                raise e
            return real(*a, **k)
        E.inference = inference


def run(p, ctx):
    from ..search import package
    G = package()
    from GPy_ABCD.Models.model import GPModel
    if p['xs'] < 1: raise InvalidPlan('xs')
    env = {'SumKE': G.SumKE, 'ProductKE': G.ProductKE, 'ChangeKE': G.ChangeKE}
    kex = eval(p['kex'], env)._initialise()
    if p['change']: kex = G.ChangeKE(p['change'], kex, 'LIN' if p['seed'] % 2 else kex)._initialise()
    x, y = S.make_data(p['n'], p['seed'])
    X, Y = S.shape(x, 'col'), S.shape(y, 'col')
    xs = [X] + [np.array([round(30 * unit('xs', p['seed'], k, j) - 12, 3) for j in range(1 + (p['seed'] + k) % 5)])[:, None] for k in range(p['xs'])]
    failing = Failing(ctx)
    w = World(ctx, 'script', p['seed'])
    w.max_iters = 4
    np.random.seed(p['seed'] % 2 ** 31)
    with w:
        if p['kern_only']: objs = [Obj(None, kex.to_kernel(), False, x, y)]
        else:
            m = GPModel(X, Y, kex)
            if p['restarts']: gp = ctx.call('a fit', m.fit, p['restarts']).model
            else:
                from GPy.models import GPRegression
                gp = GPRegression(X, Y, kex.to_kernel())
            objs = [Obj(gp, gp.kern, True, np.array(x), np.array(y))]
        verify(ctx, objs[0], {'what': 'K', 'x': 0, 'x2': 1}, xs, 'to begin with')
        for n, op in enumerate(p['ops']):
            o = objs[op['on'] % len(objs)]
            others = [(q, repr([float(v) for v in q.kern.param_array]), repr(R.tree(q.kern))) for q in objs if q is not o]
            what = f'after operation {n + 1} ({op["op"]})'
            try: new = apply(p, ctx, w, failing, o, op, X, kex, objs, xs)
            except np.linalg.LinAlgError:
                ctx.probe('numerically impossible operations')
                new, o.fresh, failing.armed, w.mode = None, False, None, 'script'
            if new is not None and len(objs) < 5: objs.append(new)
            ctx.log(n, op['op'], len(objs), [round(float(v), 9) for v in o.kern.param_array])
            ctx.state(op['op'], p['ops'][n - 1]['op'] if n else '', R.tree(o.kern)[0])
            for q, vals, t in others: ctx.check(repr([float(v) for v in q.kern.param_array]) == vals and repr(R.tree(q.kern)) == t, 'copy-changed', lambda: f'{what} on a kernel, the parameters of a copy of it changed')
            for e in op['evals']: verify(ctx, objs[e['on'] % len(objs)], e, xs, what)
        for o in objs:
            for what in ('K', 'Kdiag', 'cross', 'll', 'predict', 'K-of-data'): verify(ctx, o, {'what': what, 'x': 1, 'x2': 2}, xs, 'at the end')
    ctx.nontrivial = len(p['ops']) > 0
    ctx.ran('kernels and GPRegression')


NUMERIC = (np.linalg.LinAlgError, FloatingPointError, ZeroDivisionError, ValueError)

def guarded(ctx, o, f):
    '''A parameter change, which may legitimately be numerically impossible for the model (the likelihood is then stale)'''
    o.fresh = False
    try:
        f()
        o.fresh = o.model is not None
    except np.linalg.LinAlgError: ctx.probe('numerically impossible updates')


def apply(p, ctx, w, failing, o, op, X, kex, objs, xs):
    kind = op['op']
    ps = params(o.kern)
    pick = ps[op['i'] % len(ps)]
    top = o.model if o.model is not None else o.kern
    if kind == 'param':
        guarded(ctx, o, lambda: pick.__setitem__(slice(None), value(pick.name, op['v'], op['wild'])))
    elif kind == 'vector':
        guarded(ctx, o, lambda: setattr(top, 'optimizer_array', np.array([3.2 * unit('vector', op['v'], j) - 1.2 for j in range(len(top.optimizer_array))])))
    elif kind == 'array':
        vals = [value(q.name, unit('array', op['v'], j), op['wild']) for j, q in enumerate(ps)]
        guarded(ctx, o, lambda: o.kern.__setitem__(slice(None), np.array(vals)))
    elif kind == 'names': # By regular expression
        v = value(pick.name, op['v'], False)
        guarded(ctx, o, lambda: o.kern.__setitem__('.*' + pick.name, v))
    elif kind == 'randomize':
        np.random.seed(op['at'])
        guarded(ctx, o, top.randomize)
    elif kind in ('optimise', 'restarts', 'fail-optimise'):
        if o.model is None: return
        w.mode = 'real' if op['v'] < 0.5 else 'script'
        np.random.seed(op['at'])
        if kind == 'fail-optimise':
            m, n = o.model, op['at'] % 4
            real = type(m).parameters_changed
            count = [0]
            e = make_exc(op['exc'], '')
            def changed(self):
                count[0] += 1
                if count[0] == n + 1: failing.armed = e
                return real(self)
            o.fresh = False
            m.__dict__['parameters_changed'] = lambda: changed(m)
            try: m.optimize('scg', max_iters = 3); o.fresh = failing.armed is None
            except BaseException as got:
                if got is not e and not isinstance(got, np.linalg.LinAlgError): raise
            finally: failing.armed = None; m.__dict__.pop('parameters_changed', None)
            o.fresh = False
        else: guarded(ctx, o, (lambda: o.model.optimize('lbfgsb', max_iters = 4)) if kind == 'optimise' else lambda: o.model.optimize_restarts(2, verbose = False, robust = True))
        w.mode = 'script'
    elif kind == 'fail-update':
        if o.model is None: return
        failing.armed = e = make_exc(op['exc'], '')
        o.fresh = False
        try:
            if op['i'] % 2: pick[:] = value(pick.name, op['v'], False)
            else: o.model.optimizer_array = np.array([2.4 * unit('fail', op['v'], j) - 1 for j in range(len(o.model.optimizer_array))])
            o.fresh = failing.armed is not None
        except BaseException as got:
            if got is not e: raise
        failing.armed = None
    elif kind == 'bad-update': # A value which makes every covariance meaningless, then a good one again
        o.fresh = False
        try: pick[:] = np.nan if op['i'] % 2 else np.inf
        except Exception: ctx.fault('impossible parameter value')
        guarded(ctx, o, lambda: pick.__setitem__(slice(None), value(pick.name, op['v'], False)))
    elif kind == 'fail-eval':
        x = xs[op['i'] % len(xs)]
        f = (lambda: o.kern.K(x)) if op['i'] % 3 == 0 else (lambda: o.kern.Kdiag(x)) if op['i'] % 3 == 1 else (lambda: o.kern.K(x, xs[0]))
        with Lines(1 + op['at'] % 40, lambda: make_exc(op['exc'], '')) as l:
            try: f()
            except BaseException as got:
                if got is not l.fired: raise
        if l.fired is not None: ctx.fault('evaluation interrupted')
    elif kind == 'fix':
        if pick.is_fixed: pick.unfix()
        else: pick.fix(warning = False)
    elif kind == 'copy':
        if o.model is not None and op['i'] % 3 == 0: m = o.model.copy(); return Obj(m, m.kern, o.fresh, o.x, o.y)
        if o.model is not None and op['i'] % 3 == 1: m = copy.deepcopy(o.model); return Obj(m, m.kern, o.fresh, o.x, o.y)
        return Obj(None, o.kern.copy(), False, o.x, o.y)
    elif kind == 'pickle':
        if o.model is not None and op['i'] % 2: m = pickle.loads(pickle.dumps(o.model)); return Obj(m, m.kern, o.fresh, o.x, o.y)
        return Obj(None, pickle.loads(pickle.dumps(o.kern if o.model is None else o.kern.copy())), False, o.x, o.y) # (A kernel which is part of a model is saved with it)
    elif kind == 'refit': # Another kernel from the same expression
        return Obj(None, kex.to_kernel(), False, o.x, o.y)
    else: raise InvalidPlan(kind)


def verify(ctx, o, e, xs, when):
    t = R.tree(o.kern)
    shown = R.shown(t)
    ctx.check(sorted(map(repr, shown)) == sorted(repr(float(v)) for v in o.kern.param_array), 'display', lambda: f'{when}, the parameters of the parts {shown} are not those of the kernel {sorted(o.kern.param_array)}')
    if not np.all(np.isfinite(shown)): return
    a, b = xs[e['x'] % len(xs)], xs[e['x2'] % len(xs)]
    desc = lambda: f'{o.kern.parameter_names_flat(include_fixed = True)} = {[float(v) for v in o.kern.param_array]}'
    with np.errstate(all = 'ignore'):
        what = e['what']
        if what in ('ll', 'predict', 'K-of-data') and o.model is None: what = 'K'
        if what == 'K': agree(ctx, o.kern.K(a), t, lambda t: R.cov(t, a[:, 0]), 'covariance', when, desc)
        elif what == 'K-of-data': agree(ctx, o.kern.K(o.model.X), t, lambda t: R.cov(t, o.x), 'covariance of the data', when, desc)
        elif what == 'Kdiag': agree(ctx, o.kern.Kdiag(a), t, lambda t: np.diag(R.cov(t, a[:, 0])), 'covariance diagonal', when, desc)
        elif what == 'cross':
            if a is b: b = b.copy()
            agree(ctx, o.kern.K(a, b), t, lambda t: R.cov(t, a[:, 0], b[:, 0]), 'covariance with other inputs', when, desc)
        elif o.fresh:
            K = R.cov(t, o.x)
            ll, cond = R.log_likelihood(K, o.noise(), o.y)
            if cond > 1e7 or o.noise() < 1e-5 * np.abs(K).max(): ctx.probe('likelihoods too ill-conditioned to compare'); return
            if not R.well_conditioned(lambda t: R.cov(t, np.append(o.x, a[:, 0])), t): ctx.probe('likelihoods too ill-conditioned to compare'); return
            if what == 'll': ctx.check(np.isclose(float(o.model.log_likelihood()), ll, rtol = 1e-4, atol = 1e-4), 'likelihood', lambda: f'{when}, the likelihood is {float(o.model.log_likelihood())} instead of {ll}; parameters: {desc()}')
            else:
                mean, var = R.posterior(K, R.cov(t, o.x, a[:, 0]), np.diag(R.cov(t, a[:, 0])), o.noise(), o.y)
                m, v = o.model.predict(a)
                ctx.check(np.allclose(m[:, 0], mean, rtol = 1e-3, atol = 1e-3 * (1 + np.abs(mean).max())), 'prediction', lambda: f'{when}, the predictive mean is {m[:, 0]} instead of {mean}; parameters: {desc()}')


def agree(ctx, got, t, reference, name, when, desc):
    want = reference(t)
    if not np.all(np.isfinite(want)): return
    ok = R.same(got, want)
    if not ok and not R.well_conditioned(reference, t): ctx.probe('covariances too ill-conditioned to compare'); return
    ctx.check(ok, 'covariance', lambda: f'{when}, the {name} is {np.asarray(got).round(6).tolist()} instead of {want.round(6).tolist()}; parameters: {desc()}')
