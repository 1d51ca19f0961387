'''C08: a model's views always describe its last successful fit, and refuse before one'''
import copy, pickle
import numpy as np
from scipy.stats import norm

from .. import search as S, refkern as R, describe as D
from ..core import InvalidPlan, h64, hexf, unit
from ..inject import Lines
from ..seams import World, make_exc, RETRIABLE
from ..refmodel import Grammar

POINTS = np.array([0.5, 2.])

OPS = ['fit'] * 6 + ['fail'] * 5 + ['interrupt'] * 3 + ['again'] * 2 + ['copy', 'copy', 'pickle', 'data', 'view-interrupted', 'view-interrupted', 'touch-views', 'other']
VIEWS = ['predict', 'predict', 'quantiles', 'interpret', 'interpret', 'sops', 'score', 'score']

def gen(r, tier, idx):
    g = Grammar(se = True)
    if r.random() < 0.3: g.bases = tuple(r.sample(g.bases, 2))
    for _ in range(50):
        c = g.root(g.random(r, r.choice([0, 1, 1, 2])))
        if g.size(c) <= 6: break
    p = {'kex': g.code(c), 'n': r.choice([3, 5, 8]), 'seed': r.randrange(10 ** 6), 'default': r.random() < 0.05, 'real': r.random() < 0.3}
    p['ops'] = []
    for _ in range(r.choice([2, 4, 6, 9, 14])):
        p['ops'].append({'op': r.choice(OPS), 'on': r.randrange(1000), 'restarts': r.choice([1, 1, 2, 3, None]), 'optimiser': r.choice(['lbfgsb', 'lbfgsb', 'scg', None]), 'robust': r.random() < 0.2,
                         'at': r.choice(['construct', 'restart', 'restart']), 'j': r.randrange(3), 'exc': r.choice(RETRIABLE + ['KeyboardInterrupt', 'SystemExit']), 'frac': round(r.random(), 6), 'seed': r.randrange(10 ** 6),
                         'views': [{'view': r.choice(VIEWS), 'on': r.randrange(1000), 'i': r.randrange(1000)} for _ in range(r.choice([0, 1, 2, 3]))]})
    return p


class Fit:
    '''What is known of a successful fit, from outside the model'''
    def __init__(self, gp, x, y, ll):
        self.tree = R.tree(gp.kern)
        self.params = [float(v) for v in gp.param_array]
        self.noise = float(gp.likelihood.variance[0])
        self.x, self.y, self.ll = np.array(x), np.array(y), ll
        self.k = len(gp.optimizer_array)
        self.text = self.canonical = None
        self.predictions = {}


class Obj:
    '''A model and what its views should be'''
    def __init__(self, m, x, y, fit = None, restarts = None): self.m, self.x, self.y, self.fit, self.restarts = m, x, y, fit, restarts


def Odd(m, ll, n, k): return 3 * k - 2 * ll + 0.25 * n

def run(p, ctx):
    G = S.package()
    from GPy_ABCD.Models.model import GPModel
    env = {'SumKE': G.SumKE, 'ProductKE': G.ProductKE, 'ChangeKE': G.ChangeKE}
    def kex(): return eval(p['kex'], env)._initialise()
    x, y = S.make_data(p['n'], p['seed'])
    shared = kex()
    shared_repr = repr(shared)
    def model(x, y): return GPModel(S.shape(x, 'col'), S.shape(y, 'col')) if p['default'] else GPModel(S.shape(x, 'col'), S.shape(y, 'col'), shared)
    objs = [Obj(model(x, y), x, y)]
    w = World(ctx, 'real' if p['real'] else 'script', p['seed'])
    w.max_iters = 6
    np.random.seed(p['seed'])
    with w:
        views(ctx, objs[0], {'view': 'interpret', 'i': 0}, 'before any fit')
        for n, op in enumerate(p['ops']):
            o = objs[op['on'] % len(objs)]
            when = f'after operation {n + 1} ({op["op"]})'
            untouched = [(q, fingerprint(q.m)) for q in objs if q is not o]
            new = apply(p, ctx, w, o, op, objs, model)
            if new is not None and len(objs) < 5: objs.append(new)
            ctx.log(n, op['op'], fingerprint(o.m))
            ctx.state(op['op'], p['ops'][n - 1]['op'] if n else '', o.fit is not None, op['exc'] if op['op'] == 'fail' else '')
            for q, f in untouched: ctx.check(fingerprint(q.m) == f, 'other-model', lambda: f'{when} on a model, another model (a copy or for the same kernel) changed')
            for v in op['views']: views(ctx, objs[v['on'] % len(objs)], v, when)
            ctx.check(repr(shared) == shared_repr, 'kernel-expression', lambda: f'{when}, the kernel expression {shared_repr} is now {shared!r}')
        for o in objs:
            for j in range(2):
                for v in ('predict', 'interpret', 'score', 'sops', 'quantiles'): views(ctx, o, {'view': v, 'i': j}, 'at the end')
    ctx.nontrivial = any(o.fit is not None for o in objs)
    ctx.ran('models with real optimisers' if p['real'] else 'models with scripted optimisers')


def fingerprint(m):
    gp = m.model
    return [repr(m.kernel_expression), h64(np.asarray(m.X).tobytes(), np.asarray(m.Y).tobytes()), None if gp is None else ([hexf(v) for v in gp.param_array], hexf(gp.log_likelihood()), np.asarray(gp.X).tolist())]


def settings(op):
    k = {}
    if op['restarts'] is not None: k['restarts'] = op['restarts']
    if op['optimiser'] is not None: k['optimiser'] = op['optimiser']
    if op['robust']: k['robust'] = True
    return k


def fitted(ctx, w, o, op, what, planned = None, at = None):
    '''Fit a model, possibly with a planned failure or an interrupt at a line; returns whether it succeeded'''
    kw = settings(op)
    fault = {'on': True}
    w.fault_of = lambda sig, attempt: planned if planned and fault['on'] else None
    w.outcome = lambda m, sig, attempt, i: np.array([2.6 * unit('end', op['seed'], i, j) - 1 for j in range(len(m.optimizer_array))])
    np.random.seed(op['seed'])
    before = len(w.events)
    old = o.m.model
    n = kw.get('restarts', o.restarts)
    error, lines = None, None
    fit = lambda: o.m.fit(**kw)
    try:
        if at is None: fit()
        else:
            with Lines(at, lambda: make_exc(op['exc'], 'interrupt')) as lines: fit()
    except (Exception, KeyboardInterrupt, SystemExit) as e: error = e
    finally: w.fault_of = lambda sig, attempt: None
    evs = w.events[before:]
    if 'restarts' in kw and error is None: o.restarts = kw['restarts']
    elif 'restarts' in kw: o.restarts = o.m.restarts if o.m.restarts in (o.restarts, kw['restarts']) else 'inconsistent' # The given number may have been taken note of or not
    if n is None:
        ctx.check(isinstance(error, ValueError) or (lines is not None and lines.fired is error), 'no-restarts', lambda: f'{what} without any number of restarts: {error!r} rather than a ValueError')
        return False
    if error is None:
        ctx.check(not [e for e in evs if e[0] == 'fail'] or op['robust'], 'swallowed', lambda: f'{what}: an error during the fit was not raised')
        done = finished(o, evs)
        ctx.check(len(done) == 1 and o.m.model is not None and o.m.model is not old, 'not-fitted', lambda: f'{what} returned without a new fit: {evs}')
        asked = [e[3] for e in evs if e[0] == 'restarts'] or [len([e for e in evs if e[0] == 'optimise'])]
        ctx.check(asked == [n] or (lines is not None and lines.fired is not None), 'restarts', lambda: f'{what} ran {asked} restarts; the number in force is {n}')
        adopt(ctx, o, done[0])
        return True
    injected = getattr(error, 'sim_token', None) is not None
    if not injected and not isinstance(error, np.linalg.LinAlgError): raise error
    if not injected: ctx.probe('numerically impossible fits')
    if o.m.model is not old: # Interrupted after the model was replaced: must then be in every view
        done = finished(o, evs)
        ctx.check(bool(done) and lines is not None, 'half-fitted', lambda: f'{what} failed with {error!r}, but the model holds an unfinished fit')
        adopt(ctx, o, done[0])
    return False


def finished(o, evs):
    '''The likelihoods of the fits which were finished (that of the model as it is if the restarts were not run by GPy)'''
    done = [e[3] for e in evs if e[0] == 'fitted']
    if not done and o.m.model is not None and not any(e[0] == 'restarts' for e in evs): done = [float(o.m.model.log_likelihood())]
    return done


def adopt(ctx, o, ll):
    o.fit = Fit(o.m.model, np.asarray(o.x, float), np.asarray(o.y, float), ll)


def apply(p, ctx, w, o, op, objs, model):
    kind = op['op']
    what = f'a fit with {settings(op)}'
    if kind == 'fit': fitted(ctx, w, o, op, what)
    elif kind == 'again': fitted(ctx, w, o, dict(op, restarts = None), what)
    elif kind == 'fail': fitted(ctx, w, o, dict(op, robust = False), what, {'at': op['at'], 'j': min(op['j'], (op['restarts'] or o.restarts or 1) - 1), 'exc': op['exc'], 'token': f'<{op["seed"]}>'})
    elif kind == 'interrupt':
        if (op['restarts'] or o.restarts) is None: return
        trial = model(o.x, o.y)
        trial.restarts = o.restarts
        np.random.seed(op['seed'])
        t = Obj(trial, o.x, o.y, None, o.restarts)
        with Lines() as l: fitted(ctx, w, t, op, what)
        at = max(1, l.n - int(8 * op['frac'] * 2)) if op['frac'] < 0.5 else 1 + int(l.n * (op['frac'] - 0.5) * 2) # Near the end or anywhere
        if 0.25 < op['frac'] < 0.75: at = l.spot(op['seed'] % 10000)
        fitted(ctx, w, o, op, what, None, at)
        ctx.fault('interrupted fit')
    elif kind == 'data': # New data, for the next fit
        o.x, o.y = S.make_data(3 + op['j'] + p['n'] % 3, op['seed'])
        o.m.X, o.m.Y = S.shape(o.x, 'col'), S.shape(o.y, 'col')
    elif kind == 'copy': return Obj(copy.deepcopy(o.m), o.x, o.y, o.fit and copy.copy(o.fit), o.restarts)
    elif kind == 'pickle': return Obj(pickle.loads(pickle.dumps(o.m)), o.x, o.y, o.fit and copy.copy(o.fit), o.restarts)
    elif kind == 'other': # Another model for the same kernel expression and data
        return Obj(model(o.x, o.y), o.x, o.y)
    elif kind == 'view-interrupted':
        if o.fit is None: return
        f = [lambda: o.m.sum_of_prods_kex, o.m.interpret, lambda: o.m.predict(np.array([[0.5], [2.]])), lambda: o.m.compute_utility(Odd)][op['j']  if op['frac'] < 0.8 else 3]
        trial = copy.deepcopy(o.m)
        tf = [lambda: trial.sum_of_prods_kex, trial.interpret, lambda: trial.predict(np.array([[0.5], [2.]])), lambda: trial.compute_utility(Odd)][op['j'] if op['frac'] < 0.8 else 3]
        with Lines() as l: tf()
        with Lines(l.spot(op['seed'] % 10000) if op['seed'] % 2 else 1 + int(l.n * op['frac']), lambda: make_exc(op['exc'], 'interrupt')) as l:
            try: f()
            except BaseException as e:
                if e is not l.fired: raise
        if l.fired is not None: ctx.fault('interrupted view')
    elif kind == 'touch-views': # What a user does with what views return
        if o.fit is None: return
        r = o.m.predict(POINTS[:, None].copy())
        for v in r.values(): np.asarray(v)[...] = 7.
        views(ctx, o, {'view': 'predict', 'i': 3}, 'after predicting at the same points (and changing the arrays which were returned)')
    else: raise InvalidPlan(kind)


def variant(ctx, m, f, K, at, j, name, tol, when):
    '''Predictions with their other arguments'''
    if j > 3: return
    from GPy.kern import Kern
    x = at[:, None]
    Ks, Kss = R.cov(f.tree, f.x, at), R.cov(f.tree, at)
    args, tree = {}, f.tree
    if j == 0: args['full_cov'] = True
    if j in (1, 3): args['include_likelihood'] = False
    if j == 3: args['full_cov'] = True
    if j == 2: # Of a component
        kern = next((q for q in m.model.kern.parameters if isinstance(q, Kern)), m.model.kern)
        args['kern'], tree = kern, R.tree(kern)
    levels = [(2.5, 97.5), (10, 90), (30., 60.)][len(f.y) % 3]
    if levels != (2.5, 97.5): args['quantiles'] = levels
    r = ctx.call(f'predicting with {list(args)} {when}', m.predict, x, **args)
    if j == 2 and not R.well_conditioned(lambda t: R.cov(t, np.append(f.x, at)), tree): return
    Ky = K + (f.noise + 1e-8) * np.eye(len(f.y))
    Ks, Kss = R.cov(tree, f.x, at), R.cov(tree, at)
    mean, cov = Ks.T @ np.linalg.solve(Ky, f.y), Kss - Ks.T @ np.linalg.solve(Ky, Ks)
    with_noise = cov + f.noise * np.eye(len(at))
    want = with_noise if j == 0 else np.diag(cov) if j == 1 else cov if j == 3 else np.diag(with_noise)
    got = np.asarray(r['covariance'], float)
    ctx.check(np.allclose(np.ravel(r['mean']), mean, **tol), 'prediction', lambda: f'{name}: the predictive mean at {at.tolist()} with {list(args)} is {r["mean"].tolist()} instead of {mean}')
    if np.all(np.diag(cov) > 1e-6 * np.abs(K).max()): ctx.check(np.allclose(got if j in (0, 3) else got.ravel(), want, rtol = 2e-3, atol = 1e-4 * (1 + np.abs(K).max())), 'prediction', lambda: f'{name}: the predictive covariance at {at.tolist()} with {list(args)} is {got.tolist()} instead of {want.tolist()}')
    sd = np.sqrt(np.diag(with_noise))
    if np.all(np.diag(cov) > 1e-6 * np.abs(K).max()):
        for q, side in zip(levels, ('low_quantile', 'high_quantile')):
            ctx.check(np.allclose(np.ravel(r[side]), mean + norm.ppf(q / 100) * sd, rtol = 5e-3, atol = 5e-3 * (1 + np.abs(K).max() + np.abs(f.y).max())), 'quantiles', lambda: f'{name}: the {side} at {at.tolist()} with {list(args)} is {r[side].tolist()} for mean {mean} and deviation {sd}')
    ctx.probe(f'predictions with {list(args)[0]}')


def views(ctx, o, v, when):
    m, f = o.m, o.fit
    kind, i = v['view'], v['i']
    if f is None:
        if kind in ('interpret', 'sops', 'quantiles'):
            r, e = ctx.attempt('a view', (m.interpret if kind == 'interpret' else lambda: m.sum_of_prods_kex))
            ctx.check(isinstance(e, ValueError), 'view-before-fit', lambda: f'{when} (never successfully fitted), {kind} gives {str(r)[:200]} or {e!r} rather than a ValueError')
        return
    name = f'{when}, {m.kernel_expression} last fitted with {dict(zip(m.model.parameter_names_flat(include_fixed = True), f.params))}'
    before = fingerprint(m)
    ctx.check([float(q) for q in m.model.param_array] == f.params, 'parameters', lambda: f'{name} has other parameters: {[float(q) for q in m.model.param_array]}')
    comparable = True
    with np.errstate(all = 'ignore'):
        K = R.cov(f.tree, f.x)
        ll, cond = R.log_likelihood(K, f.noise, f.y)
        if not np.all(np.isfinite(K)) or cond > 1e7 or f.noise < 1e-5 * np.abs(K).max(): comparable = False; ctx.probe('too ill-conditioned to compare numerically')
        if kind in ('predict', 'quantiles'):
            at = POINTS if i % 4 == 3 else np.array([round(20 * unit('at', i, j) - 8, 3) for j in range(1 + i % 4)])
            q = (2.5, 97.5) if kind == 'predict' else [(2.5, 97.5), (10., 90.), (25, 80.5), (90., 10.), (60, 75), (50., 5.)][i % 6] # The two are answered in the order asked for
            r = ctx.call(f'predicting {when}', m.predict, at[:, None]) if kind == 'predict' else ctx.call(f'predicting {when}', m.predict, at[:, None], q)
            mean, var, lo, hi = [np.asarray(r[k], float).ravel() for k in ('mean', 'covariance', 'low_quantile', 'high_quantile')]
            key = (at.tobytes(), q)
            now = [float(z) for k in sorted(r) for z in np.ravel(np.asarray(r[k], float))]
            ctx.check(not comparable or np.allclose(f.predictions.setdefault(key, now), now, rtol = 1e-5, atol = 1e-7 * (1 + np.abs(f.y).max())), 'prediction-changed', lambda: f'{name}: predicting at {at.tolist()} again gives {r}, before it was different')
            tol = dict(rtol = 2e-3, atol = 2e-3 * (1 + np.abs(f.y).max()))
            sd = np.sqrt(var)
            ctx.check(np.allclose(lo, mean + norm.ppf(q[0] / 100) * sd, rtol = 1e-4, atol = 1e-6) and np.allclose(hi, mean + norm.ppf(q[1] / 100) * sd, rtol = 1e-4, atol = 1e-6), 'quantiles', lambda: f'{name}: quantiles {q} at {at.tolist()} are {lo} and {hi} for mean {mean} and variance {var}')
            if comparable:
                wm, wv = R.posterior(K, R.cov(f.tree, f.x, at), np.diag(R.cov(f.tree, at)), f.noise, f.y)
                if R.well_conditioned(lambda t: R.cov(t, np.append(f.x, at)), f.tree):
                    ctx.check(np.allclose(mean, wm, **tol), 'prediction', lambda: f'{name}: the predictive mean at {at.tolist()} is {mean} instead of {wm}')
                    variant(ctx, m, f, K, at, (i // 8) % 6, name, tol, when)
                    ctx.check(np.allclose(var, wv, rtol = 2e-3, atol = 1e-4 * (1 + np.abs(K).max())), 'prediction', lambda: f'{name}: the predictive variance at {at.tolist()} is {var} instead of {wv}')
        elif kind == 'score':
            u = [S.package().BIC, S.package().AIC, Odd][i % 3]
            got = ctx.call(f'scoring {when}', m.compute_utility, u)
            want = u(m.model, f.ll, len(f.x), f.k)
            ctx.check(np.isclose(got, want, rtol = 1e-6, atol = 1e-6), 'score', lambda: f'{name}: {u.__name__} is {got} instead of {want} (likelihood {f.ll}, {len(f.x)} points, {f.k} parameters)')
            ctx.check(m.cached_utility_function == got and m.cached_utility_function_type == u.__name__, 'score', lambda: f'{name}: the cached score is {m.cached_utility_function_type} = {m.cached_utility_function}, but {u.__name__} is {got}')
            if comparable and R.well_conditioned(lambda t: R.cov(t, f.x), f.tree): ctx.check(np.isclose(f.ll, ll, rtol = 1e-3, atol = 1e-3), 'score', lambda: f'{name}: its likelihood is {f.ll}, but that of its data is {ll}')
        elif kind in ('sops', 'interpret'):
            sops = ctx.call(f'the canonical form {when}', lambda: m.sum_of_prods_kex)
            canonical = [sorted((b, [sorted((a, hexf(float(z))) for a, z in ps.items() if z is not None) for ps in pss]) for b, pss in c.parameters.items()) for c in sops.composite_terms]
            if f.canonical is None: f.canonical = canonical
            ctx.check(canonical == f.canonical, 'canonical-form-changed', lambda: f'{name}: its canonical form is now {canonical}, before it was {f.canonical}')
            per = 'STD' if 'STD' in repr(f.tree) else 'PER'
            if np.all(np.isfinite(K)):
                ok = R.same(R.sops_cov(sops, f.x, per), K, rtol = 1e-4)
                ctx.check(ok or not R.well_conditioned(lambda t: R.cov(t, f.x), f.tree), 'canonical-form', lambda: f'{name}: its canonical form is {sops} with {[dict(c.parameters) for c in sops.composite_terms]}, of covariance {R.sops_cov(sops, f.x, per).round(4).tolist()} instead of {K.round(4).tolist()}')
            if kind == 'interpret':
                text = ctx.call(f'the description {when}', m.interpret)
                products = [dict(c.parameters) for c in sops.composite_terms]
                if f.text is None: f.text = text
                ctx.check(text == f.text, 'description-changed', lambda: f'{name} is now described as\n{text}\nbut before as\n{f.text}')
                bad = D.description_error(text, products)
                ctx.check(not bad, 'description', lambda: f'{name}: {bad}')
    ctx.check(fingerprint(m) == before, 'view-changes', lambda: f'{name}: {kind} changed the model, its kernel expression or data')
    ctx.log(kind, hexf(m.model.log_likelihood()))
