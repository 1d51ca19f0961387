'''C14: every fit uses the requested data, restarts and optimiser, and keeps the best'''
import numpy as np

from .. import search as S
from ..core import InvalidPlan, h64, hexf, unit
from ..refmodel import Grammar
from ..seams import World, make_exc, RETRIABLE

def settings(r): return {'restarts': r.choice([1, 1, 2, 3, 4, 7]), 'optimiser': r.choice(['lbfgsb', 'scg', 'org-bfgs', 'simplex', 'adam']), 'retries': r.choice([0, 1, 2])}

def gen(r, tier, idx):
    if r.random() < 0.5: # Whole searches
        p = S.gen(r, tier, fitters = ('serial', 'serial', 'pool', 'pool', 'script'), small = True, rounds = (0, 1, 1, 2), n_rules = (1,))
        p['mode'] = 'search'
        p['xform'] = r.choice(['col', '1d', '1d', 'list', 'int', 'row-list'])
        p['yform'] = r.choice([p['xform'], p['xform'], 'col', '1d', 'list'])
        one = settings(r)
        p['each'] = [dict(one) if r.random() < 0.5 else settings(r) for _ in p['segs']] # Continuations may ask for other settings
        p['rate'] = r.choice([0, 0, 0.1, 0.4])
        p['defaults'] = r.random() < 0.15
        p['cpus'] = r.choice([1, 2, 3, 4])
        p['speeds'] = [r.choice([1, 1, 2, 7]) for _ in range(4)]
        return p
    g = Grammar(se = True)
    for _ in range(50):
        c = g.root(g.random(r, r.choice([0, 0, 1])))
        if g.size(c) <= 4: break
    n = r.choice([1, 2, 3, 5, 8, 12])
    entry = r.choice(['fit', 'fit', 'robust', 'robust', 'one', 'refit', 'kex', 'kex'])
    p = {'mode': 'fit', 'kex': g.code(c), 'n': r.choice([3, 5, 8]), 'seed': r.randrange(10 ** 6), 'entry': entry, 'retries': r.choice([0, 1, 2]), 'real': r.random() < 0.35,
         'restarts': n, 'optimiser': r.choice(['lbfgsb', 'lbfgsb', 'scg', 'org-bfgs', None]), 'verbose': r.random() < 0.2, 'extra': r.random() < 0.3, 'ties': r.random() < 0.15}
    if entry == 'refit' and r.random() < 0.6: p['before'] = r.choice([1, 2, 4, 9]) # A first fit with another number of restarts
    if entry == 'kex':
        p['kex'] = g.code(g.random(r, r.choice([0, 0, 1])) if r.random() < 0.5 else c) # As a user writes it
        p['xform'], p['yform'], p['score'], p['robust'] = r.choice(['col', '1d', 'list']), r.choice(['col', '1d', 'list']), r.choice(['BIC', 'AIC', None]), r.random() < 0.4
    k = r.choice([0, 0, 1, 2, n])
    p['fails'] = sorted(r.sample(range(n), min(k, n - 1) if (entry == 'robust' or p.get('robust')) and r.random() < 0.9 else min(k, n)))
    p['excs'] = [r.choice(RETRIABLE) for _ in p['fails']]
    return p


def run(p, ctx): return (searches if p['mode'] == 'search' else fits)(p, ctx)


def searches(p, ctx):
    S.valid(p)
    if len(p['each']) != len(p['segs']): raise InvalidPlan('settings')
    s = S.Search(p, ctx)
    s.X, s.Y = S.shape(s.x, p['xform']), S.shape(s.y, p['yform'])
    col = lambda v: np.array(v, float).reshape(-1, 1)
    data = h64(col(s.X).tobytes(), col(s.Y).tobytes())
    w = s.world()
    current = [None]
    def fault_of(sig, attempt):
        h = h64('fails', sig, attempt, p['lseed'])
        if attempt - current[0]['base'].get(sig, 0) >= current[0]['retries'] or (h % 1000) / 1000 >= p['rate']: return None
        return {'at': ['construct', 'restart'][h // 7 % 2], 'j': h // 3 % current[0]['restarts'], 'exc': RETRIABLE[h // 97 % len(RETRIABLE)], 'token': ''}
    w.fault_of = fault_of
    states = []
    with w:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for i, (seg, one) in enumerate(zip(p['segs'], p['each'])):
                if p['defaults'] and i == 0: one = {'restarts': 5, 'optimiser': 'lbfgsb', 'retries': 1}
                s.p = dict(p, **one)
                current[0] = dict(one, base = {k: v + 1 for k, v in w.attempts.items()})
                before, calls = len(w.events), s.fits
                if i == 0 and p['defaults']: st = ctx.call('explore_model_space', defaults, s, seg)
                elif i == 0: st = ctx.call('explore_model_space', s.explore, seg['rounds'], seg['beam'])
                else: st = ctx.call('model_search_rounds', s.resume, states[-1], seg['rounds'], seg['beam'])
                states.append(st)
                verify(ctx, s, w.events[before:], one, data, f'{"the search" if i == 0 else f"continuation {i}"} (data given as {p["xform"]}/{p["yform"]}, fitter {p["fitter"]})', p)
                fresh = [c for k, c in s.history if k == 'fit'][calls:]
                for c in fresh:
                    for m in c['models']:
                        ctx.check(m.restarts == one['restarts'], 'restarts', lambda: f'{m.kernel_expression} was fitted with {m.restarts} restarts; {one["restarts"]} were requested')
                        X, Y = np.asarray(m.X, float), np.asarray(m.Y, float)
                        ctx.check(h64(X.tobytes(), Y.tobytes()) == data and X.shape == Y.shape == (p['n'], 1), 'data', lambda: f'the model of {m.kernel_expression} holds other data ({X.shape}, {Y.shape})')
    ctx.nontrivial = any(e[0] == 'fitted' for e in w.events)
    ctx.state(p['fitter'], p['xform'], p['yform'], [(e['restarts'], e['optimiser']) for e in p['each']])
    ctx.log(p['fitter'], len(w.events))
    ctx.ran('searches with fitter ' + p['fitter'])


def defaults(s, seg):
    with s.silenced(): return tuple(s.G.explore_model_space(s.X, s.Y, s.start, s.rules, s.util(), seg['rounds'], seg['beam'], model_list_fitter = s.fitter, verbose = s.p['verbose']))


def verify(ctx, s, events, one, data, what, p):
    runs, failed = {}, set()
    for e in events:
        if e[0] == 'construct':
            ctx.check(e[3] == e[4] == (p['n'], 1), 'data', lambda: f'{what}: {e[1]} was fitted to data of shapes {e[3]}, {e[4]}; the data has {p["n"]} points of one variable')
            ctx.check(e[5] == data, 'data', lambda: f'{what}: {e[1]} was fitted to other data than the given (attempt {e[2] + 1})')
            runs.setdefault(e[1:3], 0)
        elif e[0] == 'restarts': ctx.check(e[3] == one['restarts'], 'restarts', lambda: f'{what}: {e[1]} (attempt {e[2] + 1}) was fitted with {e[3]} restarts; {one["restarts"]} were requested')
        elif e[0] == 'optimise':
            ctx.check(e[4] == one['optimiser'], 'optimiser', lambda: f'{what}: {e[1]} (attempt {e[2] + 1}) was fitted with optimiser {e[4]}; {one["optimiser"]} was requested')
            runs[e[1:3]] = runs.get(e[1:3], 0) + 1
        elif e[0] == 'fail': failed.add(e[1:3])
    for k, n in runs.items():
        if k not in failed: ctx.check(n == one['restarts'], 'restarts', lambda: f'{what}: {k[0]} (attempt {k[1] + 1}) made {n} optimisation runs; {one["restarts"]} restarts were requested')


def fits(p, ctx):
    G = S.package()
    from GPy_ABCD.Models.model import GPModel
    n = p['restarts']
    if n < 1 or len(p['fails']) != len(p['excs']) or any(j >= n for j in p['fails']): raise InvalidPlan('restarts')
    env = {'SumKE': G.SumKE, 'ProductKE': G.ProductKE, 'ChangeKE': G.ChangeKE}
    kex = eval(p['kex'], env)
    if p['entry'] != 'kex': kex = kex._initialise()
    elif Grammar().size(Grammar(se = True).canon(repr(kex))) > 6: raise InvalidPlan('size')
    x, y = S.make_data(p['n'], p['seed'])
    X, Y = S.shape(x, p.get('xform', 'col')), S.shape(y, p.get('yform', 'col'))
    w = World(ctx, 'real' if p['real'] else 'script', p['seed'])
    w.max_iters = 5
    fails = dict(zip(p['fails'], p['excs']))
    ends = []
    first = [True]
    def end(m, sig, attempt, i):
        u = 'same' if p['ties'] and i % 2 else i
        return np.array([3 * unit('end', p['seed'], attempt, u, j) - 1.5 for j in range(len(m.optimizer_array))])
    w.outcome = end
    from .. import seams
    real = seams.SimGPRegression.optimize
    def optimize(self, *a, **k): # Failures of single restarts, and a record of where each one ended
        i = self.__dict__.get('_sim_runs', 0)
        fail = i in fails and (first[0] or p['entry'] != 'one')
        if fail: # Before the optimiser runs, or after it has moved the parameters
            self.__dict__['_sim_runs'] = i + 1
            if i % 2:
                try: self.optimizer_array = np.array([5 * unit('lost', p['seed'], i, j) - 2 for j in range(len(self.optimizer_array))])
                except np.linalg.LinAlgError: pass
            raise lose(self, i)
        r = real(self, *a, **k)
        ends.append((self.__dict__['_sim_id'][1], i, float(self.log_likelihood()), [hexf(v) for v in self.param_array]))
        return r
    def lose(self, i):
        ctx.fault(f'restart:{fails[i]}')
        if p['entry'] == 'one': first[0] = False
        return make_exc(fails[i], f'<{i}>')
    seams.SimGPRegression.optimize = optimize
    robust = p['entry'] == 'robust' or bool(p.get('robust'))
    kw = {'restarts': n, 'robust': robust, 'verbose': p['verbose']}
    if p['optimiser']: kw['optimiser'] = p['optimiser']
    if p['extra'] and p['real']: kw['max_iters'] = 3
    np.random.seed(p['seed'])
    import contextlib, io, warnings
    with w, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if p['entry'] == 'one':
            from GPy_ABCD.Models.modelSearch import fit_one_model
            model, error = ctx.attempt('fit_one_model', fit_one_model, X, Y, kex, n, p['optimiser'] or 'lbfgsb', p['retries'])
        elif p['entry'] == 'kex':
            given = repr(kex)
            args = (X, Y, kex, n) + ((getattr(G, p['score']),) if p['score'] else ())
            model, error = ctx.attempt('fit_kex', G.fit_kex, *args, **{k: v for k, v in kw.items() if k not in ('restarts', 'verbose')})
            ctx.check(repr(kex) == given, 'changed', lambda: f'fit_kex changed the given kernel expression {given} to {kex!r}')
        else:
            m = GPModel(X, Y, kex)
            if p['entry'] == 'refit':
                saved = dict(fails)
                fails.clear()
                first_fit = ctx.attempt('a first fit', m.fit, **dict(kw, robust = True, **({'restarts': p['before']} if p.get('before') else {})))[1]
                if first_fit is not None: ctx.probe('numerically impossible fits'); return
                if not p.get('before'): kw.pop('restarts')
                fails.update(saved)
                w.events.clear(); ends.clear()
            model, error = ctx.attempt('a fit', m.fit, **kw)
    seams.SimGPRegression.optimize = real
    if error is not None and getattr(error, 'sim_token', None) is None:
        if isinstance(error, np.linalg.LinAlgError): ctx.probe('numerically impossible fits'); return # Of a real optimiser or of the starting point
        raise error
    what = f'a fit with {kw}, restarts {sorted(fails)} of {n} failing' if p['entry'] != 'one' else f'a fit with {n} restarts and {p["retries"]} retries, restarts {sorted(fails)} of the first attempt failing'
    ctx.nontrivial = n > 1 or bool(fails)
    lost = bool(fails) and (p['entry'] in ('fit', 'refit') or (p['entry'] == 'kex' and not robust) or (p['entry'] == 'one' and p['retries'] < 1))
    ctx.state(p['entry'], n, sorted(fails), p['real'])
    if lost:
        ctx.check(error is not None, 'swallowed', lambda: f'{what} returns without an error')
        return
    ctx.check(error is None, 'gave-up', lambda: f'{what} raised {error!r}')
    gp = model.model
    got = float(gp.log_likelihood()), [hexf(v) for v in gp.param_array]
    attempt = gp.__dict__['_sim_id'][1]
    mine = [e for e in ends if e[0] == attempt]
    ctx.check([e[3] for e in w.events if e[0] == 'restarts' and e[2] == attempt] in ([n], []), 'restarts', lambda: f'{what} asked for {[e[3] for e in w.events if e[0] == "restarts"]} restarts')
    planned = n - (len(fails) if robust else 0)
    if p['entry'] == 'kex':
        g = Grammar(se = True)
        ctx.check(g.canon(repr(model.kernel_expression)) == g.canon(p['kex']), 'kernel', lambda: f'the model of {p["kex"]} has the kernel {model.kernel_expression!r}')
        u = getattr(G, p['score'] or 'BIC')
        ctx.check(np.isclose(model.cached_utility_function, S.formula(u.__name__, got[0], p['n'], gp._size_transformed()), rtol = 1e-6) and model.cached_utility_function_type == u.__name__, 'score', lambda: f'{what}: its {model.cached_utility_function_type} is said to be {model.cached_utility_function}')
    made = [e for e in w.events if e[0] == 'construct']
    want = h64(np.array(X, float).reshape(-1, 1).tobytes(), np.array(Y, float).reshape(-1, 1).tobytes())
    for e in made: ctx.check(e[5] == want and e[3] == e[4] == (p['n'], 1), 'data', lambda: f'{what}: fitted to other data than the given, of shapes {e[3]}, {e[4]}')
    ctx.check(len(mine) == planned, 'restarts', lambda: f'{what}: {len(mine)} optimisation runs succeeded, {planned} expected')
    for e in w.events:
        if e[0] == 'optimise': ctx.check(e[4] == (p['optimiser'] or 'lbfgsb'), 'optimiser', lambda: f'{what}: optimiser {e[4]} was used')
    starts = {h64(e[3]) for e in mine}
    if not mine: return
    best = max(e[2] for e in mine)
    ctx.check(np.isclose(got[0], best, rtol = 1e-6, atol = 1e-6), 'not-the-best', lambda: f'{what} ends with likelihood {got[0]}; its restarts ended with {[round(e[2], 5) for e in mine]}')
    top = [[float.fromhex(v) for v in e[3]] for e in mine if e[2] >= best - 1e-6 - 1e-6 * abs(best)]
    ctx.check(any(np.allclose([float.fromhex(v) for v in got[1]], t, rtol = 1e-6, atol = 1e-9) for t in top), 'not-the-best', lambda: f'{what} does not end with the parameters of its best restart')
    ctx.log(p['entry'], n, sorted(fails), hexf(got[0]), len(starts))
    ctx.ran('single fits with real optimisers' if p['real'] else 'single fits with scripted outcomes')
