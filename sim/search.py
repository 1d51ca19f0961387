'''A simulated search: inputs, production rules, fitters and utilities which record what the code under test does with them.

Fitters: 'ghost' (models which never see GPy), 'serial' and 'pool' (the package's own, over fake GPs with a scripted likelihood),
'script' (the package's own sequential fitter over real GPs whose optimiser outcomes are scripted).'''
import contextlib, functools, io, math, random, re, warnings
import numpy as np

from . import seams
from .core import TooLarge, Violation, InvalidPlan, h64, hexf, unit
from .refmodel import Grammar, RULES
from .seams import World, FakeGP


def package():
    import GPy_ABCD
    return GPy_ABCD

def rules_by_name():
    return {k: v for d in package().production_rules_by_type.values() for k, v in d.items()}


def land(kind, seed, key, size):
    u = unit(seed, key)
    if kind == 'cont': return 50 * u
    if kind == 'ties': return 5. * int(4 * u)
    if kind == 'near': return 5 + 0.4 * u
    if kind == 'hair': return 7 + u * 10. ** -(4 + h64('hair', seed, key) % 7) # Differences down to 1e-10
    if kind == 'flat': return 0.
    if kind == 'inf': return float('-inf') if u < 0.3 else float('inf') if u > 0.97 else 50 * u
    if kind == 'growth': return 3. * size + u
    if kind == 'shrink': return -3. * size + u
    if kind == 'const-inf': return float('-inf')
    raise InvalidPlan(kind)

LANDS = ['cont', 'cont', 'ties', 'ties', 'near', 'near', 'hair', 'hair', 'flat', 'inf', 'growth', 'shrink', 'shrink', 'const-inf']


def Hybrid(m, ll, n, k): return -ll + 0.37 * n + 1.5 * k
def Quality(m, ll, n, k): return np.float64(2 * k - ll)

def formula(name, ll, n, k):
    '''The exported criteria, as published'''
    if name == 'BIC': return k * math.log(n) - 2 * ll
    if name == 'AIC': return 2 * k - 2 * ll
    return 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1)

def utilities():
    G = package()
    return {'BIC': G.BIC, 'AIC': G.AIC, 'AICc': G.AICc, 'Hybrid': Hybrid, 'Quality': Quality}


def gen(r, tier, fitters = ('ghost',) * 5 + ('serial',), rounds = (0, 1, 1, 2, 2, 3, 4), small = False, n_rules = (1, 1, 2, 2, 3, 4)):
    '''The parameters of a search'''
    g = Grammar()
    fitter = r.choice(fitters)
    n_start = r.choice([1, 1, 2, 3, 4])
    start, seen = [], set()
    while len(start) < n_start:
        if r.random() < 0.55: s = r.choice(g.bases)
        else: s = g.code(g.root(g.random(r, r.choice([0, 0, 1]))))
        c = g.root(g.parse(s) if '(' in s else s)
        if c not in seen and g.size(c) <= 5: seen.add(c); start.append(s)
    rules = r.sample(RULES, r.choice(n_rules))
    p = {'start': start, 'rules': rules, 'fitter': fitter, 'utility': r.choice(['BIC', 'BIC', 'AIC', 'AICc', 'Hybrid', 'Quality']),
         'land': r.choice(LANDS), 'lseed': r.randrange(10 ** 6), 'shuffle': r.random() < 0.3, 'xform': r.choice(['col', 'col', '1d', 'list', 'row-list', 'int']),
         'restarts': r.choice([1, 1, 2, 3, 5]), 'optimiser': r.choice(['lbfgsb', 'lbfgsb', 'scg', 'org-bfgs']), 'retries': r.choice([0, 1, 1, 2]), 'verbose': r.random() < 0.2,
         'kw': r.random() < 0.5, 'partial': r.random() < 0.15, 'scored': r.random() < 0.1, 'n': 5}
    if p['utility'] == 'AICc': p['n'] = 60
    else: p['n'] = r.choice([3, 5, 8])
    segs = []
    for i in range(r.choice([1, 1, 2, 2, 3])):
        k = r.choice(rounds)
        if small or fitter != 'ghost': k = min(k, 2)
        segs.append({'rounds': k, 'beam': gen_beam(r, k)})
    while sum(s['rounds'] for s in segs) > 5: segs.pop()
    if not segs: segs = [{'rounds': 1, 'beam': 1}]
    if fitter != 'ghost' or small:
        p['rules'] = rules[:1] if fitter != 'ghost' else rules[:2]
        top = 1 if fitter in ('script', 'real') else 2
        for s in segs: s['beam'] = min(s['beam'], top) if isinstance(s['beam'], int) else [min(b, top) for b in s['beam']]
        if fitter != 'ghost' and p['land'] == 'growth': p['land'] = 'shrink'
    p['segs'] = segs
    return p


def gen_beam(r, rounds):
    return r.choice([1, 1, 2, 3, 50 if r.random() < 0.1 else 1, [r.choice([1, 1, 2, 3]) for _ in range(max(1, rounds))],
                     [r.choice([1, 2, 3, 0]) for _ in range(r.choice([1, 2, 3, 5]))]])

def beams(beam, rounds):
    '''The reference reading of a beam argument'''
    if isinstance(beam, int): return [beam] * rounds
    return (list(beam) + [beam[-1]] * rounds)[:rounds]

def valid(p):
    if not p['start'] or not p['rules'] or not p['segs'] or p['n'] < 2 or p['restarts'] < 1: raise InvalidPlan('empty')
    if p['utility'] == 'AICc' and p['n'] < 60: raise InvalidPlan('AICc')
    for s in p['segs']:
        if s['rounds'] < 0 or (isinstance(s['beam'], list) and not s['beam']): raise InvalidPlan('beam')
    g = Grammar()
    cs = [g.root(g.parse(s) if '(' in s else s) for s in p['start']]
    if len(set(cs)) < len(cs): raise InvalidPlan('start kernels are not distinct')


class Search:
    '''One search world; history is everything observed through its recording seams'''
    def __init__(self, p, ctx, tag = ''):
        self.p, self.ctx, self.tag = p, ctx, tag
        self.grammar = Grammar()
        self.G = package()
        env = {'SumKE': self.G.SumKE, 'ProductKE': self.G.ProductKE, 'ChangeKE': self.G.ChangeKE}
        self.start = [eval(s, env) if '(' in s else s for s in p['start']]
        self.x, self.y = make_data(p['n'], p.get('dseed', p['lseed']))
        self.X, self.Y = shape(self.x, p['xform']), shape(self.y, p['xform'])
        self.history = [] # ('expand', root repr) and ('fit', {...}) in order
        self.out = None
        named = rules_by_name()
        self.rules = [self.recorded(named[n]) for n in p['rules']]
        self.utility = utilities()[p['utility']]
        self.before_fit = lambda call: None # Hooks for injected faults
        self.utility_hook = None
        self.fits = self.candidates = self.fitted = 0
        self.cap = p.get('cap', 900)
        self.logs = []

    def recorded(self, rule):
        @functools.wraps(rule)
        def wrapped(S):
            rec = ('expand', repr(S.root))
            if not self.history or self.history[-1] != rec: self.history.append(rec)
            res = rule(S)
            self.candidates += sum(len(l) if isinstance(l, list) else 1 for l in res)
            if self.candidates > self.cap: raise TooLarge
            return res
        return functools.partial(wrapped) if self.p.get('partial') else wrapped # (Any callable can be a rule, even one without a name)

    def landscape(self, key, size): return land(self.p['land'], self.p['lseed'], key, size)

    def ghost(self, X, Y, kex):
        from GPy_ABCD.Models.model import GPModel
        m = GPModel(X, Y, kex)
        key = repr(self.grammar.canon(repr(kex)))
        gp = FakeGP(X, Y, None, key, 0)
        gp.ll, gp.n_params = self.landscape(key, len(re.findall('LIN|WN|PER|SE|\'C\'', key))), 1 + h64(key) % (2 if self.p['land'] in ('flat', 'hair') else 6)
        m.model, m.restarts = gp, self.p['restarts']
        return m

    def fitter(self, X, Y, k_exprs, restarts = 5, optimiser = 'lbfgsb', max_retries = 1):
        call = {'n': self.fits, 'X': X, 'Y': Y, 'kexs': list(k_exprs), 'reprs': [repr(k) for k in k_exprs], 'restarts': restarts, 'optimiser': optimiser, 'retries': max_retries, 'models': None, 'tag': self.tag}
        self.fits += 1
        self.history.append(('fit', call))
        self.ctx.log(self.tag, 'fit', len(call['reprs']), h64(*sorted(map(self.grammar.canon, call['reprs']), key = repr)))
        self.before_fit(call)
        kind = self.p['fitter']
        self.fitted += len(call['reprs'])
        if self.fitted > {'ghost': 10 ** 9, 'script': 60, 'real': 25}.get(kind, 70): raise TooLarge
        if kind == 'ghost': ms = [self.ghost(X, Y, k) for k in k_exprs]
        elif kind == 'pool': ms = self.G.fit_mods_parallel_processes(X, Y, k_exprs, restarts, optimiser, max_retries)
        else: ms = self.G.fit_mods_not_parallel(X, Y, k_exprs, restarts, optimiser, max_retries)
        if self.p['shuffle']:
            ms = sorted(ms, key = lambda m: unit('order', self.p['lseed'], self.key(m))) # In whatever order, but the same for the same kernels
        if self.p.get('scored'): # Models which the fitter has already scored by criteria of its own
            for m in ms:
                u = unit('scored', self.p['lseed'], repr(self.key(m)))
                if u < 0.7: m.compute_utility([self.utility, Hybrid, Quality, self.G.AIC][int(u * 40) % 4])
                if u < 0.2: m.cached_utility_function = -1e3 * u
        call['models'] = list(ms)
        return ms

    def util(self):
        hook = self.utility_hook
        if hook is None: return self.utility
        @functools.wraps(self.utility)
        def u(m, ll, n, k):
            hook()
            return self.utility(m, ll, n, k)
        return u

    # Driving

    def explore(self, rounds, beam, verbose = None):
        p = self.p
        with self.silenced():
            return tuple(self.G.explore_model_space(self.X, self.Y, start_kernels = self.start, p_rules = self.rules, utility_function = self.util(), rounds = rounds, beam = beam,
                         restarts = p['restarts'], model_list_fitter = self.fitter, optimiser = p['optimiser'], max_retries = p['retries'], verbose = p['verbose'] if verbose is None else verbose))

    def resume(self, state, rounds, beam, verbose = None):
        p = self.p
        v = p['verbose'] if verbose is None else verbose
        sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = state
        with self.silenced():
            if p['kw']:
                return tuple(self.G.model_search_rounds(X = self.X, Y = self.Y, sorted_models = sorted_models, tested_models = tested_models, tested_k_exprs = tested_k_exprs, expanded = expanded,
                             not_expanded = not_expanded, model_list_fitter = self.fitter, p_rules = self.rules, utility_function = self.util(), rounds = rounds, beam = beam, restarts = p['restarts'],
                             optimiser = p['optimiser'], max_retries = p['retries'], verbose = v))
            return tuple(self.G.model_search_rounds(self.X, self.Y, sorted_models, tested_models, tested_k_exprs, expanded, not_expanded, self.fitter, self.rules, self.util(),
                                                    rounds, beam, p['restarts'], p['optimiser'], p['retries'], v))

    @contextlib.contextmanager
    def silenced(self):
        out = io.StringIO()
        self.out = out
        with contextlib.redirect_stdout(out): yield
        self.logs.append(out.getvalue())

    def world(self, seed = 0):
        w = World(self.ctx, 'real' if self.p['fitter'] == 'real' else 'script' if self.p['fitter'] == 'script' else 'fake', seed or self.p['lseed'], self.p.get('cpus', 2))
        w.landscape = lambda sig: self.landscape(sig, len(re.findall('[A-Za-z]+', sig)))
        w.sched = {'speeds': self.p.get('speeds', [1]), 'deaths': []}
        return w

    def run(self, segs = None, call = None):
        '''Run all segments; returns the state after each'''
        states, call = [], call or self.ctx.call
        for i, s in enumerate(segs or self.p['segs']):
            if i == 0: st = call('explore_model_space', self.explore, s['rounds'], s['beam'])
            else: st = call('model_search_rounds', self.resume, states[-1], s['rounds'], s['beam'])
            states.append(st)
        return states

    # Observations

    def score(self, m):
        '''The requested utility, computed independently of the code under test from the model's own fit'''
        gp = m.model
        return self.utility(gp, gp.log_likelihood(), len(gp.X), gp._size_transformed())

    def key(self, m): return self.grammar.canon(repr(m.kernel_expression))


def make_data(n, seed):
    x = [round(10 * i / n + 3 * unit('x', seed, i) - 4, 4) for i in range(n)]
    y = [round(3 * unit('y', seed, i) + 0.3 * x[i], 4) for i in range(n)]
    return x, y

def shape(v, form):
    if form == 'col': return np.array(v)[:, None]
    if form == '1d': return np.array(v)
    if form == 'list': return list(v)
    if form == 'row-list': return [[a] for a in v] if False else np.array(v, order = 'F')[:, None].copy()
    if form == 'int': return np.array([int(10 * a) for a in v])
    raise InvalidPlan(form)


def model_digest(m):
    '''Everything a user sees of a model, as text'''
    gp = m.model
    d = [repr(m.kernel_expression), m.restarts, hexf(m.cached_utility_function), m.cached_utility_function_type]
    if gp is None: return d
    d += [hexf(gp.log_likelihood()), gp._size_transformed()]
    if not isinstance(gp, FakeGP): d += [[hexf(v) for v in gp.param_array]]
    return d

def state_digest(state):
    sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = state
    return {'sorted': [model_digest(m) for m in sorted_models], 'tested': [[model_digest(m) for m in l] for l in tested_models], 'kexs': [repr(k) for k in tested_k_exprs],
            'expanded': [model_digest(m) for m in expanded], 'not_expanded': [model_digest(m) for m in not_expanded]}

def snapshot(state):
    '''Identities and contents of a search state, to tell whether anything in it was touched'''
    sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = state
    ids = lambda l: [id(x) for x in l]
    return {'ids': [ids(sorted_models), [ids(l) for l in tested_models], ids(tested_k_exprs), ids(expanded), ids(not_expanded)], 'contents': state_digest(state)}

def first_difference(a, b, path = ''):
    if type(a) != type(b): return f'{path}: {str(a)[:150]} instead of {str(b)[:150]}'
    if isinstance(a, dict):
        for k in b:
            if k not in a: return f'{path}/{k} is missing'
            d = first_difference(a[k], b[k], f'{path}/{k}')
            if d: return d
        return ''
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f'{path}[{i}]')
            if d: return d
        return '' if len(a) == len(b) else f'{path}: {len(a)} items instead of {len(b)} ({str(a)[:200]} / {str(b)[:200]})'
    return '' if a == b else f'{path}: {str(a)[:150]} instead of {str(b)[:150]}'
