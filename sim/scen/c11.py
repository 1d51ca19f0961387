'''C11: searches and fits leave inputs, defaults and each other alone'''
import warnings
import numpy as np

from .. import search as S
from ..core import InvalidPlan, isolated, unit
from ..inject import Lines, Threads
from ..seams import World, make_exc, RETRIABLE

MODES = ['finish', 'finish', 'interrupt', 'interrupt', 'fitter', 'threads', 'threads', 'threads', 'fits', 'sequence']

def gen(r, tier, idx):
    mode = r.choice(MODES)
    n = {'threads': r.choice([2, 2, 3]), 'sequence': 3}.get(mode, 1)
    ps = []
    for _ in range(n):
        q = S.gen(r, tier, fitters = ('ghost',) if mode in ('threads', 'interrupt') else ('ghost',) * 4 + ('serial', 'script'), small = True, rounds = (0, 1, 1, 2), n_rules = (1, 1, 2, 3))
        q['verbose'] = False
        q['segs'] = q['segs'][:2]
        if mode == 'threads': q['segs'] = [{'rounds': min(1, s['rounds']), 'beam': s['beam']} for s in q['segs']]
        q['defaults'] = q['fitter'] == 'ghost' and r.random() < 0.35
        if q['defaults']: q['segs'] = [{'rounds': min(1, s['rounds']), 'beam': r.choice([1, [1], [1, 1]])} for s in q['segs']]
        ps.append(q)
    if mode == 'sequence' and r.random() < 0.5: # Searches alike in all but their data, landscape or one setting
        ps[0].update(fitter = r.choice(['serial', 'script']), defaults = False)
        ps[0]['rules'] = ps[0]['rules'][:1]
        if ps[0]['land'] == 'growth': ps[0]['land'] = 'shrink'
        for j in range(1, n):
            ps[j] = dict(ps[0], lseed = r.randrange(10 ** 6), segs = [dict(g) for g in ps[0]['segs']])
            if r.random() < 0.3: ps[j].update(r.choice([{'utility': r.choice(['BIC', 'AIC', 'Quality'])}, {'land': 'cont'}, {'restarts': r.choice([1, 2])}]))
    p = {'mode': mode, 'ps': ps, 'shared': r.random() < 0.6, 'at': [r.randrange(10000) for _ in range(3)], 'exc': r.choice(RETRIABLE), 'group': r.choice(['Default', 'Extended', 'Original_ABCD']), 'fit': {'n': r.choice([5, 8]), 'kex': None}}
    g = S.Grammar()
    p['fit']['kex'] = r.choice([None, None, g.code(g.root(g.random(r, r.choice([0, 1]))))])
    p['fit']['raw'] = g.code(g.random(r, r.choice([0, 1, 1]))) if r.random() < 0.5 else None # A kernel as a user writes it, for fit_kex
    return p


class Guard:
    '''Everything the statement says is left alone'''
    def __init__(self, ctx):
        import GPy_ABCD as G
        self.ctx, self.G = ctx, G
        self.items = {}
        self.watch('the exported start kernels', lambda: {k: [(id(x), repr(x), x.root is x, x.parent is None) for x in v] for k, v in G.start_kernels.items()})
        self.watch('the exported production rules', lambda: [(k, [id(f) for f in v]) for k, v in G.production_rules.items()] + [(t, sorted((k, id(f)) for k, f in v.items())) for t, v in G.production_rules_by_type.items()])
        self.watch('the warning settings', lambda: (list(warnings.filters), warnings.showwarning is Guard.shower))
        self.watch('the floating-point error settings', lambda: np.geterr())
        self.watch('the exported kernel names', lambda: (sorted(G.base_kerns), list(G.GPy_optimisers)))
    def watch(self, name, f): self.items[name] = (f, f())
    def verify(self, when, settings = True):
        for name, (f, was) in self.items.items():
            if not settings and name.endswith('settings'): continue
            now = f()
            self.ctx.check(now == was, 'changed', lambda: f'{when}, {name} changed: {diff(was, now)}')

Guard.shower = warnings.showwarning

def diff(a, b): return S.first_difference(listed(b), listed(a)) or f'{str(b)[:200]} instead of {str(a)[:200]}'
def listed(x):
    if isinstance(x, dict): return {str(k): listed(v) for k, v in x.items()}
    return [listed(v) for v in x] if isinstance(x, (list, tuple)) else x

def content(v): return (type(v).__name__, np.asarray(v).tobytes(), np.shape(v), str(np.asarray(v).dtype), np.asarray(v).flags.writeable)


class Settings:
    '''Interrupts at an arbitrary line can hit the boundary of a with statement itself, which Python does not protect: after those, settings are not judged but put back'''
    def __enter__(self): self.f, self.e = list(warnings.filters), np.geterr()
    def __exit__(self, *exc):
        if list(warnings.filters) != self.f: warnings.filters[:] = self.f; warnings._filters_mutated()
        np.seterr(**self.e)


def prepare(p, ctx, guard, shared):
    searches = []
    for i, q in enumerate(p['ps']):
        S.valid(q)
        s = S.Search(q, ctx, f'search {i}')
        if q['defaults']: s.start, s.rules = guard.G.start_kernels[p['group']] if p['group'] != 'Extended' else guard.G.start_kernels['Default'], guard.G.production_rules['Default']
        elif shared and searches and not searches[0].p['defaults']: s.start = searches[0].start # The same objects
        if shared and searches and s.p['n'] == searches[0].p['n']: s.X, s.Y = searches[0].X, searches[0].Y
        s.beam_args = [list(g['beam']) if isinstance(g['beam'], list) else g['beam'] for g in q['segs']]
        searches.append(s)
        guard.watch(f'the data of search {i}', lambda s = s: (id(s.X), content(s.X), id(s.Y), content(s.Y)))
        guard.watch(f'the start kernels of search {i}', lambda s = s: [(id(k), repr(k)) + (() if isinstance(k, str) else (whole(k),)) for k in s.start])
        guard.watch(f'the rules of search {i}', lambda s = s: [id(f) for f in s.rules])
        guard.watch(f'the beams of search {i}', lambda s = s: [list(b) if isinstance(b, list) else b for b in s.beam_args])
    return searches

def whole(k): return k.parent is None and all(n.root is k.root for n in k.traverse())


def drive(s, states, ctx = None, watch = None):
    '''All segments of a search, from wherever it is'''
    while len(states) < len(s.p['segs']):
        i = len(states)
        g = s.p['segs'][i]
        st = s.explore(g['rounds'], s.beam_args[i]) if i == 0 else s.resume(states[-1], g['rounds'], s.beam_args[i])
        states.append(st)
        if watch: watch(i, st)
    return states


def run(p, ctx):
    if not p['ps']: raise InvalidPlan('no searches')
    ctx.probe('mode ' + p['mode'])
    guard = Guard(ctx)
    if p['mode'] == 'fits': return fits(p, ctx, guard)
    # Each search alone, with inputs of its own and in a process of its own
    def by_itself(i):
        one = prepare(p, ctx, guard, p['shared'])[i]
        with one.world():
            if p['mode'] == 'interrupt':
                with Lines() as l: states = ctx.call('a search', drive, one, [])
                n = l.n
            else: states, n = ctx.call('a search', drive, one, []), 0
        guard.verify('after a search')
        return S.state_digest(states[-1]), n
    alone = [isolated(by_itself, i) for i in range(len(p['ps']))]
    ss = prepare(p, ctx, guard, p['shared'])
    returned = lambda n: lambda i, st: guard.watch(f'what part {i} of search {n} returned', lambda: S.snapshot(st))
    if p['mode'] == 'threads':
        for s in ss: s.silenced = nothing
        with World(ctx) as w:
            results, errors = Threads(ctx, [lambda s = s: drive(s, []) for s in ss]).run()
        for n, e in enumerate(errors):
            if e is not None: ctx.call(f'search {n}, run in a thread beside others,', throw, e)
        for n, (states, (want, _)) in enumerate(zip(results, alone)): same(ctx, states[-1], want, f'search {n}, interleaved with {len(ss) - 1} others,')
        ctx.fault('thread switches', ctx.probes.get('x', 0) + len(ctx.choose.taken) // 2)
        guard.verify('after interleaved searches')
        ctx.nontrivial = True
    else:
        for n, s in enumerate(ss):
            states = []
            with s.world():
                if p['mode'] in ('interrupt', 'fitter'):
                    for at in p['at']:
                        if p['mode'] == 'interrupt':
                            name = 'KeyboardInterrupt' if at % 2 or s.p['fitter'] != 'ghost' else 'MemoryError'
                            with Settings(), Lines(1 + at * alone[n][1] // 10000, lambda: make_exc(name, '')) as l: _, e = ctx.attempt('a search', drive, s, states, None, returned(n))
                            if l.fired is not None: ctx.fault('interrupted by ' + name); ctx.state(l.where, at // 1000)
                        else:
                            target = s.fits + at % 3
                            def before(call):
                                if call['n'] == target: ctx.fault('fitter failed'); raise make_exc(p['exc'], '')
                            s.before_fit = before
                            _, e = ctx.attempt('a search', drive, s, states, None, returned(n))
                            s.before_fit = lambda call: None
                        guard.verify(f'after a search ended with {type(e).__name__}' if e else 'after a search')
                        ctx.nontrivial = True
                ctx.call('a search', drive, s, states, None, returned(n))
            guard.verify('after a search')
            same(ctx, states[-1], alone[n][0], f'search {n}, after {p["mode"]} of earlier ones,')
        ctx.nontrivial |= len(ss) > 1 or len(ss[0].p['segs']) > 1
    ctx.log('done', p['mode'])


def throw(e): raise e

def nothing():
    import contextlib
    return contextlib.nullcontext()

def same(ctx, state, want, what):
    d = S.first_difference(S.state_digest(state), want)
    ctx.check(not d, 'result-differs', lambda: f'{what} does not give the result it gives alone: {d}')


def fits(p, ctx, guard):
    '''Single fits: models, the default kernel expression, and failing and interrupted fits'''
    from GPy_ABCD.Models.model import GPModel
    f = p['fit']
    x, y = S.make_data(max(3, f['n']), p['at'][0])
    X, Y = S.shape(x, 'col'), S.shape(y, 'col')
    guard.watch('the data', lambda: (content(X), content(Y)))
    env = {'SumKE': guard.G.SumKE, 'ProductKE': guard.G.ProductKE, 'ChangeKE': guard.G.ChangeKE}
    kex = eval(f['kex'], env)._initialise() if f['kex'] else None
    if kex is not None: guard.watch('the kernel expression of a model', lambda: (repr(kex), whole(kex)))
    raw = eval(f['raw'], env) if f.get('raw') else None
    if raw is not None:
        if S.Grammar().size(S.Grammar().canon(f['raw'])) > 6: raise InvalidPlan('size')
        if p['at'][0] % 2 and getattr(raw, 'composite_terms', None): # A part of a kernel
            tree = raw._initialise()
            if getattr(tree, 'composite_terms', None):
                raw = tree.composite_terms[0]
                guard.watch('the kernel of which a part was given to fit_kex', lambda: (repr(tree), whole(tree)))
        guard.watch('the kernel expression given to fit_kex', lambda: repr(raw))
    make = lambda: GPModel(X, Y, kex) if kex is not None else GPModel(X, Y)
    def views(m): return [repr(m.kernel_expression), repr(m.sum_of_prods_kex), m.interpret(), S.hexf(m._ll()), [S.hexf(round(v, 6)) for v in m.predict(X)['mean'].ravel()]]
    w = World(ctx, 'script', 3)
    with w:
        if raw is not None:
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()): ctx.call('fit_kex', guard.G.fit_kex, X, Y, raw, 1)
            guard.verify('after fit_kex')
        first = ctx.call('a fit', lambda: views(make().fit(2)))
        guard.verify('after fitting and describing a model')
        with Lines() as l: ctx.call('a fit', lambda: make().fit(2))
        for at in p['at']:
            m = make()
            if at % 2:
                with Settings(), Lines(1 + at * l.n // 10000, KeyboardInterrupt) as l2: _, e = ctx.attempt('a fit', m.fit, 2)
                if l2.fired is not None: ctx.fault('interrupted by KeyboardInterrupt')
            else:
                w.fault_of = lambda sig, attempt: {'at': ['construct', 'restart'][at // 2 % 2], 'j': at // 4 % 2, 'exc': 'KeyboardInterrupt' if at // 8 % 3 == 0 else p['exc'], 'token': ''}
                _, e = ctx.attempt('a fit', m.fit, 2)
                w.fault_of = lambda sig, attempt: None
            guard.verify(f'after a fit ended with {type(e).__name__}')
            ctx.nontrivial = True
        again = ctx.call('a fit', lambda: views(make().fit(2)))
        ctx.check(again == first, 'result-differs', lambda: f'fitting again after failed fits gives another result: {S.first_difference(again, first)}')
    ctx.state(f['kex'], p['at'][0] % 4)
