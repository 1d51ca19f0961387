'''C01: every fitted model is accounted for exactly once, best first'''
from collections import Counter
import numpy as np

from .. import search as S
from ..refmodel import Grammar

def gen(r, tier, idx):
    p = S.gen(r, tier, fitters = ('ghost',) * 8 + ('serial', 'pool', 'script'))
    if p['fitter'] == 'pool': p['cpus'] = r.choice([1, 2, 3]); p['speeds'] = [r.choice([1, 2, 7]) for _ in range(3)]
    return p


def run(p, ctx):
    S.valid(p)
    s = S.Search(p, ctx)
    with s.world():
        state = None
        for i, seg in enumerate(p['segs']):
            if i == 0: state = ctx.call('explore_model_space', s.explore, seg['rounds'], seg['beam'])
            else: state = ctx.call('model_search_rounds', s.resume, state, seg['rounds'], seg['beam'])
            verify(s, state, sum(x['rounds'] for x in p['segs'][:i + 1]), ctx)
    ctx.ran('searches with fitter ' + p['fitter'])
    ctx.nontrivial = len(state[0]) > len(p['start'])


def verify(s, state, rounds, ctx):
    ctx.check(len(state) == 5, 'shape', lambda: f'the search state has {len(state)} parts')
    sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = state
    name = lambda m: str(m.kernel_expression)
    calls = [c for k, c in s.history if k == 'fit']
    delivered = [m for c in calls for m in c['models']]
    ids = lambda ms: Counter(id(m) for m in ms)
    names = lambda c: [name(m) for m in delivered if id(m) in c]
    ctx.check(len(tested_models) == rounds + 1, 'rounds', lambda: f'{len(tested_models)} lists of tested models after {rounds} rounds (and the start)')
    if len(calls) == len(tested_models): # Otherwise rounds without new kernels were not passed to the fitter
        for r, (c, ms) in enumerate(zip(calls, tested_models)):
            a, b = ids(c['models']), ids(ms)
            ctx.check(a == b, 'round-list', lambda: f'round {r}: the fitter delivered {len(c["models"])} models and the list of the round has {len(ms)}; missing {names(a - b)}, too many {names(b - a)}')
    a, b = ids(delivered), ids(m for l in tested_models for m in l)
    ctx.check(a == b, 'round-lists', lambda: f'models missing from the round lists: {names(a - b)}; too many: {names(b - a)}')
    for m in delivered:
        want = s.score(m)
        if s.utility.__name__ in ('BIC', 'AIC', 'AICc'):
            gp, name_ = m.model, s.utility.__name__
            v = S.formula(name_, gp.log_likelihood(), len(gp.X), gp._size_transformed())
            ctx.check(v == want or np.isclose(v, want, rtol = 1e-9, atol = 1e-9), 'formula', lambda: f'{name_} of {name(m)} is {want} instead of {v} (likelihood {gp.log_likelihood()}, {len(gp.X)} points, {gp._size_transformed()} parameters)')
        ctx.check(m.cached_utility_function == want, 'utility', lambda: f'{name(m)} carries the value {m.cached_utility_function} of {m.cached_utility_function_type} instead of {want} of {s.utility.__name__}')
        ctx.check(m.cached_utility_function_type == s.utility.__name__, 'utility-name', lambda: f'{name(m)} carries a value of {m.cached_utility_function_type} instead of {s.utility.__name__}')
    def in_order(ms, what):
        us = [s.score(m) for m in ms]
        ctx.check(all(x <= y for x, y in zip(us, us[1:])), 'order', lambda: f'{what} is not sorted from best to worst: {us}')
    for r, l in enumerate(tested_models): in_order(l, f'the list of round {r}')
    b = ids(sorted_models)
    ctx.check(a == b, 'overall-list', lambda: f'the overall list misses {names(a - b)} and has too many of {names(b - a)}')
    in_order(sorted_models, 'the overall list')
    e, n = ids(expanded), ids(not_expanded)
    ctx.check(e + n == a, 'expanded-lists', lambda: f'the expanded and not expanded models together miss {names(a - (e + n))} and have too many of {names((e + n) - a)}')
    in_order(not_expanded, 'the list of not expanded models')
    parse = lambda k: s.grammar.parse(repr(k))
    fitted = Counter(s.grammar.parse(t) for c in calls for t in c['reprs'])
    tested = Counter(map(parse, tested_k_exprs))
    ctx.check(fitted == tested, 'tested-expressions', lambda: f'the tested expressions miss {list((fitted - tested))[:3]} and have too many of {list((tested - fitted))[:3]}')
    got = Counter(s.grammar.parse(repr(m.kernel_expression)) for m in delivered)
    ctx.check(got == tested, 'model-expressions', lambda: f'the expressions of the models are not the tested ones: missing {list(tested - got)[:3]}, too many {list(got - tested)[:3]}')
    ctx.state(len(tested_models), len(sorted_models), len(expanded), [name(m) for m in sorted_models[:3]])
    ctx.log('state', len(sorted_models), len(expanded), S.hexf(sorted_models[0].cached_utility_function) if sorted_models else '')
