'''C03: each round fits exactly the new one-step rewrites of the expanded kernels'''
from .. import search as S
from ..refmodel import Grammar

def gen(r, tier, idx):
    p = S.gen(r, tier, fitters = ('ghost',) * 12 + ('serial',), rounds = (1, 1, 2, 2, 3), n_rules = (1, 1, 2, 3, 4, 5, 12 if r.random() < 0.2 else 2))
    if r.random() < (0.01 if tier == 'quick' else 0.05): # A long search
        p.update(fitter = 'ghost', cap = 4000, rules = ['remove_some_term'] + r.sample([x for x in S.RULES if x not in ('remove_some_term', 'change_same')], 4), segs = [{'rounds': 3, 'beam': [3, 12, 12]}], land = r.choice(['cont', 'growth', 'near']), partial = False)
    elif r.random() < 0.15: p['earlier'] = r.sample(S.RULES, r.choice([1, 2])) # Another search with the same start kernels but other rules, before
    return p


def run(p, ctx):
    S.valid(p)
    if p.get('earlier'):
        q = S.Search(dict(p, rules = p['earlier'], fitter = 'ghost'), ctx)
        with q.world(): ctx.call('an earlier search', q.explore, 1, len(p['start']))
        ctx.probe('searches after one with other rules')
    s = S.Search(p, ctx)
    config = ctx.plan['env'].get('config') or {}
    g = s.grammar = Grammar(se = bool(config.get('__INCLUDE_SE_KERNEL')))
    tested, alive = set(), [] # Canonical expressions fitted so far; kernels of models with their texts
    with s.world():
        state = None
        for i, seg in enumerate(p['segs']):
            s.history.clear()
            if i == 0: state = ctx.call('explore_model_space', s.explore, seg['rounds'], seg['beam'])
            else: state = ctx.call('model_search_rounds', s.resume, state, seg['rounds'], seg['beam'])
            cur, first = [], i == 0
            for k, v in s.history:
                if k == 'expand': cur.append(v); continue
                one_round(g, ctx, p['rules'], tested, cur, v['reprs'], v['kexs'], start = p['start'] if first else None)
                cur, first = [], False
                alive += [(m, t) for m, t in ((m, repr(m.kernel_expression)) for m in v['models'])]
                ctx.check(sorted(repr(m.kernel_expression) for m in v['models']) == sorted(v['reprs']), 'altered', 'a kernel changed while it was being fitted or expanded')
            ctx.check(not cur or not expansions(g, cur, p['rules']) - tested, 'not-fitted', lambda: f'no kernel was fitted after expanding {cur[:3]}')
            for m, t in alive: ctx.check(repr(m.kernel_expression) == t, 'altered', lambda: f'the kernel expression of a model changed from {t} to {m.kernel_expression!r}')
            ctx.log('segment', i, len(tested))
    ctx.nontrivial = len(tested) > len(p['start'])
    ctx.probe('kernels proposed', len(tested))


def expansions(g, roots, rules):
    out = set()
    for t in roots: out |= g.expansions(g.canon(t), rules)
    return out


def one_round(g, ctx, rules, tested, expanded, reprs, kexs, start):
    got = [g.parse(t) for t in reprs]
    short = lambda xs: [g.code(x) for x in sorted(xs, key = repr)[:3]]
    odd = [t for t, c in zip(reprs, got) if not g.is_normal(c)]
    ctx.check(not odd, 'not-simplified', lambda: f'fitted without being fully simplified: {odd[:3]}')
    ctx.check(len(set(got)) == len(got), 'fitted-twice', lambda: f'fitted twice in the same round: {short({c for c in got if got.count(c) > 1})}')
    again = set(got) & tested
    ctx.check(not again, 'fitted-again', lambda: f'fitted again: {short(again)}')
    if start is not None: want = {g.root(g.parse(s) if '(' in s else s) for s in start}
    else: want = expansions(g, expanded, rules) - tested
    ctx.check(set(got) <= want, 'unexpected-kernels', lambda: f'fitted although no single rewrite of the expanded kernels ({expanded[:3]}) gives them with {rules}: {short(set(got) - want)}')
    ctx.check(want <= set(got), 'missing-kernels', lambda: f'not fitted although single rewrites of the expanded kernels ({expanded[:3]}) with {rules}: {short(want - set(got))}')
    for k, t in zip(kexs, reprs):
        ctx.check(whole(k), 'incomplete', lambda: f'{t} is not a complete expression of its own: some of its nodes belong to another tree')
    tested |= set(got)
    for c in got: ctx.state(c)


def whole(k):
    '''Every node knows the tree it is in: its root is the expression itself'''
    return all(n.root is k for n in k.traverse())
