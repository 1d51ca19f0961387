'''C10: every fitted model is describable, and the description matches the fit'''
import re
import numpy as np

from .. import search as S, refkern as R, describe as D
from ..core import InvalidPlan, TooLarge, h64, hexf, unit
from ..refmodel import Grammar
from ..seams import World

PROFILES = ['moderate', 'moderate', 'moderate', 'grid', 'grid', 'wide', 'wide', 'extreme', 'real', 'keep']

def gen(r, tier, idx):
    g = Grammar(se = True)
    walk = r.random() < 0.75
    if walk: # Kernels picked from a simulated search
        p = S.gen(r, tier, fitters = ('ghost',), rounds = (1, 1, 2, 2, 3))
        p['land'] = r.choice(['growth', 'growth', 'growth', 'cont'])
        p['segs'] = p['segs'][:1]
        for s in p['segs']: s['beam'] = 1
        if r.random() < 0.6: # From more complex start kernels than a default search has, as a user may write them
            if r.random() < 0.25: g.bases = tuple(r.sample(g.bases, r.choice([1, 2]))) # Of few base kernels, so that more terms meet their like
            for _ in range(50):
                c = g.random(r, r.choice([1, 2, 2]))
                if r.random() < 0.5: c = g.root(c)
                if g.size(c) <= 8: p['start'] = [g.code(c)]; break
            if r.random() < 0.15: p['start'] = [repeated(r)]
            p['segs'] = [{'rounds': r.choice([0, 1]), 'beam': 1}]
    else: p = S.gen(r, tier, fitters = ('script',), small = True, rounds = (0, 1, 1)) # All the models of a search over real GPs
    p['walk'] = walk
    p['profile'] = r.choice(PROFILES)
    p['picks'] = [r.randrange(10 ** 6) for _ in range(r.choice([1, 2, 4, 6]))]
    p['oseed'] = r.randrange(10 ** 6)
    return p


def repeated(r):
    '''A product or sum of terms which have a base kernel in common, however it comes about'''
    b = r.choice(['SE', 'SE', 'C', 'C', 'PER', 'LIN', 'WN'])
    o = [r.choice(['LIN', 'PER', 'C', 'WN', 'SE']) for _ in range(4)]
    def term(i):
        k = r.choice(['sum', 'sum', 'change', 'product', 'alone'])
        if k == 'sum': return f"SumKE(['{b}', '{o[i]}'])"
        if k == 'change': return f"ChangeKE('{r.choice(['CP', 'CW'])}', '{b}', '{r.choice([b, o[i]])}')"
        if k == 'product': return f"ProductKE(['{b}'], [SumKE(['{b}', '{o[i]}'])])"
        return r.choice([f"SumKE(['{b}'])", f"ProductKE(['{b}'])"])
    terms = ', '.join(term(i) for i in range(r.choice([2, 2, 3, 3, 4])))
    return f"{r.choice(['ProductKE', 'ProductKE', 'SumKE'])}({[b] * r.choice([0, 1, 1])}, [{terms}])"


LOC = [-2.0, 0.0, 1.0, 1.0, 3.5]

def outcome(p):
    '''Where a simulated optimiser run ends, in the optimiser's own space'''
    def end(m, sig, attempt, i):
        n = len(m.optimizer_array)
        u = lambda *k: unit(p['oseed'], sig, i, *k)
        kind = p['profile']
        if kind == 'moderate': v = [4 * u(j) - 1.5 for j in range(n)]
        elif kind == 'grid': v = [LOC[int(len(LOC) * u(j))] for j in range(n)] # Coinciding values
        elif kind == 'wide': v = [16 * u(j) - 8 for j in range(n)]
        elif kind == 'extreme': v = [(40 * u(j) - 20) if u('x', j) < 0.3 else (600 * u(j) - 300) if u('x', j) < 0.4 else 3 * u(j) - 1 for j in range(n)]
        else: return m.optimizer_array.copy()
        v[-1] = max(v[-1], -4.) # The noise
        return np.array(v)
    return end


def run(p, ctx):
    S.valid(p)
    G = S.package()
    from GPy_ABCD.Models.model import GPModel
    s = S.Search(p, ctx)
    w = s.world()
    w.outcome = outcome(p)
    w.max_iters = 12
    np.random.seed(p['oseed'])
    models = []
    with w:
        states = s.run()
        if not p['walk']: models = states[-1][0]
        else:
            kexs = [k for k in states[-1][2] if s.grammar.size(s.grammar.canon(repr(k))) <= 11]
            w.mode = 'real' if p['profile'] == 'real' else 'script'
            for j in p['picks']:
                if not kexs: break
                kex = kexs.pop(j % len(kexs))
                m = GPModel(S.shape(s.x, 'col'), S.shape(s.y, 'col'), kex)
                try: m.fit(2 if p['profile'] == 'real' else 1)
                except np.linalg.LinAlgError: ctx.probe('numerically impossible fits'); continue
                models.append(m)
        for m in models: describable(ctx, m, s)
    ctx.nontrivial = bool(models)
    ctx.ran('searches' if not p['walk'] else 'kernels from a simulated search')


def products_of(g, t):
    '''How many products the canonical form has, at most'''
    if isinstance(t, str): return 1
    if t[0] == 'C': return products_of(g, t[2]) + products_of(g, t[3])
    sub = [products_of(g, c) for c in t[2]]
    return len(t[1]) + sum(sub) if t[0] == 'S' else int(np.prod(sub)) if sub else 1


def describable(ctx, m, s):
    kex = m.kernel_expression
    if products_of(s.grammar, s.grammar.canon(repr(kex))) > 60: ctx.probe('kernels with too many products'); return
    before = repr(kex)
    kern = m.model.kern
    named = lambda: f'{kex} with {dict(zip(kern.parameter_names_flat(include_fixed = True), map(float, kern.param_array)))}'
    sops = ctx.call(f'the canonical form of {named()}', lambda: m.sum_of_prods_kex)
    ctx.check(not sum(sops.base_terms.values()) and all(type(c).__name__ == 'ProductKE' and not c.composite_terms for c in sops.composite_terms), 'not-a-sum-of-products', lambda: f'the canonical form of {kex} is {sops!r}')
    per = 'STD' if 'STD' in repr(R.tree(kern)) else 'PER'
    t = R.tree(kern)
    # The same covariance
    xs = np.array(sorted(set([float(v) for v in np.asarray(m.X).ravel()[:6]] + [round(24 * unit('at', ctx.plan['cseed'], j) - 9, 3) for j in range(5)])))
    with np.errstate(all = 'ignore'):
        K = kern.K(xs[:, None])
        C = R.sops_cov(sops, xs, per)
        if np.all(np.isfinite(K)):
            ok = R.same(C, K, rtol = 1e-4)
            if not ok and (not R.well_conditioned(lambda t: R.cov(t, xs), t) or min(widths(t) or [1]) < 1e-5 or max(map(abs, R.shown(t))) > 1e6): ctx.probe('covariances too ill-conditioned to compare')
            else: ctx.check(ok, 'covariance', lambda: f'the canonical form {sops} ({[dict(c.parameters) for c in sops.composite_terms]}) of {named()} has covariance {C.round(5).tolist()} instead of {K.round(5).tolist()} at {xs.tolist()}')
        else: ctx.probe('fits with infinite covariance')
    # The text
    text = ctx.call(f'the description of {named()}', m.interpret)
    products = [dict(c.parameters) for c in sops.composite_terms]
    if all(np.isfinite(v) for ps in products for b in ps.values() for q in b for v in q.values()):
        bad = D.description_error(text, products)
        ctx.check(not bad, 'description', lambda: f'the description of {named()}: {bad}')
    ctx.check(repr(kex) == before, 'changed', lambda: f'describing {before} changed it to {kex!r}')
    ctx.log(before, h64(text), h64([hexf(v) for v in kern.param_array]))
    ctx.state(re.sub(r'[\d.-]+', '#', text))


def widths(t):
    kind, ps, subs = t
    return ([ps['width']] if 'width' in ps else []) + [v for s in subs for v in widths(s)]
