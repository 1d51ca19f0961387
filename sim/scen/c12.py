'''C12: a seeded search is reproducible in the same process and in others, whatever their string hash seed'''
import random
import numpy as np

from .. import search as S
from ..core import Ctx, InvalidPlan, h64, unit
from ..seams import RETRIABLE

def gen(r, tier, idx):
    p = S.gen(r, tier, fitters = ('ghost',) * 5 + ('serial', 'script', 'real', 'real', 'rng'), rounds = (0, 1, 1, 2, 3), n_rules = (1, 2, 3, 4))
    if p['fitter'] == 'real':
        p['land'] = 'cont'
        p['segs'] = [{'rounds': r.choice([0, 1]), 'beam': 1}]
        p['start'] = p['start'][:2]
        p['restarts'] = min(2, p['restarts'])
        p['optimiser'] = r.choice(['lbfgsb', 'scg'])
    elif r.random() < 0.12: # The exported defaults
        p.update(defaults = r.choice(['Default', 'Extended', 'Original_ABCD']), rules_group = r.choice(['Default', 'All', 'Original_ABCD', 'Minimal']), fitter = 'ghost', segs = [{'rounds': 1, 'beam': 1}], shuffle = False)
    if p['fitter'] in ('serial', 'script', 'real') and r.random() < 0.6: # Fits which fail and are retried
        p['fail'] = r.choice([0.2, 0.5, 1.])
        p['retries'] = max(1, p['retries'])
    p['npseed'] = r.randrange(2 ** 31)
    p['activity'] = [r.choice(['search', 'numpy', 'expand', 'fit', 'hash']) for _ in range(r.choice([1, 2, 3]))]
    p['remote'] = r.random() < 0.7
    return p


class Seeded(S.Search):
    '''With the fitter 'rng', likelihoods depend on the kernel and on the random number generator'''
    def landscape(self, key, size):
        v = super().landscape(key, size)
        return v + np.random.rand() if self.rng else v
    rng = False


def one(p, ctx, tag):
    q = dict(p, fitter = 'ghost') if p['fitter'] == 'rng' else p
    s = Seeded(q, ctx, tag)
    s.rng = p['fitter'] == 'rng'
    if p.get('defaults'):
        s.start, s.rules = s.G.start_kernels[p['defaults']], s.G.production_rules[p['rules_group']]
    np.random.seed(p['npseed'])
    random.seed(p['npseed'])
    with s.world() as w:
        w.max_iters = 12
        if p.get('fail'): w.fault_of = lambda sig, attempt: {'exc': RETRIABLE[h64(sig) % len(RETRIABLE)], 'at': 'construct' if h64(sig, 'at') % 3 == 0 else 'restart', 'j': 0, 'token': f'<{sig}>'} if attempt == 0 and unit(p['lseed'], sig, 'fails') < p['fail'] else None
        states = s.run()
    d = S.state_digest(states[-1])
    d['fitted'] = [c['reprs'] for k, c in s.history if k == 'fit']
    d['strings'] = [str(k) for k in states[-1][2]]
    d['random state'] = S.hexf(np.random.rand())
    d['log'] = ''.join(s.logs)
    return d


def remote(p): return one(p, Ctx({}), 'remote')


def run(p, ctx):
    S.valid(p)
    if p.get('fail') and p['retries'] < 1: raise InvalidPlan('retries')
    first = one(p, ctx, 'first')
    for k in p['activity']: other(k, p, ctx)
    second = one(p, ctx, 'second')
    d = S.first_difference(second, first)
    ctx.check(not d, 'repeat-differs', lambda: f'the same seeded search repeated in the same process after {p["activity"]} gives another result: {d}')
    if p['remote']:
        from ..runner import in_helper
        for h in ctx.plan['env'].get('helpers') or []:
            got = in_helper('C12', h, 'remote', p)
            ctx.fault('repeated under another hash seed')
            d = S.first_difference(got, first)
            ctx.check(not d, 'process-differs', lambda: f'the same seeded search in another process (hash seed {h}) gives another result: {d}')
    ctx.nontrivial = len(first['kexs']) > 1
    ctx.state(p['fitter'], len(first['kexs']), first['kexs'][-1])
    ctx.log('digest', S.h64(str(first)))
    ctx.ran('searches with fitter ' + p['fitter'])


def other(kind, p, ctx):
    '''Activity which must not matter'''
    ctx.fault('other activity: ' + kind)
    G = S.package()
    if kind == 'search':
        q = dict(p, start = ['PER', 'LIN'], rules = ['plus_base', 'change_point_linear'], fitter = 'ghost', lseed = p['lseed'] + 1, segs = [{'rounds': 1, 'beam': 2}])
        s = S.Search(q, ctx, 'other')
        with s.world(): s.run()
    elif kind == 'numpy': np.random.rand(h64(p['lseed']) % 100)
    elif kind == 'expand':
        from GPy_ABCD.KernelExpansion.grammar import expand
        for k in G.start_kernels['Extended'][:3]: expand(k, G.production_rules['Default'])
    elif kind == 'fit':
        from GPy_ABCD.Models.model import GPModel
        x, y = S.make_data(5, p['lseed'])
        with S.World(ctx, 'script', 1): ctx.call('a fit', lambda: GPModel(S.shape(x, 'col'), S.shape(y, 'col')).fit(1).interpret())
    else: {str(i) for i in range(50)} | set(G.base_kerns)
