'''Reference covariances, straight from the published formulas and the displayed parameter values of a kernel or of a canonical form'''
import numpy as np
from scipy.special import ive

from .core import unit

SLOPE = 0.5 # Of change operators whose slope is not a parameter


def sigmoid(a): return (1 + a / (1 + np.abs(a))) / 2

def phi(kind, x, p):
    '''The values of a sigmoid factor at x'''
    l, s = p['location'], p.get('slope', SLOPE)
    if kind == 'S': return sigmoid((x - l) / s)
    if kind == 'Sr': return 1 - sigmoid((x - l) / s)
    w = p['width']
    h = w / (2 * s)
    hat = (sigmoid((x - l) / s) + sigmoid((l + w - x) / s) - 1) / (h / (1 + h))
    return hat if kind == 'SI' else 1 - hat


def base(kind, x, x2, p):
    '''The covariance of a base kernel or sigmoid factor (of unit variance) between x and x2, or of x with itself if x2 is None'''
    other = x if x2 is None else x2
    D = x[:, None] - other[None, :]
    if kind == 'WN': return np.eye(len(x)) if x2 is None else np.zeros((len(x), len(x2)))
    if kind == 'C': return np.ones(D.shape)
    if kind == 'SE': return np.exp(-0.5 * D ** 2 / p['lengthscale'] ** 2)
    if kind == 'LIN': return np.outer(x - p.get('offset', 0), other - p.get('offset', 0))
    if kind == 'PER': return pure_periodic(D, p['period'], p['lengthscale'])
    if kind == 'STD': return np.exp(-0.5 * (np.sin(np.pi * D / p['period']) / p['lengthscale']) ** 2)
    return np.outer(phi(kind, x, p), phi(kind, other, p))


def pure_periodic(D, period, lengthscale):
    c, a = np.cos(2 * np.pi * D / period), 1 / lengthscale ** 2
    if a < 1e-2: # Series, to avoid cancellations
        i0m1 = a ** 2 / 4 + a ** 4 / 64
        return (np.expm1(c * a) - i0m1) / (np.expm1(a) - i0m1)
    e = ive(0, a)
    return (np.exp((c - 1) * a) - e) / (1 - e)


def values(kern):
    '''The displayed (i.e. linked) parameters of a node of a kernel, and its linked sub-kernels'''
    from GPy.kern import Kern
    ps, subs = {}, []
    for p in kern.parameters:
        if isinstance(p, Kern): subs.append(p)
        else: ps[p.name] = float(np.asarray(p).ravel()[0])
    return ps, subs


def tree(kern):
    '''(kind, displayed parameters, subtrees)'''
    ps, subs = values(kern)
    names = {c.__name__ for c in type(kern).__mro__}
    subs = [tree(s) for s in subs]
    if 'Add' in names: kind = '+'
    elif 'Prod' in names: kind = '*'
    elif subs: kind = 'CW' if 'width' in ps else 'CP'
    elif 'White' in names: kind = 'WN'
    elif 'Bias' in names: kind = 'C'
    elif 'RBF' in names: kind = 'SE'
    elif 'StdPeriodic' in names: kind = 'STD'
    elif 'period' in ps: kind = 'PER'
    else: kind = 'LIN'
    return kind, ps, subs

def shown(t):
    '''All displayed values, in order'''
    kind, ps, subs = t
    return [v for s in subs for v in shown(s)] + list(ps.values())


def cov(t, x, x2 = None):
    kind, ps, subs = t
    if kind == '+': return sum(cov(s, x, x2) for s in subs)
    if kind == '*':
        out = 1.
        for s in subs: out = out * cov(s, x, x2)
        return out
    if kind in ('CP', 'CW'):
        left, right = ('Sr', 'S') if kind == 'CP' else ('SIr', 'SI')
        return cov(subs[0], x, x2) * base(left, x, x2, ps) + cov(subs[1], x, x2) * base(right, x, x2, ps)
    return ps.get('variance', 1.) * base(kind, x, x2, ps)


def jiggled(t, seed, eps = 1e-9):
    '''The same tree with its values moved by a hair, to tell what rounding errors may do'''
    kind, ps, subs = t
    return kind, {k: v * (1 + eps * (2 * unit('jiggle', seed, kind, k, v) - 1)) for k, v in ps.items()}, [jiggled(s, f'{seed}{i}', eps) for i, s in enumerate(subs)]

def well_conditioned(f, t):
    '''Whether f(tree) does not hang on the last digits of the displayed values'''
    ref = np.asarray(f(t), float)
    return bool(np.all(np.isfinite(ref))) and all(same(f(jiggled(t, k)), ref, rtol = 2e-6) for k in 'abc')


def sops_cov(sops, x, per = 'PER'):
    '''The covariance which a canonical form states: a sum of products of factors with their parameters'''
    total = np.zeros((len(x), len(x)))
    for ct in sops.composite_terms:
        K = np.ones_like(total)
        for b, pss in ct.parameters.items():
            for p in pss:
                if b != 'ProductKE': K = K * base(per if b == 'PER' else b, x, None, p)
                K = K * p.get('variance', 1.)
        total += K
    return total


def log_likelihood(K, noise, y):
    '''(value, condition number) of the log marginal likelihood of y'''
    Ky = K + (noise + 1e-8) * np.eye(len(y))
    sign, logdet = np.linalg.slogdet(Ky)
    w = np.linalg.eigvalsh(Ky)
    if sign <= 0 or w[0] <= 0: return np.nan, np.inf
    a = np.linalg.solve(Ky, y)
    return float(-0.5 * (y @ a + logdet + len(y) * np.log(2 * np.pi))), w[-1] / w[0]


def posterior(K, Ks, kss, noise, y):
    '''Mean and variance (of new observations) at new points'''
    Ky = K + (noise + 1e-8) * np.eye(len(y))
    mean = Ks.T @ np.linalg.solve(Ky, y)
    var = kss - np.einsum('ij,ij->j', Ks, np.linalg.solve(Ky, Ks)) + noise
    return mean, var


def same(a, b, rtol = 2e-5, scale = None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    scale = max(np.abs(b).max() if b.size else 0., 1e-300) if scale is None else scale
    return bool(np.all(np.isfinite(a) == np.isfinite(b)) and np.allclose(a, b, rtol = rtol, atol = 2e-6 * scale))
