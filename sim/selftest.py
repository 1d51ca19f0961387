'''Determinism of the simulator itself: the same plans executed twice, in different interpreters, must give the same event logs.
python3 -m sim.selftest [--quick] [--plans N] [PROP ...]'''
import argparse, os, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.check import Proc, helpers, environments
from sim.meta import META


def collect(prop, env, n, seed, step, scratch):
    w = Proc('search', {'prop': prop, 'seed': seed, 'tier': 'quick', 'env': env, 'budget': 300, 'first': 0, 'step': step, 'max': n * step, 'scratch': scratch}, scratch)
    os.set_blocking(w.p.stdout.fileno(), True)
    out = {}
    while (ls := w.lines()) is not None:
        for r in ls:
            if 'idx' in r: out[r['idx']] = (r['status'], r['hash'])
    err = w.errors()
    w.stop()
    return out, err


def one(prop, n, seed, scratch):
    envs, hs = environments(prop, seed, 'quick', 8)
    hp = helpers(hs, scratch)
    diffs, total = [], 0
    try:
        for env in (envs if n > 4 else envs[:1]):
            a, ea = collect(prop, env, n, seed, 1, scratch)
            b, eb = collect(prop, env, max(1, n // 2), seed, 2, scratch) # Other runs before each, i.e. another number of workers
            common = set(a) & set(b)
            total += len(common)
            if not common: diffs.append(f'nothing was run: {ea}{eb}')
            diffs += [(prop, i, a[i], b[i]) for i in sorted(common) if a[i] != b[i]]
    finally:
        for p in hp: p.stop()
    return prop, total, diffs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs = '*')
    ap.add_argument('--quick', action = 'store_true')
    ap.add_argument('--plans', type = int, default = 40)
    ap.add_argument('--seed', type = int, default = int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    scratch, bad, t = tempfile.mkdtemp(prefix = 'sim-'), 0, time.time()
    try:
        with ThreadPoolExecutor(8 if a.quick else 4) as ex:
            def guarded(p):
                d = os.path.join(scratch, p)
                os.mkdir(d)
                return one(p, 4 if a.quick else a.plans, a.seed, d)
            for prop, total, diffs in ex.map(guarded, a.props or (['C01', 'C07', 'C09', 'C12'] if a.quick else list(META))):
                print(f'{prop}: {total} plans executed twice, {len(diffs)} differ', *diffs[:5], sep = '\n   ' if diffs else ' ', flush = True)
                bad += len(diffs)
    finally: shutil.rmtree(scratch, ignore_errors = True)
    print(f'{time.time() - t:.0f} s')
    sys.exit(1 if bad else 0)


if __name__ == '__main__': main()
