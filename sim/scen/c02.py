'''C02: each round expands exactly the best not-yet-expanded models its beam allows'''
from .. import search as S

def gen(r, tier, idx):
    p = S.gen(r, tier, fitters = ('ghost',), n_rules = (1, 1, 1, 2, 2), rounds = (0, 1, 1, 2, 2, 3, 4, 5))
    return p


def run(p, ctx):
    S.valid(p)
    s = S.Search(p, ctx)
    done = [] # Models expanded so far
    pool = []
    with s.world():
        state = None
        for i, seg in enumerate(p['segs']):
            s.history.clear()
            fits_before = s.fits
            if i == 0: state = ctx.call('explore_model_space', s.explore, seg['rounds'], seg['beam'])
            else: state = ctx.call('model_search_rounds', s.resume, state, seg['rounds'], seg['beam'])
            sorted_models, tested_models, _, expanded, not_expanded = state
            total = sum(x['rounds'] for x in p['segs'][:i + 1])
            ctx.check(len(tested_models) == total + 1, 'rounds', lambda: f'{len(tested_models) - 1} rounds were run instead of {total}')
            bs = S.beams(seg['beam'], seg['rounds'])
            rounds, calls, cur = [], [], []
            for k, v in s.history:
                if k == 'expand': cur.append(s.grammar.canon(v))
                else: rounds.append(cur); calls.append(v); cur = []
            ctx.check(not cur, 'expanded-late', 'kernels were expanded after the last fits of a search')
            if i == 0:
                ctx.check(bool(calls) and not rounds[0], 'start', 'kernels were expanded before the start kernels were fitted')
                pool += calls[0]['models']; rounds, calls = rounds[1:], calls[1:]
            if len(rounds) == len(bs):
                for b, keys, call in zip(bs, rounds, calls):
                    one_round(s, ctx, pool, done, b, keys)
                    pool += call['models']
            else: # Rounds with nothing to fit were not passed to the fitter: only the totals are known
                keys = [k for r in rounds for k in r]
                ctx.probe('segments with unseen rounds')
                for k in keys: done += [m for m in pool if s.key(m) == k]
                for call in calls: pool += call['models']
            ids = lambda ms: sorted(map(id, ms))
            ctx.check(ids(expanded) == ids(done), 'expanded-list', lambda: f'the expanded models are said to be {[str(m.kernel_expression) for m in expanded]} but were {[str(m.kernel_expression) for m in done]}')
            ctx.log('segment', i, len(pool), len(done))
    ctx.nontrivial = len(done) > 0
    ctx.ran('rounds', sum(x['rounds'] for x in p['segs']))


def one_round(s, ctx, pool, done, b, keys):
    taken = {id(m) for m in done}
    left = [m for m in pool if id(m) not in taken]
    by_key = {s.key(m): m for m in pool}
    ctx.check(all(k in by_key for k in keys), 'expanded-unknown', lambda: f'a kernel which was never fitted was expanded: {[k for k in keys if k not in by_key][:2]}')
    chosen = list({id(by_key[k]): by_key[k] for k in keys}.values())
    again = [m for m in chosen if id(m) in taken]
    ctx.check(not again, 'expanded-twice', lambda: f'expanded again: {[str(m.kernel_expression) for m in again]}')
    ctx.check(len(chosen) == min(b, len(left)), 'beam', lambda: f'{len(chosen)} kernels were expanded with beam {b} and {len(left)} models left')
    rest = [s.score(m) for m in left if m not in chosen]
    if chosen and rest:
        worst = max(s.score(m) for m in chosen)
        ctx.check(worst <= min(rest), 'not-best', lambda: f'a model scoring {worst} was expanded before one scoring {min(rest)}')
    if len({s.score(m) for m in left}) < len(left): ctx.probe('rounds with ties among the candidates')
    if not left: ctx.probe('rounds with nothing left')
    done += chosen
    ctx.state(b, len(left), len(chosen))
