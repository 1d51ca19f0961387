'''C04: a continued or restarted search equals an uninterrupted one'''
import pickle

from .. import search as S
from ..core import InvalidPlan, Violation
from ..inject import Lines

def gen(r, tier, idx):
    p = S.gen(r, tier, fitters = ('ghost',) * 7 + ('serial', 'serial', 'script', 'script'), rounds = (1, 2, 2, 3, 4), small = r.random() < 0.5)
    total = min(4 if p['fitter'] == 'ghost' else 2, max(1, sum(s['rounds'] for s in p['segs'])))
    p['bs'] = [r.choice([1, 1, 2, 3]) if p['fitter'] == 'ghost' else 1 for _ in range(total)]
    cuts = sorted(r.sample(range(total + 1), min(total + 1, r.choice([1, 1, 2, 3]))))
    p['steps'] = [{'upto': c, 'save': r.choice(['none', 'none', 'pickle', 'process', 'process', 'process2', 'crash', 'crash'])} for c in cuts]
    p['crash_at'] = r.randrange(10000)
    p['segs'] = [{'rounds': total, 'beam': 1}]
    p['lines'] = p['fitter'] == 'ghost'
    return p


def run(p, ctx):
    S.valid(p)
    if any(b < 1 for b in p['bs']) or not p['bs']: raise InvalidPlan('beams')
    total = len(p['bs'])
    ref = S.Search(p, ctx, 'uninterrupted')
    with ref.world(): want = ctx.call('explore_model_space', ref.explore, total, list(p['bs']))
    want = S.state_digest(want)
    helpers = ctx.plan['env'].get('helpers') or []
    blob, done, state, s = None, 0, None, None
    s = S.Search(p, ctx, 'stepped')
    world = s.world()
    cuts = [c for c in p['steps'] if c['upto'] < total] + [{'upto': total, 'save': 'end'}]
    with world:
        for i, c in enumerate(cuts):
            bs = p['bs'][done:c['upto']]
            if i and not bs and c['save'] in ('none',): continue
            beam = bs if bs else 1
            if state is None: state = ctx.call('explore_model_space', s.explore, len(bs), beam)
            elif c['upto'] > done: state = ctx.call('model_search_rounds', s.resume, state, len(bs), beam)
            done = c['upto']
            ctx.log('at', done, c['save'])
            if c['save'] == 'end': break
            if c['save'] == 'pickle': state = saved(ctx, state); ctx.probe('saved and loaded in process')
            elif c['save'] == 'crash': # The next round is cut short at an arbitrary line, and the process with all its memory is lost
                blob = pickle.dumps(state)
                ctx.fault('crash during a round')
                with Lines(1 + p['crash_at'] % 4000, KeyboardInterrupt) as l:
                    try: s.resume(state, 1, p['bs'][done])
                    except KeyboardInterrupt: pass
                state = pickle.loads(blob)
            elif c['save'].startswith('process') and helpers:
                blob = pickle.dumps(state)
                got = S_in_helper(ctx, helpers[-1 if c['save'] == 'process2' else 0], p, done, blob)
                ctx.fault('restart in a new process with another hash seed')
                compare(ctx, got['digest'], want, f'after continuing from round {done} in a new process')
                ctx.nontrivial = True
                state = pickle.loads(got['one']) if got['one'] is not None and done + 1 < total else pickle.loads(blob)
                if got['one'] is not None and done + 1 < total: done += 1; ctx.probe('states brought back from another process')
        compare(ctx, S.state_digest(state), want, f'after continuing in steps {[(c["upto"], c["save"]) for c in cuts]}')
    ctx.nontrivial |= len(cuts) > 1
    ctx.state(total, [(c['upto'], c['save']) for c in cuts], p['fitter'])
    ctx.ran('searches with fitter ' + p['fitter'])


def saved(ctx, state): return ctx.call('pickling a search state', lambda: pickle.loads(pickle.dumps(state)))

def S_in_helper(ctx, hashseed, p, done, blob):
    from ..runner import in_helper
    return in_helper('C04', hashseed, 'remote', p, done, blob)


def remote(p, done, blob):
    '''In another process: load the state and run the rest of the search, and also just one more round of it'''
    from ..core import Ctx
    ctx = Ctx({})
    s = S.Search(p, ctx, 'remote')
    state = pickle.loads(blob)
    bs = p['bs'][done:]
    one = None
    with s.world():
        if len(bs) > 1:
            one = s.resume(state, 1, bs[0])
            final = s.resume(one, len(bs) - 1, bs[1:])
            one = pickle.dumps(one)
        else: final = s.resume(state, len(bs), bs)
    return {'digest': S.state_digest(final), 'one': one}


def compare(ctx, got, want, when):
    d = S.first_difference(got, want)
    ctx.check(not d, 'differs', lambda: f'{when} the search differs from an uninterrupted one: {d}')
