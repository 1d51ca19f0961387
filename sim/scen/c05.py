'''C05: a failed or interrupted continuation leaves the search state resumable'''
from .. import search as S
from ..core import InvalidPlan, h64
from ..inject import Lines
from ..seams import make_exc, RETRIABLE, signature
import re

KINDS = ['interrupt', 'interrupt', 'interrupt', 'memory', 'fitter', 'fitter', 'utility', 'utility', 'fit-exhausted', 'fit-exhausted', 'fit-interrupt', 'pool-death', 'fit-lines']

def gen(r, tier, idx):
    kind = r.choice(KINDS)
    fitter = {'fit-exhausted': r.choice(['serial', 'serial', 'pool']), 'fit-interrupt': 'serial', 'pool-death': 'pool', 'fit-lines': 'script'}.get(kind, r.choice(['ghost'] * 6 + ['serial']) if kind != 'memory' else 'ghost')
    p = S.gen(r, tier, fitters = (fitter,), small = True, rounds = (1, 1, 2))
    p['segs'] = [{'rounds': r.choice([0, 1]), 'beam': 1}] + [{'rounds': r.choice([1, 1, 2]), 'beam': r.choice([1, 2, [2, 1]]) if fitter == 'ghost' else 1} for _ in range(r.choice([1, 1, 2]))]
    p['fault'] = {'kind': kind, 'at': [r.randrange(10000) for _ in range(r.choice([1, 1, 2, 3]))], 'exc': r.choice(RETRIABLE) if kind not in ('fit-interrupt',) else r.choice(['KeyboardInterrupt', 'SystemExit'])}
    p['spots'] = r.random() < 0.6
    p['when'] = r.randrange(1, len(p['segs']))
    if fitter == 'pool': p['cpus'] = r.choice([1, 2, 3]); p['speeds'] = [r.choice([1, 2, 7]) for _ in range(3)]
    return p


def run(p, ctx):
    S.valid(p)
    f = p['fault']
    if not 1 <= p['when'] < len(p['segs']) or not f['at']: raise InvalidPlan('when')
    # What happens without any fault
    ref = S.Search(p, ctx, 'reference')
    lines = Lines()
    with ref.world():
        states = []
        for i, seg in enumerate(p['segs'][:p['when'] + 1]):
            if i < p['when']: states.append(ctx.call('explore_model_space', ref.explore, seg['rounds'], seg['beam']) if i == 0 else ctx.call('model_search_rounds', ref.resume, states[-1], seg['rounds'], seg['beam']))
            else:
                calls = [0]
                ref.utility_hook = lambda: calls.__setitem__(0, calls[0] + 1)
                first_fit = ref.fits
                with lines: st = ctx.call('model_search_rounds', ref.resume, states[-1], seg['rounds'], seg['beam'])
                states.append(st)
    want = S.state_digest(states[-1])
    fit_calls = [c for k, c in ref.history if k == 'fit' and c['n'] >= first_fit]
    # The same with faults
    s = S.Search(p, ctx, 'faulty')
    seg = p['segs'][p['when']]
    with s.world() as w:
        state = None
        for i, g in enumerate(p['segs'][:p['when']]): state = ctx.call('explore_model_space', s.explore, g['rounds'], g['beam']) if i == 0 else ctx.call('model_search_rounds', s.resume, state, g['rounds'], g['beam'])
        before = S.snapshot(state)
        for k, at in enumerate(f['at']):
            ctx.log('fault', f['kind'], at)
            fired, error = one_failure(p, ctx, s, w, state, seg, f['kind'], f['exc'], at, lines, calls[0], fit_calls, k)
            d = S.first_difference(S.snapshot(state), before)
            ctx.check(not d, 'state-changed', lambda: f'after {what(f, fired, error)} the given search state is not as it was: {d}')
            if fired is None: ctx.probe('fault did not fire'); continue
            ctx.nontrivial = True
            if error is None: ctx.check(False, 'swallowed', f'{what(f, fired, error)} did not reach the caller of model_search_rounds')
            if f['kind'] == 'pool-death': ctx.check(isinstance(error, Exception), 'wrong-error', lambda: f'a dead worker process was reported as {error!r}')
            elif f['kind'] in ('fit-lines',): ctx.check(isinstance(error, KeyboardInterrupt), 'wrong-error', lambda: f'{fired!r} was reported as {error!r}')
            else: ctx.check(type(error) is type(fired) and getattr(error, 'args', None) == fired.args, 'wrong-error', lambda: f'{fired!r} was reported as {error!r}')
            ctx.state(f['kind'], type(error).__name__, getattr(s, 'fault_where', ''), at // 500)
        after = ctx.call('model_search_rounds, resumed after a failure,', s.resume, state, seg['rounds'], seg['beam'])
        got = S.state_digest(after)
        d = S.first_difference(got, want)
        ctx.check(not d, 'resumed-differs', lambda: f'resuming after {f["kind"]} gives another result than without the failure: {d}')
        ctx.log('resumed', len(after[0]))
    ctx.ran('continuations with fitter ' + p['fitter'], len(f['at']) + 1)


def what(f, fired, error): return f"{f['kind']} ({fired!r}; the caller got {error!r})"


def one_failure(p, ctx, s, w, state, seg, kind, exc, at, lines, n_utils, fit_calls, k):
    '''Attempt the continuation with one fault: (what was injected or None, what the caller got)'''
    box = []
    def boom(name):
        box.append(make_exc(name, f'#{k}'))
        ctx.fault(f'{kind}:{name}')
        return box[-1]
    s.before_fit, s.utility_hook, w.fault_of = lambda call: None, None, lambda sig, attempt: None
    resume = lambda: s.resume(state, seg['rounds'], seg['beam'])
    try:
        if kind in ('interrupt', 'memory', 'fit-lines'):
            name = 'MemoryError' if kind == 'memory' else 'KeyboardInterrupt'
            with Lines(lines.spot(at) if p.get('spots') else 1 + at * lines.n // 10000, lambda: boom(name)) as l: _, error = ctx.attempt('model_search_rounds', resume)
            s.fault_where = l.where
        elif kind == 'fitter':
            target = fit_calls[at % len(fit_calls)]['n'] - fit_calls[0]['n'] + s.fits if fit_calls else None
            def before(call):
                if call['n'] == target: raise boom(exc)
            s.before_fit = before
            _, error = ctx.attempt('model_search_rounds', resume)
        elif kind == 'utility':
            left = [1 + at * n_utils // 10000]
            def hook():
                left[0] -= 1
                if left[0] == 0: raise boom(exc)
            s.utility_hook = hook
            _, error = ctx.attempt('model_search_rounds', resume)
        elif kind in ('fit-exhausted', 'fit-interrupt'):
            kexs = [(c, kex) for c in fit_calls for kex in c['kexs']]
            if not kexs: return None, None
            target = signature(kexs[at * len(kexs) // 10000][1].to_kernel())
            first = {}
            def fault_of(sig, attempt):
                if sig != target: return None
                if attempt - first.setdefault(sig, attempt) > p['retries']: return None # In another round with an equally shaped kernel
                fault = {'at': ['construct', 'restart'][at % 2], 'j': at // 2 % p['restarts'], 'exc': exc, 'token': f'#{k}'}
                return fault
            w.fault_of = fault_of
            seen = len(w.events)
            _, error = ctx.attempt('model_search_rounds', resume)
            if len([e for e in w.events[seen:] if e[0] == 'fail']) > (p['retries'] if kind == 'fit-exhausted' else 0): box.append(make_exc(exc, f'#{k}'))
        elif kind == 'pool-death':
            started = w.__dict__.get('_tasks_started', -1)
            w.sched['deaths'] = [{'task': started + 1 + at % 3, 'item': at // 3 % 4}]
            dead = ctx.faults.get('worker killed', 0)
            _, error = ctx.attempt('model_search_rounds', resume)
            w.sched['deaths'] = []
            if ctx.faults.get('worker killed', 0) > dead: box.append(RuntimeError('worker killed'))
        else: raise InvalidPlan(kind)
    finally: s.before_fit, s.utility_hook, w.fault_of = lambda call: None, None, lambda sig, attempt: None
    if error is not None and not box: raise error
    return (box[-1] if box else None), error
