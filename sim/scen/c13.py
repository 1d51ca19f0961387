'''C13: logging is truthful and changes nothing'''
import re

from .. import search as S

def gen(r, tier, idx):
    p = S.gen(r, tier, fitters = ('ghost',) * 8 + ('serial',), rounds = (0, 0, 1, 1, 2, 3, 4, 5), n_rules = (1, 1, 1, 2))
    for s in p['segs']:
        if s['rounds'] == 0 and r.random() < 0.3: s['beam'] = [] # I.e. no rounds and hence no beam values
    if r.random() < 0.25: # Nothing new or nothing left to expand
        p['rules'] = [r.choice(['replace_with_singleton', 'replace_base', 'remove_some_term'])]
        p['start'] = r.sample(['WN', 'C', 'LIN', 'PER'], r.choice([1, 4, 4]))
        for s in p['segs']: s['beam'] = r.choice([1, 4, 50])
    return p


def run(p, ctx):
    q = dict(p, segs = [dict(s, beam = s['beam'] or 1) for s in p['segs']])
    S.valid(q)
    digests, logs, searches = [], [], []
    for verbose in (False, True):
        s = S.Search(dict(p, verbose = verbose), ctx, 'verbose' if verbose else 'silent')
        with s.world():
            states = s.run()
        digests.append([S.state_digest(st) for st in states])
        logs.append(s.logs)
        searches.append((s, states))
    d = S.first_difference(digests[1], digests[0])
    ctx.check(not d, 'results-differ', lambda: f'the results with and without logging differ: {d}')
    s, states = searches[1]
    read(p, ctx, s, states)
    ctx.nontrivial = True


def split(text):
    '''A printed list of kernels'''
    out, depth, cur = [], 0, ''
    for ch in text:
        depth += (ch == '(') - (ch == ')')
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return [x for x in out + [cur.strip()] if x]


def same_list(text, start):
    '''Whether the text is the list of these kernels (possibly followed by something else)'''
    left = list(start)
    for item in split(text):
        if item in left: left.remove(item); continue
        k = max((k for k in left if item.startswith(k + ' ')), key = len, default = None)
        return k is not None and left == [k]
    return not left


def read(p, ctx, s, states):
    calls = [v for k, v in s.history if k == 'fit']
    texts = lambda ms: [str(m.kernel_expression) for m in ms]
    done, n_call = [], 0
    for i, seg in enumerate(p['segs']):
        log, bs = s.logs[i], S.beams(seg['beam'] or 0, seg['rounds'])
        ctx.log('log', len(log))
        state = states[i]
        if i == 0:
            facts = {'rounds': (r'Testing (\d+) layers', seg['rounds']), 'datapoints': (r' on (\d+) datapoints', len(s.X)), 'restarts': (r' (\d+) random restarts', p['restarts']),
                     'optimiser': (r'\(with (\S+) optimiser\)', p['optimiser']), 'criterion': (r'scored by (\w+)', s.utility.__name__)}
            for what, (pattern, want) in facts.items():
                m = re.search(pattern, log)
                ctx.check(m is not None and m[1] == str(want), 'log-start', lambda: f'the log does not start by giving {want} as its {what}: {log[:300]}')
            m = re.search(r'starting from: ([^\n]*)', log)
            start = [str(k) for k in calls[0]['kexs']]
            ctx.check(m is not None and same_list(m[1], start), 'log-start', lambda: f'the log does not say that the search starts from {start}: {log[:300]}')
        n_rounds = seg['rounds'] + (1 if i == 0 else 0)
        exp_before = len(states[i - 1][3]) if i else 0
        found = list(re.finditer(r'[Rr]ound-(\d+) models \[(\d+) new; (\d+) moving forward\](?::([^\n]*))?', log))
        ctx.check([int(m[1]) for m in found] == list(range(0 if i == 0 else 1, seg['rounds'] + 1)) or (len(found) == n_rounds and all(int(b[1]) == int(a[1]) + 1 for a, b in zip(found, found[1:]))), 'log-rounds', lambda: f'the log of {n_rounds} rounds has {[m[0] for m in found]}')
        tested = state[1]
        offset = len(tested) - n_rounds
        expanded_now = state[3]
        pos = exp_before
        for j, m in enumerate(found):
            new = tested[offset + j]
            so_far = [x for l in tested[:offset + j + 1] for x in l]
            ctx.check(int(m[2]) == len(new), 'log-new', lambda: f'the log says {m[2]} new models instead of {len(new)}: {m[0]}')
            if i == 0 and j == 0:
                b = bs[0] if bs else 0
                ctx.check(int(m[3]) == b, 'log-beam', lambda: f'the log says {m[3]} models move forward instead of {b}')
                best(ctx, s, m[4] or '', new, 'best of round 0', 1)
                continue
            b = bs[j - (1 if i == 0 else 0)]
            ctx.check(int(m[3]) == b, 'log-beam', lambda: f'the log says {m[3]} models move forward instead of {b}')
            # The models expanded up to this round: the first ones of the list of expanded models
            left_before = len([x for l in tested[:offset + j] for x in l]) - pos
            pos += min(b, left_before)
            gone = {id(x) for x in expanded_now[:pos]}
            body = log[m.end():found[j + 1].start() if j + 1 < len(found) else len(log)]
            some = 1 if bs[0] else 0
            for label, pool, need in (('Best new', new, some), ('Best so far', so_far, some), ('Best not-already-expanded', [x for x in so_far if id(x) not in gone], 1 if b else 0)):
                l = re.search(label + r':[ ]?([^\n]*)', body)
                ctx.check(l is not None, 'log-missing', lambda: f'the log of a round has no "{label}": {body[:300]}')
                best(ctx, s, l[1], pool, f'{label} of round {m[1]} of part {i}', need)
            if not new: ctx.probe('logged rounds with nothing new')
        if i == 0:
            l = re.search(r'Best models overall:[ ]?([^\n]*)', log)
            ctx.check(l is not None, 'log-missing', 'the log does not end with the best models')
            best(ctx, s, l[1], state[0], 'best models overall', 1)
        ctx.probe('logged rounds', n_rounds)
    ctx.state(len(states[-1][0]), [x['rounds'] for x in p['segs']], [str(x['beam']) for x in p['segs']])


def best(ctx, s, text, pool, what, need):
    '''The printed kernels are the best of the pool, best first (whichever order equally good ones have)'''
    got = split(text)
    ctx.check(len(got) >= min(need, len(pool)), 'log-list', lambda: f'{what}: nothing is listed although there are {len(pool)} models')
    scores = sorted(s.score(m) for m in pool)
    have = {}
    for m in pool: have.setdefault(str(m.kernel_expression), []).append(s.score(m))
    for k, want in zip(got, scores):
        ctx.check(k in have, 'log-list', lambda: f'{what}: {k} is listed but is not among the {len(pool)} models it is about')
        ctx.check(want in have[k], 'log-list', lambda: f'{what}: {k} is listed in the place of a kernel scoring {want} but scores {have[k]}')
    ctx.check(len(got) <= len(scores) and len(set(got)) == len(got), 'log-list', lambda: f'{what}: {got}')
