'''Minimisation of a failing plan: simpler parameters first, then fewer and smaller scheduling decisions, while the same kind of violation persists'''
import copy, time


def candidates(p):
    '''Simpler variants of a JSON document: list elements dropped, numbers and flags brought towards zero'''
    def walk(node, path):
        if isinstance(node, list):
            n = len(node)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    if size < n or n == 1: yield path, ('del', i, size)
                size //= 2
            for i, x in enumerate(node): yield from walk(x, path + [i])
        elif isinstance(node, dict):
            for k in sorted(node): yield from walk(node[k], path + [k])
        elif isinstance(node, bool):
            if node: yield path, ('set', False)
        elif isinstance(node, int):
            for v in sorted({0, 1, node // 2, node - 1}):
                if 0 <= v < node: yield path, ('set', v)
    for path, op in walk(p, []):
        q = copy.deepcopy(p)
        at = q
        for k in path[:-1]: at = at[k]
        if op[0] == 'set':
            if not path: continue
            at[path[-1]] = op[1]
        else:
            lst = at[path[-1]] if path else q
            del lst[op[1]:op[1] + op[2]]
        yield q


def minimise(plan, res, again, seconds):
    end, kind = time.time() + seconds, res['kind']
    first = again(plan)
    if first['status'] != 'violation' or first['kind'] != kind: return plan, res
    res = first
    def attempt(cand):
        nonlocal plan, res
        r = again(cand)
        if r['status'] == 'violation' and r['kind'] == kind:
            plan, res = dict(cand, choices = r['taken']), r
            return True
        return False
    progress = True
    while progress and time.time() < end:
        progress = False
        for q in candidates(plan['p']):
            if time.time() >= end: break
            if attempt(dict(plan, p = q)):
                progress = True
                break
    ch = list(plan.get('choices') or [])
    size = max(1, len(ch) // 2)
    while ch and size >= 1 and time.time() < end: # Zero chunks of decisions
        for i in range(0, len(ch), size):
            if any(ch[i:i + size]) and time.time() < end:
                if attempt(dict(plan, choices = ch[:i] + [0] * len(ch[i:i + size]) + ch[i + size:])): ch = list(plan['choices'])
        size //= 2
    while plan.get('choices') and plan['choices'][-1] == 0: plan['choices'].pop()
    return plan, res
