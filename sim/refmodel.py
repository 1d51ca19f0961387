'''A small executable reference model of kernel expressions, their normal form and the production rules.

Expressions are tuples: ('S' | 'P', sorted base names, sorted sub-expressions), ('C', 'CP' | 'CW', left, right), or a bare base name.'''
from functools import lru_cache

BASES = ('C', 'LIN', 'PER', 'WN') # Of the default configuration (SE added if it is switched on)


class Grammar:
    def __init__(self, se = False, lin_offset = True):
        self.bases = tuple(sorted(BASES + (('SE',) if se else ())))
        self.lin_offset = lin_offset
        self.norm = lru_cache(200000)(self._norm)

    # Reading

    def parse(self, text):
        '''From the constructor form of an expression (its repr), as it is, without simplifying'''
        def comm(t): return lambda bases, comps = (): (t, tuple(sorted(bases)), tuple(sorted(comps, key = repr)))
        return eval(text, {'__builtins__': {}, 'SumKE': comm('S'), 'ProductKE': comm('P'), 'ChangeKE': lambda op, l, r: ('C', op, l, r)})

    def canon(self, text): return self.root(self.parse(text))

    # Normal form

    def _norm(self, t):
        if isinstance(t, str): return t
        if t[0] == 'C': return ('C', t[1], self.norm(t[2]), self.norm(t[3]))
        kind, bases, comps = t
        bases, out = list(bases), []
        for c in comps:
            c = self.norm(c)
            if isinstance(c, str): bases.append(c)
            elif c[0] == kind: bases += c[1]; out += c[2]
            else: out.append(c)
        count = {b: bases.count(b) for b in set(bases)}
        if kind == 'S':
            for b in ('WN', 'C'):
                if b in count: count[b] = 1
            if self.lin_offset and 'LIN' in count: count.pop('C', None)
        elif 'WN' in count: count = {b: (1 if b == 'WN' else n) for b, n in count.items() if b in ('WN', 'LIN')}
        else:
            if 'C' in count:
                if len(count) > 1 or out: del count['C']
                else: count['C'] = 1
            if 'SE' in count: count['SE'] = 1
        bases = [b for b in sorted(count) for _ in range(count[b])]
        if len(bases) == 1 and not out: return bases[0]
        if not bases and len(out) == 1: return out[0]
        return (kind, tuple(bases), tuple(sorted(out, key = repr)))

    def root(self, t):
        t = self.norm(t)
        return ('S', (t,), ()) if isinstance(t, str) else t

    def is_normal(self, t): return self.root(t) == t

    # One-step rewrites

    def expansions(self, t, rules):
        '''The distinct expressions obtained by applying each rule once at one place of t (which is in normal form)'''
        out = set()
        for node, rebuild in self.places(t):
            for r in rules:
                for new in getattr(self, 'rule_' + r)(node): out.add(self.root(rebuild(new)))
        return out

    def places(self, t):
        yield t, lambda new: new
        if t[0] in 'SP':
            for i, c in enumerate(t[2]):
                for node, rebuild in self.places(c):
                    yield node, lambda new, i = i, rebuild = rebuild: (t[0], t[1], t[2][:i] + (rebuild(new),) + t[2][i + 1:])
        else:
            for i in (2, 3):
                leaf = isinstance(t[i], str)
                for node, rebuild in ([(('S', (t[i],), ()), lambda new: new)] if leaf else self.places(t[i])):
                    yield node, lambda new, i = i, rebuild = rebuild: t[:i] + (rebuild(new),) + t[i + 1:]

    def S(self, bases = (), comps = ()): return ('S', tuple(sorted(bases)), tuple(comps))
    def P(self, bases = (), comps = ()): return ('P', tuple(sorted(bases)), tuple(comps))
    @staticmethod
    def less(bases, b, n = 1):
        bases = list(bases)
        for _ in range(n): bases.remove(b)
        return tuple(bases)

    def rule_plus_base(self, t):
        for B in self.bases:
            if t[0] == 'S': yield self.S(t[1] + (B,), t[2])
            else: yield self.S((B,), (t,))
            if t[0] == 'P':
                for b in set(t[1]): yield self.P(self.less(t[1], b), t[2] + (self.S((B, b)),))

    def rule_times_base(self, t):
        for B in self.bases:
            if B == 'C': continue
            if t[0] == 'P': yield self.P(t[1] + (B,), t[2])
            else: yield self.P((B,), (t,))
            if t[0] == 'S':
                for b in set(t[1]): yield self.S(self.less(t[1], b), t[2] + (self.P((B, b)),))

    def rule_replace_base(self, t):
        for B in self.bases:
            if t[0] == 'C':
                for i in (2, 3):
                    if isinstance(t[i], str) and t[i] != B: yield t[:i] + (B,) + t[i + 1:]
            else:
                for b in set(t[1]): yield (t[0], tuple(sorted(self.less(t[1], b) + (B,))), t[2])

    def _changes(self, t, op, B):
        yield ('C', op, t, B)
        yield ('C', op, B, t)

    def rule_change_new_base(self, t):
        for B in self.bases:
            if B != 'C':
                for op in ('CP', 'CW'): yield from self._changes(t, op, B)

    def rule_change_same(self, t):
        for op in ('CP', 'CW'): yield ('C', op, t, t)

    def rule_change_window_constant(self, t): return self._changes(t, 'CW', 'C')
    def rule_change_window_linear(self, t): return self._changes(t, 'CW', 'LIN')
    def rule_change_point_linear(self, t): return self._changes(t, 'CP', 'LIN')

    def rule_times_shifted_base(self, t):
        for B in self.bases:
            if B != 'C':
                s = self.S((B, 'C'))
                if t[0] == 'P': yield self.P(t[1], t[2] + (s,))
                else: yield self.P((), (t, s))

    def rule_replace_with_singleton(self, t):
        for B in self.bases: yield self.S((B,))

    def rule_remove_some_term(self, t):
        if t[0] == 'C':
            for i in (2, 3): yield self.S((t[i],)) if isinstance(t[i], str) else t[i]
        elif len(t[1]) + len(t[2]) > 1:
            for b in set(t[1]): yield (t[0], self.less(t[1], b), t[2])
            for i in range(len(t[2])): yield (t[0], t[1], t[2][:i] + t[2][i + 1:])

    def rule_try_higher_curves(self, t):
        curves = [self.P(('LIN',) * 2), self.P(('LIN',) * 3)]
        if t[0] == 'C':
            for i in (2, 3):
                if isinstance(t[i], str):
                    for c in curves: yield t[:i] + (c,) + t[i + 1:]
            return
        rest = tuple(b for b in t[1] if b != 'SE')
        if t[0] == 'S':
            for c in curves: yield self.S(rest, t[2] + (c,))
        else:
            for n in (2, 3): yield self.P(rest + ('LIN',) * n, t[2])
            yield self.P(rest + ('PER',) * (1 if 'PER' in t[1] else 2), t[2])

    # Sizes and writing

    def size(self, t):
        if isinstance(t, str): return 1
        if t[0] == 'C': return 1 + self.size(t[2]) + self.size(t[3])
        return len(t[1]) + sum(self.size(c) for c in t[2])

    def code(self, t):
        '''Constructor form'''
        if isinstance(t, str): return repr(t)
        if t[0] == 'C': return f'ChangeKE({t[1]!r}, {self.code(t[2])}, {self.code(t[3])})'
        return f"{'SumKE' if t[0] == 'S' else 'ProductKE'}({list(t[1])!r}, [{', '.join(self.code(c) for c in t[2])}])"

    def random(self, r, depth = 1):
        '''A random expression (not necessarily in normal form)'''
        kind = r.choice('SSPPC') if depth else r.choice('SP')
        if kind == 'C': return ('C', r.choice(('CP', 'CW')), *[r.choice(self.bases) if r.random() < 0.5 else self.random(r, depth - 1) for _ in '12'])
        nb = r.choice([1, 1, 2, 2, 3]); nc = r.choice([0, 0, 1, 1, 2]) if depth else 0
        if nc > 1 and r.random() < 0.3: nb = 0
        return (kind, tuple(sorted(r.choice(self.bases) for _ in range(nb))), tuple(self.random(r, depth - 1) for _ in range(nc)))


RULES = ['plus_base', 'times_base', 'replace_base', 'change_new_base', 'change_same', 'change_point_linear', 'change_window_constant', 'change_window_linear',
         'times_shifted_base', 'replace_with_singleton', 'remove_some_term', 'try_higher_curves']
