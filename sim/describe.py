'''What a text description says, read without relying on its wording beyond the names of the quantities it states'''
import re

NUM = r'(-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan))'


def close(text, v): return abs(float(text) - v) <= 0.0051 + 1e-9 * abs(v)

def match(texts, values):
    '''Whether the stated numbers are the values (rounded to two decimals) up to order'''
    return len(texts) == len(values) and all(close(t, v) for t, v in zip(sorted(texts, key = float), sorted(values)))


def variances(line): return re.findall('variance ' + NUM, line)
def periods(line): return re.findall(f'period {NUM}(?: and lengthscale {NUM})?', line)
def lengthscales(line): return re.findall('lengthscale ' + NUM, line)
def offsets(line):
    out = re.findall('horizontal offset ' + NUM, line)
    for roots in re.findall(f'with roots ((?:(?:, )?(?:and )?{NUM})+)', line): out += re.findall(NUM, roots[0])
    return out
def orders(line): return [int(n) for n in re.findall(r'order (\d+)', line)]
def intervals(line):
    out = [(float(a), float(b)) for a, b in re.findall(f'between {NUM} and {NUM}', line)]
    out += [(float('-inf'), float(b)) for b in re.findall('until ' + NUM, line)]
    return out + [(float(a), float('inf')) for a in re.findall('from ' + NUM, line)]


def switched_on(ps):
    '''(breakpoints, membership function) of where the change operators of a product switch it on'''
    marks, tests = [], []
    for kind in ('S', 'Sr', 'SI', 'SIr'):
        for p in ps.get(kind, []):
            a = p['location']
            b = a + p.get('width', 0)
            marks += [a, b] if 'I' in kind else [a]
            tests.append({'S': lambda x, a = a: x > a, 'Sr': lambda x, a = a: x < a, 'SI': lambda x, a = a, b = b: a < x < b, 'SIr': lambda x, a = a, b = b: x < a or x > b}[kind])
    return marks, lambda x: all(t(x) for t in tests)


def line_error(line, ps):
    '''What is wrong with the description of the product with the given parameters (empty if nothing)'''
    get = lambda b, q: [p[q] for p in ps.get(b, []) if q in p]
    if not match(variances(line), get('ProductKE', 'variance')): return f"variance {variances(line)} instead of {get('ProductKE', 'variance')}"
    if not match([p for p, _ in periods(line)], get('PER', 'period')): return f"periods {periods(line)} instead of {get('PER', 'period')}"
    pairs = sorted((float(p), float(l)) for p, l in periods(line) if l)
    if pairs and len(pairs) == len(ps['PER']):
        left = [(p['period'], p['lengthscale']) for p in ps['PER']]
        for a, b in pairs:
            hit = next((q for q in left if close(str(a), q[0]) and close(str(b), q[1])), None)
            if hit is None: return f"periods and lengthscales {pairs} instead of {[(p['period'], p['lengthscale']) for p in ps['PER']]}"
            left.remove(hit)
    if not match(lengthscales(line), get('PER', 'lengthscale') + get('SE', 'lengthscale')): return f"lengthscales {lengthscales(line)} instead of {get('PER', 'lengthscale') + get('SE', 'lengthscale')}"
    if not match(offsets(line), get('LIN', 'offset')): return f"offsets {offsets(line)} instead of {get('LIN', 'offset')}"
    n = len(ps.get('LIN', []))
    if orders(line) and orders(line) != [n]: return f'order {orders(line)} instead of {n}'
    if bool(ps.get('WN')) != ('noise' in line.lower()): return 'white noise is misstated'
    # Intervals
    said = intervals(line)
    marks, on = switched_on(ps)
    if not marks: return f'intervals {said} without any change operator' if said else ''
    pts = sorted(set(marks) | {v for iv in said for v in iv if abs(v) != float('inf')})
    probes = [pts[0] - 1 - abs(pts[0]), pts[-1] + 1 + abs(pts[-1])] + [(a + b) / 2 for a, b in zip(pts, pts[1:]) if b - a > 0.03 + 1e-6 * (abs(a) + abs(b))]
    if not said: # Nothing to state
        return f'no interval is stated, although the product applies at {[x for x in probes if on(x)]}' if any(on(x) for x in probes) else ''
    for x in probes:
        if on(x) != any(a < x < b for a, b in said): return f'the stated intervals {said} {"exclude" if on(x) else "include"} {x}; the change operators are { {k: v for k, v in ps.items() if k in ("S", "Sr", "SI", "SIr")} }'
    return ''


def description_error(text, products):
    '''What is wrong with a whole description of the products (each a dictionary of parameters)'''
    lines = [l for l in text.split('\n') if l.strip()]
    header = [l for l in lines if not variances(l)]
    lines = [l for l in lines if variances(l)]
    if len(lines) != len(products): return f'{len(lines)} components are described; the canonical form has {len(products)}'
    stated = re.findall(r'(\d+) component', ' '.join(header))
    if stated and int(stated[0]) != len(products): return f'{stated[0]} components are announced; the canonical form has {len(products)}'
    errors = [line_error(l, p) for l, p in zip(lines, products)]
    if not any(errors): return ''
    if len(lines) <= 40: # In another order?
        ok = [[j for j, p in enumerate(products) if not line_error(l, p)] for l in lines]
        taken = {}
        def place(i, seen):
            for j in ok[i]:
                if j not in seen:
                    seen.add(j)
                    if j not in taken or place(taken[j], seen): taken[j] = i; return True
            return False
        if all(place(i, set()) for i in range(len(lines))): return ''
    i = next(i for i, e in enumerate(errors) if e)
    return f'component {i + 1} is described as "{lines[i].strip()}": {errors[i]}'
