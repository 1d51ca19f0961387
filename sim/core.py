'''Core of the simulator: choices, logs, violations, and the per-run context.

Everything a run does is a function of its plan (a JSON document) and of the code under test: every random choice comes
from a Chooser seeded by the plan, and every choice taken is recorded so that it can be minimised and replayed.'''
import hashlib, json, random


class Violation(Exception):
    '''The property under check does not hold in this run'''
    def __init__(self, kind, message):
        super().__init__(f'[{kind}] {message}')
        self.kind, self.message = kind, message


class SimHang(BaseException):
    '''Nothing in the simulated world can ever wake up the waiting caller (a BaseException so that no code under test absorbs it)'''


class SimLimit(BaseException):
    '''The step cap of a run was exceeded: the code under test is not making progress'''


class TooLarge(BaseException):
    '''The run is cut short because the search has grown too big to be simulated (not a fault: nothing is checked afterwards)'''


class InvalidPlan(Exception):
    '''A plan (made by the minimiser) which makes no sense'''


def h64(*parts):
    return int.from_bytes(hashlib.sha256('\x1f'.join(map(str, parts)).encode()).digest()[:8], 'big')


def unit(*parts):
    '''A uniform number in [0, 1) which only depends on the arguments (not on any history, process or hash seed)'''
    return h64(*parts) / 2 ** 64


class Chooser:
    '''The single source of decisions of a run; script replays recorded decisions, then tail says how to go on'''
    def __init__(self, seed, script = None, tail = 'rng'):
        self.rng = random.Random(seed)
        self.script = list(script or [])
        self.tail = tail
        self.taken = []

    def pick(self, n):
        if n <= 1: return 0
        i = len(self.taken)
        if i < len(self.script): v = self.script[i] % n
        elif self.tail == 'rng': v = self.rng.randrange(n)
        else: v = 0
        self.taken.append(v)
        return v

    def among(self, xs): return xs[self.pick(len(xs))]
    def chance(self, num, den): return self.pick(den) >= den - num # so that 0, the minimised decision, means no
    def order(self, xs): # A permutation; all-zero decisions keep the order
        xs, out = list(xs), []
        while xs: out.append(xs.pop(self.pick(len(xs))))
        return out


class Ctx:
    '''What a run reports: its log, the faults which fired, probes, simulated time, and the states it reached'''
    def __init__(self, plan):
        self.plan = plan
        self.choose = Chooser(plan.get('cseed', 0), plan.get('choices'), plan.get('tail', 'rng'))
        self.events, self.hash = [], hashlib.sha256()
        self.faults, self.probes, self.real, self.states = {}, {}, {}, set()
        self.simtime, self.evaluations, self.n_events = 0.0, 0, 0
        self.nontrivial = False
        self.helpers = {}

    def log(self, *parts):
        line = ' '.join(map(str, parts))
        self.n_events += 1
        self.hash.update(line.encode() + b'\n')
        if len(self.events) < 400: self.events.append(line[:300])

    def fault(self, kind, n = 1): self.faults[kind] = self.faults.get(kind, 0) + n
    def probe(self, name, n = 1): self.probes[name] = self.probes.get(name, 0) + n
    def ran(self, component, n = 1): self.real[component] = self.real.get(component, 0) + n
    def state(self, *parts): self.states.add(h64(*parts))

    def check(self, cond, kind, message):
        self.evaluations += 1
        if not cond: raise Violation(kind, message() if callable(message) else message)

    def call(self, what, fn, *args, **kwargs):
        '''Call the code under test where it is not allowed to fail'''
        try: return fn(*args, **kwargs)
        except Violation: raise
        except SimHang as e: raise Violation('hang', f'{what} never returns: {e}')
        except SimLimit as e: raise Violation('no-progress', f'{what}: {e}')
        except Exception as e: raise Violation('unexpected-exception', f'{what} raised {type(e).__name__}: {str(e)[:300]} (at {where(e)})')

    def attempt(self, what, fn, *args, **kwargs):
        '''Call the code under test where it may fail: (result, None) or (None, exception)'''
        try: return fn(*args, **kwargs), None
        except Violation: raise
        except SimHang as e: raise Violation('hang', f'{what} never returns: {e}')
        except SimLimit as e: raise Violation('no-progress', f'{what}: {e}')
        except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as e: return None, e


def isolated(fn, *args):
    '''The result of fn in a process of its own: nothing it does to this one (caches, settings, module state) remains'''
    import os, pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try: ans = (True, fn(*args))
            except Violation as e: ans = (False, (e.kind, e.message))
            except (TooLarge, InvalidPlan) as e: ans = (None, (type(e).__name__, str(e)))
            except BaseException as e:
                import traceback
                ans = (None, ('RuntimeError', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]))
            with os.fdopen(w, 'wb') as f: f.write(pickle.dumps(ans))
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    os.waitpid(pid, 0)
    ok, v = pickle.loads(data)
    if ok: return v
    if ok is False: raise Violation(*v)
    raise {'TooLarge': TooLarge, 'InvalidPlan': InvalidPlan}.get(v[0], RuntimeError)(v[1])


def where(e):
    tb, last = e.__traceback__, ''
    while tb is not None:
        f = tb.tb_frame.f_code
        if 'GPy_ABCD' in f.co_filename: last = f.co_name
        tb = tb.tb_next
    return last or 'outside the package'


def close(a, b, rtol = 1e-6, atol = 1e-9):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol = rtol, atol = atol, equal_nan = True))


def hexf(x):
    '''A number as text for exact comparisons, to some 9 significant digits (see seams.steady)'''
    import math
    try:
        x = float(x)
        if not math.isfinite(x): return repr(x)
        m, e = math.frexp(x)
        return (math.ldexp(round(m * 2 ** 31), e - 31) + 0.).hex()
    except Exception: return repr(x)


def digest(obj): return hashlib.sha256(json.dumps(obj, sort_keys = True, default = str).encode()).hexdigest()[:24]
