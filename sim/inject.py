'''Faults and preemptions at arbitrary executed lines of the package under test (through sys.settrace, in the calling thread only)'''
import os, sys, threading

from .boot import REPO
from .core import SimLimit, SimHang

PREFIX = os.path.realpath(REPO) + os.sep + 'GPy_ABCD' + os.sep
ALT = REPO.rstrip('/') + '/GPy_ABCD/'


def ours(frame):
    f = frame.f_code.co_filename
    return f.startswith(PREFIX) or f.startswith(ALT)


class Lines:
    '''Counts the executed lines of the package; at line number `at` (from 1), or at a (source line, occurrence), raises what make() gives'''
    def __init__(self, at = None, make = None, limit = 20_000_000):
        self.at, self.make, self.n, self.fired, self.where, self.limit = at, make, 0, None, None, limit
        self.seen = {}

    def spot(self, at, of = 10000):
        '''Of everything executed, an occurrence of a source line: each source line is as likely as any other, however often it runs'''
        if not self.seen: return 1
        keys = sorted(self.seen)
        key = keys[at % len(keys)]
        return key, 1 + (at // len(keys)) * self.seen[key] // (of // len(keys) + 1)

    def _global(self, frame, event, arg): return self._local if ours(frame) else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            key = (frame.f_code.co_filename[-40:], frame.f_lineno)
            self.seen[key] = k = self.seen.get(key, 0) + 1
            if self.n == self.at or (key, k) == self.at:
                self.fired = self.make()
                self.where = frame.f_code.co_name
                raise self.fired
            if self.n > self.limit: raise SimLimit(f'more than {self.limit} lines executed')
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


_real_lock, _real_rlock, _real_semaphore = threading.Lock, threading.RLock, threading.Semaphore
running = None # The Threads being simulated

class SimLock:
    '''A lock made by the package under test: a thread which finds it taken lets the simulated scheduler go on with another one'''
    def __init__(self, reentrant = False): self.owner, self.depth, self.reentrant, self.real = None, 0, reentrant, _real_lock()
    def acquire(self, blocking = True, timeout = -1):
        me = threading.get_ident()
        while True:
            with self.real:
                if self.owner is None or (self.reentrant and self.owner == me):
                    self.owner, self.depth = me, self.depth + 1
                    return True
            if not blocking or timeout >= 0: return False
            if running is None: raise SimHang('waiting for a lock which nobody will release')
            running.block()
    def release(self):
        if self.owner is None: raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth: self.owner = None
    def locked(self): return self.owner is not None
    def __enter__(self): return self.acquire()
    def __exit__(self, *exc): self.release()
    def __reduce__(self): raise TypeError("cannot pickle '_thread.lock' object")

def install_locks():
    threading.Lock = lambda: SimLock() if ours(sys._getframe(1)) else _real_lock()
    threading.RLock = lambda: SimLock(True) if ours(sys._getframe(1)) else _real_rlock()


GAPS = [3, 1, 2, 7, 20, 60, 200, 1000]

class Threads:
    '''Runs callables in real threads of which exactly one executes at any time; the chooser decides, at executed lines of the
    package, when to switch and to whom'''
    def __init__(self, ctx, fns, max_switches = 400):
        self.ctx, self.fns, self.max_switches = ctx, fns, max_switches
        self.locks = [_real_semaphore(0) for _ in fns]
        self.done = [False] * len(fns)
        self.results = [None] * len(fns)
        self.errors = [None] * len(fns)
        self.switches, self.gap, self.current = 0, 0, 0
        self.finished = _real_semaphore(0)
        self.spins = 0

    def _next_gap(self): self.gap = GAPS[self.ctx.choose.pick(len(GAPS))] if self.switches < self.max_switches else 10 ** 9

    def _switch(self, me):
        others = [i for i, d in enumerate(self.done) if not d]
        if not others: return self.finished.release()
        to = others[self.ctx.choose.pick(len(others))]
        self.switches += 1
        self._next_gap()
        if to == me: return
        self.current = to
        self.locks[to].release()
        if not self.done[me]: self.locks[me].acquire()

    def block(self):
        '''Called by a simulated lock which is taken: lets another thread run'''
        me = self.current
        others = [i for i, d in enumerate(self.done) if not d and i != me]
        self.spins += 1
        if not others or self.spins > 10000: raise SimHang('every thread waits for a lock')
        to = others[self.ctx.choose.pick(len(others))]
        self._next_gap()
        self.current = to
        self.locks[to].release()
        self.locks[me].acquire()

    def _tracer(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.gap -= 1
                if self.gap <= 0: self._switch(me)
            return local
        return lambda frame, event, arg: local if ours(frame) else None

    def _body(self, me):
        self.locks[me].acquire()
        sys.settrace(self._tracer(me))
        try: self.results[me] = self.fns[me]()
        except BaseException as e: self.errors[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            self._switch(me)

    def run(self):
        ts = [threading.Thread(target = self._body, args = (i,), daemon = True) for i in range(len(self.fns))]
        for t in ts: t.start()
        self._next_gap()
        global running
        running = self
        first = self.ctx.choose.pick(len(self.fns))
        self.current = first
        self.locks[first].release()
        self.finished.acquire()
        running = None
        for t in ts: t.join()
        return self.results, self.errors
