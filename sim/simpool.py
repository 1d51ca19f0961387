'''Process pools under the simulated scheduler.

Workers are real forked processes (so their memory, random state and pickling are as isolated as in production) which run in
lockstep: exactly one process executes at any time, and which worker takes which task, how long each task takes in simulated
time (hence the order of completion), and when a worker dies, are all decided by the run's Chooser.'''
import heapq, os, pickle, signal, struct, sys, traceback
import concurrent.futures as cf
import concurrent.futures.process as cfp
import multiprocessing as mp
import multiprocessing.pool as mpp

from . import seams
from .core import SimHang, Violation

_real = {}
DURATIONS = [1, 1, 2, 3, 5, 8, 13, 40, 200]


def active(): return seams.world is not None and seams.world.sched is not None and seams.world.in_worker is None


def _write(fd, data):
    data = struct.pack('>Q', len(data)) + data
    while data: data = data[os.write(fd, data):]

def _read(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            b = os.read(fd, min(1 << 20, n - len(out)))
            if not b: return None
            out += b
        return out
    head = exactly(8)
    return None if head is None else exactly(struct.unpack('>Q', head)[0])


class Died(Exception): pass


class Worker:
    '''A forked process which executes one task at a time when told to'''
    count = 0
    def __init__(self, pool, initializer, initargs):
        self.pool, self.busy, self.alive = pool, False, True
        w = seams.world
        self.id = w.__dict__['_worker_ids'] = w.__dict__.get('_worker_ids', -1) + 1
        self.speed = w.sched.get('speeds', [1])[self.id % len(w.sched.get('speeds', [1]))]
        self.done = 0
        down_r, down_w = os.pipe()
        up_r, up_w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(down_w); os.close(up_r)
                self._child(down_r, up_w, initializer, initargs)
            finally: os._exit(0)
        os.close(down_r); os.close(up_w)
        self.to, self.fro = down_w, up_r

    def _child(self, fd_in, fd_out, initializer, initargs):
        w = seams.world
        w.in_worker = self.id
        w.events, w.ctx.faults, w.ctx.events = [], {}, []
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        sys.settrace(None)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1); os.dup2(devnull, 2) # A worker's output (e.g. warnings) goes nowhere
        try:
            if initializer is not None: initializer(*initargs)
        except BaseException: os._exit(1)
        while (req := _read(fd_in)) is not None:
            die_at, blob = pickle.loads(req)
            try: items = pickle.loads(blob)
            except BaseException as e: _write(fd_out, pickle.dumps((('lost', repr(e)), [], {}))); continue
            out = []
            for i, (fn, args, kwargs) in enumerate(items):
                if die_at == i: os.kill(os.getpid(), signal.SIGKILL)
                try: out.append((True, fn(*args, **kwargs)))
                except (Exception, SystemExit, KeyboardInterrupt) as e:
                    e.__traceback__ = None
                    out.append((False, e))
                    break # As in both pools' chunks
                except BaseException as e:
                    out.append((False, RuntimeError(f'{type(e).__name__} in a worker: {e}')))
                    break
            if die_at == len(items): os.kill(os.getpid(), signal.SIGKILL)
            try: res = pickle.dumps(out)
            except BaseException as e: res = pickle.dumps([(False, pickle.PicklingError(f'{type(e).__name__}: {e}'))])
            _write(fd_out, pickle.dumps((('done', res), w.events, w.ctx.faults)))
            w.events, w.ctx.faults = [], {}

    def execute(self, blob, die_at):
        w = seams.world
        _write(self.to, pickle.dumps((die_at, blob)))
        ans = _read(self.fro)
        if ans is None:
            self.kill()
            return None
        outcome, events, faults = pickle.loads(ans)
        for ev in events: w.events.append(ev)
        for k, n in faults.items(): w.ctx.fault(k, n)
        return outcome

    def kill(self):
        if not self.alive: return
        self.alive = False
        for fd in (self.to, self.fro): os.close(fd)
        try: os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        os.waitpid(self.pid, 0)


class Task:
    def __init__(self, items, on_done):
        self.items, self.on_done, self.state = items, on_done, 'pending'


class Engine:
    '''Shared by both kinds of pool'''
    replaces_dead = False
    def _start(self, n, initializer, initargs):
        w = seams.world
        self.world, self.ctx, self.sched = w, w.ctx, w.sched
        self.n = w.n_cpu if n is None else n
        if self.n < 1: raise ValueError('The number of processes must be greater than 0')
        self.initializer, self.initargs = initializer, initargs
        self.workers, self.queue, self.events = [], [], []
        self.seq, self.broken, self.closed = 0, None, False
        w.pools.append(self)
        self.ctx.log('pool', type(self).__name__, 'workers', self.n)
        self.ctx.probe('pools started')

    def _spawn_all(self):
        while len([x for x in self.workers if x.alive]) < self.n:
            self.workers.append(Worker(self, self.initializer, self.initargs))

    def live(self): return [x for x in self.workers if x.alive]

    def enqueue(self, items, on_done):
        t = Task(items, on_done)
        try: t.blob = pickle.dumps(items)
        except Exception as e:
            t.state = 'done'
            on_done([(False, e)])
            return t
        self.queue.append(t)
        self._spawn_all()
        self.dispatch()
        return t

    def dispatch(self):
        '''Idle workers take pending tasks, in the order of the queue; which idle worker does is a scheduling decision'''
        if self.broken: return
        while True:
            idle = [x for x in self.workers if x.alive and not x.busy]
            pending = [t for t in self.queue if t.state == 'pending']
            if not idle or not pending: return
            t = pending[0]
            x = idle[self.ctx.choose.pick(len(idle))]
            t.state, x.busy, t.worker = 'running', True, x
            dur = sum(DURATIONS[self.ctx.choose.pick(len(DURATIONS))] for _ in t.items) * x.speed
            kill = None
            key = self.world.__dict__['_tasks_started'] = self.world.__dict__.get('_tasks_started', -1) + 1
            for d in self.sched.get('deaths', []):
                if d['task'] == key: kill = min(d['item'], len(t.items))
            self.ctx.log('start task', key, 'on', x.id, 'items', len(t.items), 'dur', dur, 'dies' if kill is not None else '')
            t.outcome = x.execute(t.blob, kill)
            x.done += 1
            self.ctx.probe('tasks run')
            self.seq += 1
            heapq.heappush(self.events, (self.ctx.simtime + dur, self.seq, t))

    def step(self):
        '''Advance simulated time to the next completion; False if there is none'''
        if not self.events: return False
        at, _, t = heapq.heappop(self.events)
        self.ctx.simtime = max(self.ctx.simtime, at)
        x = t.worker
        x.busy = False
        if t in self.queue: self.queue.remove(t)
        if t.outcome is None:
            self.ctx.fault('worker killed')
            self.ctx.log('worker', x.id, 'died')
            t.state = 'lost'
            self.died(t)
        elif t.outcome[0] == 'lost':
            t.state = 'lost'
            self.ctx.log('task could not be unpickled', t.outcome[1])
            self.died(t)
        else:
            t.state = 'done'
            self.ctx.state('completion', x.id, len(t.items), round(at, 3))
            self.ctx.log('finished on', x.id, 'at', at)
            try: out = pickle.loads(t.outcome[1])
            except Exception as e:
                self.ctx.log('result could not be unpickled', repr(e))
                t.state = 'lost'
                self.died(t)
            else: t.on_done(out)
        self.dispatch()
        return True

    def wait(self, ready, timeout = None):
        '''Run the simulated world until ready(); False on a (simulated) timeout'''
        deadline = None if timeout is None else self.ctx.simtime + timeout
        while not ready():
            left = self.sched.get('interrupt')
            if left is not None:
                self.sched['interrupt'] = left - 1 if left > 0 else None
                if left == 0:
                    self.ctx.fault('interrupt while waiting for workers')
                    raise KeyboardInterrupt
            if self.events and (deadline is None or self.events[0][0] <= deadline): self.step()
            elif deadline is not None:
                self.ctx.simtime = deadline
                return False
            else: raise SimHang('waiting for a result which no worker is going to deliver')
        return True

    def drain(self):
        while self.events or any(t.state == 'pending' for t in self.queue):
            if not self.step(): break

    def reap(self):
        for x in self.workers: x.kill()
        self.events, self.queue = [], []


# concurrent.futures

class SimFuture(cf.Future):
    def _bind(self, ex, index): self._sim = (ex, index); return self
    def _pump(self, timeout):
        ex = self._sim[0]
        if not ex.wait(lambda: cf.Future.done(self), timeout): raise cf.TimeoutError()
    def result(self, timeout = None):
        self._pump(timeout)
        return super().result(0)
    def exception(self, timeout = None):
        self._pump(timeout)
        return super().exception(0)
    def cancel(self):
        ex, t = self._sim[0], getattr(self, '_task', None)
        if t is not None and t.state == 'pending':
            t.state = 'cancelled'
            if t in ex.queue: ex.queue.remove(t)
            super().cancel()
            self.set_running_or_notify_cancel()
            return True
        return super().cancelled()


class SimProcessPoolExecutor(cf.Executor, Engine):
    def __init__(self, max_workers = None, mp_context = None, initializer = None, initargs = (), *, max_tasks_per_child = None):
        self._start(max_workers, initializer, initargs)

    def died(self, t):
        self.broken = cfp.BrokenProcessPool('A process in the process pool was terminated abruptly while the future was running or pending.')
        for x in self.workers: x.kill()
        for q in [t] + self.queue: q.on_done([(False, self.broken)])
        self.queue, self.events = [], []

    def _submit_items(self, items, finish):
        if self.broken: raise cfp.BrokenProcessPool(*self.broken.args)
        if self.closed: raise RuntimeError('cannot schedule new futures after shutdown')
        f = SimFuture()._bind(self, 0)
        def on_done(out):
            if f.cancelled(): return
            finish(f, out)
        f._task = self.enqueue(items, on_done)
        return f

    def submit(self, fn, /, *args, **kwargs):
        def finish(f, out):
            ok, v = out[0]
            f.set_result(v) if ok else f.set_exception(v)
        return self._submit_items([(fn, args, kwargs)], finish)

    def map(self, fn, *iterables, timeout = None, chunksize = 1):
        if chunksize < 1: raise ValueError('chunksize must be >= 1.')
        calls = list(zip(*iterables))
        def finish(f, out):
            for ok, v in out:
                if not ok: return f.set_exception(v)
            f.set_result([v for _, v in out])
        fs = [self._submit_items([(fn, a, {}) for a in calls[i:i + chunksize]], finish) for i in range(0, len(calls), chunksize)]
        end = None if timeout is None else self.ctx.simtime + timeout
        def results():
            try:
                fs.reverse()
                while fs: yield from fs.pop().result(None if end is None else max(0, end - self.ctx.simtime))
            finally:
                for f in fs: f.cancel()
        return results()

    def shutdown(self, wait = True, *, cancel_futures = False):
        self.closed = True
        if self.world is not seams.world: return
        if cancel_futures:
            for t in list(self.queue):
                if t.state == 'pending': t.state = 'cancelled'; self.queue.remove(t); t.on_done([(False, cf.CancelledError())])
        if wait:
            self.drain()
            self.reap()


def _as_completed(fs, timeout = None):
    fs = list(dict.fromkeys(fs))
    if not (active() and all(isinstance(f, SimFuture) for f in fs)):
        yield from _real['as_completed'](fs, timeout)
        return
    while fs:
        ex = fs[0]._sim[0]
        if not ex.wait(lambda: any(cf.Future.done(f) for f in fs), timeout): raise cf.TimeoutError()
        f = next(f for f in fs if cf.Future.done(f))
        fs.remove(f)
        yield f


def _wait(fs, timeout = None, return_when = cf.ALL_COMPLETED):
    fs = list(dict.fromkeys(fs))
    if not (fs and active() and all(isinstance(f, SimFuture) for f in fs)): return _real['wait'](fs, timeout, return_when)
    done = lambda f: cf.Future.done(f)
    def ready():
        d = [f for f in fs if done(f)]
        if return_when == cf.FIRST_COMPLETED: return bool(d)
        if return_when == cf.FIRST_EXCEPTION and any(not f.cancelled() and cf.Future.exception(f) for f in d): return True
        return len(d) == len(fs)
    fs[0]._sim[0].wait(ready, timeout)
    d = {f for f in fs if done(f)}
    return type(_real['wait']([]))(d, set(fs) - d)


# multiprocessing

class SimResult:
    '''AsyncResult, MapResult and iterators'''
    def __init__(self, pool, n_chunks, single = False, callback = None, error_callback = None):
        self.pool, self.left, self.single = pool, n_chunks, single
        self.parts, self.error = [None] * n_chunks, None
        self.callback, self.error_callback = callback, error_callback
        if n_chunks == 0: self._finished()
    def _finished(self):
        if self.error is None:
            if self.callback: self.callback(self._value())
        elif self.error_callback: self.error_callback(self.error)
    def _value(self): return self.parts[0][0] if self.single else [v for p in self.parts for v in p]
    def on_done(self, i):
        def f(out):
            bad = [v for ok, v in out if not ok]
            if bad: self.error = self.error if self.error is not None else bad[0]
            else: self.parts[i] = [v for _, v in out]
            self.left -= 1
            if self.left == 0: self._finished()
        return f
    def ready(self): return self.left == 0
    def successful(self):
        if not self.ready(): raise ValueError(f'{self!r} not ready')
        return self.error is None
    def wait(self, timeout = None): self.pool.wait(self.ready, timeout)
    def get(self, timeout = None):
        if not self.pool.wait(self.ready, timeout): raise mp.TimeoutError
        if self.error is not None: raise self.error
        return self._value()


class SimPool(Engine):
    replaces_dead = True
    def __init__(self, processes = None, initializer = None, initargs = (), maxtasksperchild = None, context = None):
        self._start(processes, initializer, initargs)
        self._spawn_all()

    def died(self, t): # The task is lost for ever and the worker is replaced
        if not self.closed: self._spawn_all()

    def _check(self):
        if self.closed: raise ValueError('Pool not running')

    def _many(self, fn, argss, chunksize, callback = None, error_callback = None):
        self._check()
        argss = list(argss)
        if chunksize is None:
            chunksize, extra = divmod(len(argss), self.n * 4)
            if extra: chunksize += 1
        chunksize = max(1, chunksize)
        chunks = [argss[i:i + chunksize] for i in range(0, len(argss), chunksize)]
        r = SimResult(self, len(chunks), callback = callback, error_callback = error_callback)
        for i, ch in enumerate(chunks): self.enqueue([(fn, a, {}) for a in ch], r.on_done(i))
        return r

    def apply(self, func, args = (), kwds = {}): return self.apply_async(func, args, kwds).get()
    def apply_async(self, func, args = (), kwds = {}, callback = None, error_callback = None):
        self._check()
        r = SimResult(self, 1, True, callback, error_callback)
        self.enqueue([(func, tuple(args), dict(kwds))], r.on_done(0))
        return r
    def map(self, func, iterable, chunksize = None): return self.map_async(func, iterable, chunksize).get()
    def map_async(self, func, iterable, chunksize = None, callback = None, error_callback = None): return self._many(func, [(x,) for x in iterable], chunksize, callback, error_callback)
    def starmap(self, func, iterable, chunksize = None): return self.starmap_async(func, iterable, chunksize).get()
    def starmap_async(self, func, iterable, chunksize = None, callback = None, error_callback = None): return self._many(func, [tuple(x) for x in iterable], chunksize, callback, error_callback)
    def imap(self, func, iterable, chunksize = 1):
        rs = [self._many(func, [(x,)], 1) for x in iterable]
        return (r.get()[0] for r in rs)
    def imap_unordered(self, func, iterable, chunksize = 1):
        rs = [self._many(func, [(x,)], 1) for x in iterable]
        def results():
            left = list(rs)
            while left:
                self.wait(lambda: any(r.ready() for r in left))
                r = next(r for r in left if r.ready())
                left.remove(r)
                yield r.get()[0]
        return results()
    def close(self): self.closed = True
    def terminate(self): self.closed = True; self.reap()
    def join(self):
        if not self.closed: raise ValueError('Pool is still running')
        self.drain(); self.reap()
    def __enter__(self): self._check(); return self
    def __exit__(self, *exc): self.terminate()


def install(real):
    _real.update(as_completed = cf.as_completed, wait = cf.wait, Executor = cfp.ProcessPoolExecutor, Pool = mp.Pool, PoolClass = mpp.Pool)

    class ExecutorSeam:
        def __new__(cls, *a, **k): return (SimProcessPoolExecutor if active() else _real['Executor'])(*a, **k)
    def pool(processes = None, initializer = None, initargs = (), maxtasksperchild = None):
        return (SimPool if active() else _real['Pool'])(processes, initializer, initargs, maxtasksperchild)
    class PoolSeam:
        def __new__(cls, *a, **k): return (SimPool if active() else _real['PoolClass'])(*a, **k)
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = ExecutorSeam
    cf.as_completed, cf.wait = _as_completed, _wait
    mp.Pool, mpp.Pool = pool, PoolSeam
    real_ctx_pool = mp.context.BaseContext.Pool
    def ctx_pool(self, processes = None, initializer = None, initargs = (), maxtasksperchild = None):
        return SimPool(processes, initializer, initargs, maxtasksperchild) if active() else real_ctx_pool(self, processes, initializer, initargs, maxtasksperchild)
    mp.context.BaseContext.Pool = ctx_pool
