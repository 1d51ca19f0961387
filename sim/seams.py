'''Seams between the code under test and everything which is nondeterministic or can fail.

 - GPy's GPRegression (construction and each optimiser run): real, scripted or fake, with injected failures
 - the standard library's process pools: replaced by lockstep worker processes under the simulated scheduler (simpool)
 - processor counts
Outside a run (world is None) every seam behaves like the original.'''
import os
import numpy as np

from .core import InvalidPlan, SimLimit, unit, h64

world = None # The World of the current run
_real = {}


class World:
    def __init__(self, ctx, mode = 'fake', seed = 0, n_cpu = 2):
        if n_cpu < 1: raise InvalidPlan('processors')
        self.ctx, self.mode, self.seed, self.n_cpu = ctx, mode, seed, n_cpu
        self.events = [] # (what, signature, attempt, ...) in order of execution
        self.attempts = {}
        self.fault_of = lambda sig, attempt: None
        self.outcome = 'script' # How a simulated optimiser run ends: 'script', 'rng', 'keep' or a function (model, sig, attempt, restart) -> optimizer_array
        self.max_iters = 20
        self.landscape = None # signature -> log likelihood, for fake fits
        self.fit_cap = 5000
        self.n_fits = 0
        self.pools = []
        self.sched = None # Simulated-pool settings
        self.in_worker = None
        self.bare = False # Whether injected errors all read alike (rather than carrying their tokens)
        self.data = None

    def __enter__(self):
        global world
        world = self
        return self

    def __exit__(self, *exc):
        global world
        world = None
        for p in self.pools: p.reap()
        return False

    def note(self, *ev): self.events.append(ev)


class Unloadable(RuntimeError):
    '''An error which can be sent to another process but not be loaded there (as those of many libraries)'''
    def __init__(self, a, b): super().__init__(a)
    def __reduce__(self): return (Unloadable, self.args)


EXC = {'LinAlgError': np.linalg.LinAlgError, 'ValueError': ValueError, 'FloatingPointError': FloatingPointError, 'ZeroDivisionError': ZeroDivisionError,
       'AssertionError': AssertionError, 'MemoryError': MemoryError, 'RuntimeError': RuntimeError, 'TypeError': TypeError, 'IndexError': IndexError,
       'OSError': OSError, 'RecursionError': RecursionError, 'KeyError': KeyError, 'NotImplementedError': NotImplementedError, 'TimeoutError': TimeoutError,
       'RuntimeWarning': RuntimeWarning, 'Exception': Exception, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'ArithmeticError': ArithmeticError, 'UnicodeDecodeError': UnicodeDecodeError}
RETRIABLE = ['LinAlgError', 'ValueError', 'FloatingPointError', 'ZeroDivisionError', 'AssertionError', 'MemoryError', 'RuntimeError', 'TypeError', 'IndexError', 'OSError',
             'RecursionError', 'KeyError', 'NotImplementedError', 'TimeoutError', 'RuntimeWarning', 'Exception', 'ArithmeticError', 'UnicodeDecodeError']
FINAL = ['KeyboardInterrupt', 'SystemExit']


def make_exc(name, token):
    if name == 'Unloadable': return Unloadable(f'injected {name} {token}', 0)
    text = f'injected {name} {token}' if world is None or not world.bare else f'injected {name}'
    e = EXC[name]('ascii', b'-', 0, 1, text) if name == 'UnicodeDecodeError' else EXC[name](text) # (An error which cannot be made from a message alone)
    e.sim_token = token
    return e


def signature(kern):
    from GPy.kern import Kern
    subs = [signature(p) for p in kern.parameters if isinstance(p, Kern)]
    if type(kern).__name__ in ('Add', 'Prod'): subs.sort()
    return type(kern).__name__ + (('(' + ','.join(subs) + ')') if subs else '')


def _fault(sig, attempt, where, restart = None):
    f = world.fault_of(sig, attempt)
    if f and f['at'] == where and (where == 'construct' or f.get('j', 0) == restart):
        world.ctx.fault(f"fit:{f['exc']}@{where}")
        world.note('fail', sig, attempt, f['exc'], f['token'])
        raise make_exc(f['exc'], f['token'])


class FakeGP:
    '''A stand-in for a fitted GPRegression: no covariance is ever computed; the likelihood comes from the run's landscape'''
    def __init__(self, X, Y, kern, sig, attempt):
        self.X, self.Y, self.kern, self.sig, self.attempt = X, Y, kern, sig, attempt
        self.ll, self.restarts_run, self.optimizers, self.optimization_runs = None, 0, [], []

    n_params = None
    def log_likelihood(self): return self.ll
    def _size_transformed(self): return self.n_params if self.n_params is not None else 1 + len(self.kern.parameter_names_flat()) # + the noise variance
    @property
    def optimizer_array(self): return self.__dict__.get('_optimizer_array', np.zeros(self._size_transformed()))
    @optimizer_array.setter
    def optimizer_array(self, x): self._optimizer_array = np.array(x)
    @property
    def num_data(self): return len(self.X)
    @property
    def size(self): return len(self.param_array)
    @property
    def param_array(self): return np.append(self.kern.param_array, 1.) if self.kern is not None else np.zeros(self._size_transformed())

    def objective_function(self): return -self.ll
    def parameter_names_flat(self, include_fixed = False): return np.append(self.kern.parameter_names_flat(include_fixed), 'Gaussian_noise.variance') if self.kern is not None else np.array([f'p{i}' for i in range(self._size_transformed())])
    num_params = property(lambda self: self._size_transformed())
    name = 'GP regression'

    def __getattr__(self, name): # Whatever else is asked of it, a real model answers
        if name.startswith('__') or self.__dict__.get('kern') is None: raise AttributeError(name)
        return getattr(_real['GPRegression'](self.X, self.Y, self.kern.copy()), name)

    def optimize(self, optimizer = None, **kwargs):
        world.note('optimise', self.sig, self.attempt, self.restarts_run, optimizer)
        self.restarts_run += 1
        self.optimizers.append(optimizer)
        if self.kern is not None and self.restarts_run == 1: self.kern.param_array[:] = 2 + 3 * unit('fake optimum', self.sig) # So that a kernel which took part in an attempt is not mistaken for a new one
        _fault(self.sig, self.attempt, 'restart', self.restarts_run - 1)
        self.ll = world.landscape(self.sig) if world.landscape else 100 * unit(world.seed, self.sig)
        self.optimization_runs.append(Run(self.optimizer_array, -self.ll))

    def randomize(self, *a, **k): pass

    def optimize_restarts(self, num_restarts = 10, robust = False, verbose = True, parallel = False, num_processes = None, **kwargs):
        world.note('restarts', self.sig, self.attempt, num_restarts)
        done = 0
        for i in range(num_restarts):
            try: self.optimize(**kwargs); done += 1
            except Exception:
                if not robust: raise
        if not done: self.ll = -1e6
        world.note('fitted', self.sig, self.attempt, self.ll)
        return []


class Run:
    '''What paramz keeps of an optimiser run'''
    def __init__(self, x_opt, f_opt): self.x_opt, self.f_opt = x_opt, f_opt
    funct_eval, status, opt_name, time = 1, 'simulated', 'simulated', 0


def steady(x):
    '''x without the last bits of its mantissa: those of sums computed by linear-algebra libraries vary with where memory happens to be allocated
    (about one fit in 300, by one unit in the last place), and neither results nor the path of an optimiser may depend on them'''
    with np.errstate(all = 'ignore'):
        m, e = np.frexp(np.asarray(x, float))
        return np.ldexp(np.round(m * 2. ** 33), e - 33)


def _sim_class():
    base = _real['GPRegression']

    class SimGPRegression(base):
        def log_likelihood(self):
            ll = super().log_likelihood()
            return float(steady(ll))

        def _transform_gradients(self, g):
            g = super()._transform_gradients(g)
            return steady(g)

        def optimize(self, optimizer = None, start = None, **kwargs):
            w = world
            if w is None: return super().optimize(optimizer, start, **kwargs)
            sig, attempt = self.__dict__.get('_sim_id', ('?', 0))
            i = self.__dict__.setdefault('_sim_runs', 0)
            self.__dict__['_sim_runs'] = i + 1
            w.note('optimise', sig, attempt, i, optimizer)
            _fault(sig, attempt, 'restart', i)
            if w.mode == 'real':
                kwargs['max_iters'] = min(kwargs.get('max_iters', w.max_iters), w.max_iters)
                if start is None: start = self.optimizer_array.copy() # paramz's SCG gives back the model's own array, which the next restart overwrites, if none of its steps succeeded
                r = super().optimize(optimizer, start, **kwargs)
                w.note('outcome', sig, attempt, i, float(self.log_likelihood()))
                return r
            before = self.optimizer_array.copy()
            if callable(w.outcome): x = w.outcome(self, sig, attempt, i)
            elif w.outcome == 'script': x = scripted_vector(self, w.seed, sig, i)
            else: x = before
            for candidate in (x, None):
                if candidate is None: # A numerically impossible outcome: end where the run started from, or at safe values
                    candidate = np.full_like(before, 0.5)
                try:
                    self.optimizer_array = candidate
                    f = float(-self.log_likelihood())
                    if np.isfinite(f): break
                except (np.linalg.LinAlgError, FloatingPointError, ZeroDivisionError, ValueError): pass
            else: raise np.linalg.LinAlgError('no finite likelihood in a simulated optimiser run')
            run = Run(self.optimizer_array.copy(), f)
            self.optimization_runs.append(run)
            w.note('outcome', sig, attempt, i, -f)
            return run

        def optimize_restarts(self, *args, **kwargs):
            w = world
            if w is None: return super().optimize_restarts(*args, **kwargs)
            sig, attempt = self.__dict__.get('_sim_id', ('?', 0))
            n = args[0] if args else kwargs.get('num_restarts', 10)
            w.note('restarts', sig, attempt, n)
            r = super().optimize_restarts(*args, **kwargs)
            w.note('fitted', sig, attempt, float(self.log_likelihood()))
            return r

    SimGPRegression.__module__ = __name__
    SimGPRegression.__qualname__ = 'SimGPRegression'
    return SimGPRegression


def scripted_vector(model, *seed):
    '''Moderate parameter values (in the unconstrained space of the optimiser) which only depend on the seed parts'''
    n = len(model.optimizer_array)
    return np.array([2.4 * unit(*seed, j) - 0.8 for j in range(n)])


class GPRegressionSeam:
    '''Stands where GPy.models.GPRegression stands; yields a real (sub)class instance or a fake, depending on the run'''
    def __new__(cls, X, Y, kernel = None, *args, **kwargs):
        w = world
        if w is None or kernel is None: return SimGPRegression(X, Y, kernel, *args, **kwargs)
        w.n_fits += 1
        if w.n_fits > w.fit_cap: raise SimLimit(f'more than {w.fit_cap} models constructed')
        sig = signature(kernel)
        attempt = w.attempts[sig] = w.attempts.get(sig, -1) + 1
        w.note('construct', sig, attempt, np.shape(X), np.shape(Y), h64(np.asarray(X, float).tobytes(), np.asarray(Y, float).tobytes()), h64(np.asarray(kernel.param_array).round(12).tolist()), id(kernel))
        _fault(sig, attempt, 'construct')
        if w.mode == 'fake': return FakeGP(X, Y, kernel, sig, attempt)
        m = SimGPRegression(X, Y, kernel, *args, **kwargs)
        m.__dict__['_sim_id'] = (sig, attempt)
        return m


def cpu_count(): return world.n_cpu if world is not None else _real['cpu_count']()


def install():
    '''Before the package under test is imported'''
    global SimGPRegression
    import GPy, GPy.models
    import multiprocessing, multiprocessing.pool, concurrent.futures, concurrent.futures.process
    from . import simpool
    _real.update(GPRegression = GPy.models.GPRegression, cpu_count = os.cpu_count)
    SimGPRegression = _sim_class()
    globals()['SimGPRegression'] = SimGPRegression
    GPy.models.GPRegression = GPRegressionSeam
    os.cpu_count = multiprocessing.cpu_count = cpu_count
    ctx_cls = type(multiprocessing.get_context())
    multiprocessing.context.BaseContext.cpu_count = lambda self: cpu_count()
    simpool.install(_real)
    from . import inject
    inject.install_locks()
