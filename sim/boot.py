'''Start-up of a simulated interpreter: the code under test is compiled from its current source (never from a .pyc), after
the seams are in place. The environment (PYTHONHASHSEED, NUMBA_DISABLE_JIT, ...) is decided by whoever starts the interpreter.'''
import os, sys, warnings
import importlib.machinery as machinery

REPO = os.environ.get('VERIF_REPO', '/repo')


def environment(hashseed, jit):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONWARNINGS')}
    env.update(PYTHONHASHSEED = str(hashseed), PYTHONDONTWRITEBYTECODE = '1', MPLBACKEND = 'Agg', OPENBLAS_NUM_THREADS = '1',
               OMP_NUM_THREADS = '1', MKL_NUM_THREADS = '1', NUMBA_NUM_THREADS = '1', HOME = '/root', PYTHONUTF8 = '1')
    if jit: env.pop('NUMBA_DISABLE_JIT', None)
    else: env['NUMBA_DISABLE_JIT'] = '1'
    return env


class _SourceLoader(machinery.SourceFileLoader):
    config = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return compile(self.get_data(path), path, 'exec', dont_inherit = True)

    def exec_module(self, module):
        super().exec_module(module)
        if module.__name__ == 'GPy_ABCD.config':
            for k, v in self.config.items(): module.__dict__[k] = v


def boot(config = None):
    '''Install the seams and import the package; config overrides flags of GPy_ABCD.config (swarm over builds)'''
    _SourceLoader.config = dict(config or {})
    base = os.path.realpath(REPO)
    file_hook = machinery.FileFinder.path_hook((_SourceLoader, ['.py']))
    def hook(path):
        if os.path.realpath(path or '.').startswith(base): return file_hook(path)
        raise ImportError
    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, REPO)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from sim import seams
        seams.install()
        import GPy_ABCD
    assert os.path.realpath(GPy_ABCD.__file__).startswith(base), GPy_ABCD.__file__
    return GPy_ABCD
