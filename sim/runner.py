'''Execution of simulated runs: one forked process per run, inside interpreters booted for a given environment.

A plan is a JSON document {prop, seed, idx, env: {hashseed, jit, config, helpers}, cseed, p: {...}, [choices, tail]}; running a plan
gives a JSON result whose 'hash' covers the whole event log, so that two executions of a plan can be compared exactly.'''
import importlib, json, os, pickle, random, signal, socket, struct, sys, time, traceback

from .core import TooLarge, Ctx, Violation, SimHang, SimLimit, InvalidPlan, h64, where

RUN_LIMIT = 150 # Seconds of wall clock after which a run counts as stuck (to be confirmed by a second, longer execution)


def scenario(prop): return importlib.import_module(f'sim.scen.{prop.lower()}')


def make_plan(prop, seed, idx, tier, env):
    rng = random.Random(h64('plan', prop, seed, idx))
    return {'prop': prop, 'seed': seed, 'idx': idx, 'env': env, 'cseed': h64('choices', prop, seed, idx) % 2 ** 53, 'p': scenario(prop).gen(rng, tier, idx)}


def execute(plan, capture = None):
    '''Run a plan in this process; the result is a JSON document'''
    ctx = Ctx(plan)
    res = {'status': 'ok'}
    try: scenario(plan['prop']).run(plan['p'], ctx)
    except TooLarge: ctx.probe('runs cut short for size')
    except InvalidPlan as e: res = {'status': 'invalid', 'message': str(e)}
    except Violation as e: res = {'status': 'violation', 'kind': e.kind, 'message': e.message}
    except (SimHang, SimLimit) as e: res = {'status': 'violation', 'kind': 'no-progress', 'message': f'{type(e).__name__}: {e}'}
    except BaseException as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if isinstance(e, Exception) and innermost_is_package(e): res = {'status': 'violation', 'kind': 'unexpected-exception', 'message': f'{type(e).__name__}: {str(e)[:300]} (at {where(e)})', 'trace': tb}
        elif isinstance(e, (TypeError, AttributeError, LookupError, ValueError, ArithmeticError)): # What the code under test returned is not what it should be (on code which returns that, no run ends here)
            last = traceback.extract_tb(e.__traceback__)[-1]
            res = {'status': 'violation', 'kind': f'malformed-result ({last.name})', 'message': f'what the code returned cannot be made sense of: {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(last.filename)}:{last.lineno})', 'trace': tb}
        else: res = {'status': 'error', 'message': tb}
    ctx.log('end', res['status'], res.get('kind', ''))
    res.update(hash = ctx.hash.hexdigest()[:32], events = ctx.n_events, faults = ctx.faults, probes = ctx.probes, ran = ctx.real, states = sorted(ctx.states)[:3000],
               evaluations = ctx.evaluations, simtime = ctx.simtime, nontrivial = ctx.nontrivial, taken = ctx.choose.taken,
               log = ctx.events[:60] + (['...'] if len(ctx.events) > 120 else []) + ctx.events[-60:] if len(ctx.events) > 60 else ctx.events)
    return res


def innermost_is_package(e):
    '''Whether the code under test is on the stack below the scenario when e was raised'''
    from .boot import REPO
    tb = e.__traceback__
    seen = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(os.path.realpath(REPO) + '/GPy_ABCD') or f.startswith(REPO + '/GPy_ABCD'): seen = True
        tb = tb.tb_next
    return seen


def fork_execute(plan, limit = RUN_LIMIT):
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            out = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get('SIM_SHOW'): os.dup2(out, 1); os.dup2(out, 2)
            data = json.dumps(execute(plan)).encode()
            while data: data = data[os.write(w, data):]
        except BaseException: traceback.print_exc()
        finally: os._exit(0)
    os.close(w)
    import select
    buf, end, timed_out = b'', time.time() + limit, False
    while True:
        left = end - time.time()
        if left <= 0: timed_out = True; break
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 1 << 20)
            if not b: break
            buf += b
    os.close(r)
    try: os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass
    _, st = os.waitpid(pid, 0)
    empty = {'hash': '', 'events': 0, 'faults': {}, 'probes': {}, 'ran': {}, 'states': [], 'evaluations': 0, 'simtime': 0.0, 'nontrivial': False, 'taken': [], 'log': []}
    if timed_out: return {'status': 'timeout', 'kind': 'no-progress', 'message': f'the run did not finish within {limit} s', **empty}
    try: return json.loads(buf)
    except ValueError: return {'status': 'error', 'message': f'run process ended with status {st} and no result', **empty}


# Helper interpreters: other processes, with their own string hash seed, which carry out parts of a run

def helper_path(scratch, hashseed): return os.path.join(scratch, f'helper-{hashseed}.sock')


def serve_helper(scratch, hashseed):
    '''Main loop of a helper: each request runs in a process of its own, forked from a freshly booted interpreter'''
    s = socket.socket(socket.AF_UNIX)
    path = helper_path(scratch, hashseed)
    s.bind(path + '.tmp')
    s.listen(64)
    os.rename(path + '.tmp', path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    ppid = os.getppid()
    s.settimeout(5)
    while True:
        try: c, _ = s.accept()
        except socket.timeout:
            if os.getppid() != ppid: return
            continue
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s.close()
                c.settimeout(None)
                prop, fn, args = pickle.loads(_recv(c))
                try: ans = (True, getattr(scenario(prop), fn)(*args))
                except BaseException as e: ans = (False, (type(e).__name__, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:], isinstance(e, Exception) and innermost_is_package(e)))
                _send(c, pickle.dumps(ans))
            finally: os._exit(0)
        c.close()


def _send(c, data): c.sendall(struct.pack('>Q', len(data)) + data)

def _recv(c):
    def exactly(n):
        out = b''
        while len(out) < n:
            b = c.recv(min(1 << 20, n - len(out)))
            if not b: raise EOFError('helper connection closed')
            out += b
        return out
    return exactly(struct.unpack('>Q', exactly(8))[0])


def in_helper(prop, hashseed, fn, *args):
    '''Run a scenario function in the helper interpreter with the given hash seed'''
    path = helper_path(os.environ['SIM_SCRATCH'], hashseed)
    for _ in range(600):
        if os.path.exists(path): break
        time.sleep(0.1)
    c = socket.socket(socket.AF_UNIX)
    c.connect(path)
    _send(c, pickle.dumps((prop, fn, args)))
    ok, v = pickle.loads(_recv(c))
    c.close()
    if ok: return v
    name, tb, in_package = v
    if name == 'Violation' or in_package: raise Violation('unexpected-exception', f'in another process: {tb[-600:]}')
    raise RuntimeError(f'in a helper interpreter: {tb}')


# Worker process: python -m sim.runner MODE JSON

def main():
    mode, arg = sys.argv[1], json.loads(sys.argv[2])
    from .boot import boot
    boot(arg['env'].get('config'))
    if mode == 'helper': return serve_helper(arg['scratch'], arg['env']['hashseed'])
    sc = scenario(arg['prop'])
    if hasattr(sc, 'warm'): sc.warm()
    import gc
    gc.collect(); gc.freeze()
    out = sys.stdout
    def emit(d): out.write(json.dumps(d) + '\n'); out.flush()
    emit({'ready': True})
    if mode == 'search':
        end, idx = time.time() + arg['budget'], arg['first']
        while time.time() < end and idx < arg['max']:
            plan = make_plan(arg['prop'], arg['seed'], idx, arg['tier'], arg['env'])
            t = time.time()
            res = fork_execute(plan)
            res['t'] = time.time() - t
            if res['status'] != 'ok': res['plan'] = plan
            elif idx < 3 * arg['step']: res['plan'] = plan # For the samples of the evidence
            res['idx'] = idx
            emit(res)
            idx += arg['step']
    elif mode == 'serve':
        for line in sys.stdin:
            req = json.loads(line)
            emit(fork_execute(req['plan'], req.get('limit', RUN_LIMIT)))


if __name__ == '__main__': main()
