"""Parallel, seeded, shrinking driver for suites."""
import os, sys, time, json, hashlib, traceback, pickle, signal, ast, collections

from .core import (Violation, HarnessError, Skip, Ctx, rmtree, shorten, killpg)
from . import zygote

HARNESS_DIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def classify_exception(ex):
    """Is an unexpected exception the fault of bup's code (violation) or of
    the harness (error)?  Decided by where it was raised."""
    tb = ex.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last else ''
    if Ctx.src and os.path.realpath(fn).startswith(os.path.realpath(Ctx.src) + '/'):
        return 'bup'
    return 'harness'

def run_case(suite, case, tier):
    """Returns (ctx, None) or raises Violation/HarnessError."""
    ctx = Ctx(tier, suite.name)
    try:
        try:
            suite.run(case, ctx)
        except Skip:
            ctx.is_nontrivial = False
            ctx.label('skipped')
        except (Violation, HarnessError):
            raise
        except MemoryError as ex:
            raise HarnessError('out of memory') from ex
        except Exception as ex:
            txt = traceback.format_exc()
            if classify_exception(ex) == 'bup':
                raise Violation('exception inside bup: ' + txt[-2500:]) from None
            if isinstance(ex, OSError) and ex.errno in (28, 12, 24):
                raise HarnessError(txt) from ex
            raise HarnessError('harness exception: ' + txt) from ex
    finally:
        ctx.cleanup()
    return ctx

def shard_seed(seed, prop, suite, shard):
    h = hashlib.sha256(('%s/%s/%s/%s' % (seed, prop, suite, shard)).encode())
    return int.from_bytes(h.digest()[:6], 'big')

class StopShrinking(BaseException):
    pass

def search(suite, n, seed, one, stopped):
    """Draw n independent random cases from the strategy (Hypothesis's own
    generation mutates earlier examples, which wastes expensive cases on near
    duplicates); shrink the first failing one with Hypothesis's shrinker."""
    import random
    from hypothesis import settings, HealthCheck, Phase, Verbosity
    from hypothesis.control import BuildContext
    from hypothesis.errors import StopTest
    from hypothesis.internal.conjecture.data import ConjectureData
    from hypothesis.internal.conjecture.engine import ConjectureRunner, RunIsComplete
    strategy = suite.strategy()
    def draw(data):
        with BuildContext(data, wrapped_test=one):
            return data.draw(strategy)
    i = made = 0
    while made < n and not stopped():
        i += 1
        if i > 20 * n + 100:
            raise HarnessError('strategy keeps overrunning')
        data = ConjectureData(random=random.Random(seed * 1000003 + i), prefix=(),
                              max_choices=None)
        try:
            case = draw(data)
        except StopTest:
            continue
        made += 1
        try:
            one(case)
        except Violation:
            break
    else:
        return
    choices = data.choices
    def f(data):
        case = draw(data)
        try:
            one(case)
        except Violation:
            data.mark_interesting(ORIGIN)
    from hypothesis.internal.escalation import InterestingOrigin
    ORIGIN = InterestingOrigin.from_exception(Violation('x'))
    r = ConjectureRunner(f, settings=settings(
        max_examples=1000000, database=None, deadline=None,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet),
        random=random.Random(seed), ignore_limits=True)
    try:
        r.cached_test_function(choices)
        if r.interesting_test_cases:
            r.shrink_interesting_test_cases()
    except (RunIsComplete, StopTest, StopShrinking):
        pass

def worker(prop, suite, shard, n, seed, tier, deadline, resfd, base):
    """Body of a worker process: run n cases; write a pickled result."""
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = float(os.environ.get('VT_SHRINK_S') or (45 if tier == 'quick' else 150))
    res = {'suite': suite.name, 'shard': shard, 'evaluations': 0,
           'labels': collections.Counter(), 'nontrivial': set(), 'samples': [],
           'violation': None, 'error': None, 'commands': 0, 'truncated': False,
           'unreproduced': []}
    Ctx.base = os.path.join(base, '%s-%d' % (suite.name, shard))
    os.makedirs(Ctx.base)
    os.environ['TMPDIR'] = Ctx.base
    import tempfile
    tempfile.tempdir = Ctx.base
    Ctx.start_server()
    state = {'fail': None, 'msg': None, 'seen': {}}
    shrink_deadline = [None]
    note = Ctx.base + '.case'

    def one(case):
        now = time.monotonic()
        if state['fail'] is None and now > deadline:
            res['truncated'] = True
            return
        rcase = repr(case)
        key = hashlib.sha256(rcase.encode()).digest()[:12]
        with open(note, 'w') as f:
            f.write(rcase)
        if state['fail'] is not None:
            # Shrinking: bounded by time.
            if now > shrink_deadline[0] and key not in state['seen']:
                raise StopShrinking()
            if state['seen'].get(key) == 'pass':
                return
        try:
            t0 = time.monotonic()
            ctx = run_case(suite, case, tier)
            if os.environ.get('VT_SLOW') and time.monotonic() - t0 > float(os.environ['VT_SLOW']):
                print('slow case: %.1fs %s' % (time.monotonic() - t0, shorten(rcase, 600)), flush=True)
        except Violation as ex:
            if state['fail'] is None:
                shrink_deadline[0] = time.monotonic() + engine.MAX_SHRINKING_SECONDS
            state['fail'], state['msg'] = case, str(ex)
            state['seen'][key] = 'fail'
            res['first_fail'] = res.get('first_fail') or (case, str(ex))
            raise Violation('x') from None
        if state['fail'] is None:
            res['evaluations'] += 1
            res['commands'] += ctx.ncmd
            for l in ctx.labels:
                res['labels'][l] += 1
            if ctx.is_nontrivial:
                new = key not in res['nontrivial']
                res['nontrivial'].add(key)
                if new and len(res['samples']) < 2:
                    res['samples'].append(shorten(case, 700))
        else:
            state['seen'][key] = 'pass'

    try:
        for case in (suite.explicit if shard == 0 else ()):
            try:
                one(case)
            except Violation:
                break
        if state['fail'] is None:
            search(suite, n, shard_seed(seed, prop, suite.name, shard), one,
                   lambda: res['truncated'])
        if state['fail'] is not None:
            # Re-judge the smallest failing case outside Hypothesis.
            confirmed = False
            for case, msg in ((state['fail'], state['msg']), res['first_fail']):
                for _ in range(3):
                    try:
                        run_case(suite, case, tier)
                    except Violation as ex:
                        res['violation'] = (case, str(ex))
                        confirmed = True
                        break
                if confirmed:
                    break
            if not confirmed:
                res['unreproduced'].append((shorten(state['fail']), state['msg']))
    except BaseException:
        res['error'] = traceback.format_exc()
    res.pop('first_fail', None)
    with os.fdopen(resfd, 'wb') as f:
        pickle.dump(res, f)
        f.flush()
    Ctx.stop_server()
    try:
        rmtree(Ctx.base)
    except Exception:
        pass

CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
           signal.SIGILL, signal.SIGXCPU)

def case_note(base, suite, shard):
    return os.path.join(base, '%s-%d.case' % (suite.name, shard))

def judge_in_child(suite, case, tier, base, timeout):
    """Run a case in a child process; returns a failure message or None."""
    import tempfile
    from .core import waitpid_timeout
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            Ctx.base = tempfile.mkdtemp(prefix='judge', dir=base)
            tempfile.tempdir = Ctx.base
            Ctx.start_server()
            msg = b'P'
            try:
                run_case(suite, case, tier)
            except Violation as ex:
                msg = b'V' + str(ex).encode(errors='backslashreplace')
            except BaseException:
                msg = b'E' + traceback.format_exc().encode(errors='backslashreplace')
            os.write(w, msg[:60000])
            Ctx.stop_server()
        finally:
            os._exit(0)
    os.close(w)
    rc = waitpid_timeout(pid, timeout)
    if rc is None:
        killpg(pid)
        os.waitpid(pid, 0)
        os.close(r)
        return 'the case does not finish within %d s' % timeout
    data = b''
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    if data[:1] == b'V':
        return data[1:].decode()
    if data[:1] == b'P':
        return None
    if data[:1] == b'E':
        raise HarnessError(data[1:].decode())
    if rc < 0 and -rc in CRASHES:
        return 'the process crashed with signal %d' % -rc
    raise HarnessError('judging process failed: %r' % (rc,))

def judge_death(res, st, suite, shard, tier, base):
    """A worker crashed or hung inside in-process code: find out whether the
    case it was running does it again."""
    if not (os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASHES):
        return
    try:
        with open(case_note(base, suite, shard)) as f:
            case = ast.literal_eval(f.read())
        msg = judge_in_child(suite, case, tier, base, suite.hang)
    except (OSError, ValueError, SyntaxError, HarnessError):
        return
    res['error'] = None
    if msg:
        res['violation'] = (case, msg)
    else:
        res['unreproduced'].append((shorten(case), res['error']))

def run_suites(prop, suites, tier, seed, base, time_limit, jobs=8, only=None):
    """Run all suites; returns merged results."""
    t0 = time.monotonic()
    deadline = t0 + time_limit
    hard = deadline + (240 if tier == 'quick' else 600)
    tasks = []
    per = {}
    for s in suites:
        if only and s.name != only:
            continue
        total = s.quick if tier == 'quick' else s.thorough
        shards = max(1, min(s.shards, total))
        if tier != 'quick':
            shards = max(shards, min(16, total))
        l = []
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            l.append((s, i, n))
        per[s.name] = l
    # Interleave so that every suite makes progress.
    while any(per.values()):
        for l in per.values():
            if l:
                tasks.append(l.pop(0))
    running = {}
    results = []
    stop = False
    while tasks or running:
        while tasks and len(running) < jobs and not stop:
            s, i, n = tasks.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for f in [x[0] for x in running.values()]:
                        os.close(f)
                    os.setsid()
                    worker(prop, s, i, n, seed, tier, deadline, w, base)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            running[pid] = [r, s, b'', i]
        # Drain pipes.
        import select
        fds = {v[0]: p for p, v in running.items()}
        if fds:
            rl, _, _ = select.select(list(fds), [], [], 1.0)
            for fd in rl:
                pid = fds[fd]
                d = os.read(fd, 1 << 20)
                if d:
                    running[pid][2] += d
                    continue
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                _, s, data, i = running.pop(pid)
                try:
                    res = pickle.loads(data)
                except Exception:
                    res = {'suite': s.name, 'shard': i, 'evaluations': 0,
                           'labels': collections.Counter(), 'nontrivial': set(),
                           'samples': [], 'violation': None, 'commands': 0,
                           'truncated': False, 'unreproduced': [],
                           'error': 'worker died (status %r)' % (st,)}
                    judge_death(res, st, s, i, tier, base)
                results.append(res)
                if res['violation']:
                    stop = True
                    tasks.clear()
        elif stop:
            break
        now = time.monotonic()
        for pid, (fd, s, data, i) in list(running.items()):
            try:
                age = time.time() - os.stat(case_note(base, s, i)).st_mtime
            except OSError:
                continue
            if age > s.hang:
                os.kill(pid, signal.SIGXCPU)
        if stop and running and not hasattr(run_suites, '_grace'):
            run_suites._grace = now + 5
        if running and ((stop and now > run_suites._grace) or now > hard):
            for pid, (fd, s, data, i) in list(running.items()):
                killpg(pid)
                os.close(fd)
                os.waitpid(pid, 0)
                kill_session(pid)
                results.append({'suite': s.name, 'shard': i, 'evaluations': 0,
                                'labels': collections.Counter(),
                                'nontrivial': set(), 'samples': [],
                                'violation': None, 'error': None, 'commands': 0,
                                'truncated': True, 'unreproduced': []})
                del running[pid]
            tasks.clear()
    return results

def kill_session(sid):
    pass

def load_case(path):
    with open(path) as f:
        d = json.load(f)
    return d['suite'], ast.literal_eval(d['case'])

def save_replay(prop, suite, case, msg, seed, outdir):
    os.makedirs(outdir, exist_ok=True)
    h = hashlib.sha256(repr(case).encode()).hexdigest()[:10]
    path = os.path.join(outdir, '%s-%s-%s.json' % (prop, suite, h))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'suite': suite, 'seed': seed,
                   'case': repr(case), 'message': msg}, f, indent=1)
    return path
