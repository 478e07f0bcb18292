"""Shared types: Violation, HarnessError, Suite, Ctx, running bup."""
import os, sys, shutil, signal, subprocess, tempfile, time, hashlib, atexit

class Violation(Exception):
    """An oracle failed."""

class HarnessError(BaseException):
    """The harness itself is broken or cannot run here (error exit)."""

class Skip(Exception):
    """Case is not applicable (counted as trivial)."""

def require(cond, msg, *detail):
    if not cond:
        raise Violation(msg + ''.join('\n  %s' % (shorten(d),) for d in detail))

def shorten(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]

class Suite:
    """One generated-input search.

    strategy: zero-argument callable returning a Hypothesis strategy of plain
    data; run(case, ctx): judges a case; quick/thorough: number of cases.
    """
    def __init__(self, name, strategy, run, quick, thorough, rule='',
                 shards=8, explicit=(), hang=400):
        self.hang = hang
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards, self.explicit = shards, list(explicit)

class R:
    __slots__ = ('rc', 'out', 'err', 'args')
    def __init__(self, rc, out, err, args):
        self.rc, self.out, self.err, self.args = rc, out, err, args
    def __repr__(self):
        return '<bup %r rc=%r out=%s err=%s>' % (
            [a if isinstance(a, bytes) else a for a in self.args], self.rc,
            shorten(self.out, 800), shorten(self.err, 1200))

CMD_TIMEOUT = 180

BASE_ENV = {
    'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'GIT_CONFIG_NOSYSTEM': '1',
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
    'GIT_AUTHOR_NAME': 'vt', 'GIT_AUTHOR_EMAIL': 'vt@example.org',
    'GIT_COMMITTER_NAME': 'vt', 'GIT_COMMITTER_EMAIL': 'vt@example.org',
}

def fsb(x):
    return x if isinstance(x, bytes) else os.fsencode(str(x))

SLOW_CMD = float(os.environ.get('VT_SLOW_CMD', 0))

class Ctx:
    """Per-case context: scratch directory, statistics, command running."""
    src = None        # built snapshot of /repo
    shim = None
    base = None       # worker's scratch directory
    counter = 0
    zsock = None      # fork server for bup subprocesses
    zpid = None

    def __init__(self, tier, suite):
        self.tier, self.suite = tier, suite
        self.labels = set()
        self.is_nontrivial = False
        self.extra = {}
        self._dir = None
        self.ncmd = 0

    @classmethod
    def start_server(cls):
        from . import zygote
        import time
        path = os.path.join(cls.base, 'z')
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                zygote.serve(path)
            finally:
                os._exit(1)
        for _ in range(500):
            if os.path.exists(path):
                break
            time.sleep(0.01)
        cls.zsock, cls.zpid = path, pid

    @classmethod
    def stop_server(cls):
        if cls.zpid:
            killpg(cls.zpid)
            try:
                os.waitpid(cls.zpid, 0)
            except ChildProcessError:
                pass
            cls.zpid = cls.zsock = None

    @property
    def dir(self):
        if self._dir is None:
            Ctx.counter += 1
            d = os.path.join(Ctx.base, 'c%d' % (Ctx.counter,))
            os.makedirs(d)
            os.makedirs(d + '/home')
            # Nothing bup does may depend on a .git above its directory.
            if not os.path.exists(Ctx.base + '/.git'):
                with open(Ctx.base + '/.git', 'w') as f:
                    f.write('not a repository\n')
            self._dir = d
        return self._dir

    @property
    def bdir(self):
        return os.fsencode(self.dir)

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def cleanup(self):
        if self._dir:
            rmtree(self._dir)
            self._dir = None

    # --- commands

    def env(self, extra=None):
        e = dict(BASE_ENV)
        e['HOME'] = self.dir + '/home'
        if extra:
            for k, v in extra.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        return e

    def bup(self, *args, stdin=b'', env=None, cwd=None, ok=None, real=False,
            timeout=CMD_TIMEOUT, time_offset=2.5):
        """Run a bup command.  ok=True: a non-zero exit is a Violation;
        ok=False: a zero exit is one."""
        args = [fsb(a) for a in args]
        cwd = fsb(cwd if cwd is not None else self.dir)
        self.ncmd += 1
        e = self.env(env)
        if not real:
            if Ctx.zsock:
                e.setdefault('VT_ZYGOTE', Ctx.zsock)
            e.setdefault('VT_TIME_OFFSET', str(time_offset))
        t0 = time.time()
        if real:
            r = self._real([os.fsencode(Ctx.src) + b'/bup'] + args, stdin, e, cwd, timeout)
        else:
            r = self._forked(args, stdin, e, cwd, timeout)
        r.args = args
        if SLOW_CMD and time.time() - t0 > SLOW_CMD:
            sys.stderr.write('slow command: %.1fs %r\n' % (time.time() - t0, args))
        if ok is True and r.rc != 0:
            raise Violation('command failed unexpectedly: %r' % (r,))
        if ok is False and r.rc == 0:
            raise Violation('command succeeded unexpectedly: %r' % (r,))
        return r

    def _real(self, argv, stdin, env, cwd, timeout):
        with tempfile.TemporaryFile(dir=Ctx.base) as fi, \
             tempfile.TemporaryFile(dir=Ctx.base) as fo, \
             tempfile.TemporaryFile(dir=Ctx.base) as fe:
            fi.write(stdin)
            fi.flush()
            fi.seek(0)
            p = subprocess.Popen(argv, stdin=fi, stdout=fo, stderr=fe,
                                 env=env, cwd=cwd, start_new_session=True)
            rc = waitpid_timeout(p.pid, timeout)
            if rc is None:
                killpg(p.pid)
                p.wait()
                raise Violation('command hung for %ds: %r' % (timeout, argv))
            p.returncode = rc
            fo.seek(0)
            fe.seek(0)
            return R(rc, fo.read(), fe.read(), argv)

    def _forked(self, args, stdin, env, cwd, timeout):
        from . import zygote
        with tempfile.TemporaryFile(dir=Ctx.base) as fi, \
             tempfile.TemporaryFile(dir=Ctx.base) as fo, \
             tempfile.TemporaryFile(dir=Ctx.base) as fe:
            if stdin:
                fi.write(stdin)
                fi.flush()
                fi.seek(0)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                zygote.child(args, fi.fileno(), fo.fileno(), fe.fileno(), env, cwd)
                os._exit(99)
            rc = waitpid_timeout(pid, timeout)
            if rc is None:
                killpg(pid)
                os.waitpid(pid, 0)
                raise Violation('command hung for %ds: %r' % (timeout, args))
            fo.seek(0)
            fe.seek(0)
            return R(rc, fo.read(), fe.read(), args)

    def git(self, repo, *args, stdin=b'', check=True, env=None):
        p = subprocess.run(['git', '--git-dir', fsb(repo)] + [fsb(a) for a in args],
                           input=stdin, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=self.env(env),
                           cwd=self.dir)
        if check and p.returncode:
            raise Violation('git %r failed (%d): %s' % (args, p.returncode,
                                                        shorten(p.stderr)))
        return p

def waitpid_timeout(pid, timeout):
    # Fast path for short commands without polling.
    fd = None
    try:
        fd = os.pidfd_open(pid)
    except OSError:
        pass
    if fd is not None:
        import select
        try:
            p = select.poll()
            p.register(fd, select.POLLIN)
            if not p.poll(timeout * 1000):
                return None
        finally:
            os.close(fd)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)

def killpg(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

def rmtree(path):
    """Remove a scratch tree whatever its modes are."""
    assert path.startswith(('/dev/shm/', '/tmp/', '/var/tmp/')), path
    def onexc(fn, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            if os.path.isdir(p) and not os.path.islink(p):
                os.chmod(p, 0o700)
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
        except OSError:
            pass
    shutil.rmtree(path, onexc=onexc)

def bup_call(fn, *a, **kw):
    """Call into bup in-process; any exception is a Violation."""
    try:
        return fn(*a, **kw)
    except Violation:
        raise
    except Exception as ex:
        import traceback
        raise Violation('unexpected exception from bup: %r\n%s'
                        % (ex, traceback.format_exc()[-1500:])) from None
