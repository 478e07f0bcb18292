"""Run bup's main() in a forked child of this (already importing) process."""
import os, sys, types, time, gc, importlib, pkgutil, ctypes

_ready = False

def patch_time():
    """In children with VT_TIME_OFFSET: sleeping is free and the clock is that
    much ahead (bup index otherwise waits for the next second, and treats
    entries changed within the last second as unreliable)."""
    real_sleep, real_time = time.sleep, time.time
    def sleep(secs):
        if _offset[0] is None:
            real_sleep(secs)
    def now():
        return real_time() + (_offset[0] or 0)
    time.sleep, time.time = sleep, now

_offset = [None]

def setup(src):
    """Import bup from the built snapshot."""
    global _ready
    if _ready:
        return
    patch_time()
    lib = os.path.join(src, 'lib')
    sys.path.insert(0, lib)
    m = types.ModuleType('bup_main')
    m.env_pythonpath = os.fsencode(lib)
    sys.modules['bup_main'] = m
    saved_path = os.environ.get('PYTHONPATH')
    saved_argv = sys.argv
    sys.argv = ['bup']
    try:
        import bup.main
    finally:
        sys.argv = saved_argv
        if saved_path is None:
            os.environ.pop('PYTHONPATH', None)
        else:
            os.environ['PYTHONPATH'] = saved_path
    import bup.cmd
    # Import what commands need, so that children need not.
    out = sys.stdout
    for _, name, _ in pkgutil.iter_modules(path=bup.cmd.__path__):
        # Some modules use sys.stdout when imported; import those in the child.
        if name in ('web', 'fuse', 'restore'):
            continue
        try:
            importlib.import_module('bup.cmd.' + name)
        except ImportError:
            pass
    if sys.stdout is not out:
        raise RuntimeError('importing bup commands replaced sys.stdout')
    f = os.path.realpath(bup.main.__file__)
    if not f.startswith(os.path.realpath(src)):
        raise RuntimeError('imported bup from ' + f)
    gc.collect()
    gc.freeze()
    _ready = True

_keep = []

def child(args, fi, fo, fe, env, cwd, umask=0o022, setsid=True):
    rc = 99
    try:
        if setsid:
            os.setsid()
        l = [os.dup(f) for f in (fi, fo, fe)]
        for i in range(3):
            os.dup2(l[i], i)
        os.closerange(3, 256)
        for k in list(os.environ):
            del os.environ[k]
        os.environ.update(env)
        time.tzset()
        if env.get('VT_CTL'):
            ctypes.CDLL(None).vt_shim_init()
        if env.get('VT_STAT'):
            ctypes.CDLL(None).vt_stat_init()
        if 'VT_TIME_OFFSET' in env:
            _offset[0] = float(env['VT_TIME_OFFSET'])
        os.chdir(cwd)
        os.umask(umask)
        if env.get('VT_UID'):
            os.setgroups([])
            os.setresgid(*[int(env['VT_UID'])] * 3)
            os.setresuid(*[int(env['VT_UID'])] * 3)
        _keep.extend((sys.stdin, sys.stdout, sys.stderr))
        sys.stdin = open(0, 'r', closefd=False)
        sys.stdout = open(1, 'w', closefd=False)
        sys.stderr = open(2, 'w', closefd=False, buffering=1)
        sys.argv = ['bup'] + [os.fsdecode(a) for a in args]
        from bup import main
        try:
            main.main()
            rc = 0
        except SystemExit as ex:
            c = ex.code
            if c is None:
                rc = 0
            elif isinstance(c, int):
                rc = c & 0xff
            else:
                print(c, file=sys.stderr)
                rc = 1
        except BaseException:
            import traceback
            traceback.print_exc()
            rc = 1
        import atexit
        atexit._run_exitfuncs()
        try:
            sys.stdout.flush()
        except BrokenPipeError:
            rc = rc or 120
        sys.stderr.flush()
    except BaseException:
        import traceback
        os.write(2, b'zygote: ' + traceback.format_exc().encode())
        rc = 98
    finally:
        os._exit(rc)

# ------------------------------------------------------------- fork server

def serve(path):
    """Fork server for vbup (see vbup.c); runs until killed."""
    import socket, struct, select, array, signal
    ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    ls.bind(path)
    ls.listen(64)
    ppid = os.getppid()
    pids = {}      # pidfd -> (pid, conn)
    poll = select.poll()
    poll.register(ls.fileno(), select.POLLIN)
    while True:
        ev = poll.poll(2000)
        if os.getppid() != ppid:
            os._exit(0)
        for fd, _ in ev:
            if fd != ls.fileno():
                pid, conn = pids.pop(fd)
                poll.unregister(fd)
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                try:
                    conn.sendall(struct.pack('<i', os.waitstatus_to_exitcode(st)))
                except OSError:
                    pass
                conn.close()
                continue
            conn, _ = ls.accept()
            try:
                msg, anc, _, _ = conn.recvmsg(4, socket.CMSG_LEN(12))
                fds = array.array('i')
                for lvl, typ, data in anc:
                    if typ == socket.SCM_RIGHTS:
                        fds.frombytes(data[:12])
                n, = struct.unpack('<I', msg)
                buf = b''
                while len(buf) < n:
                    d = conn.recv(n - len(buf))
                    if not d:
                        break
                    buf += d
                um, na, ne = struct.unpack('<III', buf[:12])
                parts = buf[12:].split(b'\0')
                cwd = parts[0]
                args = parts[1:1 + na]
                env = {}
                for e in parts[1 + na:1 + na + ne]:
                    k, _, v = e.partition(b'=')
                    env[os.fsdecode(k)] = os.fsdecode(v)
            except Exception:
                conn.close()
                continue
            pid = os.fork()
            if pid == 0:
                try:
                    child(args, fds[0], fds[1], fds[2], env, cwd, um, False)
                finally:
                    os._exit(99)
            for f in fds:
                os.close(f)
            pfd = os.pidfd_open(pid)
            pids[pfd] = (pid, conn)
            poll.register(pfd, select.POLLIN)
