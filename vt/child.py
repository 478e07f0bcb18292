"""Running a piece of bup in a forked child."""
import os, pickle, signal, sys

def in_child(fn, timeout=120):
    """Run fn() in a forked child; (True, result) or (False, description)."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            sys.stderr.flush()
            os.dup2(dn, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                res = (True, fn())
            except BaseException:
                import traceback
                res = (False, traceback.format_exc()[-1500:])
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        return False, 'the process died: wait status %d' % status
    return pickle.loads(data)
