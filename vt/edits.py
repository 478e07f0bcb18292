"""Random edits of a live file tree (plain-data ops resolved against its current state)."""
import os, stat, shutil
from hypothesis import strategies as st
from . import gen, fs

KINDS = ['write', 'write', 'append', 'samesize', 'sneaky', 'truncate', 'chmod', 'chown', 'utime', 'rename', 'rename',
         'swap', 'rm', 'rm', 'rmtree', 'mkdir', 'new', 'new', 'new', 'retype', 'link', 'symlink', 'xattr',
         'newdir', 'replace', 'fifo', 'touchdir', 'copy']

def edit(kinds=KINDS, big=30000, names=None):
    if names is None:
        names = st.one_of(gen.plain_name(), gen.name())
    return st.fixed_dictionaries({
        'op': st.sampled_from(kinds), 'i': st.integers(0, 60), 'j': st.integers(0, 60),
        'name': names, 'content': gen.mixed_content(big), 'meta': gen.meta('d', True),
        'n': st.integers(0, 40000)})

def edits(min_size=0, max_size=5, **kw):
    return st.lists(edit(**kw), min_size=min_size, max_size=max_size)

def paths(root):
    """Relative paths of everything under root, sorted, with kinds."""
    out = []
    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            r = rel + b'/' + n if rel else n
            m = os.lstat(p).st_mode
            k = fs.TYPES[stat.S_IFMT(m)]
            out.append((r, k))
            if k == 'd':
                walk(p, r)
    walk(root, b'')
    return out

def remove(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.unlink(p)

def apply(root, e):
    """Apply one edit; returns the op's label or None if not applicable."""
    ps = paths(root)
    files = [p for p, k in ps if k == 'f']
    dirs = [b''] + [p for p, k in ps if k == 'd']
    others = [p for p, k in ps if k != 'd']
    allp = [p for p, k in ps]
    op, i, j = e['op'], e['i'], e['j']
    J = lambda p: os.path.join(root, p) if p else root
    pick = lambda l, n: l[n % len(l)]
    data = None
    def body():
        return gen.realize(e['content'])
    if op in ('new', 'newdir', 'mkdir', 'fifo', 'symlink', 'link', 'copy'):
        d = pick(dirs, i)
        p = J(d) + b'/' + e['name']
        if os.path.lexists(p):
            if op != 'new' or not os.path.isfile(p) or os.path.islink(p):
                return None
        if op in ('new',):
            fs.write_file(p, body())
        elif op == 'mkdir':
            os.mkdir(p)
            fs.apply_meta(p, 'd', e['meta'])
            fs.apply_times(p, e['meta'])
        elif op == 'newdir':
            os.mkdir(p)
            fs.write_file(p + b'/in', body())
        elif op == 'fifo':
            os.mkfifo(p)
        elif op == 'symlink':
            os.symlink(b't%d' % e['n'], p)
        elif op == 'copy':
            if not files:
                return None
            with open(J(pick(files, j)), 'rb') as f:
                data = f.read()
            fs.write_file(p, data)
        else:
            if not others:
                return None
            os.link(J(pick(others, j)), p, follow_symlinks=False)
        return op
    if op == 'touchdir':
        fs.apply_times(J(pick(dirs, i)), {'mt': e['n'] * 10**9 + 5})
        return op
    if op in ('write', 'append', 'samesize', 'sneaky', 'truncate', 'replace'):
        if not files:
            return None
        p = J(pick(files, i))
        s = os.stat(p)
        if op == 'write':
            fs.write_file(p, body())
        elif op == 'append':
            with open(p, 'ab') as f:
                f.write(body() or b'x')
        elif op == 'truncate':
            os.truncate(p, e['n'] % (s.st_size + 1))
        elif op == 'replace':
            # a new file (new inode) with the old size and mtime
            with open(p, 'rb') as f:
                old = f.read()
            new = bytes((b + 1) & 255 for b in old[:50]) + old[50:]
            t = os.path.join(os.path.dirname(p), b".tmp~")
            fs.write_file(t, new)
            os.utime(t, ns=(s.st_atime_ns, s.st_mtime_ns))
            os.rename(t, p)
        else:
            with open(p, 'r+b') as f:
                old = f.read()
                if not old:
                    return None
                at = e['n'] % len(old)
                f.seek(at)
                f.write(bytes([old[at] ^ (1 + e['j'])]))
            if op == 'sneaky':
                os.utime(p, ns=(s.st_atime_ns, s.st_mtime_ns))
        return op
    if not allp:
        return None
    p = J(pick(allp, i))
    islink = os.path.islink(p)
    if op == 'chmod':
        if islink:
            return None
        os.chmod(p, e['n'] % 0o10000 | (0o700 if os.path.isdir(p) else 0))
    elif op == 'chown':
        os.chown(p, gen.UIDS[e['i'] % 7], gen.UIDS[e['j'] % 7], follow_symlinks=False)
    elif op == 'utime':
        os.utime(p, ns=(1, gen.TIMES[e['j'] % len(gen.TIMES)]), follow_symlinks=False)
    elif op == 'xattr':
        if islink or not (os.path.isfile(p) or os.path.isdir(p)):
            return None
        try:
            os.setxattr(p, b'user.e', b'%d' % e['n'])
        except OSError:
            return None
    elif op == 'rename':
        d = J(pick(dirs, j))
        q = d + b'/' + e['name']
        if (q + b'/').startswith(p + b'/') or (p + b'/').startswith(q + b'/'):
            return None
        if os.path.isdir(p) and not islink:
            if os.path.lexists(q):
                remove(q)
        elif os.path.isdir(q) and not os.path.islink(q):
            return None
        os.rename(p, q)
    elif op == 'swap':
        q = J(pick(allp, j))
        if p == q or (q + b'/').startswith(p + b'/') or (p + b'/').startswith(q + b'/'):
            return None
        t = root + b'/.swap~'
        os.rename(p, t)
        os.rename(q, p)
        os.rename(t, q)
    elif op == 'rm':
        if os.path.isdir(p) and not islink:
            return None
        os.unlink(p)
    elif op == 'rmtree':
        remove(p)
    elif op == 'retype':
        was_dir = os.path.isdir(p) and not islink
        remove(p)
        if was_dir:
            fs.write_file(p, body())
        elif islink:
            os.mkdir(p)
            fs.write_file(p + b'/q', b'q')
        else:
            if e['n'] % 2:
                os.mkdir(p)
                fs.write_file(p + b'/z', body())
            else:
                os.symlink(b'elsewhere', p)
    else:
        raise AssertionError(op)
    return op
