"""Building file trees from specs, and snapshotting them (the oracle side)."""
import os, stat, socket, hashlib
from .gen import realize, acl_bytes, ACLS
from .core import require, Violation

def apply_meta(path, kind, m):
    islink = kind == 'l'
    if 'uid' in m:
        os.chown(path, m['uid'], m['gid'], follow_symlinks=False)
    if not islink and 'mode' in m:
        os.chmod(path, m['mode'])
    for k, v in (m.get('x') or {}).items():
        try:
            os.setxattr(path, k, v, follow_symlinks=False)
        except OSError:
            pass
    if 'acl' in m:
        try:
            os.setxattr(path, b'system.posix_acl_access', acl_bytes(ACLS[m['acl']]))
        except OSError:
            pass
    if 'dacl' in m:
        try:
            os.setxattr(path, b'system.posix_acl_default', acl_bytes(ACLS[m['dacl']]))
        except OSError:
            pass

def apply_times(path, m):
    if 'mt' in m:
        os.utime(path, ns=(m['mt'], m['mt']), follow_symlinks=False)

def build(path, t, links=None):
    """Create directory `path` with the given tree spec."""
    if links is None:
        links = []
    kind, arg, m = t
    if kind == 'd':
        if not os.path.isdir(path):
            os.mkdir(path)
        for n, c in arg:
            build(os.path.join(path, n), c, links)
    elif kind == 'f':
        write_file(path, realize(arg))
        links.append(path)
    elif kind == 'l':
        os.symlink(arg, path)
        links.append(path)
    elif kind == 'p':
        os.mkfifo(path)
        links.append(path)
    elif kind == 's':
        mksock(path)
        links.append(path)
    elif kind == 'h':
        if links:
            os.link(links[arg % len(links)], path, follow_symlinks=False)
        else:
            write_file(path, b'h')
            links.append(path)
        return
    apply_meta(path, kind, m)
    apply_times(path, m)

def mksock(path):
    # Socket paths are limited in length: bind relative to the directory.
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    d, b = os.path.split(path)
    fd = os.open(d, os.O_RDONLY | os.O_DIRECTORY)
    try:
        p = b'/proc/self/fd/%d/' % fd + b
        if len(p) < 108:
            s.bind(p)
        else:
            os.mkfifo(path)
    finally:
        os.close(fd)
        s.close()

def write_file(path, data, sparse=False):
    with open(path, 'wb') as f:
        f.write(data)

XATTR_OK = (b'user.', b'trusted.', b'security.', b'system.posix_acl')

def xattrs(path):
    try:
        names = os.listxattr(path, follow_symlinks=False)
    except OSError:
        return ()
    out = []
    for n in sorted(names):
        nb = os.fsencode(n)
        if nb.startswith((b'user.', b'system.posix_acl')):
            out.append((nb, os.getxattr(path, n, follow_symlinks=False)))
    return tuple(out)

TYPES = {stat.S_IFREG: 'f', stat.S_IFDIR: 'd', stat.S_IFLNK: 'l', stat.S_IFIFO: 'p',
         stat.S_IFSOCK: 's', stat.S_IFCHR: 'c', stat.S_IFBLK: 'b'}

def entry(path, want_meta=True, content=True):
    st = os.lstat(path)
    kind = TYPES[stat.S_IFMT(st.st_mode)]
    e = {'t': kind}
    if kind == 'f' and content:
        with open(path, 'rb') as f:
            d = f.read()
        e['c'] = hashlib.sha256(d).hexdigest()[:20]
        e['n'] = len(d)
    elif kind == 'l':
        e['to'] = os.readlink(path)
    if want_meta:
        e['mode'] = stat.S_IMODE(st.st_mode)
        e['mt'] = st.st_mtime_ns
        e['uid'], e['gid'] = st.st_uid, st.st_gid
        e['x'] = xattrs(path)
    return e, st

def snapshot(root, want_meta=True, root_meta=True):
    """{relative path: entry}, '' being the root; plus hard-link groups."""
    root = os.fsencode(root)
    out = {}
    inodes = {}
    def walk(p, rel):
        e, st = entry(p, want_meta)
        out[rel] = e
        if e['t'] != 'd' and st.st_nlink > 1:
            inodes.setdefault((st.st_dev, st.st_ino), []).append(rel)
        if e['t'] == 'd':
            for n in sorted(os.listdir(p)):
                walk(os.path.join(p, n), rel + b'/' + n if rel else n)
    walk(root, b'')
    if not root_meta:
        out[b''] = {'t': out[b'']['t']}
    links = sorted(sorted(v) for v in inodes.values() if len(v) > 1)
    return out, links

def diff(a, b, limit=6):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if x is None:
                out.append('unexpected %r: %r' % (k, y))
            elif y is None:
                out.append('missing %r: %r' % (k, x))
            else:
                fs = [f for f in sorted(set(x) | set(y)) if x.get(f) != y.get(f)]
                out.append('differs %r: ' % (k,) + ', '.join(
                    '%s %r -> %r' % (f, x.get(f), y.get(f)) for f in fs))
            if len(out) >= limit:
                break
    return out

def require_same(want, got, what):
    d = diff(want[0], got[0])
    require(not d, what + ': trees differ', *d)
    require(want[1] == got[1], what + ': hard link groups differ', want[1], got[1])
