"""C14: browsing shows exactly what was saved, at every path."""
import os, re, stat, time, posixpath
from hypothesis import strategies as st
from vt import fs, gen, ops, gitread, hist, mkrepo, bupmeta, packs
from vt.core import Suite, Violation, require

TARGETS = ['child', 'sibling', 'up', 'upup', 'abs', 'abs', 'abs-root', 'abs-branch', 'abs-tag', 'loop', 'dangling', 'file/', 'dir/', 'dot', 'chain', 'chain',
           'through', 'abs-through', 'slashes', 'beyond']
path = st.fixed_dictionaries({'s': st.lists(st.integers(0, 400), min_size=0, max_size=7), 'end': st.sampled_from(['', '', '', '/', '/.', '/..', '//', '/./']),
                              'start': st.sampled_from(['', '', '/', '//', './', '../'])})
BOOLS = [[], ['-l'], ['-n', '-l'], ['-la'], ['-lA'], ['-a'], ['-A'], ['-F'], ['--file-type'], ['-Fa'], ['-lF'], ['-d'], ['-ld'], ['-dF'], ['-s'], ['-sa'],
         ['--commit-hash'], ['-l', '--human-readable'], ['-sln'], ['-l', '--file-type', '-A'], ['-sd'], ['-AF']]

@st.composite
def case(draw):
    return {'tree': draw(gen.tree(depth=3, max_entries=5, names=st.one_of(gen.plain_name(), gen.name()), big=30000)),
            'tree2': draw(gen.tree(depth=1, max_entries=4, names=gen.plain_name(), big=3000)),
            'cfg': draw(ops.config()), 'wide': draw(st.sampled_from([0, 0, 0, 120])),
            'links': draw(st.lists(st.fixed_dictionaries({'at': st.integers(0, 60), 'name': st.sampled_from([b'ln', b'ln2', b'ln3', b'.ln', b'ln4', b'ln5']), 'k': st.sampled_from(TARGETS), 'i': st.integers(0, 60)}), max_size=6)),
            'commits': draw(mkrepo.branch(1, 3)),
            'names': draw(st.lists(st.sampled_from([b'b', b'main', b'\xc3\xb6.x', b'x@y', b'a-b']), min_size=1, max_size=3, unique=True)),
            'tags': draw(st.lists(st.tuples(st.sampled_from([b't', b'v1.0', b'\xc3\xa9', b'tt']), st.sampled_from(['commit', 'tree', 'blob']), st.integers(0, 20)), max_size=3, unique_by=lambda x: x[0])),
            'cmds': draw(st.lists(st.tuples(st.sampled_from(BOOLS), st.lists(path, min_size=1, max_size=5)), min_size=2, max_size=6)),
            'cats': draw(st.lists(st.tuples(path, st.sampled_from(['', '', '--meta', '--bupm'])), max_size=3)),
            'ftp': draw(st.lists(st.tuples(st.sampled_from(['cd', 'cd', 'ls', 'ls', 'pwd', 'cat', 'get', 'mget', 'junk', 'help']), path, st.integers(0, 30)), min_size=2, max_size=8)),
            'ftpargs': draw(st.booleans()),
            'refs': draw(st.lists(st.tuples(st.sampled_from(['^', '~1', '~0', '@{0}', ':', ':keep', '^{tree}', '^{}', ' ', '\n', '*', '?', '..b', '\t', '.lock']), st.integers(0, 5), st.booleans()), max_size=1))}

class Node:
    def __init__(self, kind, children=None, meta=None, target=None, data=None, oid=None, coid=None, exact=False):
        self.kind, self.meta, self.target, self.data, self.oid, self.coid, self.exact = kind, meta, target, data, oid, coid, exact
        self._children = children
    @property
    def children(self):
        if callable(self._children):
            self._children = self._children()
        return self._children

def tree_node(r, oid, coid=None):
    def children():
        own, ms = gitread.metas(r, oid)
        out = {}
        for n, (kind, mode, o) in gitread.list_dir(r, oid).items():
            if kind == 'dir':
                out[n] = tree_node(r, o)
            elif kind == 'link':
                m = ms.get(n)
                out[n] = Node('l', None, m, (m or {}).get('target') or r.get(o)[1], oid=o, exact=bool(m))
            else:
                m = ms.get(n)
                out[n] = Node('f', None, m, None, (lambda o=o: gitread.join_data(r, o)), oid=o, exact=bool(m))
        return out
    own = gitread.metas(r, oid)[0]
    return Node('d', children, own, oid=oid, coid=coid, exact=bool(own))

def model(r):
    refs = r.refs()
    root = {}
    tags = {}
    for n, o in refs.items():
        if n.startswith(b'refs/heads/'):
            saves = hist.save_names(r, o)
            def children(saves=saves):
                out = {x: tree_node(r, cm['tree'], c) for x, c, cm in saves}
                out[b'latest'] = Node('l', target=saves[-1][0])
                return out
            root[n[11:]] = Node('d', children, oid=o)
        elif n.startswith(b'refs/tags/'):
            typ = r.get(o)[0]
            tags[n[10:]] = (tree_node(r, r.commit(o)['tree'], o) if typ == b'commit' else tree_node(r, o) if typ == b'tree'
                            else Node('f', data=lambda o=o: r.get(o)[1], oid=o))
    root[b'.tag'] = Node('d', tags)
    return Node('d', root)

class Unresolved(Exception):
    def __init__(self, why, at=None):
        self.why = why

def resolve(root, cwd, p, follow=True):
    """POSIX path resolution; the stack of (name, node) from the root."""
    hops = 0
    def split(q):
        parts = [x for x in q.split(b'/') if x not in (b'', b'.')]
        must = q.endswith((b'/', b'/.')) or not parts
        return parts, must
    todo, must = split(p)
    if must:
        follow = True
    stack = [(b'', root)] if p.startswith(b'/') or not cwd else list(cwd)
    while todo:
        n = todo.pop(0)
        if stack[-1][1].kind != 'd':
            raise Unresolved('notdir')
        if n == b'..':
            if len(stack) > 1:
                stack.pop()
            continue
        c = stack[-1][1].children.get(n)
        if c is None:
            raise Unresolved('missing')
        if c.kind == 'l' and (todo or follow):
            hops += 1
            if hops > 1000:
                raise Unresolved('loop')
            t, m = split(c.target)
            if m and not todo:
                must = True
            if c.target.startswith(b'/'):
                stack = [(b'', root)]
            todo = t + todo
            continue
        stack.append((n, c))
    if must and stack[-1][1].kind != 'd':
        raise Unresolved('notdir')
    if hops > 40:
        raise Unresolved('deep')
    return stack

def setup(c, ctx):
    d = ctx.bdir
    repo = ops.init(ctx, d + b'/repo', {k: v for k, v in c['cfg'].items() if v not in ('1k', '2000', '20000')})
    s, s2 = d + b's', d + b's2'
    os.mkdir(s)
    fs.build(s, c['tree'])
    fs.write_file(s + b'/keep', b'kept')
    os.mkdir(s + b'/sub')
    fs.write_file(s + b'/sub/x', b'xx' * 50)
    os.mkdir(s + b'/sub/deep')
    if c['wide']:
        os.mkdir(s + b'/wide')
        for i in range(c['wide']):
            fs.write_file(s + b'/wide/f%d' % (i * 7919 % 100003), b'%d' % (i % 5))
    b0 = c['names'][0]
    from vt import edits
    for L in c['links']:
        ps = edits.paths(s)
        dirs = [b''] + [p for p, k in ps if k == 'd']
        at = dirs[L['at'] % len(dirs)]
        allp = [p for p, k in ps] or [b'x']
        x = allp[L['i'] % len(allp)]
        fl = [p for p, k in ps if k == 'f'] or [b'x']
        dr = [p for p, k in ps if k == 'd'] or [b'x']
        f, dd = fl[L['i'] % len(fl)], dr[L['i'] % len(dr)]
        rel = lambda q: os.path.relpath(s + b'/' + q, s + b'/' + at)
        top = b'/' + b0 + b'/latest/'
        lns = [p for p, k in ps if k == 'l'] or [b'x']
        ln = lns[L['i'] % len(lns)]
        k = L['k']
        t = {'child': rel(x), 'sibling': os.path.basename(x), 'up': b'..', 'upup': b'../..', 'abs': top + x, 'abs-root': b'/', 'abs-branch': b'/' + b0, 'abs-tag': b'/.tag/t',
             'loop': L['name'], 'dangling': b'no/such', 'file/': rel(f) + b'/', 'dir/': rel(dd) + b'//', 'dot': b'.', 'chain': rel(ln), 'through': rel(ln) + b'/' + os.path.basename(x),
             'abs-through': top + ln + b'/' + os.path.basename(x), 'slashes': b'.//' + rel(x).replace(b'/', b'//./'), 'beyond': b'../' * 9 + b0 + b'/latest/' + x}[k]
        p = s + b'/' + (at + b'/' if at else b'') + L['name']
        if not os.path.lexists(p):
            os.symlink(t, p)
            ctx.label('link-' + k)
    os.mkdir(s2)
    fs.build(s2, c['tree2'])
    trees = []
    for x in (s, s2):
        ctx.bup('-d', repo, 'index', '-u', x, ok=True)
        trees.append(bytes.fromhex(ctx.bup('-d', repo, 'save', '-q', '-t', '--strip', x, ok=True).out.decode().strip()))
    ids = mkrepo.write(repo, {n: [dict(x, tree=0 if i == len(c['commits']) - 1 else x['tree']) for i, x in enumerate(c['commits'][:1 + j] if j else c['commits'])]
                              for j, n in enumerate(c['names'])}, trees)
    r = gitread.Repo(repo)
    for t, k, i in c['tags']:
        cs = [o for n in sorted(ids) for o in ids[n]]
        cm = cs[i % len(cs)]
        es = gitread.list_dir(r, r.commit(cm)['tree'])
        pick = {'commit': [cm], 'tree': [r.commit(cm)['tree']] + [o for n, (kd, m, o) in sorted(es.items()) if kd == 'dir'], 'blob': [o for n, (kd, m, o) in sorted(es.items()) if kd == 'file'] or [cm]}[k]
        mkrepo.set_ref(repo, b'refs/tags/' + t, pick[i % len(pick)])
    for x in (s, s2):
        import shutil
        shutil.rmtree(x)
    return repo

def make_path(root, c, cwd=None):
    """A path through the model: mostly existing components."""
    out = []
    at = cwd[-1][1] if cwd and not c['start'].startswith('/') else root
    stack = list(cwd) if cwd and not c['start'].startswith('/') else [(b'', root)]
    if c['start'] == '../':
        at = stack[-2][1] if len(stack) > 1 else at
    for x in c['s']:
        sel, x = x % 8, x // 8
        if sel == 7:
            n = [b'missing', b'.', b'..', b'', b'..', b'.tag', b'latest', b'1999-01-01-000000', b'keep', b'sub', b'.bupm', b'sub'][x % 12]
        elif at is not None and at.kind == 'd' and at.children:
            ns = sorted(at.children)
            ls = [n for n in ns if at.children[n].kind == 'l']
            n = ls[x % len(ls)] if ls and sel >= 4 else ns[x % len(ns)]
        else:
            n = [b'..', b'.', b'x', b''][x % 4]
        out.append(n)
        try:
            at = resolve(root, stack, b'/'.join(out) or b'.')[-1][1]
        except Unresolved:
            at = None
    p = c['start'].encode() + b'/'.join(out) + c['end'].encode()
    p = p or b'.'
    return p if not p.startswith(b'-') else b'./' + p

def mode_of(n):
    if n.meta and n.meta.get('mode'):
        return n.meta['mode']
    return {'d': 0o40755, 'l': 0o120755, 'f': 0o100644}[n.kind]

def suffix(n, full):
    m = mode_of(n)
    f = stat.S_IFMT(m)
    return {stat.S_IFDIR: b'/', stat.S_IFLNK: b'@', stat.S_IFIFO: b'|', stat.S_IFSOCK: b'='}.get(f, b'*' if full and f == stat.S_IFREG and m & 0o111 else b'')

def human(n):
    if n < 1024:
        return b'%d' % n
    u = 0
    while n >= 1024 ** (u + 1):
        u += 1
    return b'%.1f%s' % (n / 1024 ** u, b'KMGT'[u - 1:u])

def long_line(n, name, numeric, cls, hum):
    """A regular expression for one line of a long listing."""
    m = mode_of(n)
    text = name + (suffix(n, cls == 'all') if cls else b'') + (b' -> ' + n.target if n.kind == 'l' else b'')
    if not n.exact:
        return (b'[dl-][rwx-]{9} .*' if n.kind != 'd' else b'd[rwx-]{9} .*') + re.escape(b' ' + text)
    # no setuid or sticky letters in bup's listings
    bits = stat.filemode(stat.S_IFMT(m) | m & 0o777).encode()
    who = b'/'.join((n.meta.get(a) if n.meta.get(a) and not numeric else str(n.meta[b]).encode()) for a, b in (('user', 'uid'), ('group', 'gid')))
    size = n.meta.get('size')
    if n.kind == 'd':
        size = 0
    elif stat.S_ISREG(m):
        size = len(n.data())
    elif n.kind == 'l':
        size = len(n.target)
    when = n.meta['mtime'] // 10**9
    t = time.strftime('%Y-%m-%d %H:%M', time.gmtime(when)).encode()
    s = b'-' if size is None else human(size) if hum else b'%d' % size
    if stat.S_ISFIFO(m) or stat.S_ISSOCK(m):
        # nothing says what these show for a size
        return re.escape(b'%-10s %-11s ' % (bits, who)) + b' *[0-] ' + re.escape(b'%16s ' % t + text)
    return re.escape(b'%-10s %-11s %11s %16s ' % (bits, who, s, t) + text)

def listing(stack, printed, o, long, cls, hidden, hashes, commit_hash):
    """A regular expression for what ls prints for one path."""
    numeric, hum, directory = '-n' in o, '-H' in o, '-d' in o
    def line(n, name):
        pre = b''
        if hashes:
            h = (n.coid if commit_hash and n.coid else n.oid) or b'\0' * 20
            pre = h.hex().encode() + b' '
        if long:
            return pre + long_line(n, name, numeric, cls, hum) + b'\n'
        return pre + re.escape(name + (suffix(n, cls == 'all') if cls else b'')) + b'\n'
    leaf = stack[-1][1]
    if leaf.kind != 'd' or directory:
        return line(leaf, os.path.normpath(printed))
    es = dict(leaf.children)
    if hidden == 'all':
        es[b'.'] = Node('d', {}, leaf.meta, oid=leaf.oid, coid=leaf.coid)
        up = stack[-2][1] if len(stack) > 1 else leaf
        es[b'..'] = Node('d', {}, up.meta, oid=up.oid, coid=up.coid)
    out = b''
    for n in sorted(es):
        if n.startswith(b'.') and not hidden:
            continue
        x = es[n]
        if n in (b'.', b'..') and hashes:
            # what stands for a branch or save itself depends on how it was reached
            h = [re.escape(v.hex().encode()) for v in {x.oid, x.coid, b'\0' * 20} if v]
            l = b'(?:' + b'|'.join(h) + b') '
            out += l + (long_line(x, n, numeric, cls, hum) if long else re.escape(n + (suffix(x, cls == 'all') if cls else b''))) + b'\n'
            continue
        out += line(x, n)
    return out

def expect_ls(root, cwd, flags, paths):
    """(regular expression, exit status or None) of ls."""
    text = ' '.join(flags)
    o = set()
    for f in flags:
        if f.startswith('--'):
            o.add(f)
        else:
            o.update('-' + x for x in f[1:])
    if '--human-readable' in o:
        o.add('-H')
    long = '-l' in o
    cls = 'all' if '-F' in o else 'type' if '--file-type' in o else None
    hidden = 'all' if '-a' in o else 'almost' if '-A' in o else None
    hashes, ch = '-s' in o or '--commit-hash' in o, '--commit-hash' in o
    out, rc = b'', 0
    for i, p in enumerate(paths):
        if len(paths) > 1:
            out += re.escape(p + b':\n')
        try:
            if long or '-d' in o:
                stack = resolve(root, cwd, p, False)
            else:
                try:
                    stack = resolve(root, cwd, p)
                except Unresolved:
                    stack = resolve(root, cwd, p, False)
                    if stack[-1][1].kind == 'l':
                        # dangling: the link itself, or an error
                        x = listing(stack, posixpath.join(b'', p), o, long, cls, hidden, hashes, ch)
                        out += b'(?:' + x + b')?'
                        rc = rc if rc == 1 else None
                        if i < len(paths) - 1:
                            out += b'\n'
                        continue
            out += listing(stack, p, o, long, cls, hidden, hashes, ch)
        except Unresolved as ex:
            if ex.why == 'deep':
                return None, None
            rc = 1
            out += b'\n?'
            continue
        if i < len(paths) - 1:
            out += b'\n'
    return out, rc

def run(c, ctx):
    repo = setup(c, ctx)
    r = gitread.Repo(repo)
    root = model(r)
    R = ['-d', repo]
    for flags, ps in c['cmds']:
        paths = [make_path(root, p) for p in ps]
        rx, rc = expect_ls(root, None, flags, paths)
        if rx is None:
            ctx.label('deep')
            continue
        got = ctx.bup(*R, 'ls', *flags, *paths)
        what = 'bup ls %r %r' % (flags, paths)
        require(b'Traceback' not in got.err, what + ' crashed', got)
        if rc is not None:
            require((got.rc != 0) == (rc != 0), what + ': exit status', got, rc)
        require(re.fullmatch(rx, got.out, re.S), what + ': listing', got.out, rx, got)
        for p in paths:
            try:
                st_ = resolve(root, None, p)
                ctx.label('found')
                ctx.nontrivial(len(st_) > 3)
            except Unresolved as ex:
                ctx.label(ex.why)
    for p, how in c['cats']:
        q = make_path(root, p).lstrip(b'/')
        while q.startswith(b'../'):
            q = q[3:]
        cat(c, ctx, R, r, root, b'/' + q, how)
    for suf, i, tag in c['refs']:
        # not the name of any branch or tag, though git would understand some
        n = c['names'][i % len(c['names'])] + suf.encode()
        p = (b'/.tag/' + c['tags'][0][0] + suf.encode()) if tag and c['tags'] else b'/' + n
        for q in (p, p + b'/latest'):
            got = ctx.bup(*R, 'ls', q)
            require(got.rc != 0 and not got.out, 'ls of a path that does not exist', q, got)
            require(b'Traceback' not in got.err, 'ls of a path that does not exist crashed', q, got)
            ctx.label('ref-syntax')
    ftp(c, ctx, R, root)

def cat(c, ctx, R, r, root, p, how):
    got = ctx.bup(*R, 'cat-file', *([how] if how else []), p)
    what = 'bup cat-file %s %r' % (how, p)
    require(b'Traceback' not in got.err or got.rc != 0, what, got)
    if not re.match(br'/*[^/]+/[^/]+', p):
        require(got.rc != 0 and not got.out, what + ' succeeded without a save', got)
        return
    try:
        leaf = resolve(root, None, p, False)[-1][1]
    except Unresolved as ex:
        if ex.why != 'deep':
            require(got.rc != 0 and not got.out, what + ' succeeded', got, ex.why)
        return
    if how == '--bupm':
        if leaf.kind != 'd' or leaf.oid is None:
            require(got.rc != 0 and not got.out, what + ' of a non-directory', got)
        elif leaf.oid and r.get(leaf.oid)[0] == b'tree':
            es = [o for m, n, o in gitread.parse_tree(r.get(leaf.oid)[1]) if n == b'.bupm']
            require(got.rc == 0 and got.out == (gitread.join_data(r, es[0]) if es else b''), what + ' differs', got)
            ctx.label('cat-bupm')
    elif how == '--meta':
        if leaf.exact:
            require(got.rc == 0, what + ' failed', got)
            ms = bupmeta.decode_all(got.out)
            require(len(ms) == 1, what + ': one record', ms)
            a, b = dict(ms[0]), dict(leaf.meta)
            for x in (a, b):
                x.pop('path', None)
                # only files and links have a size worth recording
                if leaf.kind == 'd' or not stat.S_IFMT(x['mode']) in (stat.S_IFREG, stat.S_IFLNK):
                    x.pop('size', None)
            require(a == b, what + ' differs', a, b)
            ctx.label('cat-meta')
    elif leaf.kind == 'f' and stat.S_ISREG(mode_of(leaf)):
        require(got.rc == 0 and got.out == leaf.data(), what + ' differs', got)
        ctx.label('cat')
    else:
        require(got.rc != 0 and not got.out, what + ' of something without contents', got)

def quote(w):
    return b''.join(b'\\' + w[i:i + 1] if w[i:i + 1] in (b' ', b'\t', b'"', b"'", b'\\', b'\r') else w[i:i + 1] for i in range(len(w)))

def ftp(c, ctx, R, root):
    """Each command's output is set off by a marker that pwd prints."""
    here = ctx.bdir + b'/ftp'
    os.mkdir(here)
    cwd = [(b'', root)]
    lines, rx, files = [], b'', {}
    for k, p, i in c['ftp']:
        q = make_path(root, p, cwd)
        if b'\n' in q and k not in ('pwd', 'help', 'junk'):
            continue
        args = [q]
        exp = b''
        err = rb'error: [^\n]*\n'
        try:
            if k == 'cd':
                stack = resolve(root, cwd, q)
                if stack[-1][1].kind != 'd':
                    exp = err
                else:
                    cwd = stack
            elif k == 'pwd':
                args = []
                exp = re.escape(b'/'.join(n for n, _ in cwd) or b'/') + b'\n'
            elif k == 'help':
                args, exp = [], b'Commands:[^\n]*\n'
            elif k == 'junk':
                k, args, exp = 'frobnicate', [b'x'], err
            elif k == 'ls':
                flags = BOOLS[i % len(BOOLS)]
                exp, rc = expect_ls(root, cwd, flags, [q])
                if exp is None:
                    continue
                # leaf names are printed with the directory they are relative to
                j = posixpath.join(b'/'.join(n for n, _ in cwd) or b'/', q)
                if not exp.endswith(b')?'):
                    exp, rc = expect_ls(root, None, flags, [j])
                else:
                    exp = b'(?:[^\n]*\n)?'
                args = flags + [q]
            elif k == 'cat':
                leaf = resolve(root, cwd, q)[-1][1]
                exp = re.escape(leaf.data()) if leaf.kind == 'f' and stat.S_ISREG(mode_of(leaf)) else err
            elif k == 'get':
                dest = b'got%d' % len(lines)
                args = [q, dest]
                leaf = resolve(root, cwd, q)[-1][1]
                if leaf.kind == 'f' and stat.S_ISREG(mode_of(leaf)):
                    files[dest] = leaf.data()
                else:
                    exp = err
            elif k == 'mget':
                dd = resolve(root, cwd, q)[-1][1]
                if dd.kind != 'd' or not dd.children:
                    continue
                ns = [n for n in sorted(dd.children) if dd.children[n].kind == 'f' and stat.S_ISREG(mode_of(dd.children[n])) and re.fullmatch(rb'[A-Za-z0-9.-]+', n)]
                if not ns:
                    continue
                n = ns[i % len(ns)]
                pat = n if i % 3 == 0 else b'[%c]' % n[0] + n[1:] if i % 3 == 1 else n
                args = [pat if q in (b'.', b'') else q.rstrip(b'/') + b'/' + pat if q.rstrip(b'/') else b'/' + pat]
                files[n] = dd.children[n].data()
        except Unresolved as ex:
            if ex.why == 'deep':
                continue
            exp = err
            if k == 'ls':
                exp = b''
            elif k == 'mget':
                args = [q + b'/x']
        lines.append(b' '.join([k.encode()] + [quote(os.fsencode(a)) for a in args]))
        rx += exp
        ctx.label('ftp-' + k)
    if c['ftpargs'] and not any(l.startswith(b'-') for l in lines) and lines:
        got = ctx.bup(*R, 'ftp', *lines, cwd=here)
    else:
        got = ctx.bup(*R, 'ftp', stdin=b''.join(l + b'\n' for l in lines) + b'quit\nls /\n', cwd=here)
    what = 'bup ftp: %r' % lines
    require(b'Traceback' not in got.err, what + ' crashed', got)
    require(re.fullmatch(rx, got.out, re.S), what + ': output', got.out, rx, got)
    have = {n: open(here + b'/' + n, 'rb').read() for n in os.listdir(here)}
    require(have == files, what + ': files fetched', have, files)

SUITES = [Suite('browse', case, run, 420, 8000, 'a path inside a save was resolved')]
ASSUMPTIONS = ['path resolution is judged against a POSIX resolver over the vt/gitread decoding of the repository',
               'owner, size and times of directories that stand for branches, and of saves without metadata, are not judged']
