"""C22: exclusions and file system limits select exactly the right paths."""
import os, re, stat
from hypothesis import strategies as st
from vt import gen, fs, ops, gitread
from vt.core import Suite, require
from vt.child import in_child

NEEDS_SHIM = True
EXTRA = [b' lead', b'trail ', b'\tt', b'x\r', b'cr\r ', b'mnt', b'mnt1', b'mnt2', b'a(b', b'a+', b'[z]', b'.*', b'^a', b'a$', b'#c', b'-x', b'--exclude']
NAMES = st.one_of(gen.plain_name(), gen.plain_name(), gen.name(), st.sampled_from(EXTRA), st.sampled_from([b'mnt', b'mnt1', b'd', b'e']))

# Ways to make a pattern of a path; the result is applied to full paths with / after directories.
RX = ['full', 'base$', 'dir/$', 'content', 'rootcontent', 'part', 'anyext', 'icase', 'class', 'alt', 'across', 'start', 'nothing', 'look', 'all', 'short', 'raw']
rx = st.tuples(st.sampled_from(RX), st.integers(0, 60), st.integers(0, 60))
ex = st.tuples(st.sampled_from(['abs', 'abs', 'rel', 'dot', 'alias', 'slash', 'dd', 'double', 'missing', 'child']), st.integers(0, 60), st.sampled_from(['arg', 'arg', 'eq', 'file', 'file']))

opts = st.fixed_dictionaries({
    'ex': st.lists(ex, max_size=4), 'rx': st.lists(st.tuples(rx, st.sampled_from(['arg', 'arg', 'file'])), max_size=3),
    'blank': st.booleans(), 'nonl': st.booleans(), 'x': st.sampled_from([False, False, True]),
    'tops': st.lists(st.tuples(st.integers(0, 60), st.sampled_from(['abs', 'rel', 'alias'])), min_size=0, max_size=2), 'mounts': st.booleans()})

@st.composite
def case(draw):
    return {'tree': draw(gen.tree(depth=3, max_entries=6, names=NAMES, rich=False, big=2000)),
            'runs': draw(st.lists(opts, min_size=1, max_size=3)), 'inside': draw(st.sampled_from([False, False, True])),
            'drecurse': draw(st.tuples(opts, st.integers(0, 60), st.sampled_from(['abs', 'rel', 'dot', '.', 'slash', 'up'])))}

def key(p):
    return p + b'/' if os.path.isdir(p) and not os.path.islink(p) else p

def dev(p):
    """VT_STAT=mnt makes directories named mnt* other file systems."""
    d, q = 0, b''
    for c in p.strip(b'/').split(b'/'):
        q += b'/' + c
        if c.startswith(b'mnt') and os.path.isdir(q) and not os.path.islink(q):
            d += 1
    return d

def paths(root):
    out = []
    def walk(p):
        for n in sorted(os.listdir(p)):
            q = os.path.join(p, n)
            out.append(q)
            if os.path.isdir(q) and not os.path.islink(q):
                walk(q)
    walk(root)
    return out

def bare(b):
    return re.escape(b).replace(b'\\\n', b'\\n').replace(b'\n', b'\\n')

def pattern(r, ps, root):
    kind, i, j = r
    if kind == 'nothing' or not ps:
        return b'/nothing-like-this-anywhere/'
    p, q = ps[i % len(ps)], ps[j % len(ps)]
    b = os.path.basename(p)
    rel = key(p)[len(root):]
    k = j % max(1, len(rel))
    return {'full': lambda: b'^' + bare(key(p)) + b'$', 'base$': lambda: b'/' + bare(b) + b'$', 'dir/$': lambda: b'/' + bare(b) + b'/$',
            'content': lambda: b'/' + bare(b) + b'/.', 'rootcontent': lambda: b'^' + bare(p) + b'/.', 'part': lambda: bare(rel[k:k + 4]),
            'anyext': lambda: b'\\.[^/]+$', 'icase': lambda: b'(?i)/' + bare(b.upper()) + b'(/|$)', 'class': lambda: b'/[a-c]/?$',
            'alt': lambda: b'(?:/' + bare(b) + b'|/' + bare(os.path.basename(q)) + b')$', 'across': lambda: b'/' + bare(b[:1]) + b'[^/]*/' + b'.',
            'start': lambda: b'^' + bare(p), 'look': lambda: b'/(?!' + bare(b) + b')[^/]*$', 'all': lambda: b'.', 'short': lambda: bare(b[:2]),
            'raw': lambda: b'/' + b.replace(b'\n', b'') + b'$'}[kind]()

class Excl:
    """The options, and what they exclude."""
    def __init__(self, ctx, o, ps, root, tops, cwd, alias, pool=None):
        self.args, self.paths, self.rxs, self.x = [], set(), [], o['x']
        d = ctx.bdir
        n = len(os.listdir(d))
        lines = []
        for form, i, how in o['ex']:
            if not ps:
                break
            p = ps[i % len(ps)]
            if any(t == p or t.startswith(p + b'/') for t in tops):
                continue      # excluding what is also asked for
            rel = os.path.relpath(p, cwd)
            if form == 'rel':
                s = rel
            elif form == 'dot':
                s = b'./' + rel
            elif form == 'alias' and p.startswith(root + b'/'):
                s = alias + p[len(root):]
            elif form == 'slash' and key(p) != p:
                s = p + b'/'
            elif form == 'dd':
                s = os.path.dirname(p) + b'/./../' + os.path.basename(os.path.dirname(p)) + b'/' + os.path.basename(p)
            elif form == 'double':
                s = os.path.dirname(p) + b'//' + os.path.basename(p)
            elif form == 'missing':
                s = p + b'.gone'
            elif form == 'child':
                s = p + b'x'
            else:
                s = p
            if form in ('missing', 'child') and os.path.lexists(s):
                p = s
                if any(t == p or t.startswith(p + b'/') for t in tops):
                    continue
            elif form in ('missing', 'child'):
                p = None
            if how == 'file':
                if b'\n' in s or s.strip() != s:
                    continue      # white space around a path is dropped
                lines.append(b' ' + s + b'\t' if i % 8 == 7 else s)
            else:
                self.args += [b'--exclude', s] if how == 'arg' else [b'--exclude=' + s]
            if p:
                self.paths.add(p)
        if lines or o['blank'] and root:
            f = d + b'/ex%d' % n
            if o['blank']:
                lines = [b''] + lines + [b'', b' ']
            fs.write_file(f, b'\n'.join(lines) + (b'' if o['nonl'] and lines and lines[-1] else b'\n'))
            self.args += [b'--exclude-from', f]
        rlines = []
        for r, how in o['rx']:
            s = pattern(r, pool if pool is not None else ps, b'' if pool is not None else root)
            try:
                c = re.compile(s)
            except re.error:
                continue
            if pool is None and any(c.search(t) for t in (cwd + b'/', root + b'/')) and r[0] != 'all':
                continue
            if r[0] == 'all' and r[1] % 4:
                continue
            if how == 'file':
                if not s:
                    continue
                rlines.append(s)
            else:
                self.args += [b'--exclude-rx', s]
            self.rxs.append(c)
        if rlines:
            f = d + b'/rx%d' % n
            if o['blank']:
                rlines = [b''] + rlines + [b'']
            fs.write_file(f, b'\n'.join(rlines) + (b'' if o['nonl'] and rlines[-1] else b'\n'))
            self.args += [b'--exclude-rx-from', f]
        if self.x:
            self.args.append(b'-x')

    def hits(self, real, shown):
        return real in self.paths or any(c.search(shown) for c in self.rxs)

    def walk(self, top, shown, explicit=(), repo=None):
        """What is visited from top: [(path, as shown)], children in reverse byte order before their directory."""
        out = []
        def go(p, s, fsdev):
            for n in sorted((os.path.basename(key(os.path.join(p, n))) or n + b'/' for n in os.listdir(p)), reverse=True):
                bn = n.rstrip(b'/')
                q, t = os.path.join(p, bn), s + n
                if self.hits(q, t):
                    continue
                if n.endswith(b'/'):
                    if q == repo:
                        continue
                    d = dev(q)
                    if not self.x or d == fsdev or q in explicit:
                        go(q, t, d)
                out.append((key(q), t))
        if key(top) == top:
            return [(top, shown)]
        s = shown if shown.endswith(b'/') else shown + b'/'
        go(top, s, dev(top))
        out.append((top + b'/', s))
        return out

def read_index(path):
    def go():
        from bup import index
        with index.Reader(path) as r:
            return [(bytes(e.name), bool(e.is_deleted())) for e in r]
    ok, r = in_child(go)
    require(ok, 'reading the index failed', r)
    return r

def run(c, ctx):
    d = ctx.bdir
    src = d + b'/src'
    os.mkdir(src)
    fs.build(src, c['tree'])
    alias = d + b'/alias'
    os.symlink(b'src', alias)
    repo = ops.init(ctx, (src if c['inside'] else d) + b'/repo~', {})
    inner = repo if c['inside'] else None
    ps = paths(src)
    if inner:
        ps = [p for p in ps if p != repo and not p.startswith(repo + b'/')]
    env = {'VT_STAT': 'mnt', 'VT_ROOTS': d.decode()}
    live, tops_used = set(), set()
    for o in c['runs']:
        tops = []
        for i, form in o['tops']:
            p = ([src] + ps)[i % (len(ps) + 1)]
            s = p
            if form == 'rel' and p != src:
                s = b'./' + os.path.relpath(p, src)
            elif form == 'alias' and p != src:
                s = alias + p[len(src):]
            tops.append((p, s))
        if not tops or o['mounts']:
            tops.append((src, src))
            if o['mounts'] and o['x']:
                ms = [p for p in ps if os.path.basename(p).startswith(b'mnt') and key(p) != p]
                tops += [(p, p) for p in ms[:2]]
        e = Excl(ctx, o, ps, src, [p for p, _ in tops], src, alias)
        q = ctx.bup('-d', repo, 'index', '-u', '-v', '-v', *e.args, '--', *[s for _, s in tops], cwd=src, env=env, time_offset=2.5, ok=True)
        want = []
        done = []
        for p in sorted({p for p, _ in tops}, key=key):
            if not any(p.startswith(t + b'/') and key(t) != t for t in done):
                done.append(p)
        explicit = {p for p, _ in tops}
        for p in sorted(done, key=key, reverse=True):
            w = e.walk(p, p, explicit, inner)
            live = {n for n in live if n != key(p) and not (key(p) != p and n.startswith(p + b'/'))} | {n for n, _ in w}
            want += [s for _, s in w]
            total = 1 + len([x for x in ps if x.startswith(p + b'/')])
            if total > len(w) > 1:
                ctx.nontrivial()
                ctx.label('some excluded' if not e.x else 'some excluded or on another file system')
        tops_used |= set(done)
        got = q.out
        require(got == b''.join(n + b'\n' for n in want), 'index visits other paths', [a for a in e.args], 'tops', done,
                'missing', [n for n in want if n + b'\n' not in got][:6], 'extra', sorted(set(got.split(b'\n')) - {x for n in want for x in n.split(b'\n')} - {b''})[:6])
        names = [n for n, gone in read_index(repo + b'/bupindex') if not gone and n.startswith(src + b'/')]
        real = [n for n in names if n in live or not any(m.startswith(n) for m in live)]
        require(set(real) == live, 'the index lists other paths', e.args, 'missing', sorted(live - set(real))[:6], 'extra', sorted(set(real) - live)[:6])
    # What was not excluded is saved, and nothing else.
    if live:
        q = ctx.bup('-d', repo, 'save', '-q', '-n', 'b', src, ok=True)
        r = gitread.Repo(repo)
        v = gitread.decode(r, r.commit(r.refs()[b'refs/heads/b'])['tree'])
        got = {b'/' + n for n in v}
        got = {n for n in got if n.startswith(src + b'/')}
        want = {n.rstrip(b'/') for n in live} - {src}
        for n in list(want):
            while os.path.dirname(n) != src:
                n = os.path.dirname(n)
                want.add(n)
        require(got == want, 'the save has other paths', 'missing', sorted(want - got)[:6], 'extra', sorted(got - want)[:6])
        for n in sorted(want):
            if os.path.isfile(n) and not os.path.islink(n):
                with open(n, 'rb') as f:
                    require(v[n[1:]] == ('f', f.read()), 'the save has other content', n)
    # drecurse
    o, i, form = c['drecurse']
    ds = [p for p in [src] + ps if key(p) != p]
    top = ds[i % len(ds)]
    cwd = d if form != '.' else top
    s = {'abs': top, 'rel': os.path.relpath(top, d), 'dot': b'./' + os.path.relpath(top, d), '.': b'.', 'slash': top + b'/',
         'up': os.path.relpath(top, d)}[form]
    if form == 'up':
        cwd = src + b'/up~'
        os.makedirs(cwd, exist_ok=True)
        s = os.path.relpath(top, cwd)
    e = Excl(ctx, o, [p for p in ps if p.startswith(top + b'/')], src, [top], cwd, alias)
    # relative tops show relative paths
    q = ctx.bup('-d', repo, 'drecurse', *e.args, '--', s, cwd=cwd, env=env, ok=True)
    want = [t for _, t in e.walk(top, s)]
    require(q.out == b''.join(n + b'\n' for n in want), 'drecurse lists other paths', e.args, s, q.out.split(b'\n')[:30], want[:30])

@st.composite
def rcase(draw):
    return {'tree': draw(gen.tree(depth=3, max_entries=6, names=NAMES, big=2000)),
            'runs': draw(st.lists(st.tuples(opts, st.sampled_from(['dot', 'slash', 'sub', 'subdot', 'subslash', 'two', 'leaf']), st.integers(0, 60)), min_size=2, max_size=4))}

def restore(c, ctx):
    d = ctx.bdir
    src = d + b'/src'
    os.mkdir(src)
    fs.build(src, c['tree'])
    repo = ops.init(ctx, d + b'/repo', {})
    ops.save(ctx, repo, src)
    snap, links = fs.snapshot(src)
    rels = [r for r in sorted(snap) if r]
    dirs = [r for r in rels if snap[r]['t'] == 'd']
    for n, (o, form, i) in enumerate(c['runs']):
        out = d + b'/out%d' % n
        base = b'/b/latest' + src
        args, want = [], {}
        def take(pre, shown):
            """pre: what is restored, shown: its name below the destination."""
            for r in [pre] + [r for r in rels if (r.startswith(pre + b'/') if pre else True)] if pre or shown else rels:
                t = shown + r[len(pre):] if pre or shown else r
                want[t.lstrip(b'/')] = (r, t)
        if form in ('dot', 'slash') or not rels:
            args = [base + (b'/.' if form == 'dot' else b'/')]
            take(b'', b'')
        else:
            pool = dirs if form in ('subdot', 'subslash') and dirs else rels
            r = pool[i % len(pool)]
            if form in ('subdot', 'subslash') and dirs:
                args = [base + b'/' + r + (b'/.' if form == 'subdot' else b'/')]
                for x in rels:
                    if x.startswith(r + b'/'):
                        want[x[len(r) + 1:]] = (x, x[len(r):])
            else:
                args = [base + b'/' + r]
                take(r, b'/' + os.path.basename(r))
                if form == 'two':
                    r2 = rels[(i + 7) % len(rels)]
                    if os.path.basename(r2) != os.path.basename(r):
                        args.append(base + b'/' + r2)
                        take(r2, b'/' + os.path.basename(r2))
        pool = [b'/' + t for t in want]
        shown = {t: b'/' + t + (b'/' if snap[r]['t'] == 'd' else b'') for t, (r, _) in want.items()}
        ps = sorted(pool)
        o = dict(o, ex=[], x=False)
        # patterns are made of the names as restored
        kinds = {b'/' + t: snap[r]['t'] for t, (r, _) in want.items()}
        e = RestoreExcl(ctx, o, ps, kinds)
        keep = {}
        for t in want:
            comps = t.split(b'/')
            ok = True
            for k in range(1, len(comps) + 1):
                a = b'/'.join(comps[:k])
                if a in shown and any(x.search(shown[a]) for x in e.rxs):
                    ok = False
            if ok:
                keep[t] = want[t]
        q = ctx.bup('-d', repo, 'restore', '-q', '-C', out, *e.args, '--', *args, ok=True)
        got, glinks = fs.snapshot(out)
        require(set(got) - {b''} == set(keep), 'restore leaves other paths', e.args, args, 'missing', sorted(set(keep) - set(got))[:6],
                'extra', sorted(set(got) - set(keep) - {b''})[:6])
        for t in keep:
            require(got[t] == snap[keep[t][0]], 'something restored differs', t, snap[keep[t][0]], got[t])
        by = {}
        for t, (r, _) in keep.items():
            by.setdefault(r, []).append(t)
        if len({r for r, _ in keep.values()}) == len(keep):
            wl = sorted(g for g in (sorted(by[r][0] for r in g if r in by) for g in links) if len(g) > 1)
            require(glinks == wl, 'hard links differ', wl, glinks)
        if 0 < len(keep) < len(want):
            ctx.nontrivial()
        ctx.label(form)

class RestoreExcl(Excl):
    def __init__(self, ctx, o, ps, kinds):
        global key
        old = key
        key = lambda p: p + b'/' if kinds.get(p) == 'd' else p
        try:
            Excl.__init__(self, ctx, o, ps, b'', [], b'/\0none', b'')
        finally:
            key = old

SUITES = [Suite('index', case, run, quick=300, thorough=8000, rule='some but not all paths below a top were left out'),
          Suite('restore', rcase, restore, quick=200, thorough=5000, rule='some but not all paths were restored')]
TECHNIQUE = 'generated trees x exclusion options; an independent walk as the reference model (Python regular expressions are the documented pattern language)'
ASSUMPTIONS = ['file systems are emulated by changing st_dev below directories named mnt*',
               'excluding a path that is also asked for explicitly, or a directory above it, is not generated']
