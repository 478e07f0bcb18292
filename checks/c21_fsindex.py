"""C21: the filesystem index mirrors what was indexed."""
import os, stat, hashlib
from hypothesis import strategies as st
from vt import gen, fs, ops, edits, gitread
from vt.core import Suite, Violation, require
from vt.child import in_child

NEEDS_SHIM = True
NAMES = st.one_of(gen.plain_name(), gen.plain_name(), gen.name())
pick = st.lists(st.tuples(st.integers(0, 60), st.sampled_from(['abs', 'abs', 'abs', 'rel', 'alias', 'slash', 'up'])), min_size=1, max_size=3)

step = st.one_of(
    st.fixed_dictionaries({'k': st.just('edit'), 'edits': edits.edits(1, 4, names=NAMES, big=3000)}),
    st.fixed_dictionaries({'k': st.just('edit'), 'edits': edits.edits(1, 2, names=NAMES, big=3000)}),
    st.fixed_dictionaries({'k': st.just('index'), 'on': pick, 'opt': st.sampled_from([[], [], [], ['--check'], ['-v'], ['-vv'], ['-x'], ['--no-check-device']])}),
    st.fixed_dictionaries({'k': st.just('index-all'), 'opt': st.sampled_from([[], [], ['--check'], ['-m'], ['-p']])}),
    st.fixed_dictionaries({'k': st.just('index-changed'), 'deep': st.booleans(), 'opt': st.sampled_from([[], ['--check']])}),
    st.fixed_dictionaries({'k': st.sampled_from(['save', 'save', 'save-part', 'save-smaller']), 'i': st.integers(0, 60)}),
    st.fixed_dictionaries({'k': st.just('print'), 'on': pick}),
)

@st.composite
def case(draw):
    return {'tree': draw(gen.tree(depth=3, max_entries=5, names=NAMES, big=3000)),
            'start': draw(st.sampled_from(['all', 'all', 'all', 'none'])), 'saved': draw(st.sampled_from([True, True, False])),
            'f': draw(st.sampled_from([False, False, False, True])),
            'steps': draw(st.lists(step, min_size=4, max_size=10))}

def facts(p):
    """Everything about p that a save would record, apart from times of access."""
    s = os.lstat(p)
    k = stat.S_IFMT(s.st_mode)
    f = [s.st_mode, s.st_uid, s.st_gid, s.st_mtime_ns]
    if k == stat.S_IFREG:
        with open(p, 'rb') as h:
            f += [s.st_size, hashlib.sha1(h.read()).digest()]
    elif k == stat.S_IFLNK:
        f.append(os.readlink(p))
    elif k == stat.S_IFDIR:
        f.append(tuple(sorted(os.listdir(p))))
    else:
        f.append(s.st_rdev)
    if k in (stat.S_IFREG, stat.S_IFDIR):
        f.append(tuple(sorted((n, os.getxattr(p, n)) for n in os.listxattr(p))))
    return tuple(f)

def name_of(p):
    """p as named in the index."""
    return p + b'/' if os.path.isdir(p) and not os.path.islink(p) else p

def walk(p):
    """Index names of p and everything below it."""
    out = [name_of(p)]
    if out[0].endswith(b'/'):
        for n in os.listdir(p):
            out += walk(os.path.join(p, n))
    return out

def read_index(path):
    def go():
        from bup import index
        with index.Reader(path) as r:
            return [{'name': bytes(e.name), 'size': e.size, 'mtime': e.mtime, 'ctime': e.ctime, 'mode': e.mode,
                     'deleted': bool(e.is_deleted()), 'valid': bool(e.is_valid()), 'fake': bool(e.is_fake())} for e in r]
    ok, r = in_child(go)
    require(ok, 'reading the index failed', r)
    return r

class World:
    def __init__(self, ctx, c):
        self.ctx = ctx
        d = ctx.bdir
        self.src = d + b'/src'
        os.mkdir(self.src)
        fs.build(self.src, c['tree'])
        self.alias = d + b'/alias'
        os.symlink(b'src', self.alias)
        self.repo = ops.init(ctx, d + b'/repo', {})
        self.index = d + b'/idx/my' if c['f'] else self.repo + b'/bupindex'
        if c['f']:
            os.mkdir(d + b'/idx')
        self.f = ['-f', self.index] if c['f'] else []
        self.live, self.dead = set(), set()
        self.blank = set()
        self.at = {}             # index name -> facts when indexed
        self.by = {}
        self.saved = {}          # index name -> facts when saved
        self.date = 10**9
        self.env = None
        self.offset = 2.5

    def bup(self, *a, **kw):
        kw.setdefault('env', self.env)
        kw.setdefault('time_offset', self.offset)
        return self.ctx.bup('-d', self.repo, *a, **kw)

    def everything(self):
        return sorted(self.src + (b'/' + r if r else b'') for r in [b''] + [p for p, _ in edits.paths(self.src)])

    def choose(self, on):
        """[(how to name it, absolute path)] and the directory to run in."""
        out = []
        ps = self.everything()
        for i, form in on:
            p = ps[i % len(ps)]
            rel = p[len(self.src) + 1:]
            isdir = name_of(p).endswith(b'/')
            if form == 'rel' and rel:
                n = b'./' + rel if i % 2 else rel
                if n.startswith(b'-'):
                    n = b'./' + n
            elif form == 'alias' and rel:
                n = self.alias + b'/' + rel
            elif form == 'slash' and isdir:
                n = p + b'/'
            elif form == 'up':
                n = os.path.dirname(p) + b'/../' + os.path.basename(os.path.dirname(p)) + b'/' + os.path.basename(p)
            else:
                n = p
            out.append((n, p))
        return out

    def run_index(self, sel, opt):
        q = self.bup('index', *self.f, '-u', *opt, '--', *[n for n, _ in sel], cwd=self.src, ok=True)
        covered = set()
        for _, p in sel:
            top = name_of(p)
            other = p if top.endswith(b'/') else p + b'/'
            new = set(walk(p))
            old = {e for e in self.live | self.blank if e == top or e == other or top.endswith(b'/') and e.startswith(top)
                   or other.endswith(b'/') and e.startswith(other)}
            self.dead |= old - new
            self.live -= old
            self.blank -= old
            self.live |= new
            self.dead -= new
            covered |= new
            a = top
            while a != b'/':
                a = a.rstrip(b'/')
                a = a[:a.rindex(b'/') + 1]
                if a not in self.live:
                    self.blank.add(a)
        self.blank -= self.live
        for n in covered:
            self.at[n] = facts(n.rstrip(b'/'))
        self.check(covered, '--check' in opt, q)
        return covered

    def check(self, covered, checked, q):
        es = read_index(self.index)
        names = [e['name'] for e in es]
        require(len(set(names)) == len(names), 'the index lists a path twice', [n for n in names if names.count(n) > 1][:4])
        require(names == sorted(names, reverse=True), 'the index is not in reverse order', names[:20])
        by = {e['name']: e for e in es}
        live = {n for n in by if not by[n]['deleted']}
        want = self.live | self.blank
        require(live == want, 'the index does not list what exists', 'missing', sorted(want - live)[:6], 'extra', sorted(live - want)[:6])
        gone = set(by) - live
        require(gone == self.dead - want, 'the index lists other deleted paths', 'missing', sorted(self.dead - want - gone)[:6], 'extra', sorted(gone - self.dead)[:6])
        for n in covered:
            s = os.lstat(n)
            e = by[n]
            # future times are not to be trusted, and so dated back
            mt = e['mtime'] == s.st_mtime_ns or s.st_mtime_ns > e['mtime'] > 1.6e18
            if self.offset > 2:
                require((e['size'], e['mode'], e['ctime']) == (s.st_size, s.st_mode, s.st_ctime_ns) and mt,
                        'the index has a stale entry', n, e, (s.st_size, s.st_mode, s.st_mtime_ns, s.st_ctime_ns))
            if e['valid']:
                require(n in self.saved and self.saved[n] == facts(n.rstrip(b'/')), 'a changed path is shown as unchanged', n,
                        self.saved.get(n), facts(n.rstrip(b'/')))
        # An ancestor of anything modified is modified.
        for n in live:
            if not by[n]['valid']:
                a = n
                while a != b'/':
                    a = a.rstrip(b'/')
                    a = a[:a.rindex(b'/') + 1]
                    require(not by[a]['valid'], 'a directory above a modified path is shown as unchanged', a, n)
        self.by = by
        if not checked:
            self.bup('index', *self.f, '--check', ok=True)
        # the listing agrees with the index
        if all(b'\n' not in n for n in by):
            q = self.bup('index', *self.f, '-p', '-s', '/', ok=True)
            got = q.out.split(b'\n')[:-1]
            exp = [(b'D ' if e['deleted'] else b'  ' if e['valid'] else None, e['name']) for e in es]
            require(len(got) == len(exp), 'index -p lists other paths', len(got), len(exp))
            for l, (s, n) in zip(got, exp):
                require(l[2:] == n and (l[:2] == s if s else l[:2] in (b'A ', b'M ')), 'index -p -s lists something else', l, s, n)
            q = self.bup('index', *self.f, '-m', '/', ok=True)
            exp = [e['name'] for e in es if not e['deleted'] and not e['valid'] and e['mode']]
            require(q.out.split(b'\n')[:-1] == exp, 'index -m lists something else', q.out.split(b'\n')[:-1][:6], exp[:6])

    def save(self, paths, extra=()):
        """Save; what was indexed and has not changed since must be in it."""
        self.date += 100
        was = {n for n in self.by if self.by[n]['valid']}
        q = self.bup('save', *self.f, '-q', '-n', 'b', '-d', str(self.date), *extra, *paths, ok=None)
        odd = [n for n in self.live if n.startswith(self.src) and (n not in self.at or not same(n, self.at[n]))]
        require(q.rc == 0 or odd, 'save fails', q)
        if not extra and not (q.rc and b'refs/heads/b' not in gitread.Repo(self.repo).refs()):
            r = gitread.Repo(self.repo)
            cm = r.commit(r.refs()[b'refs/heads/b'])
            v = gitread.decode(r, cm['tree'])
            for n in sorted(self.live):
                if n.startswith(self.src) and n not in odd and any(n == name_of(p) or n.startswith(p + b'/') for p in paths):
                    p = n.rstrip(b'/')
                    e = v.get(p[1:])
                    if any((a + b'/' if n != a else n) in odd for a in parents(p)):
                        continue
                    if n.endswith(b'/'):
                        require(e == ('d',), 'a save lacks a directory that was indexed', n, e)
                    elif os.path.islink(p):
                        require(e == ('l', os.readlink(p)), 'a save lacks a symlink that was indexed', n, e)
                    elif os.path.isfile(p):
                        with open(p, 'rb') as f:
                            require(e == ('f', f.read()), 'a save lacks the content of a file that was indexed', n, e and (e[0], len(e[1]) if len(e) > 1 else None))
                    else:
                        require(e == ('f', b''), 'a save lacks something that was indexed', n, e)
            for n in self.dead - self.live - self.blank:
                p = n.rstrip(b'/')
                if not {p, p + b'/'} & (self.live | self.blank):
                    require(p[1:] not in v, 'a save contains something that is gone from the index', n)
            self.ctx.label('saves compared')
        for e in read_index(self.index):
            n = e['name']
            if e['valid'] and n not in was:
                p = n.rstrip(b'/')
                self.saved[n] = facts(p) if os.path.lexists(p) and name_of(p) == n else None
            self.by[n] = e

def parents(p):
    out = []
    while p != b'/':
        p = os.path.dirname(p)
        out.append(p)
    return out

def same(n, was):
    p = n.rstrip(b'/')
    return os.path.lexists(p) and name_of(p) == n and facts(p) == was

def run(c, ctx, env=None, offset=2.5):
    w = World(ctx, c)
    w.env, w.offset = env, offset
    if c['start'] == 'all':
        w.run_index([(w.src, w.src)], [])
        if c['saved']:
            w.save([w.src])
    for s in c['steps']:
        k = s['k']
        if k == 'edit':
            for e in s['edits']:
                l = edits.apply(w.src, e)
                if l:
                    ctx.label(l)
        elif k == 'index':
            sel = w.choose(s['on'])
            w.run_index(sel, s['opt'])
            if all(p != w.src for _, p in sel) and w.saved:
                ctx.nontrivial()
        elif k == 'index-all':
            w.run_index([(w.src, w.src)], s['opt'])
            if w.dead or w.saved:
                ctx.nontrivial()
        elif k == 'index-changed':
            # only what is not in the index or has changed, each by name
            new = [p for p in w.everything() if name_of(p) not in w.at or not same(name_of(p), w.at[name_of(p)])]
            new = [p for p in new if p != w.src]
            if s['deep']:
                new.reverse()
            if new:
                w.run_index([(p, p) for p in new[:1 if s['deep'] else 3]], s['opt'])
                ctx.label('changed paths by name')
                ctx.nontrivial()
        elif k == 'print':
            if w.live and all(b'\n' not in n for n in w.by):
                do_print(w, s['on'])
        elif w.live:
            if k == 'save-part':
                ps = [p for p in w.everything() if name_of(p) in w.live]
                if ps:
                    w.save([ps[s['i'] % len(ps)]])
            elif w.src + b'/' in w.live | w.blank:
                w.save([w.src], ['--smaller', str([1000, 100, 30, 2000][s['i'] % 4])] if k == 'save-smaller' else [])
    w.run_index([(w.src, w.src)], ['--check'])
    w.save([w.src])
    w.run_index([(w.src, w.src)], [])
    if offset > 2:
        # Nothing has happened since.
        bad = [n for n in w.live if not w.by[n]['valid'] and n.startswith(w.src) and os.lstat(n).st_mtime_ns < 1.7e18]
        require(not bad or any(os.lstat(n).st_mtime_ns >= 1.7e18 for n in w.live), 'paths are shown as modified that are not', bad[:5])

def do_print(w, on):
    """index -p PATH lists what is below, named like the argument."""
    sel = [(n, p) for n, p in w.choose(on) if name_of(p) in w.by][:1]
    for n, p in sel:
        q = w.bup('index', *w.f, '-p', '--', n, cwd=w.src, ok=True)
        top = name_of(p)
        shown = n if n.endswith(b'/') or not top.endswith(b'/') else n + b'/'
        want = [shown + e[len(top):] for e in sorted(w.by, reverse=True) if e == top or top.endswith(b'/') and e.startswith(top)]
        got = q.out.split(b'\n')[:-1]
        if not top.endswith(b'/'):
            got = [l for l in got if not l.startswith(n + b'/')]     # what it was before
        require(got == want, 'index -p lists something else', n, q.out.split(b'\n')[:-1][:6], want[:6])
        w.ctx.label('printed')

def coarse(c, ctx):
    """On a file system that counts whole seconds, with the index run having
    started a while before it comes across a path."""
    run(c, ctx, {'VT_STAT': 'coarse'}, -0.5)

SUITES = [Suite('history', case, run, quick=150, thorough=6000,
                rule='the file system changed after a save, or part of it was indexed'),
          Suite('coarse', case, coarse, quick=50, thorough=2500,
                rule='the file system changed after a save, or part of it was indexed')]
TECHNIQUE = 'stateful histories of edits, index runs and saves; os.lstat and the file contents as the reference model'
ASSUMPTIONS = ['changes are at least a clock tick after the index run that saw the previous state (1 s in the suite coarse: none)']
