"""C23: strip and graft options map every path as documented."""
import os, stat, time
from hypothesis import strategies as st
from vt import fs, gen, ops, edits, gitread
from vt.core import Suite, require

NAMES = st.sampled_from([b'a', b'a', b'ab', b'abc', b'b', b'b', b'c', b'a.b', b'a-', b'x', b'x', b'y', b'z', b'\\1', b'\xc3\xa9', b'a b', b'.x', b'foo', b'src'])
NEWS = [b'/', b'/x', b'/x', b'/x/y', b'/x/y/z', b'/a', b'/a/b', b'/z', b'/\\1', b'/q\\g<0>', b'/x.y', b'/\xff', b'/x/', b'rel', b'rel/a', b'./x/../w', b'/a b']

where = st.fixed_dictionaries({'k': st.sampled_from(['dir', 'dir', 'dir', 'dir', 'src', 'src', 'top', 'up', 'file', 'cut', 'more', 'none', 'root']), 'i': st.integers(0, 30),
                               'form': st.sampled_from(['abs', 'abs', 'abs', 'rel', 'slash', 'link', 'dots'])})
new = st.one_of(st.sampled_from(NEWS), st.sampled_from(NEWS), where, where, st.tuples(where, NAMES))
graft = st.tuples(where, new)
step = st.fixed_dictionaries({
    'edits': st.one_of(st.just([]), st.just([]), edits.edits(1, 3, kinds=['write', 'new', 'new', 'mkdir', 'rename', 'rm', 'rmtree', 'newdir', 'chmod', 'link', 'touchdir'], names=NAMES, big=3000)),
    'mode': st.sampled_from(['plain', 'strip', 'strip', 'strip-path', 'strip-path', 'graft', 'graft', 'graft', 'graft']),
    'sources': st.lists(where, min_size=1, max_size=3), 'all': st.booleans(), 'prefix': where, 'grafts': st.lists(graft, min_size=1, max_size=3),
    'idx': st.sampled_from([1, 1, 1, 0])})

@st.composite
def case(draw):
    return {'tree': draw(gen.tree(depth=3, max_entries=4, names=NAMES, big=6000, kinds='ffffdddddlph')),
            'cfg': draw(st.sampled_from([{}, {}, {'bup.split.trees': 'true'}])),
            'steps': draw(st.lists(step, min_size=1, max_size=4))}

def comps(p):
    return [x for x in p.split(b'/') if x]

def resolve(p, cwd):
    p = os.path.join(cwd, p)
    st_ = os.path.lexists(p) and os.lstat(p)
    if st_ and stat.S_ISLNK(st_.st_mode):
        a, b = os.path.split(p)
        return os.path.join(os.path.realpath(a), b)
    return os.path.realpath(p)

def mapper(mode, sources, prefix, grafts):
    """Archive path (as components) of a directory, as documented."""
    strips = sorted((comps(s) for s in (sources if mode == 'strip' else [prefix] if mode == 'strip-path' else [])), key=len, reverse=True)
    def f(d):
        if mode == 'graft':
            for old, new in grafts:
                o = comps(old)
                if d[:len(o)] == o:
                    return comps(new) + d[len(o):]
        for s in strips:
            if d[:len(s)] == s:
                return d[len(s):]
        return d
    return f

def run(c, ctx):
    top = ctx.bdir + b'/t'
    os.makedirs(top + b'/foo')
    src = top + b'/foo/src'
    os.mkdir(src)
    fs.build(src, c['tree'])
    os.symlink(b'foo', top + b'/link')
    repo = ops.init(ctx, ctx.bdir + b'/repo', c['cfg'])
    plain = ops.init(ctx, ctx.bdir + b'/plain', c['cfg'])
    date = [10**9]
    cwd = top

    def spell(w, path=None):
        ds = [src + b'/' + p for p, k in edits.paths(src) if k == 'd']
        fl = [src + b'/' + p for p, k in edits.paths(src) if k != 'd']
        k, i = w['k'], w['i']
        if path is None:
            if k == 'dir' and ds:
                path = ds[i % len(ds)]
            elif k == 'file' and fl:
                path = fl[i % len(fl)]
            elif k == 'top':
                path = top
            elif k == 'up':
                path = top + b'/foo'
            elif k == 'cut' and ds:
                path = ds[i % len(ds)][:-1]
            elif k == 'more' and ds:
                path = ds[i % len(ds)] + b'x'
            elif k == 'none':
                path = b'/nonexistent/x'
            elif k == 'root':
                path = b'/'
            else:
                path = src
        f = w['form']
        if f == 'rel' and path != b'/':
            return os.path.relpath(path, cwd)
        if f == 'slash' and os.path.isdir(path) and not os.path.islink(path):
            return path + b'/'
        if f == 'link' and path.startswith(top + b'/foo/'):
            return top + b'/link/' + path[len(top) + 5:]
        if f == 'dots' and path.startswith(src + b'/'):
            return src + b'/../src' + path[len(src):]
        return path

    def entries(root):
        """(components, is dir) of everything at and below root."""
        yield comps(root), os.path.isdir(root) and not os.path.islink(root)
        if os.path.isdir(root) and not os.path.islink(root):
            for n in os.listdir(root):
                yield from entries(root + b'/' + n)

    indexed = set()
    for s in list(c['steps']) + [{'mode': 'plain', 'sources': [{'k': 'src', 'i': 0, 'form': 'abs'}], 'all': True, 'edits': [], 'idx': 1}]:
        for e in s['edits']:
            edits.apply(src, e)
        mode = s['mode']
        if s['idx'] or s['edits'] or not indexed:
            ctx.bup('-d', repo, 'index', '-u', src, ok=True)
            indexed.add(1)
        src_spell = [spell(s['sources'][0], src)] if s['all'] else \
            [spell(w) for w in s['sources'] if w['k'] not in ('top', 'up', 'root', 'none', 'cut', 'more')] or [src]
        sources = [resolve(x, cwd) for x in src_spell]
        args, prefix, grafts = [], None, []
        if mode == 'strip':
            args = ['--strip']
        elif mode == 'strip-path':
            p = spell(s['prefix'])
            args = ['--strip-path', p]
            prefix = resolve(p, cwd)
        elif mode == 'graft':
            for w, n in s['grafts']:
                o = spell(w)
                n = n if isinstance(n, bytes) else spell(n) if isinstance(n, dict) else os.path.join(spell(n[0]), n[1])
                if b'=' in o + n:
                    continue
                args += ['--graft', o + b'=' + n]
                grafts.append((resolve(o, cwd), resolve(n, cwd)))
        f = mapper(mode, sources, prefix, grafts)
        ctx.label(mode)

        # what the documentation says must be where
        seen, nondirs, dirs, origins = set(), {}, {}, {}
        for root in sources:
            for e, isdir in entries(root):
                if tuple(e) in seen:
                    continue
                seen.add(tuple(e))
                at = f(e) if isdir else f(e[:-1]) + e[-1:]
                (dirs if isdir else nondirs).setdefault(tuple(at), []).append(e)
                for i in range(len(at) + 1):
                    rest = at[i:]
                    # the directory this would have to be for nothing to be moved into it
                    base = tuple(e[:len(e) - len(rest)]) if not rest or e[-len(rest):] == rest else None
                    origins.setdefault(tuple(at[:i]), set()).add((base, bool(rest) or isdir))
        moved = {a for a in origins if a and len({b for b, _ in origins[a]}) > 1}
        collision = any(len(v) > 1 for a, v in list(dirs.items()) + list(nondirs.items()) if a) \
            or any(a in nondirs for a in dirs) or any(a[:i] in nondirs for a in origins for i in range(1, len(a)))
        ctx.label('moved-into' if moved else 'simple')
        if collision:
            ctx.label('collision')
        if any(tuple(x) in nondirs for x in (y[:i] for a in origins for y in [a] for i in range(1, len(a)))):
            ctx.label('file-parent')

        date[0] += 100
        r = ctx.bup('-d', repo, 'save', '-q', '-t', '-n', 'b', '-d', str(date[0]), *args, *src_spell, cwd=cwd)
        if r.rc != 0:
            require(r.rc in (1, 2) and b'ignoring duplicate path' in r.err and collision, 'save with %s fails' % mode, args, src_spell, r)
            ctx.label('reported')
        tree = bytes.fromhex(r.out.split()[-1].decode())
        got = {tuple(comps(p)): v for p, v in gitread.decode_meta(gitread.Repo(repo), tree).items()}
        ctx.bup('-d', plain, 'index', '--clear', ok=True)
        ctx.bup('-d', plain, 'index', '-u', src, ok=True)
        rp = ctx.bup('-d', plain, 'save', '-q', '-t', '-n', 'b', src, ok=True)
        ref = {tuple(comps(p)): v for p, v in gitread.decode_meta(gitread.Repo(plain), bytes.fromhex(rp.out.split()[-1].decode())).items()}

        def same(e, at, meta=True):
            k, content, m = got[at]
            k2, content2, m2 = ref[tuple(e)]
            if (k, content) != (k2, content2):
                return '%s %r is not %s %r' % (k, content[:40] if isinstance(content, bytes) else content, k2, content2[:40] if isinstance(content2, bytes) else content2)
            if meta:
                drop = ('atime', 'hard')
                m, m2 = [{a: b for a, b in (x or {}).items() if a not in drop} for x in (m, m2)]
                if (m2.get('mtime') or 0) > 10**9 * time.time() - 10**10:
                    m.pop('mtime', 0), m2.pop('mtime', 0)     # the index dates what is newer than itself back
                if m != m2:
                    return 'metadata %r is not %r' % (m, m2)
            return None

        if not collision:
            missing = [a for a in list(nondirs) + list(dirs) if a and a not in got]
            require(not missing, '%s save lacks paths' % mode, args, src_spell, missing[:5])
            extra = [a for a in got if a not in origins]
            require(not extra, '%s save has paths that should be elsewhere' % mode, args, src_spell, extra[:5])
        else:
            # whatever could not be saved was reported; nothing may turn up in the wrong place
            extra = [a for a in got if a not in origins]
            require(not extra, '%s save has paths that should be elsewhere' % mode, args, src_spell, extra[:5])
            lost = [a for a in list(nondirs) + list(dirs) if a and a not in got]
            require(r.rc or not lost, '%s save silently lacks paths' % mode, args, src_spell, lost[:5])
        for a, v in got.items():
            if not a:
                continue
            if a in nondirs and v[0] != 'd':
                bad = [same(e, a) for e in nondirs[a]]
                require(None in bad, 'a saved file has other contents or metadata', args, src_spell, a, *[b for b in bad if b][:1])
            elif a in dirs and v[0] == 'd' and not collision and a not in moved \
                    and not any(tuple(comps(n))[:len(a)] == a for _, n in grafts):
                bad = same(dirs[a][0], a)
                require(not bad, 'a saved directory has other metadata', args, src_spell, a, bad)
        if mode != 'plain' and any(len(a) > 1 for a in nondirs):
            ctx.nontrivial()
    ops.fsck(ctx, repo, 'after mapped saves', '--strict') if not c['cfg'] else None

SUITES = [Suite('maps', case, run, quick=220, thorough=6000,
                rule='some step saves a file below a directory with --strip, --strip-path or --graft')]
TECHNIQUE = 'stateful property-based testing: random trees, edits, sources and strip/strip-path/graft options over one shared index, with a model of the documented mapping as the oracle and an independent plain save as the reference for contents and metadata'
LEVEL_NOTE = 'Random search over trees, sources, prefixes and graft points; the mapping oracle is a whole-component model of the documentation.'
ASSUMPTIONS = [
    'A file (not a directory) named as a prefix or graft point has no effect: only directories are stripped or grafted, as documented.',
    'Metadata of the archive root, and of directories that are part of a graft target, or that files are moved into from elsewhere, is not checked (documented).',
    'When options map two things to one path, bup may keep one and must report the other (nonzero exit status, "ignoring duplicate path").',
    'Relative graft targets are taken relative to the current directory, as the tests do.',
]
