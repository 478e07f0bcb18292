"""C01: index + save + restore reproduces the file tree."""
import os
from hypothesis import strategies as st
from vt import gen, fs, ops
from vt.core import Suite, Violation, require

@st.composite
def case(draw):
    t = draw(gen.tree(depth=3, max_entries=6))
    form = draw(st.lists(st.tuples(st.sampled_from(['dir', 'contents', 'dot', 'whole', 'sub', 'sub', 'multi']),
                                   st.integers(0, 40)), min_size=1, max_size=2))
    cfg = draw(ops.config())
    real = draw(st.integers(0, 24)) == 24
    if real:
        cfg.pop('pack.packSizeLimit', None)
    return {'tree': t, 'cfg': cfg, 'forms': form, 'real': real,
            'save': draw(st.sampled_from([[], [], ['-0'], ['-9'], ['--compress=3'] , ['--strip'], ['-#3']]))}

def run(c, ctx):
    d = ctx.bdir
    src = d + b'/src'
    os.mkdir(src)
    fs.build(src, c['tree'])
    repo = ops.init(ctx, d + b'/repo', c['cfg'])
    want = fs.snapshot(src)
    opts = [o for o in c['save'] if o not in ('-#3', '--compress=3')]
    if '-#3' in c['save']:
        opts.append('-3')
    ops.save(ctx, repo, src, extra=opts, real=c['real'])
    base = b'' if '--strip' in opts else src
    n = len(want[0])
    ctx.nontrivial(n > 2)
    for l in {e['t'] for e in want[0].values()}:
        ctx.label('type-' + l)
    if want[1]:
        ctx.label('hardlinks')
    if any(e['x'] for e in want[0].values()):
        ctx.label('xattr-or-acl')
    if any(e.get('n', 0) > 40000 for e in want[0].values()):
        ctx.label('multi-chunk')
    again = fs.snapshot(src)
    fs.require_same(want, again, 'saving changed the source')
    for i, (form, k) in enumerate(c['forms']):
        out = d + b'/out%d' % i
        ctx.label(form)
        restore_and_check(ctx, c, repo, src, base, want, form, k, out)

def sub(want, prefix):
    """Snapshot restricted to prefix, re-rooted."""
    ents, links = want
    if prefix == b'':
        return want
    pl = prefix + b'/'
    e = {(p[len(pl):] if p != prefix else b''): v for p, v in ents.items()
         if p == prefix or p.startswith(pl)}
    l = [[p[len(pl):] for p in g if p.startswith(pl)] for g in links]
    return e, sorted(g for g in l if len(g) > 1)

def restore_and_check(ctx, c, repo, src, base, want, form, k, out):
    def run(*paths):
        r = ctx.bup('-d', repo, 'restore', '-q', '-C', out, *paths, real=c['real'])
        # Directories above the tree live on another filesystem, whose
        # attribute flags the scratch filesystem may not support.
        if r.rc and form == 'whole' and base and all(
                l.startswith((b'error: chattr(', b'warning: ')) for l in r.err.strip().split(b'\n')):
            return
        require(r.rc == 0, 'restore failed', r)
    root = b'/b/latest' + base
    names = sorted(p for p in want[0])
    dirs = [p for p in names if want[0][p]['t'] == 'd']
    if form == 'whole':
        run(b'/b/latest' if k % 2 else b'/b/latest/')
        top = out + b'/latest' if k % 2 else out
        for comp in [x for x in base.split(b'/') if x]:
            ents = os.listdir(top)
            require(ents == [comp], 'unexpected entries above the saved tree', top, ents)
            top += b'/' + comp
        got = fs.snapshot(top)
        if not base and k % 2 == 0:
            got[0][b''] = want[0][b'']
        fs.require_same(want, got, 'whole save')
        return
    if form in ('dir', 'contents', 'dot'):
        pre = dirs[k % len(dirs)]
        p = root + (b'/' + pre if pre else b'')
        w = sub(want, pre)
        if form == 'dir':
            if p == b'/b/latest':
                p = b'/b/latest'
                leaf = b'latest'
            else:
                leaf = os.path.basename(p)
            run(p)
            require(os.listdir(out) == [leaf], 'restored unexpected names', os.listdir(out), leaf)
            fs.require_same(w, fs.snapshot(out + b'/' + leaf), 'directory')
        else:
            run(p + (b'/' if form == 'contents' else b'/.'))
            got = fs.snapshot(out)
            if form == 'contents':
                got[0][b''] = w[0][b'']
            fs.require_same(w, got, 'directory ' + form)
        return
    pick = [names[k % len(names)]]
    if form == 'multi':
        seen = set()
        pick = []
        for j in range(3):
            p = names[(k * (j + 1) + j) % len(names)]
            b = os.path.basename(p) if p else b'latest'
            if p and b not in seen:
                seen.add(b)
                pick.append(p)
        if not pick:
            return
    elif not pick[0]:
        return
    run(*[root + b'/' + p for p in pick])
    ents, links = {}, []
    for p in pick:
        e, _ = sub(want, p)
        leaf = os.path.basename(p)
        for q, v in e.items():
            ents[leaf + b'/' + q if q else leaf] = v
        w = e
    # hard links among everything restored in this one command
    where = {}
    for p in pick:
        leaf = os.path.basename(p)
        for q in want[0]:
            if q == p or q.startswith(p + b'/'):
                where.setdefault(q, []).append(leaf + q[len(p):])
    groups = []
    for g in want[1]:
        l = sorted(x for q in g for x in where.get(q, ()))
        if len(l) > 1:
            groups.append(l)
    got = fs.snapshot(out)
    del got[0][b'']
    fs.require_same((ents, sorted(groups)), got, 'selected paths %r' % pick)

SUITES = [Suite('roundtrip', case, run, 800, 20000,
                'random file tree x configuration x 1-2 restore forms; non-trivial: more than two entries')]
ASSUMPTIONS = ['scratch filesystem supports xattrs and ACLs (label xattr-or-acl counts cases that had them)',
               'device nodes and file attribute flags are not created (no privilege in the sandbox)']
