"""C09: a failing system call is reported, or makes no difference."""
import errno, os, random, shutil
from hypothesis import strategies as st
from vt import fs, gen, ops, gitread, scen, shim
from vt.core import Suite, Violation, require

NEEDS_SHIM = True
KINDS = ['save', 'save', 'save', 'save-new', 'split', 'split', 'get', 'gc', 'gc', 'restore', 'restore', 'join', 'index', 'rm-save', 'midx', 'bloom', 'tag']

@st.composite
def case(draw):
    c = draw(scen.scenario(KINDS))
    fault = st.tuples(st.sampled_from([errno.EIO, errno.ENOSPC, errno.EACCES]),
                      st.sampled_from([shim.FAIL, shim.FAIL, shim.FAIL, shim.FAILALL, shim.SHORT]),
                      st.sampled_from([(shim.MUT, 'repo'), (shim.MUT | shim.SYNC, 'repo'), (shim.SYNC, 'repo'),
                                       (shim.OPENR | shim.READ, 'src'), (shim.OPENR | shim.READ, 'src'),
                                       (shim.MUT | shim.OPENR | shim.READ, 'out'),
                                       (shim.OPENR | shim.READ, 'repo'), (shim.READ, 'pack')]),
                      st.integers(0, 10**6))
    c['faults'] = draw(st.lists(fault, min_size=6, max_size=6))
    return c

def outsnap(s):
    out = s.d + b'/out'
    if not os.path.lexists(out):
        return None
    if os.path.isfile(out):
        with open(out, 'rb') as f:
            return f.read()
    return fs.snapshot(out)

def run(c, ctx):
    s = scen.Scen(ctx, c)
    kind = c['op']
    ctx.label('op-' + kind)
    out = s.d + b'/out'
    roots = {'repo': s.repo, 'pack': s.repo + b'/objects/pack', 'src': s.src, 'out': out}
    rs = s.run()
    require(all(r.rc == 0 for r in rs), 'undisturbed command failed', *rs)
    ref = gitread.Repo(s.repo)
    new = ref.refs()
    res = {n: ref.commit(o) for n, o in new.items()}
    view = {}
    def want(n):
        if n not in view:
            view[n] = gitread.under(gitread.view(ref, res[n]['tree']), pre)
        return view[n]
    pre = s.src if kind in ('save', 'save-new') else b''
    want_out = outsnap(s)
    want_stdout = rs[-1].out
    if kind == 'join':
        require((want_out if want_out is not None else want_stdout) == s.joined, 'undisturbed join gave other data')
    for err, action, (classes, where), x in c['faults']:
        if where == 'out' and kind not in ('restore', 'join') or where == 'src' and kind not in ('save', 'save-new', 'index'):
            where = 'repo'
        sh = shim.Shim(ctx, [roots[where]])
        counts = []
        reset(s)
        sh.arm(classes=classes)
        s.run(sh)
        total = sh.count
        if not total:
            continue
        at = 1 + x % total
        reset(s)
        sh.arm(at, action, err, classes=classes)
        rs = s.run(sh)
        if not sh.fired:
            continue
        ctx.nontrivial()
        ctx.label('%s-%s' % (where, sh.what.split(' ')[0]))
        ctx.label({shim.FAIL: 'once', shim.FAILALL: 'from-then-on', shim.SHORT: 'short'}[action])
        what = '%s %s at call %d of %d in the %s (%s)' % (
            errno.errorcode[err], {shim.FAIL: 'once', shim.FAILALL: 'from then on', shim.SHORT: '(short count)'}[action], at, total, where, sh.what)
        rc = rs[-1].rc
        if action == shim.SHORT:
            require(rc == 0, what + ': a short count is no error', rs[-1])
        ctx.label('refused' if rc else 'succeeded')
        require(rc >= 0, what + ': died of a signal', rs[-1])
        r = gitread.Repo(s.repo)
        refs = r.refs()
        for n in set(s.old) | set(new) | set(refs):
            v = refs.get(n)
            if v == s.old.get(n) and (rc or v == new.get(n)):
                continue
            if v == new.get(n):
                continue
            require(isinstance(v, bytes) and len(v) == 20 and n in new and kind in ('save', 'save-new', 'split', 'get'),
                    what + ': wrong reference', n, v, s.old.get(n), new.get(n), rs[-1])
        try:
            r.closure(refs.values())
        except (gitread.Missing, gitread.BadRepo) as ex:
            raise Violation('%s: a reference leads to missing or bad data: %s %r' % (what, ex, rs[-1]))
        for n in new:
            v = refs.get(n)
            if v is None or v == new[n] or v == s.old.get(n):
                if rc == 0 and v != new[n]:
                    raise Violation('%s: claimed success, but %r was not updated %r' % (what, n, rs[-1]))
                continue
            got = gitread.under(gitread.view(r, r.commit(v)['tree']), pre)
            if rc == 0 or kind not in ('save', 'save-new'):
                gitread.require_same_view(want(n), got, what + ': claimed success, but stored something else')
            else:
                partial(want(n), got, s, where, sh.what, action, what, rs)
        if rc == 0 and kind in ('restore', 'join'):
            g = outsnap(s)
            if kind == 'restore':
                fs.require_same(want_out, g, what + ': claimed success, but restored something else')
            else:
                require(g == want_out and rs[-1].out == want_stdout, what + ': claimed success, but joined something else', rs[-1])
        if rc and kind == 'join' and not c['k'] % 2:
            require(want_stdout.startswith(rs[-1].out), what + ': failed join wrote wrong data', rs[-1].err)
        if kind == 'index' and not rc or kind in ('save', 'save-new', 'index') and x % 3 == 0:
            # What was learnt in the failed run must not spoil a later one.
            cmds = s.cmds if rc else [(['-d', s.repo, 'save', '-q', '-n', 'later', s.src], b'')]
            if rc:
                cmds = [(['-d', s.repo, 'index', '-u', s.src], b''), (['-d', s.repo, 'save', '-q', '-n', 'later', s.src], b'')]
            for a, i in cmds:
                q = ctx.bup(*a, stdin=i)
                require(q.rc == 0, what + ': later undisturbed save fails', q)
            r = gitread.Repo(s.repo)
            got = gitread.under(gitread.view(r, r.commit(r.refs()[b'refs/heads/later'])['tree']), s.src)
            expect = gitread.under(fresh(ctx, s, c), s.src)
            gitread.require_same_view(expect, got, what + ': a later undisturbed save stores something else')

def fresh(ctx, s, c):
    if not hasattr(s, 'fresh'):
        d = s.d + b'/fresh'
        ops.init(ctx, d, c['cfg'])
        ops.save(ctx, d, s.src, name='f', date=10**9)
        r = gitread.Repo(d)
        s.fresh = gitread.view(r, r.commit(r.refs()[b'refs/heads/f'])['tree'])
    return s.fresh

def partial(want, got, s, where, op, action, what, rs):
    """A save with errors lacks at most what could not be read."""
    bad = None
    if where == 'src' and action == shim.FAIL:
        bad = op.split(' ', 1)[1].encode('latin-1', 'replace') if ' ' in op else b''
    for p, e in got.items():
        require(p in want, what + ': invented path %r' % p, rs[-1])
    lost = set(want) - set(got)
    # A directory whose own metadata could not be read is there without any.
    same = {p: e for p, e in got.items() if not (e[0] == 'd' and e[-1] == ())}
    diffs = gitread.diff_views(regroup({p: want[p] for p in same}), regroup(same))
    require(not diffs, what + ': a save with errors holds something else', diffs[:5], rs[-1])
    if where == 'src' and action == shim.FAIL:
        require(len([p for p in lost if not any(p.startswith(q + b'/') for q in lost)]) <= 1,
                what + ': one unreadable file made others disappear', sorted(lost), rs[-1])

def regroup(view):
    """Name hard link groups by their first member present."""
    first, out = {}, {}
    for p in sorted(view):
        e = view[p]
        m = []
        for k, v in e[-1] or ():
            if k == 'hard':
                v = first.setdefault(v, p)
            m.append((k, v))
        out[p] = e[:-1] + (tuple(m),)
    return out

def reset(s):
    s.reset()
    out = s.d + b'/out'
    if os.path.isdir(out):
        shutil.rmtree(out)
    elif os.path.lexists(out):
        os.unlink(out)

SUITES = [Suite('fail', case, run, 150, 5000,
                'random history, one command with one system call (or all from then on) failing, six times; '
                'non-trivial: some call was made to fail')]
ASSUMPTIONS = ['faults are injected into open, read, write, rename, link, unlink, mkdir, truncate and fsync calls '
               'on the repository, the source tree or the restore destination, by bup and the git it runs']
