"""C10: another command in the middle of one loses nobody's work."""
import os, pickle, random, shutil, socket, signal, time
from hypothesis import strategies as st
from vt import fs, gen, edits, ops, gitread, scen, shim
from vt.core import Suite, Violation, HarnessError, require, killpg, CMD_TIMEOUT

NEEDS_SHIM = True
A_KINDS = ['save', 'save', 'save-b2', 'split', 'get', 'restore', 'join', 'tag', 'rm-save', 'midx', 'bloom', 'index', 'ls']
B_KINDS = ['save', 'save', 'save-b2', 'split', 'get', 'tag', 'midx', 'midx', 'bloom', 'bloom', 'index', 'restore', 'save-same', 'rm-solo']

@st.composite
def case(draw):
    c = draw(scen.scenario(['midx']))
    c['a'] = draw(st.sampled_from(A_KINDS))
    c['bs'] = draw(st.lists(st.tuples(st.sampled_from(B_KINDS), st.integers(0, 10**6)), min_size=4, max_size=4))
    c['data2'] = draw(gen.content(2, 40000))
    return c

class Running:
    """A bup command running on its own."""
    def __init__(self, ctx, args, stdin, env):
        self.r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                try:
                    out = ctx.bup(*args, stdin=stdin, env=env, timeout=CMD_TIMEOUT)
                except Violation as ex:
                    out = str(ex)
                os.write(w, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)

    def result(self):
        with os.fdopen(self.r, 'rb') as f:
            data = f.read()
        os.waitpid(self.pid, 0)
        out = pickle.loads(data)
        if isinstance(out, str):
            raise Violation(out)
        return out

def run(c, ctx):
    s = scen.Scen(ctx, c)
    d = s.d
    date = s.date
    if c['a'] == 'rm-save' and len(c['edits']) < 2:
        c = dict(c, a='tag')    # removing the only save removes the branch
    ctx.label('a-' + c['a'])
    src2 = d + b'/src2'
    os.mkdir(src2)
    fs.write_file(src2 + b'/two', gen.realize(c['data2']) + b'two')
    fs.write_file(src2 + b'/same', b'always here')
    other = d + b'/other'
    ops.init(ctx, other, c['cfg'])
    ops.save(ctx, other, src2, date=date + 5, name='o')
    joined = gen.realize(c['data']) + b'J'
    ctx.bup('-d', s.repo, 'split', '-n', 'j', stdin=joined, ok=True)
    for e in c['last']:
        edits.apply(s.src, e)
    fs.write_file(s.src + b'/new', gen.realize(c['data']) + b'new')
    shutil.rmtree(s.backup)
    base = {}
    if c['a'] in ('save', 'save-b2'):
        # what is saved without any company
        ctx.bup('-d', s.repo, 'index', '-u', s.src, ok=True)
    scen.copytree(s.repo, s.backup)
    r = gitread.Repo(s.repo)
    old = r.refs()
    R = ['-d', s.repo]
    old_save = b'/b/' + os.fsencode(scen.stamp(date))
    def command(kind, who):
        if kind in ('save', 'save-b2'):
            n = 'b' if kind == 'save' else 'b2'
            return [R + ['save', '-q', '-c', '-n', n, '-d', str(date + (10 if who == 'A' else 20)), s.src if who == 'A' else src2]]
        return {'split': [R + ['split', '-q', '-c', '-n', 'b', '-d', str(date + 30)]],
                'save-same': [R + ['save', '-q', '-c', '-n', 'b3', '-d', str(date + 20), s.src]],
                'get': [R + ['get', '-s', other, '--append:', 'o', 'b']],
                'restore': [R + ['restore', '-q', '-C', d + b'/out-' + who.encode(), old_save + s.src + b'/.']],
                'join': [R + ['join', 'j']],
                'ls': [R + ['ls', '-A', '-s', old_save + s.src]],
                'tag': [R + ['tag', 'tag' + who, 'b']],
                'rm-save': [R + ['rm', '--unsafe', 'b/' + scen.stamp(10**9 + 86400 * 40)]],
                'rm-solo': [R + ['rm', '--unsafe', 'solo']],
                'midx': [R + ['midx', '-f']],
                'bloom': [R + ['bloom', '-f']],
                'index': [R + ['index', '-u', s.src if who == 'A' else src2]]}[kind]
    want_src = want_tree(ctx, d + b'/w1', s.src, c)
    want_src2 = want_tree(ctx, d + b'/w2', src2, c)
    data_a, data_b = gen.realize(c['data']) + b'A', gen.realize(c['data2']) + b'B'
    a_cmd = command(c['a'], 'A')[0]
    sh = shim.Shim(ctx, [s.repo])
    classes = shim.MUT | shim.SYNC | shim.OPENR | shim.READ
    sh.arm(classes=classes)
    ra = ctx.bup(*a_cmd, stdin=data_a, env=sh.env())
    require(ra.rc == 0, 'undisturbed command failed', ra)
    total, alone_out = sh.count, ra.out
    alone_tree = fs.snapshot(d + b'/out-A') if c['a'] == 'restore' else None
    for kind, x in c['bs']:
        if kind.startswith('rm') and c['a'] in ('rm-save',):
            kind = 'tag'
        s.reset()
        for o in (b'/out-A', b'/out-B'):
            shutil.rmtree(d + o, True)
        if kind in ('save', 'save-b2', 'save-same'):
            ctx.bup(*R, 'index', '-u', s.src if kind == 'save-same' else src2, ok=True)
        before = gitread.Repo(s.repo).refs()
        at = 1 + x % total
        path = d + b'/sock'
        if os.path.exists(path):
            os.unlink(path)
        l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        l.bind(path)
        l.listen(8)
        l.settimeout(.02)
        sh.arm(at, shim.PAUSE, classes=classes, sock=path)
        A = Running(ctx, a_cmd, data_a, sh.env())
        conn = None
        t0 = time.monotonic()
        import select
        while time.monotonic() - t0 < CMD_TIMEOUT:
            if select.select([A.r], [], [], 0)[0]:
                break
            try:
                conn = l.accept()[0]
                break
            except socket.timeout:
                continue
        b_cmds = command(kind, 'B')
        B = Running(ctx, b_cmds[0], data_b, {})
        # B may wait for something that A holds.
        if not select.select([B.r], [], [], 15)[0]:
            ctx.label('waited')
            if conn:
                conn.send(b'x')
                conn.close()
                conn = None
        rb = B.result()
        if conn:
            ctx.nontrivial()
            ctx.label('b-' + kind)
            ctx.label('at-' + sh.what.split(' ')[0])
            conn.send(b'x')
            conn.close()
        ra = A.result()
        l.close()
        what = '%s at call %d of %d (%s) of %s' % (kind, at, total, sh.what, c['a'])
        for q in (ra, rb):
            require(0 <= q.rc < 128, what + ': did not end cleanly', q)
        ctx.label('a-%s' % ('ok' if ra.rc == 0 else 'refused'))
        if rb.rc:
            ctx.label('b-refused')
        def racy(k):
            return k in ('save', 'save-b2', 'save-same', 'split', 'get', 'rm-save', 'tag', 'rm-solo')
        # Only references are contended: everything else must go through.
        require(ra.rc == 0 or racy(c['a']) and racy(kind), what + ': the interrupted command failed', ra, rb)
        require(rb.rc == 0 or racy(c['a']) and racy(kind), what + ': the other command failed', rb, ra)
        r = gitread.Repo(s.repo)
        refs = r.refs()
        try:
            r.closure(refs.values())
        except (gitread.Missing, gitread.BadRepo) as ex:
            raise Violation('%s: a reference leads to missing data: %s' % (what, ex), ra, rb)
        # every reference someone had is still there, its history intact
        for n, o in before.items():
            if n == b'refs/heads/solo' and kind == 'rm-solo':
                continue
            require(n in refs, what + ': %r disappeared' % n, ra, rb)
            if c['a'] != 'rm-save' or n != b'refs/heads/b':
                require(o in history(r, refs[n]), what + ': %r lost its history' % n, ra, rb)
        for who, k, q in (('A', c['a'], ra), ('B', kind, rb)):
            if q.rc:
                continue
            if k in ('save', 'save-b2', 'save-same', 'split'):
                n = {'save': b'b', 'save-b2': b'b2', 'save-same': b'b3', 'split': b'b'}[k]
                h = history(r, refs.get(b'refs/heads/' + n))
                cm = bytes.fromhex(q.out.strip().split(b'\n')[-1].decode())
                if c['a'] == 'rm-save' and n == b'b':
                    # rewritten, perhaps
                    trees = [r.commit(o)['tree'] for o in h]
                    require(cm in h or (cm in r and r.commit(cm)['tree'] in trees), what + ': the successful %s is not in its branch' % k, q, ra, rb)
                else:
                    require(cm in h, what + ': the successful %s is not in its branch' % k, q, ra, rb)
                if k != 'split':
                    src = s.src if who == 'A' or k == 'save-same' else src2
                    got = gitread.under(gitread.view(r, r.commit(cm)['tree']), src)
                    gitread.require_same_view(want_src if src is s.src else want_src2, got, what + ': %s stored something else' % k)
                else:
                    (m, n_, o), = gitread.parse_tree(r.get(r.commit(cm)['tree'])[1])
                    data = gitread.join_data(r, o)
                    require(data == (data_a if who == 'A' else data_b), what + ': split stored other data', q)
            elif k == 'get':
                h = history(r, refs[b'refs/heads/b'])
                trees = [r.commit(o)['tree'] for o in h]
                ro = gitread.Repo(other)
                require(ro.commit(ro.refs()[b'refs/heads/o'])['tree'] in trees, what + ': fetched save is not in its branch', q, ra, rb)
            elif k == 'tag':
                require(b'refs/tags/tag' + who.encode() in refs, what + ': tag missing', q)
            elif k == 'join':
                require(q.out == joined, what + ': join read other data', q.err)
            elif k == 'ls':
                require(q.out == alone_out, what + ': listing differs', q)
            elif k == 'restore' and who == 'A':
                fs.require_same(alone_tree, fs.snapshot(d + b'/out-A'), what + ': restored something else')
            elif k == 'rm-save' and not ra.rc and kind not in ('save', 'split', 'get'):
                require(refs[b'refs/heads/b'] != before[b'refs/heads/b'], what + ': save was not removed', q)
        # nothing is left that spoils later work
        if x % 2:
            ctx.bup(*R, 'index', '-u', s.src, src2, ok=True)
            q = ctx.bup(*R, 'save', '-q', '-c', '-n', 'later', s.src, src2, ok=True)
            r = gitread.Repo(s.repo)
            r.closure(r.refs().values())
            v = gitread.view(r, r.commit(r.refs()[b'refs/heads/later'])['tree'])
            gitread.require_same_view(want_src, gitread.under(v, s.src), what + ': a later save stores something else')
            gitread.require_same_view(want_src2, gitread.under(v, src2), what + ': a later save stores something else')
        p = ctx.git(s.repo, 'fsck', '--full', '--no-dangling', check=False)
        require(p.returncode == 0, what + ': git fsck fails afterwards', p.stderr[-600:])

def history(r, o):
    out = []
    while o:
        out.append(o)
        ps = r.commit(o)['parents']
        o = ps[0] if ps else None
    return out

def want_tree(ctx, d, src, c):
    ops.init(ctx, d, c['cfg'])
    ops.save(ctx, d, src, name='w', date=10**9)
    r = gitread.Repo(d)
    return gitread.under(gitread.view(r, r.commit(r.refs()[b'refs/heads/w'])['tree']), src)

SUITES = [Suite('concurrent', case, run, 110, 4000,
                'random history; one command paused at one of its file-system calls while another runs to completion, four times; '
                'non-trivial: some command was paused with the other run meanwhile')]
ASSUMPTIONS = ['the other command runs entirely within one pause of the first (no finer interleaving)',
               'removal of saves and collection of garbage are not run against writers of the same branch, which bup documents as unsafe']
