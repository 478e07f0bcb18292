"""C24: remote repositories behave exactly like local ones."""
import hashlib, os, re, shutil, socket, subprocess, time
from hypothesis import strategies as st
from vt import edits, fs, gen, gitread, hist, ops
from vt.core import Ctx, Suite, Violation, require, killpg

WAYS = ['sub', 'sub', 'sub', 'sub', 'ssh', 'ssh-rel', 'ssh-url', 'ssh-port', 'ssh-default', 'bup', 'on', 'on']
OPS = ['save', 'save', 'save', 'save', 'save-bad', 'edit', 'edit', 'split', 'split', 'split-b', 'split-n', 'restore', 'restore', 'restore-bad', 'restore-tag',
       'join', 'join-bad', 'get', 'get', 'get', 'get-bad', 'gc', 'rm', 'tag', 'local', 'cache-drop', 'cache-rm', 'midx', 'bloom', 'client', 'config', 'dumb',
       'init', 'ls', 'prune']

@st.composite
def case(draw):
    kinds = 'fffddlp' if draw(st.booleans()) else 'ffffd'
    return {'tree': draw(gen.tree(depth=2, max_entries=4, names=st.one_of(gen.plain_name(), gen.name()), rich=False, big=40000, kinds=kinds)),
            'cfg': draw(ops.config()), 'xcfg': draw(ops.config()),
            'way': draw(st.sampled_from(WAYS)), 'dumb': draw(st.integers(0, 3)) == 0, 'oldid': draw(st.integers(0, 4)) == 0,
            'edits': draw(st.lists(edits.edit(big=40000), min_size=3, max_size=6)),
            'data': draw(st.lists(gen.content(2, 50000), min_size=2, max_size=3)),
            'ops': draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 40), st.integers(0, 40)), min_size=3, max_size=9))}

SSH = '''#!/bin/sh
# A stand-in for ssh: runs the command here, as another host would.
echo "$@" >> "$VT_SSH_LOG"
while test "$1" != --; do shift; done
shift
cd "$VT_REMOTE_HOME" || exit 2
HOME="$VT_REMOTE_HOME"; export HOME
BUP_DIR="$VT_REMOTE_DIR"; export BUP_DIR
unset BUP_TEST_LEVEL VT_ZYGOTE
exec sh -c "$*"
'''

class Canon:
    """Commits record their command line; compare them without it."""
    def __init__(self, path):
        self.r = gitread.Repo(path)
        self.memo = {}

    def __call__(self, oid):
        todo = [oid]
        while todo:
            o = todo[-1]
            if o in self.memo:
                todo.pop()
                continue
            try:
                typ, data = self.r.get(o)
            except KeyError:
                typ = None
            if typ != b'commit':
                self.memo[o] = o
                continue
            cm = self.r.commit(o)
            need = [x for x in cm['parents'] if x not in self.memo]
            if need:
                todo += need
                continue
            msg = re.sub(rb'\nBup-Argv: [^\n]*', b'', cm['message'])
            self.memo[o] = hashlib.sha1(repr((cm['tree'], cm['author'], cm['committer'].rsplit(b' ', 2)[0], msg, [self.memo[x] for x in cm['parents']])).encode()).digest()
        return self.memo[oid]

    def refs(self):
        return {n: self(o) for n, o in self.r.refs().items()}

    def text(self, out):
        known = self.r.oids()
        def sub(m):
            o = bytes.fromhex(m.group().decode())
            return self(o).hex().encode() if o in known else m.group()
        return re.sub(rb'\b[0-9a-f]{40}\b', sub, out)

class World:
    def __init__(self, c, ctx):
        self.c, self.ctx = c, ctx
        self.d = d = ctx.bdir
        self.L, self.X = d + b'/l', d + b'/x'
        os.mkdir(d + b'/rhome')
        self.R = d + b'/rhome/r'
        self.src = d + b'/src'
        os.mkdir(self.src)
        fs.build(self.src, c['tree'])
        fs.write_file(self.src + b'/keep', b'kept')
        self.homes = ['home', 'home2']
        os.mkdir(d + b'/home2')
        self.home = 0
        self.daemon = None
        self.way = c['way']
        self.port = None
        self.n = 0
        self.reconf = False
        self.date = 10**9
        os.mkdir(d + b'/bin')
        with open(d + b'/bin/ssh', 'w') as f:
            f.write(SSH)
        os.chmod(d + b'/bin/ssh', 0o755)
        os.symlink(os.fsencode(Ctx.src) + b'/bup', d + b'/bin/bup')
        ops.init(ctx, self.X, c['xcfg'])
        ops.init(ctx, d + b'/rhome/other', c['xcfg'])

    def env(self):
        e = {'BUP_TEST_LEVEL': '99', 'HOME': self.ctx.dir + '/' + self.homes[self.home], 'VT_REMOTE_HOME': self.ctx.dir + '/rhome',
             'VT_SSH_LOG': self.ctx.dir + '/ssh.log', 'VT_REMOTE_DIR': self.ctx.dir + ('/rhome/r' if self.way == 'ssh-default' else '/rhome/other')}
        e['PATH'] = self.ctx.dir + '/bin:' + self.ctx.env()['PATH']
        return e

    def start_daemon(self):
        for _ in range(20):
            s = socket.socket()
            s.bind(('127.0.0.1', 0))
            self.port = s.getsockname()[1]
            s.close()
            self.daemon = subprocess.Popen([os.fsencode(Ctx.src) + b'/bup', 'daemon', '-l', '127.0.0.1', '-p', str(self.port)],
                                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.d + b'/daemon.log', 'wb'),
                                           env=self.ctx.env(self.env()), cwd=self.ctx.dir, start_new_session=True)
            for _ in range(200):
                if self.daemon.poll() is not None:
                    break
                if b'listening' in open(self.d + b'/daemon.log', 'rb').read():
                    try:
                        socket.create_connection(('127.0.0.1', self.port)).close()
                        return
                    except OSError:
                        pass
                time.sleep(0.05)
            self.stop()
        raise RuntimeError('cannot start a daemon')

    def stop(self):
        if self.daemon:
            killpg(self.daemon.pid)
            self.daemon.wait()
            self.daemon = None

    def remote(self):
        w = self.way
        if w == 'sub':
            return b'-:' + self.R
        if w == 'ssh':
            return b'user@host:' + self.R
        if w == 'ssh-rel':
            return b'host:r'
        if w == 'ssh-default':
            return b'host:'
        if w == 'ssh-url':
            return b'ssh://host' + self.R
        if w == 'ssh-port':
            return b'ssh://me@host:2222' + self.R
        if w == 'bup':
            if not self.daemon:
                self.start_daemon()
            return b'bup://127.0.0.1:%d' % self.port + self.R
        raise AssertionError(w)

    def remotely(self, cmd, *args, stdin=b'', cwd=None):
        if self.way == 'on':
            if cmd not in ('save', 'split', 'get', 'restore'):
                # what "on" does not offer is done from here, through a pipe
                return self.ctx.bup('-d', self.X, cmd, '-r', b'-:' + self.R, *args, stdin=stdin, env=self.env(), cwd=cwd)
            return self.ctx.bup('-d', self.R, 'on', 'host', cmd, *args, stdin=stdin, env=self.env(), cwd=cwd)
        return self.ctx.bup('-d', self.X, cmd, '-r', self.remote(), *args, stdin=stdin, env=self.env(), cwd=cwd)

    def locally(self, cmd, *args, stdin=b'', cwd=None):
        return self.ctx.bup('-d', self.L, cmd, *args, stdin=stdin, env=self.env(), cwd=cwd)

    def both(self, cmd, *args, rargs=None, stdin=b'', rstdin=None, out=True, expect=None):
        a = self.locally(cmd, *args, stdin=stdin)
        b = self.remotely(cmd, *(args if rargs is None else rargs), stdin=stdin if rstdin is None else rstdin)
        require((a.rc == 0) == (b.rc == 0), 'a local %s and a remote one differ in success' % cmd, a, b)
        require(expect is None or (a.rc == 0) == expect, '%s: unexpected result' % cmd, a, b)
        if a.rc == 0 or cmd == 'join':
            require(not out or a.out == b.out or Canon(self.L).text(a.out) == Canon(self.R).text(b.out), 'a local %s and a remote one print different things' % cmd, a, b)
        require(a.rc == 0 or b.rc != -1, 'hung', b)
        return a, b

    def each(self, *args):
        """A command on each repository, where it is."""
        a = self.ctx.bup('-d', self.L, *args, env=self.env())
        b = self.ctx.bup('-d', self.R, *args, env=self.env())
        require(a.rc == b.rc, 'repositories that should be alike differ', args, a, b)
        return a, b

    def repos(self):
        return gitread.Repo(self.L), gitread.Repo(self.R)

    def same(self, what):
        l, r = Canon(self.L), Canon(self.R)
        require(l.refs() == r.refs(), what + ': references differ', l.r.refs(), r.r.refs())
        return l.r, r.r

    def index(self, paths=None):
        ctx = self.ctx
        # reading a link changes its access time unless that is recent
        for dp, dn, fn in os.walk(self.src):
            for x in dn + fn:
                x = dp + b'/' + x
                if os.path.islink(x):
                    os.utime(x, ns=(time.time_ns() - 10**10, 10**18), follow_symlinks=False)
                    os.readlink(x)
        i = self.d + b'/lidx'
        ctx.bup('index', '-u', '-f', i, *(paths or [self.src]), env=self.env(), ok=True)
        if self.reconf:
            # Whether an unchanged file is split anew depends on what the client knows of the repository.
            ctx.bup('index', '--fake-invalid', '-f', i, self.src, env=self.env(), ok=True)
            self.reconf = False
        for x in (b'', b'.meta', b'.hlink'):
            if os.path.exists(i + x):
                shutil.copy2(i + x, self.d + b'/ridx' + x)
            elif os.path.exists(self.d + b'/ridx' + x):
                os.unlink(self.d + b'/ridx' + x)

BR = [b'b0', b'b1', b'\xc3\xb6']

def run(c, ctx):
    w = World(c, ctx)
    try:
        go(c, ctx, w)
    finally:
        w.stop()

def go(c, ctx, w):
    ctx.label('way-' + c['way'])
    a = w.ctx.bup('-d', w.L, 'init', env=w.env(), ok=True)
    b = w.remotely('init') if w.way not in ('ssh-default',) else ctx.bup('-d', w.R, 'init', env=w.env())
    require(b.rc == 0, 'cannot initialize a remote repository', b)
    if c['oldid']:
        for r in (w.L, w.R):
            ctx.git(r, 'config', '--unset', 'bup.repo.id')
    for r in (w.L, w.R):
        ops.set_config(r, c['cfg'])
        if c['dumb']:
            ctx.git(r, 'config', 'bup.server.deduplicate-writes', 'false')
            ctx.label('dumb')
    blobs = [gen.realize(x) for x in c['data']]
    ids = []
    ne = wrote = 0
    todo = [('save', 0, 0)] + c['ops'] + [('restore', 0, 0), ('join', 0, 0)]
    for kind, i, j in todo:
        w.n += 1
        w.date += 1000
        br = BR[i % 3]
        l = gitread.Repo(w.L)
        refs = l.refs()
        heads = sorted(n[11:] for n in refs if n.startswith(b'refs/heads/'))
        tags = sorted(n[10:] for n in refs if n.startswith(b'refs/tags/'))
        before = l.oids()
        if kind == 'save':
            w.index()
            common = ['-q', '-n', br, '-d', str(w.date), ['-t', '-c', '-tc'][j % 3]] + [['--strip'], ['--strip-path', os.path.dirname(w.src)], ['--graft', b'%s=/g' % w.src], ['--graft', b'%s=/x/y' % w.src], ['--strip']][j % 5]
            a, b = w.both('save', '-f', w.d + b'/lidx', *common, w.src, rargs=['-f', w.d + b'/ridx'] + common + [w.src])
        elif kind == 'save-bad':
            w.index()
            args = [['-n', br, w.d + b'/nosuch'], [w.src], ['-n', b'bad..name', w.src], ['-n', br, '--strip', '--strip-path', b'/x', w.src]][j % 4]
            w.both('save', '-f', w.d + b'/lidx', '-q', '-d', str(w.date), *args, rargs=['-f', w.d + b'/ridx', '-q', '-d', str(w.date)] + args, expect=False if j % 4 != 2 else None)
        elif kind == 'edit' and ne < len(c['edits']):
            edits.apply(w.src, c['edits'][ne])
            ne += 1
        elif kind in ('split', 'split-b', 'split-n'):
            d = blobs[i % len(blobs)] + (b'x' * j if i % 2 else b'')
            args = ['-q', '-d', str(w.date)] + {'split': ['-t', '-c'][j % 2:j % 2 + 1], 'split-b': ['-b'], 'split-n': ['-n', br]}[kind]
            args += [[], ['--fanout=8'], ['--keep-boundaries'], []][j % 4]
            if w.way == 'on' or j % 2:
                p = w.d + b'/in%d' % w.n
                fs.write_file(p, d)
                a, b = w.both('split', *args, p, expect=True)
            else:
                a, b = w.both('split', *args, stdin=d, expect=True)
            if kind != 'split-n':
                ids += list(zip(a.out.split(), b.out.split()))[:6]
        elif kind in ('restore', 'restore-tag', 'restore-bad'):
            if kind == 'restore-bad' or not heads:
                q = [b'/nosuch/latest', b'/%s/nosuch' % (heads[0] if heads else b'q'), b'/%s/latest/no/such' % (heads[0] if heads else b'q'), b'/.tag/nosuch/x', b'relative'][j % 5]
            elif kind == 'restore-tag' and tags:
                q = b'/.tag/' + tags[i % len(tags)] + [b'', b'/keep', b'/.'][j % 3]
            else:
                q = b'/' + heads[i % len(heads)] + b'/latest' + [b'', b'/', b'/src', b'/keep', b'/data'][j % 5]
            oo = []
            flags = [[], ['-v'], ['--sparse'], ['-q'], ['--exclude-rx', '/a']][i % 5]
            os.mkdir(w.d + b'/o%d' % w.n)
            for side, fn in ((b'l', w.locally), (b'r', w.remotely)):
                o = w.d + b'/o%d/%s' % (w.n, side)
                r = fn('restore', '-C', o, '--numeric-ids', *flags, q)
                oo.append((r, fs.snapshot(o, root_meta=False) if os.path.exists(o) else None))
            (a, sa), (b, sb) = oo
            require(a.rc == b.rc and a.out == b.out, 'a local restore and a remote one differ', a, b)
            if (sa is None) != (sb is None):
                require(False, 'only one restore made its directory', a, b)
            if sa is not None:
                fs.require_same(scrub(sa), scrub(sb), 'local and remote restores differ')
                if len(sa) > 2 and kind != 'restore-bad':
                    ctx.label('restored')
        elif kind in ('join', 'join-bad'):
            x = [ids[i % len(ids)]] if ids else [(heads[i % len(heads)],) * 2] if heads else []
            if kind == 'join-bad':
                x = x + [(y, y) for y in [[b'f' * 40], [b'nosuch'], [b'f' * 39], [b'--', b'']][j % 4]]
            if x:
                xa, xb = [y for y, _ in x], [y for _, y in x]
                if j % 2:
                    w.both('join', *xa, rargs=xb)
                else:
                    w.both('join', stdin=b''.join(y + b'\n' for y in xa), rstdin=b''.join(y + b'\n' for y in xb))
        elif kind in ('get', 'get-bad'):
            src = source(c, ctx, w)
            s = src[1]
            args = ['-s', src[0]]
            if kind == 'get-bad':
                args += [['--ff', 'nosuch'], ['--append', b'm/nosuch'], ['--pick', b'm'], ['--new-tag:', b'm', b'.tag/a..b'], ['--ff:', b'm/latest/file', b'x'], ['--replace:', b'm', b'/.tag']][j % 6]
            else:
                args += [['--ff', b'm'], ['--append:', b'm', br], ['--pick:', b'm/latest', br], ['--force-pick:', b'm/' + s[0], b'.tag/fp'],
                         ['--new-tag:', b'm/' + s[0], b'.tag/nt%d' % (i % 2)], ['--replace:', b'm', br], ['--unnamed', b'm/latest/sub'], ['--unnamed', b'm']][j % 8]
            if i % 3 == 0:
                args = [['-ct'], ['-v'], ['--print-tags', '-c'], ['--copy']][i % 4] + args
            w.both('get', *args)
        elif kind == 'gc':
            w.each('gc', '-q' if False else '--unsafe', '--threshold', str([0, 10, 60][j % 3]))
        elif kind == 'rm' and heads:
            h = heads[i % len(heads)]
            if j % 2 and len(heads) > 1:
                w.each('rm', '--unsafe', b'/' + h)
            else:
                sv = hist.save_names(l, refs[b'refs/heads/' + h])
                w.each('rm', '--unsafe', b'/%s/%s' % (h, sv[j % len(sv)][0]))
        elif kind == 'tag' and heads:
            w.each('tag', '-f', b't%d' % (j % 2), heads[i % len(heads)])
        elif kind == 'prune':
            w.each('prune-older', '--unsafe', '--no-gc', '--keep-all-for', '1s', '--keep-yearlies-for', '3y')
        elif kind == 'local':
            # another writer, unknown to the client's cache
            d = blobs[i % len(blobs)] + b'l%d' % j
            for r in (w.L, w.R):
                ctx.bup('-d', r, 'split', '-q', '-n', br, '-d', str(w.date), stdin=d, env=w.env(), ok=True)
        elif kind in ('cache-drop', 'cache-rm'):
            drop_cache(w, kind, j)
        elif kind == 'midx':
            w.each('midx', *[['-f'], ['-a'], []][j % 3])
        elif kind == 'bloom':
            if os.listdir(w.L + b'/objects/pack') and os.listdir(w.R + b'/objects/pack'):
                w.each('bloom', '--ruin') if False else w.each('bloom', *[['-f'], []][j % 2])
        elif kind == 'client':
            w.home = 1 - w.home
        elif kind == 'config':
            w.reconf = True
            for r in (w.L, w.R):
                ctx.git(r, 'config', 'bup.split.files', ['legacy:13', 'legacy:14', 'legacy:15'][j % 3])
        elif kind == 'dumb':
            ctx.git(w.R, 'config', 'bup.server.deduplicate-writes', ['true', 'false'][j % 2])
        elif kind == 'init':
            if w.way != 'ssh-default':
                w.both('init', out=False)
        elif kind == 'ls':
            w.each('ls', '-als', *(b'/' + h for h in heads))
        else:
            continue
        ctx.label(kind)
        lr, rr = w.same('after ' + kind)
        if len(lr.oids()) > len(before):
            wrote += 1
    l, r = w.same('at the end')
    def trees(x):
        return {o for o in x.closure(list(x.refs().values())) if x.get(o)[0] != b'commit'}
    require(trees(l) == trees(r), 'what is reachable differs')
    ops.fsck(ctx, w.R, 'the remote repository')
    if w.way.startswith('ssh') or w.way == 'on':
        require(os.path.exists(w.d + b'/ssh.log'), 'ssh was not used', w.way)
    ctx.nontrivial(wrote > 1)

def scrub(snap):
    return snap

def drop_cache(w, kind, j):
    top = os.path.join(w.d, os.fsencode(w.homes[w.home]), b'.cache')
    fs_ = []
    for dp, dn, fn in os.walk(top):
        fs_ += [dp + b'/' + f for f in sorted(fn)]
    fs_.sort()
    if kind == 'cache-rm':
        for f in fs_:
            os.unlink(f)
    elif fs_:
        os.unlink(fs_[j % len(fs_)])

def source(c, ctx, w):
    """A repository to get things from."""
    s = w.d + b'/s'
    if not os.path.exists(s):
        ops.init(ctx, s, dict(c['cfg']))
        p = w.d + b'/ssrc'
        os.makedirs(p + b'/sub')
        for k in range(2):
            fs.write_file(p + b'/sub/file%d' % k, gen.realize(c['data'][k]) + b'%d' % k)
            fs.write_file(p + b'/file', gen.realize(c['data'][0])[:3000])
            ctx.bup('-d', s, 'index', '-f', w.d + b'/sidx', p, ok=True)
            ctx.bup('-d', s, 'save', '-f', w.d + b'/sidx', '-q', '--strip', '-n', 'm', '-d', str(10**9 + k), p, ok=True)
    r = gitread.Repo(s)
    return s, [n for n, _, _ in hist.save_names(r, r.refs()[b'refs/heads/m'])]

SUITES = [Suite('parallel', case, run, 50, 4000, 'at least two operations stored new objects')]
ASSUMPTIONS = ['A client knows the remote objects its cached indexes list, so an unchanged file may be read and split again; checks that depend on that (--smaller, a changed split configuration without a fresh index) are left out.', 'ssh is played by a script that runs the remote command in another home directory; "bup on" goes through it too']
