"""C28: extraction never touches anything outside its destination."""
import os, stat, struct
from hypothesis import strategies as st
from vt import gen, fs, ops, gitread, bupmeta, packs, mkrepo
from vt.core import Ctx, Suite, require

# Everything runs as a user who owns nothing but the case's own files.
UID = 54321

COMP = st.sampled_from([b'a', b'b', b'x', b'ln', b'd', b'o', b'dest', b'j2', b'outside', b'...', b'..a', b'sub'])
@st.composite
def path(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        return b'/'.join(draw(st.lists(COMP, min_size=1, max_size=3)))
    if k == 4:
        return draw(st.sampled_from([b'..', b'.', b'', b'/', b'../', b'./', b'//', b'/..', b'./..', b'../.', b'../..', b'a/..', b'a/../..', b'ln/..', b'/../o', b'./../o', b'.//../o',
                                     b'a/./../../o', b'../outside', b'../outside/f', b'../../outside/d', b'ABS', b'ABS/f', b'/ABS/d', b'../dest', b'a/', b'ln/', b'a//b', b'/a', b'//a/b']))
    cs = draw(st.lists(st.one_of(COMP, st.sampled_from([b'..', b'.', b'ln', b'ln', b''])), min_size=1, max_size=4))
    return draw(st.sampled_from([b'', b'', b'/', b'./', b'../'])) + b'/'.join(cs)

# ABS stands for the directory beside the destination, by its full name.
target = st.sampled_from([b'..', b'.', b'../outside', b'../outside/f', b'../outside/d', b'../outside/e', b'ABS', b'ABS/f', b'ABS/e', b'a', b'd', b'../../outside', b'../a', b'/ABS/f',
                          b'../x', b'../../..', b'../../a', b'../dest/../outside', b'nowhere', b'../o'])
kind = st.sampled_from('ffddlllp')
META = st.fixed_dictionaries({'perm': st.sampled_from([0o755, 0o700, 0o777, 0o640, 0o4755, 0]), 't': st.integers(0, 2**31), 'acl': st.sampled_from([None, None, None, 0, 1]),
                              'dacl': st.sampled_from([None, None, None, 0]), 'attr': st.sampled_from([0, 0, 0, 0, 0x80]), 'x': st.sampled_from([None, None, ((b'user.h', b'hostile'),)]),
                              'hard': st.sampled_from([None, None, None, b't', b'/abs', b'../outside/f'])})
IFMT = {'f': stat.S_IFREG, 'd': stat.S_IFDIR, 'l': stat.S_IFLNK, 'p': stat.S_IFIFO, 's': stat.S_IFSOCK, 'c': stat.S_IFCHR}

@st.composite
def mcase(draw):
    ordinary = draw(st.integers(0, 4)) == 0
    ent = st.tuples(path(), kind, target, META)
    return {'ents': draw(st.lists(ent, min_size=1, max_size=7)),
            'how': draw(st.sampled_from(['extract', 'extract', 'extract', 'two-step', 'two-step', 'reversed', 'twice', 'finish', 'no-symlinks'])),
            'numeric': draw(st.booleans())}

ACL = b'user::rwx,user:daemon:rwx,group::rwx,mask::rwx,other::rwx'
def acl(m, isdir):
    if m['acl'] is None and m['dacl'] is None:
        return None
    # access and default, by name and by number
    long = b'user::rwx\nuser:1:rwx\ngroup::rwx\nmask::rwx\nother::rwx\n'
    d = long if m['dacl'] is not None and isdir else b''
    return (long, long, d, d)

def meta(k, m, tgt, **kw):
    d = {'mode': IFMT[k] | m['perm'], 'mtime': m['t'] * 10**9, 'atime': m['t'] * 10**9, 'ctime': m['t'] * 10**9, 'uid': UID, 'gid': UID, 'user': b'', 'group': b''}
    if k == 'l':
        d['target'] = tgt
        d['size'] = len(tgt)
    a = acl(m, k == 'd')
    if a:
        d['acl'] = a
    if m['attr']:
        d['attr'] = m['attr']
    if m['x']:
        d['xattr'] = m['x']
    if m['hard'] and k != 'd':
        d['hard'] = m['hard']
    d.update(kw)
    return d

class Jail:
    opened = set()
    def __init__(self, ctx):
        d = ctx.bdir
        self.ctx = ctx
        self.top = d + b'/j0'
        self.dest = self.top + b'/j1/j2/dest'
        os.makedirs(self.dest)
        for up in (self.top, self.top + b'/j1', self.top + b'/j1/j2'):
            for n in (b'a', b'o', b'x'):
                fs.write_file(up + b'/' + n, b'canary ' + n)
            o = up + b'/outside'
            os.makedirs(o + b'/d/sub')
            os.mkdir(o + b'/e')
            fs.write_file(o + b'/f', b'canary')
            fs.write_file(o + b'/d/a', b'canary')
            os.symlink(b'f', o + b'/ln')
            os.mkdir(up + b'/d')
            os.symlink(b'outside', up + b'/ln')
        self.abs = self.top + b'/j1/j2/outside'
        self.give(self.top)
        p = os.fsencode(Ctx.base)
        while p not in (b'/dev/shm', b'/tmp', b'/var/tmp', b'/'):
            os.chmod(p, os.stat(p).st_mode & 0o7777 | 0o711)
            p = os.path.dirname(p)
        src = os.fsencode(Ctx.src)
        if src not in Jail.opened:
            Jail.opened.add(src)
            os.chmod(os.path.dirname(src), 0o755)
            for p, ds, ns in os.walk(src):
                os.chmod(p, 0o755)
                for n in ns:
                    if not os.path.islink(p + b'/' + n):
                        os.chmod(p + b'/' + n, os.stat(p + b'/' + n).st_mode | 0o444)
        for p in (ctx.bdir, ctx.bdir + b'/home'):
            os.chmod(p, 0o755)

    def give(self, top):
        for p, ds, fs_ in os.walk(top):
            for n in [p] + [p + b'/' + x for x in ds + fs_]:
                os.lchown(n, UID, UID)
                os.utime(n, ns=(10**18, 10**18), follow_symlinks=False)

    def fill(self, s):
        return s.replace(b'ABS', self.abs) if s == b'ABS' or s.startswith((b'ABS/', b'/ABS/')) else s

    def outside(self):
        out = {}
        def walk(p):
            s = os.lstat(p)
            e = [stat.S_IFMT(s.st_mode)]
            if p != os.path.dirname(self.dest):
                e += [s.st_mode, s.st_uid, s.st_mtime_ns, s.st_nlink, s.st_ino]
            if stat.S_ISREG(s.st_mode):
                with open(p, 'rb') as f:
                    e.append(f.read())
            elif stat.S_ISLNK(s.st_mode):
                e.append(os.readlink(p))
            if not stat.S_ISLNK(s.st_mode):
                e.append(fs.xattrs(p))
            out[p] = e
            if stat.S_ISDIR(s.st_mode):
                for n in os.listdir(p):
                    if p + b'/' + n != self.dest:
                        walk(p + b'/' + n)
        walk(self.top)
        # the destination's parent keeps its attributes too
        s = os.lstat(os.path.dirname(self.dest))
        out['parent'] = (s.st_mode, s.st_uid, s.st_mtime_ns, fs.xattrs(os.path.dirname(self.dest)))
        return out

    def check(self, was, q):
        now = self.outside()
        bad = [(p, was.get(p), now.get(p)) for p in sorted(set(was) | set(now), key=str) if was.get(p) != now.get(p)]
        require(not bad, 'something outside of the destination was touched', *bad[:4], q)

    def bup(self, *a, **kw):
        env = {'VT_UID': str(UID), 'VT_ZYGOTE': '', **kw.pop('env', {})}
        return self.ctx.bup(*a, env=env, cwd=self.dest, **kw)

def run(c, ctx):
    j = Jail(ctx)
    ents = [(j.fill(p), k, j.fill(t), m) for p, k, t, m in c['ents']]
    data = b''.join(bupmeta.encode(meta(k, m, t, path=p)) for p, k, t, m in ents if p)
    rev = b''.join(bupmeta.encode(meta(k, m, t, path=p)) for p, k, t, m in reversed(ents) if p)
    was = j.outside()
    num = ['--numeric-ids'] if c['numeric'] else []
    how = c['how']
    steps = {'extract': [(['-x', *num], data)], 'two-step': [(['--start-extract'], data), (['--finish-extract', *num], data)],
             'reversed': [(['--start-extract'], rev), (['--finish-extract', *num], data)],
             'twice': [(['-x', *num], data), (['-x', *num], rev)], 'finish': [(['--finish-extract', *num], data)],
             'no-symlinks': [(['-x', '--no-symlinks'], data)]}[how]
    for a, inp in steps:
        q = j.bup('meta', *a, stdin=inp)
        j.check(was, q)
    names = [p for p, k, t, m in ents if p]
    clean = [[x for x in p.split(b'/') if x not in (b'', b'.')] for p in names]
    hostile = [i for i, p in enumerate(clean) if b'..' in p]
    ctx.label(how)
    links = {tuple(p) for p, e in zip(clean, ents) if e[1] == 'l'}
    if hostile or any(tuple(p[:i]) in links for p in clean for i in range(1, len(p))):
        ctx.nontrivial()
    # What is not risky is extracted.
    if how in ('extract', 'two-step') and len({tuple(p) for p in clean}) == len(clean) == len(ents):
        good = [(p, e) for p, e in zip(clean, ents) if b'..' not in p and p]
        dirs = {tuple(p) for p, e in good if e[1] == 'd'}
        conflict = any(tuple(p[:i]) in {tuple(q) for q, _ in good} - dirs for p, _ in good for i in range(1, len(p)))
        # a directory made for what is below it, or by an entry that follows, counts as well
        low = any(e[3]['perm'] & 0o300 != 0o300 for p, e in good if e[1] == 'd')
        odd = any(m['attr'] and k not in 'fd' for _, k, _, m in ents)
        if not conflict and not odd and not any(e[0] in (b'', b'/', b'.') for e in ents) and not (low and how != 'extract') \
                and not any(e[0].endswith((b'/', b'/.')) for e in ents) and not any(tuple(p) in {tuple(x[:i]) for x in clean for i in range(1, len(x))} and not e[1] == 'd' for p, e in good):
            for p, e in good:
                f = j.dest + b'/' + b'/'.join(p)
                require(os.path.lexists(f), 'an ordinary path was not extracted', b'/'.join(p), q)
                require(stat.S_IFMT(os.lstat(f).st_mode) == IFMT[e[1]], 'a path was extracted as something else', b'/'.join(p))
            ctx.label('complete' if good else 'nothing ordinary')

# ------------------------------------------------------------------ restore
NAME = st.one_of(COMP, COMP, COMP, st.sampled_from([b'..', b'.', b'', b'../o', b'../outside/f', b'a/b', b'ln/x', b'ln/f', b'../..', b'a/../../o', b'ABS/f', b'ABS', b'ABS/e', b'../dest2', b'../outside/e',
                                                    b'../ln', b'./x', b'x/', b'd/..', b'../../a', b'..\n', b' ..', b'a/', b'..bup', b'...bup', b'..bupl', b'../o.bup', b'.bupm', b'a.bup', b'/', b'//', b'/a']))
def tree(depth):
    leaf = st.tuples(st.just('f'), st.sampled_from([b'hostile', b'']), META, st.sampled_from(['f', 'f', 'f', 'd', 'l', 'p', None]), target)
    link = st.tuples(st.just('l'), target, META, st.sampled_from(['l', 'l', 'l', 'f', 'd', None]), target)
    if not depth:
        return st.one_of(leaf, link)
    sub = st.tuples(st.just('d'), st.lists(st.tuples(NAME, tree(depth - 1)), max_size=4), META, st.sampled_from(['d', 'd', 'd', 'l', 'l', 'f', None]), target)
    return st.one_of(leaf, link, sub, sub)

@st.composite
def rcase(draw):
    return {'top': draw(st.lists(st.tuples(NAME, tree(2)), min_size=1, max_size=5)), 'sorted': draw(st.booleans()), 'nobupm': draw(st.sampled_from([False, False, False, True])),
            'form': draw(st.lists(st.sampled_from(['dot', 'slash', 'whole', 'sub', 'subdot', 'commit']), min_size=1, max_size=2)), 'i': draw(st.integers(0, 9)),
            'opt': draw(st.sampled_from([[], [], ['--sparse'], ['--numeric-ids'], ['-v', '-v']])), 'pre': draw(st.sampled_from([None, None, 'again']))}

def restore(c, ctx):
    j = Jail(ctx)
    d = ctx.bdir
    repo = ops.init(ctx, d + b'/repo', {})
    objs = {}
    def put(typ, data):
        o = gitread.hash_object(typ, data)
        objs[o] = (typ, data)
        return o
    hostile = [0]
    def build(nodes, m):
        """Store a directory and return its id; m is its own record."""
        ents, mets = [], []
        ns = [(j.fill(n).strip(b'\0'), x) for n, x in nodes]
        if c['sorted']:
            ns.sort(key=lambda t: t[0] + (b'/' if t[1][0] == 'd' else b''))
        seen = set()
        for n, x in ns:
            if n in seen or n in (b'.', b'..', b'') or b'/' in n or b'.bup' in n:
                hostile[0] += 1
            seen.add(n)
            k, v, mm, mk, t = x
            mk2 = mk or k
            if mk2 != k or mm['attr'] and k not in 'fd':
                hostile[0] += 1
            rec = bupmeta.encode(meta(mk2, mm, j.fill(v if k == 'l' and mk2 == 'l' else t)))
            if k == 'd':
                ents.append((b'40000', n, build(v, rec)))
            else:
                if k == 'l':
                    ents.append((b'120000', n, put(b'blob', j.fill(v))))
                else:
                    ents.append((b'100644', n, put(b'blob', v)))
                mets.append(rec)
        if not c['nobupm']:
            b = (b'100644', b'.bupm', put(b'blob', m + b''.join(mets)))
            i = 0
            if c['sorted']:
                while i < len(ents) and ents[i][1] < b'.bupm':
                    i += 1
            ents.insert(i, b)
        return put(b'tree', b''.join(a + b' ' + n + b'\0' + o for a, n, o in ents))
    plain = {'perm': 0o755, 't': 5, 'acl': None, 'dacl': None, 'attr': 0, 'x': None, 'hard': None}
    root = build(c['top'], bupmeta.encode(meta('d', plain, b'')))
    cm = put(b'commit', mkrepo.commit_data(root, [], {'a': b'a <a@b>', 'c': b'a <a@b>', 't': 10**9, 'ct': 10**9, 'z': b'+0000', 'cz': b'+0000', 'm': b'm'}))
    packs.write_pack(repo + b'/objects/pack', list(objs.values()))
    mkrepo.set_ref(repo, b'refs/heads/b', cm)
    for p, ds, fs_ in os.walk(repo):
        for n in [p] + [p + b'/' + x for x in ds + fs_]:
            os.lchown(n, UID, UID)
    was = j.outside()
    subs = [n for n, x in c['top'] if x[0] == 'd'] or [c['top'][0][0]]
    n = j.fill(subs[c['i'] % len(subs)])
    for form in c['form']:
        p = {'dot': b'/b/latest/.', 'slash': b'/b/latest/', 'whole': b'/b/latest', 'sub': b'/b/latest/' + n, 'subdot': b'/b/latest/' + n + b'/.', 'commit': b'/.commit/%s/' % cm.hex().encode()}[form]
        q = j.bup('-d', repo, 'restore', '-C', j.dest, *c['opt'], '--', p)
        j.check(was, q)
        ctx.label(form)
        if c['pre']:
            q = j.bup('-d', repo, 'restore', '-C', j.dest, '--', p)
            j.check(was, q)
        # Ordinary trees are restored completely.
        if not hostile[0] and form in ('dot', 'slash') and not c['nobupm'] and not c['pre'] and len(c['form']) == 1:
            for nm, x in c['top']:
                require(os.path.lexists(j.dest + b'/' + nm), 'an ordinary path was not restored', nm, q)
            ctx.label('complete')
    if hostile[0]:
        ctx.nontrivial()

PUBLIC_SCRATCH = True
SUITES = [Suite('meta', mcase, run, quick=400, thorough=20000, rule='a path has .. in it or leads through a symlink of the archive'),
          Suite('restore', rcase, restore, quick=300, thorough=15000, rule='a tree has unusable or repeated names, or metadata of another type')]
TECHNIQUE = 'hand-encoded hostile metadata archives and repository trees; everything around the destination must stay as it was'
ASSUMPTIONS = ['runs as an unprivileged user: changes of ownership and device nodes are not attempted',
               'the destination is empty or the result of earlier extractions of the same archive']
