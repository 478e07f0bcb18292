"""C26: fsck notices any damage and repairs what its recovery data permits."""
import os, random, shutil, struct, subprocess, sys
from hypothesis import strategies as st
from vt import ops, packs
from vt.core import Suite, require, Violation

FRAC = st.integers(0, 1000)
damage = st.one_of(
    st.tuples(st.just('flip'), FRAC, st.integers(1, 255)),
    st.tuples(st.just('flips'), st.sampled_from([2, 5, 30, 100, 150]), st.integers(0, 99)),
    st.tuples(st.just('block'), FRAC, st.sampled_from([1, 5, 20, 40, 45, 200, 700]), st.integers(0, 99)),
    st.tuples(st.just('cut'), st.sampled_from([1, 2, 19, 20, 21, 40])),
    st.tuples(st.just('cutto'), st.sampled_from([0, 1, 8, 12, 19, 20, 21, 32, 1032])),
    st.tuples(st.just('append'), st.sampled_from([1, 4, 8, 20, 300]), st.booleans()),
    st.tuples(st.just('insert'), FRAC, st.integers(1, 8)),
    st.tuples(st.just('delete'), FRAC, st.integers(1, 8)),
    st.tuples(st.just('head'), st.integers(0, 11), st.integers(1, 255)),
    st.tuples(st.just('tail'), st.integers(1, 40), st.integers(1, 255)),
    st.tuples(st.just('zero')),
    st.tuples(st.just('forge'), FRAC, st.integers(1, 255)),
    st.tuples(st.just('gone')),
)

def which(n=5):
    return st.one_of(st.none(), st.lists(st.integers(0, n), min_size=1, max_size=3, unique=True))

common = {'jobs': st.sampled_from([None, None, 1, 2, 3, 8]), 'quick': st.sampled_from([False, False, True]),
          'v': st.integers(0, 2), 'on': which()}
step = st.one_of(
    st.fixed_dictionaries(dict(common, op=st.just('verify'), off=st.sampled_from([False, False, False, True]), nopar2=st.sampled_from([False] * 5 + [True]),
                               kill=st.sampled_from([None] * 5 + [0, 1, 2]))),
    st.fixed_dictionaries(dict(common, op=st.sampled_from(['repair', 'repair', 'generate']))),
    st.fixed_dictionaries(dict(common, op=st.just('repair'))),
    st.fixed_dictionaries({'op': st.just('damage'), 'pack': st.integers(0, 5), 'file': st.sampled_from(['pack', 'pack', 'pack', 'idx', 'idx']), 'how': damage}),
    st.fixed_dictionaries({'op': st.just('damage'), 'pack': st.integers(0, 5), 'file': st.sampled_from(['pack', 'pack', 'idx']), 'how': damage}),
    st.fixed_dictionaries({'op': st.just('par2'), 'pack': st.integers(0, 5), 'file': st.sampled_from(['par2', 'vol000+200.par2']),
                           'how': st.sampled_from(['empty', 'lose', 'lose-both', 'flip'])}),
)

@st.composite
def case(draw):
    return {'packs': draw(st.lists(st.fixed_dictionaries({
                'seed': st.integers(0, 999), 'n': st.sampled_from([1, 2, 3, 10, 40]),
                'size': st.sampled_from([0, 10, 100, 800, 3000]), 'deltas': st.booleans()}), min_size=1, max_size=5)),
            'bup': draw(st.sampled_from([False, False, True])),
            'gen': draw(st.sampled_from(['all', 'all', 'all', 'some', 'none'])),
            'steps': draw(st.lists(step, min_size=2, max_size=8))}

def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None

def write(p, data):
    with open(p + b'.new', 'wb') as f:
        f.write(data)
    os.rename(p + b'.new', p)

def smash(data, how):
    k = how[0]
    n = len(data)
    b = bytearray(data)
    if k == 'zero':
        return bytes(n)
    if k == 'cutto':
        return data[:how[1]]
    if k == 'cut':
        return data[:max(0, n - how[1])]
    if k == 'append':
        return data + (bytes(how[1]) if how[2] else random.Random(how[1]).randbytes(how[1]))
    if not n:
        return data
    if k == 'flip':
        b[(n - 1) * how[1] // 1000] ^= how[2]
    elif k == 'flips':
        rnd = random.Random(how[2])
        for _ in range(how[1]):
            b[rnd.randrange(n)] ^= rnd.randrange(1, 256)
    elif k == 'block':
        sz = max(1, n * how[2] // 1000)
        o = (n - sz) * how[1] // 1000
        b[o:o + sz] = random.Random(how[3]).randbytes(sz)
    elif k == 'insert':
        o = n * how[1] // 1000
        b[o:o] = random.Random(how[2]).randbytes(how[2])
    elif k == 'delete':
        o = (n - 1) * how[1] // 1000
        del b[o:o + how[2]]
    elif k == 'head':
        b[how[1] % n] ^= how[2]
    elif k == 'tail':
        b[-min(n, how[1])] ^= how[2]
    elif k == 'forge':
        import hashlib
        b[(n - 1) * how[1] // 1000] ^= how[2]
        b[-20:] = hashlib.sha1(b[:-20]).digest()
    return bytes(b)

def slice_size(stem):
    d = read(stem + b'.par2') or b''
    i = d.find(b'PAR 2.0\0Main\0\0\0\0')
    return struct.unpack('<Q', d[i + 16:i + 24])[0] if i >= 0 else None

def bad_slices(orig, cur, size):
    """How many of par2's slices cannot be found in place."""
    return sum(orig[o:o + size] != cur[o:o + size] for o in range(0, len(orig), size))

class World:
    def __init__(self, ctx, c):
        self.ctx = ctx
        self.repo = ctx.bdir + b'/r'
        ops.init(ctx, self.repo, {'bup.split.files': 'legacy:13', 'pack.packSizeLimit': '90000'} if c['bup'] else {})
        pd = self.repo + b'/objects/pack'
        for p in c['packs']:
            rnd = random.Random(p['seed'])
            if c['bup']:
                data = rnd.randbytes(p['size'] * p['n'])
                ctx.bup('-d', self.repo, 'split', '-b', stdin=data, ok=True)
                continue
            objs = {}
            base = rnd.randbytes(p['size'])
            for i in range(p['n']):
                d = base[:rnd.randrange(len(base) + 1)] + rnd.randbytes(rnd.randrange(p['size'] + 8)) if p['deltas'] else rnd.randbytes(rnd.randrange(p['size'] + 8))
                objs[d] = (b'blob', d)
            packs.write_pack(pd, list(objs.values()), rnd if p['deltas'] else None)
        for n in os.listdir(pd):
            if n.endswith((b'.midx', b'.bloom')):
                os.unlink(pd + b'/' + n)
        self.stems = sorted(pd + b'/' + n[:-5] for n in os.listdir(pd) if n.endswith(b'.pack'))
        self.orig = {s: {e: read(s + b'.' + e.encode()) for e in ('pack', 'idx')} for s in self.stems}
        self.par2 = {s: None for s in self.stems}   # None, 'good', 'wrong' (of a damaged pack), 'bad', 'half', 'doubtful'

    def cur(self, s, ext):
        return read(s + b'.' + ext.encode())

    def forged(self, s, ext):
        cur = self.cur(s, ext)
        return cur is not None and cur != self.orig[s][ext] and checksum_ok(cur)

    def intact(self, s, exts=('pack', 'idx')):
        return all(self.cur(s, e) == self.orig[s][e] for e in exts)

    def choose(self, st_):
        """The packs a command is about, and its arguments."""
        here = [s for s in self.stems if os.path.exists(s + b'.pack')]
        if st_['on'] is None or not here:
            return here, []
        sel = sorted({here[i % len(here)] for i in st_['on']})
        return sel, [s + b'.pack' for s in sel]

    def repairable(self, s):
        """True or False where par2's capacity decides, else None."""
        if self.par2[s] != 'good':
            return None if self.par2[s] in ('wrong', 'doubtful', 'bad') else False
        if self.intact(s, ('pack',)):
            return True
        size = slice_size(s)
        orig, cur = self.orig[s]['pack'], self.cur(s, 'pack')
        if not cur:
            return None
        if len(orig) != len(cur) and not (cur[:len(orig)] == orig or orig[:len(cur)] == cur):
            return None
        n = bad_slices(orig, cur, size)
        return True if n <= 200 else None

    def par2_can(self, s):
        """Whether par2 itself manages to repair a copy."""
        d = self.ctx.bdir + b'/par2-copy'
        os.mkdir(d)
        base = os.path.basename(s)
        for e in (b'.pack', b'.par2', b'.vol000+200.par2'):
            shutil.copy(s + e, d)
        rc = subprocess.run([b'par2', b'repair', b'-qq', b'-t1', b'--', base], cwd=d, stdout=subprocess.DEVNULL,
                            stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL).returncode
        ok = rc == 0 and read(d + b'/' + base + b'.pack') == self.orig[s]['pack']
        shutil.rmtree(d)
        return ok

def lines(q, w, sel, st_):
    """{stem: status} of the verbose output."""
    out = {}
    for l in q.out.splitlines():
        name, _, status = l.rpartition(b' ')
        for s in sel:
            if os.path.basename(s) == name:
                require(s not in out, 'fsck reported a pack twice', q)
                out[s] = status
    return out

def args(st_, sel_args):
    a = ['-v'] * st_['v']
    if st_['quick']:
        a.append('--quick')
    if st_['jobs'] is not None:
        a += ['-j', str(st_['jobs'])]
    return a, sel_args

def path_without_par2(ctx):
    d = ctx.bdir + b'/bin'
    if not os.path.isdir(d):
        os.mkdir(d)
        for n in ('git', 'sh', 'cat', 'env'):
            os.symlink(shutil.which(n), d + b'/' + n.encode())
    return d

def path_with_killer(ctx, stem):
    """A git that ends whoever verifies one of the packs."""
    d = ctx.bdir + b'/kbin'
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for n in ('par2', 'sh', 'cat', 'env'):
        os.symlink(shutil.which(n), d + b'/' + n.encode())
    with open(d + b'/git', 'wb') as f:
        f.write(b'#!/bin/sh\ncase "$*" in\n*verify-pack*%s*) test "$PPID" -gt 1 && kill -9 "$PPID"; exit 1;;\nesac\nexec %s "$@"\n'
                % (os.path.basename(stem), os.fsencode(shutil.which('git'))))
    os.chmod(d + b'/git', 0o755)
    return d

def verify(w, st_):
    ctx = w.ctx
    sel, names = w.choose(st_)
    before = {s: (w.cur(s, 'pack'), w.cur(s, 'idx')) for s in w.stems}
    a, names = args(st_, names)
    env = None
    killed = None
    if st_['nopar2']:
        env = {'PATH': os.fsdecode(path_without_par2(ctx))}
    elif st_['kill'] is not None and st_['jobs'] and not st_['quick'] and sel:
        killed = sel[st_['kill'] % len(sel)]
        env = {'PATH': os.fsdecode(path_with_killer(ctx, killed))}
        ctx.label('killed worker')
    elif st_['off']:
        a.append('--disable-par2')
    with_par2 = not (st_['nopar2'] or '--disable-par2' in a)
    q = ctx.bup('-d', w.repo, 'fsck', *a, *names, env=env, ok=None)
    require(before == {s: (w.cur(s, 'pack'), w.cur(s, 'idx')) for s in w.stems}, 'a check changed packs', q)
    damaged = [s for s in sel if not w.intact(s)]
    if st_['quick']:
        # only the files' own checksums are promised
        hidden = [s for s in damaged if all(w.cur(s, e) == w.orig[s][e] or w.forged(s, e) for e in ('pack', 'idx'))]
    else:
        hidden = []
    half = [s for s in sel if w.par2[s] in ('half', 'bad')]
    sure = [s for s in damaged if s not in hidden]
    if sure or killed or [s for s in half if with_par2]:
        require(q.rc not in (0, 1), 'fsck reports success (%d) for %d damaged packs' % (q.rc, len(sure)), q, sure, killed)
        if sure:
            ctx.nontrivial()
            ctx.label('damage noticed')
    elif not hidden and all(w.par2[s] in (None, 'good') or (w.par2[s] in ('wrong', 'doubtful') and not with_par2) for s in sel):
        require(q.rc == 0, 'fsck of undamaged packs fails (%d)' % q.rc, q)
        ctx.label('clean')
    if st_['v']:
        said = lines(q, w, sel, st_)
        for s in sure:
            require(said.get(s) != b'ok', 'fsck says a damaged pack is ok', q, s)
        for s in sel:
            if s not in damaged and w.par2[s] in (None, 'good') and s != killed:
                require(said.get(s) == b'ok', 'fsck does not say that an undamaged pack is ok', q, s)

def generate(w, st_):
    ctx = w.ctx
    sel, names = w.choose(st_)
    before = {s: (w.cur(s, 'pack'), w.cur(s, 'idx')) for s in w.stems}
    a, names = args(st_, names)
    q = ctx.bup('-d', w.repo, 'fsck', '-g', *a, *names, ok=None)
    require(before == {s: (w.cur(s, 'pack'), w.cur(s, 'idx')) for s in w.stems}, 'fsck -g changed packs', q)
    half = [s for s in sel if w.par2[s] in ('half', 'bad')]
    empty = [s for s in sel if not w.cur(s, 'pack')]
    if half:
        require(q.rc not in (0, 1), 'fsck -g succeeds (%d) in spite of incomplete recovery files' % q.rc, q)
    elif not empty:
        require(q.rc == 0, 'fsck -g fails', q)
    left = [n for n in os.listdir(w.repo + b'/objects/pack') if b'bup-tmp' in n]
    require(not left, 'fsck -g left temporary files', left)
    for s in sel:
        if w.par2[s] is None and s not in empty:
            require(os.path.exists(s + b'.par2') and os.path.exists(s + b'.vol000+200.par2'), 'fsck -g left a pack without recovery data', q, s)
            w.par2[s] = 'good' if w.intact(s, ('pack',)) else 'wrong'
        elif w.par2[s] is None:
            w.par2[s] = 'doubtful' if os.path.exists(s + b'.par2') else None

def repair(w, st_):
    ctx = w.ctx
    sel, names = w.choose(st_)
    others = {s: (w.cur(s, 'pack'), w.cur(s, 'idx')) for s in w.stems if s not in sel}
    a, names = args(st_, names)
    can = {s: w.repairable(s) for s in sel}
    was = {s: w.intact(s) for s in sel}
    hidden = [s for s in sel if st_['quick'] and not was[s] and all(w.cur(s, e) == w.orig[s][e] or w.forged(s, e) for e in ('pack', 'idx'))]
    par2_ok = {s: not was[s] and can[s] and not w.intact(s, ('pack',)) and w.par2_can(s) for s in sel}
    q = ctx.bup('-d', w.repo, 'fsck', '-r', *a, *names, ok=None)
    require(others == {s: (w.cur(s, 'pack'), w.cur(s, 'idx')) for s in others}, 'fsck -r changed other packs', q)
    repaired, failed = [], []
    for s in sel:
        now = w.intact(s)
        if was[s]:
            require(now, 'fsck -r changed an intact pack', q, s)
        elif s in hidden:
            continue
        elif now:
            repaired.append(s)
            require(w.par2[s] is not None, 'a pack without recovery data was repaired?', q, s)
        elif st_['quick'] and w.forged(s, 'idx') and w.intact(s, ('pack',)):
            hidden.append(s)
        else:
            failed.append(s)
            if w.intact(s, ('pack',)):
                # with recovery data that fits, a lost index is rebuilt
                require(w.par2[s] != 'good' or w.forged(s, 'idx'), 'fsck -r did not rebuild an index', q, s)
            elif can[s] and par2_ok[s] and w.par2[s] == 'good':
                raise Violation('fsck -r did not repair what par2 can repair', [str(q), s])
    bad_par2 = [s for s in sel if w.par2[s] in ('half', 'bad')]
    if failed or bad_par2:
        require(q.rc not in (0, 1), 'fsck -r reports success (%d) though %d packs remain damaged' % (q.rc, len(failed)), q, failed, bad_par2)
        if failed:
            ctx.nontrivial()
            ctx.label('unrepairable')
    elif repaired and not hidden:
        require(q.rc == 1, 'fsck -r exits with %d after repairing everything' % q.rc, q)
    elif not hidden:
        require(q.rc == 0, 'fsck -r of undamaged packs exits with %d' % q.rc, q)
    if repaired:
        ctx.nontrivial()
        ctx.label('repaired')
    if st_['v']:
        said = lines(q, w, sel, st_)
        for s in failed:
            require(said.get(s) not in (b'ok', b'repaired'), 'fsck -r says a damaged pack is %r' % said.get(s), q, s)
        for s in repaired:
            require(said.get(s) == b'repaired', 'fsck -r does not say that a pack was repaired', q, s)

def run(c, ctx):
    w = World(ctx, c)
    ctx.label('%d packs' % len(w.stems))
    if not w.stems:
        return
    if c['gen'] != 'none':
        generate(w, {'v': 0, 'quick': False, 'jobs': 3 if len(w.stems) > 1 else None, 'on': None if c['gen'] == 'all' else [0, 2]})
    steps = list(c['steps'])
    steps.append({'op': 'repair', 'jobs': None, 'quick': False, 'v': 1, 'on': None})
    steps.append({'op': 'verify', 'jobs': None, 'quick': False, 'v': 1, 'on': None, 'off': False, 'nopar2': False, 'kill': None})
    for x in steps:
        if x['op'] == 'damage':
            s = w.stems[x['pack'] % len(w.stems)]
            p = s + b'.' + x['file'].encode()
            old = read(p)
            if old is None:
                continue
            if x['how'][0] == 'gone':
                if x['file'] == 'idx':
                    os.unlink(p)
                continue
            new = smash(old, x['how'])
            write(p, new)
            ctx.label(x['how'][0])
        elif x['op'] == 'par2':
            s = w.stems[x['pack'] % len(w.stems)]
            if w.par2[s] is None:
                continue
            p = s + b'.' + x['file'].encode()
            if x['how'] == 'lose-both':
                for e in (b'.par2', b'.vol000+200.par2'):
                    if os.path.exists(s + e):
                        os.unlink(s + e)
                w.par2[s] = None
            elif not os.path.exists(p):
                continue
            elif x['how'] == 'empty':
                write(p, b'')
                w.par2[s] = 'bad'
            elif x['how'] == 'lose':
                os.unlink(p)
                both = any(os.path.exists(s + e) for e in (b'.par2', b'.vol000+200.par2'))
                w.par2[s] = 'half' if both else None
                if both and not all(read(s + e) for e in (b'.par2', b'.vol000+200.par2') if os.path.exists(s + e)):
                    w.par2[s] = 'bad'
            else:
                d = bytearray(read(p))
                if d:
                    d[len(d) // 2] ^= 1
                    write(p, bytes(d))
                    if w.par2[s] in ('good', 'wrong'):
                        w.par2[s] = 'doubtful'
        else:
            {'verify': verify, 'generate': generate, 'repair': repair}[x['op']](w, x)

def checksum_ok(d):
    import hashlib
    return len(d) >= 20 and hashlib.sha1(d[:-20]).digest() == d[-20:]

SUITES = [Suite('damage', case, run, quick=260, thorough=6000,
                rule='damage to a pack or index was noticed, repaired or found unrepairable')]
TECHNIQUE = 'model-based histories of damage, check, generate and repair commands; byte comparison with the original packs and par2 itself as the oracle'
ASSUMPTIONS = ['git verify-pack, git index-pack and par2 work', 'with --quick only the checksums at the end of the files are checked']
