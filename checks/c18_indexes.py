"""C18: object lookup agrees with the packs whatever indexes exist."""
import hashlib, os, random, shutil, struct
from hypothesis import strategies as st
from vt.core import Suite, require
from vt import ops
from vt.child import in_child

ASSUMPTIONS = [
    'The packs are represented by their .idx files (written by the harness in both of git\'s formats); lookups never open the .pack files.',
    'Damaged .idx files are outside the property: damage is applied to merged and bloom indexes only.',
]

# ---- generated object ids

@st.composite
def cluster(draw):
    k = draw(st.integers(0, 9))
    return {'seed': draw(st.integers(0, 30)),
            'prefix': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 8, 12, 18, 19])),
            'base': draw(st.sampled_from(['rnd', 'rnd', 'lo', 'hi', 'mid'])),
            'n': draw(st.integers(1, 6)) if k < 5 else draw(st.integers(1, 60)) if k < 8 else draw(st.sampled_from([210, 420, 900, 1700])),
            'seq': draw(st.integers(0, 3)) == 0}

@st.composite
def pack(draw):
    return {'clusters': draw(st.lists(cluster(), min_size=1, max_size=3)),
            'version': draw(st.sampled_from([2, 2, 2, 2, 1])),
            'ofs': draw(st.sampled_from(['small', 'small', 'edge', 'big', 'mixed'])),
            'dup': draw(st.sampled_from([0, 0, 0, .1, .5, 1])),
            'seed': draw(st.integers(0, 1000))}

@st.composite
def op(draw):
    k = draw(st.sampled_from(['add'] * 5 + ['rm'] * 2 + ['midx-a'] * 3 + ['midx-f', 'midx-af'] + ['midx-x'] * 2 + ['bloom'] * 3
                             + ['bloom-f', 'bloom-k', 'unstash', 'unstash', 'cut', 'smash', 'foreign', 'sync', 'sync', 'auto']))
    d = {'op': k, 'i': draw(st.integers(0, 10**6))}
    if k == 'add':
        d['packs'] = draw(st.lists(pack(), min_size=1, max_size=4))
    if k.startswith('midx'):
        d['max'] = draw(st.sampled_from([None, None, None, 5, 6, 8]))
        d['print'] = draw(st.booleans())
        d['out'] = draw(st.integers(0, 7)) == 0
    if k.startswith('bloom'):
        d['k'] = draw(st.sampled_from([None, 4, 5]))
    return d

@st.composite
def case(draw):
    return {'packs': draw(st.lists(pack(), min_size=1, max_size=8)),
            'ops': draw(st.lists(op(), min_size=2, max_size=9)),
            'seed': draw(st.integers(0, 10**6))}

def cluster_ids(c):
    rnd = random.Random(c['seed'])
    full = bytes(rnd.randrange(256) for _ in range(20))
    base = {'rnd': full, 'lo': bytes(20), 'hi': b'\xff' * 20, 'mid': b'\x7f' + b'\xff' * 19}[c['base']]
    p = base[:c['prefix']]
    # lookups among ids with the same first word take linear time in a midx
    n = min(c['n'], 60) if c['prefix'] > 2 or c['seq'] else c['n']
    out = set()
    if c['seq']:
        at = int.from_bytes(p + full[len(p):], 'big')
        for i in range(n):
            out.add(((at + i) % 2**160).to_bytes(20, 'big'))
    else:
        if c['base'] != 'rnd':
            out.add(base)
        while len(out) < n:
            out.add(p + bytes(rnd.getrandbits(8) for _ in range(20 - len(p))))
    return out

def make_pack(p, known, rnd_known):
    rnd = random.Random(p['seed'])
    ids = set()
    for c in p['clusters']:
        ids |= cluster_ids(c)
    if p['dup'] and rnd_known:
        ids |= set(rnd.sample(rnd_known, max(1, int(len(rnd_known) * p['dup']))))
    out, pos = {}, 12
    order = sorted(ids)
    rnd.shuffle(order)
    edge = [2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**33, 2**40 + 7, 2**62]
    for i, o in enumerate(order):
        if p['version'] == 1:
            pos += rnd.randrange(9, 5000)
        elif p['ofs'] == 'small':
            pos += rnd.randrange(9, 5000)
        elif p['ofs'] == 'edge':
            pos = edge[i] if i < len(edge) else pos + rnd.randrange(9, 50000)
        elif p['ofs'] == 'big':
            pos += rnd.randrange(2**28, 2**33)
        else:
            pos = rnd.choice([rnd.randrange(12, 2**31), rnd.randrange(2**31, 2**44)])
        out[o] = pos
    return out

def idx_file(ents, version):
    fan = [0] * 256
    for o in ents:
        fan[o[0]] += 1
    t = 0
    for i in range(256):
        t += fan[i]
        fan[i] = t
    ids = sorted(ents)
    out = []
    if version == 1:
        out.append(struct.pack('>256I', *fan))
        out += [struct.pack('>I', ents[o]) + o for o in ids]
    else:
        out += [b'\xfftOc\0\0\0\2', struct.pack('>256I', *fan)] + ids
        out += [struct.pack('>I', int.from_bytes(o[:4], 'little')) for o in ids]
        bigs = []
        for o in ids:
            if ents[o] >= 2**31:
                out.append(struct.pack('>I', 0x80000000 | len(bigs)))
                bigs.append(struct.pack('>Q', ents[o]))
            else:
                out.append(struct.pack('>I', ents[o]))
        out += bigs
    out.append(hashlib.sha1(b''.join(ids)).digest())
    b = b''.join(out)
    return b + hashlib.sha1(b).digest()

# ---- lookups in a child process

def answers(pl, queries):
    out = []
    for oid, kind in queries:
        a = pl.exists(oid, want_source=kind & 1 == 1, want_offset=kind & 2 == 2)
        out.append(None if not a else (getattr(a, 'pack', None), getattr(a, 'offset', None)))
    return out

class World:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.repo = ctx.bdir + b'/r'
        self.env = {'BUP_DIR': os.fsdecode(self.repo)}
        ops.init(ctx, self.repo)
        self.dir = self.repo + b'/objects/pack'
        self.model = {}        # idx name -> {oid: offset}
        self.gone = set()
        self.n = 0
        self.rnd = random.Random(case['seed'])
        self.stash = None
        self.tampered = False  # an index file was damaged or brought back
        self.log = []

    def add(self, specs):
        for p in specs:
            known = sorted({o for m in self.model.values() for o in m})
            ents = make_pack(p, None, known)
            data = idx_file(ents, p['version'])
            name = b'pack-' + hashlib.sha1(data + b'%d' % self.n).hexdigest().encode() + b'.idx'
            self.n += 1
            with open(os.path.join(self.dir, name), 'wb') as f:
                f.write(data)
            self.model[name] = ents
            if p['version'] == 1:
                self.ctx.label('version-1 idx')
            if any(v >= 2**31 for v in ents.values()):
                self.ctx.label('64-bit offsets')

    def keep(self):
        if self.stash:
            shutil.rmtree(self.stash)
        self.stash = self.ctx.bdir + b'/stash'
        os.makedirs(self.stash)
        for n in self.aux():
            shutil.copy2(os.path.join(self.dir, n), self.stash)

    def remove(self, i):
        if len(self.model) < 2:
            return
        name = sorted(self.model)[i % len(self.model)]
        self.gone |= set(self.model[name])
        del self.model[name]
        os.unlink(os.path.join(self.dir, name))

    def all(self):
        return {o for m in self.model.values() for o in m}

    def aux(self, ext=('midx', 'bloom')):
        return sorted(n for n in os.listdir(self.dir) if n.split(b'.')[-1].decode('latin1') in ext)

    def queries(self):
        rnd = self.rnd
        here = sorted(self.all())
        take = here if len(here) <= 120 else rnd.sample(here, 120)
        gone = sorted(self.gone)
        qs = set(take) | set(gone if len(gone) <= 40 else rnd.sample(gone, 40))
        for o in rnd.sample(take, min(40, len(take))):
            v = int.from_bytes(o, 'big')
            qs.add(((v + 1) % 2**160).to_bytes(20, 'big'))
            qs.add(((v - 1) % 2**160).to_bytes(20, 'big'))
            k = rnd.randrange(1, 20)
            qs.add(o[:k] + bytes(rnd.getrandbits(8) for _ in range(20 - k)))
            b = bytearray(o)
            b[rnd.randrange(20)] ^= 1 << rnd.randrange(8)
            qs.add(bytes(b))
        qs |= {bytes(20), b'\xff' * 20}
        for _ in range(10):
            qs.add(bytes(rnd.getrandbits(8) for _ in range(20)))
        out = [(q, rnd.choice([0, 0, 1, 2, 3])) for q in sorted(qs)]
        rnd.shuffle(out)
        return out

    def judge(self, queries, got, what, extra=()):
        have = self.all()
        for (q, kind), a in zip(queries, got):
            where = {n for n, m in self.model.items() if q in m}
            msg = '%s: %s' % (what, q.hex())
            hist = ' / '.join(self.log)
            if not where:
                require(a is None, msg + ' is reported present, but no pack has it', a, hist)
                continue
            require(a is not None, msg + ' is reported absent, but %d of %d packs have it' % (len(where), len(self.model)), hist)
            pk, ofs = a
            if kind & 1:
                require(pk in where, msg + ' is said to be in a pack without it', pk, sorted(where), hist)
            if kind & 2:
                ok = {self.model[pk][q]} if kind & 1 else {self.model[n][q] for n in where}
                require(ofs in ok, msg + ' has a wrong offset', ofs, sorted(ok), hist)

    def fresh(self, what):
        """A newly opened list must know the exact objects."""
        qs = self.queries()
        d = self.dir
        ign = self.rnd.random() < .15
        walk = self.rnd.random() < .5
        def go():
            from bup import git
            with git.PackIdxList(d, ignore_midx=ign) as pl:
                a = answers(pl, qs)
                it = list(pl) if walk else None
                return a, it, len(pl.packs), pl.bloom is not None
        ok, res = in_child(go)
        hist = ' / '.join(self.log)
        require(ok, '%s: looking up objects failed' % what, res, hist)
        a, it, npacks, bloom = res
        self.judge(qs, a, what)
        if it is not None:
            require(it == sorted(it), what + ': objects are not listed in order', hist)
            require(set(it) == self.all(), what + ': the listed objects are not those of the packs',
                    sorted(x.hex() for x in set(it) ^ self.all())[:5], hist)
        return npacks, bloom

    def bup(self, *args, ok=True):
        r = self.ctx.bup(*args, env=self.env, ok=None)
        if ok:
            require(r.rc == 0, 'bup %r failed' % (args,), r, ' / '.join(self.log))
        return r

    def verify(self):
        """Everything bup built must pass its own checks, and the harness's."""
        hist = ' / '.join(self.log)
        if self.aux(['midx']):
            r = self.bup('midx', '--check', '-a')
            require(b'All tests passed' in r.err, 'midx --check complains', r, hist)
        for name in self.aux(['midx']):
            parse_midx(os.path.join(self.dir, name), self.model, hist)
        bl = self.dir + b'/bup.bloom'
        if os.path.exists(bl):
            data = open(bl, 'rb').read()
            names = bloom_names(data)
            for n in [n for n in sorted(self.model) if n in names][:3]:
                p = n if self.rnd.random() < .3 else os.path.join(self.dir, n)
                r = self.bup('bloom', '-c', p)
                require(b'All tests passed' in r.err, 'bloom --check complains', r, hist)

def bloom_names(data):
    bits, k, entries = struct.unpack('>HHI', data[8:16])
    tail = data[16 + 2**bits:]
    return tail.split(b'\0') if tail else []

def parse_midx(path, model, hist):
    data = open(path, 'rb').read()
    what = os.path.basename(path).decode('latin1')
    require(data[:4] == b'MIDX' and struct.unpack('>I', data[4:8])[0] == 4, what + ': bad header', hist)
    bits = struct.unpack('>I', data[8:12])[0]
    n = 1 << bits
    fan = struct.unpack('>%dI' % n, data[12:12 + 4 * n])
    total = fan[-1]
    so = 12 + 4 * n
    ids = [data[so + 20 * i:so + 20 * i + 20] for i in range(total)]
    wo = so + 20 * total
    which = struct.unpack('>%dI' % total, data[wo:wo + 4 * total])
    names = data[wo + 4 * total:].split(b'\0')
    if any(x not in model for x in names):
        return None            # refers to removed packs: stale
    require(ids == sorted(ids), what + ': ids out of order', hist)
    i = 0
    for p in range(n):
        while i < total and (int.from_bytes(ids[i][:4], 'big') >> (32 - bits) if bits else 0) <= p:
            i += 1
        require(fan[p] == i, what + ': bad fanout at %d' % p, hist)
    for o, w in zip(ids, which):
        require(w < len(names) and o in model[names[w]], what + ': %s attributed to the wrong idx' % o.hex(), hist)
    want = set().union(*(model[x] for x in names))
    require(set(ids) == want, what + ': its ids are not those of its idx files', hist)
    return names

def run(case, ctx):
    w = World(case, ctx)
    w.add(case['packs'])
    w.log.append('%d packs' % len(w.model))
    built = False
    w.fresh('without merged indexes')
    for step, o in enumerate(case['ops']):
        k, i = o['op'], o['i']
        w.log.append(k + ('(max %s)' % o['max'] if o.get('max') else '') + ('(-k %s)' % o['k'] if o.get('k') else ''))
        rnd = random.Random(i)
        check = False
        if k == 'add':
            w.add(o['packs'])
        elif k == 'rm':
            w.remove(i)
        elif k in ('midx-a', 'midx-f', 'midx-af', 'midx-x'):
            args = ['midx']
            if o['max']:
                args += ['--max-files', str(o['max'])]
            if o['print']:
                args.append('-p')
            if o['out']:
                args += ['-o', w.dir + b'/o%d.midx' % (i % 3)]
            if k == 'midx-x':
                c = sorted(w.model) + [n for n in w.aux(['midx'])]
                pick = rnd.sample(c, rnd.randrange(1, min(len(c), 5) + 1))
                if o['out'] and b'o%d.midx' % (i % 3) in pick:
                    pick.remove(b'o%d.midx' % (i % 3))
                if not pick:
                    continue
                if any(n.endswith(b'.midx') for n in pick):
                    ctx.label('midx of midx')
                r = w.bup(*args, *[os.path.join(w.dir, n) for n in pick])
            else:
                r = w.bup(*args, {'midx-a': '-a', 'midx-f': '-f', 'midx-af': '-af'}[k])
                if k == 'midx-f' and len(w.model) > 1:
                    full = [n for n in w.aux(['midx'])
                            if set(parse_midx(os.path.join(w.dir, n), w.model, ' / '.join(w.log)) or ()) == set(w.model)]
                    require(full or w.tampered, 'after midx -f no midx has all of the packs', r, ' / '.join(w.log))
            if o['print']:
                for n in r.out.splitlines():
                    require(os.path.exists(n), 'midx -p names a file that does not exist', n, ' / '.join(w.log))
            built = True
            check = True
        elif k in ('bloom', 'bloom-f', 'bloom-k'):
            args = ['bloom']
            if k == 'bloom-f':
                args.append('-f')
            if o['k']:
                args += ['-k', str(o['k'])]
            w.bup(*args)
            data = open(w.dir + b'/bup.bloom', 'rb').read()
            require(set(w.model) <= set(bloom_names(data)), 'bloom does not list every idx', ' / '.join(w.log))
            built = check = True
        elif k in ('sync', 'auto'):
            # what a client does on suggested packs: one long-lived list
            if k == 'sync':
                new = [{'clusters': [{'seed': i % 31, 'prefix': rnd.choice([0, 1, 4]), 'base': 'rnd', 'n': rnd.randrange(1, 40), 'seq': False}],
                        'version': 2, 'ofs': 'small', 'dup': rnd.choice([0, .2]), 'seed': i % 1000}]
                before = w.queries()
                old = {n: dict(m) for n, m in w.model.items()}
                ctx.label('long-lived list')
                r1, r2 = os.pipe(), os.pipe()
                d = w.dir
                held = {}
                def go():
                    from bup import git
                    with git.PackIdxList(d) as pl:
                        a = answers(pl, before)
                        pl.close_temps()
                        os.write(r1[1], b'x')
                        os.read(r2[0], 1)
                        pl.refresh()
                        return a, answers(pl, held['q']())
                # queries after the change are chosen now, so that the child can use them
                w.add(new)
                after = w.queries()
                cur = w.model
                added = [n for n in cur if n not in old]
                tmp = [(os.path.join(d, n), os.path.join(w.ctx.bdir, n)) for n in added]
                for a, b in tmp:
                    os.rename(a, b)
                held['q'] = lambda: after
                import threading
                def middle():
                    os.read(r1[0], 1)
                    for a, b in tmp:
                        os.rename(b, a)
                    res.append(w.ctx.bup('midx', '-a', env=w.env, ok=None))
                    res.append(w.ctx.bup('bloom', env=w.env, ok=None))
                    os.write(r2[1], b'x')
                res = []
                t = threading.Thread(target=middle)
                t.start()
                ok, got = in_child(go)
                if not ok:
                    os.write(r1[1], b'x')
                t.join()
                for fd in r1 + r2:
                    os.close(fd)
                require(ok, 'a long-lived list failed', got, ' / '.join(w.log))
                require(all(r.rc == 0 for r in res), 'midx or bloom failed', res)
                w.model = old
                w.judge(before, got[0], 'before the refresh')
                w.model = cur
                w.judge(after, got[1], 'after the refresh')
            else:
                d = w.dir
                w.bup('midx', '--auto', '--dir', d)
                w.bup('bloom', '--dir', d)
            built = check = True
        elif k == 'unstash':
            # midx and bloom files from an earlier time come back
            if w.stash and os.listdir(w.stash):
                for n in os.listdir(w.stash):
                    shutil.copy(os.path.join(w.stash, n), w.dir)
                ctx.label('stale files')
                w.tampered = True
        elif k in ('cut', 'smash'):
            a = w.aux()
            if not a:
                continue
            p = os.path.join(w.dir, a[i % len(a)])
            data = open(p, 'rb').read()
            if k == 'cut':
                bounds = {0, 3, 4, 7, 8, 11, 12, 15, 16, len(data) // 2, len(data) - 1, len(data) - 46}
                n = rnd.choice([rnd.randrange(0, len(data)), rnd.choice(sorted(bounds)), len(data) - rnd.randrange(1, 50)])
                n = max(0, min(len(data) - 1, n))
                if data[n:n + 1] == b'\0' and p.endswith(b'.midx'):
                    n += 1     # a list of names cut exactly between two names is not recognisable
                    if n >= len(data):
                        continue
                data = data[:n]
                ctx.label('truncated ' + p.split(b'.')[-1].decode())
            else:
                how = rnd.randrange(3)
                if how == 0:
                    data = b'JUNK' + data[4:]
                elif how == 1:
                    data = data[:4] + struct.pack('>I', rnd.choice([0, 1, 3, 5, 2**31, 2**32 - 1] + ([4] if p.endswith(b'.bloom') else [2]))) + data[8:]
                else:
                    data = bytes(rnd.getrandbits(8) for _ in range(rnd.choice([0, 1, 4, 8, 100, 5000])))
                ctx.label('foreign ' + p.split(b'.')[-1].decode())
            os.unlink(p)
            with open(p, 'wb') as f:
                f.write(data)
            w.tampered = True
            w.fresh('step %d %s' % (step, k))
            # whatever a save does next must work, and repair or leave it
            if rnd.random() < .7:
                for c in (['midx', '-a'], ['bloom']) + ((['midx', '-f'],) if rnd.random() < .5 else ()):
                    r = w.bup(*c, ok=None)
                    require(r.rc >= 0 and (b'Traceback' not in r.err or r.err.count(b'Traceback') == r.err.count(b'Exception ignored')), 'bup %s crashes on a damaged index' % c, r, ' / '.join(w.log))
                    w.fresh('step %d %s, then %s' % (step, k, c))
            if os.path.exists(p):
                os.unlink(p)
            continue
        elif k == 'foreign':
            with open(w.dir + b'/' + rnd.choice([b'multi-pack-index', b'x.bloom', b'bup.bloom-x1', b'midx-0.midx.tmp', b'tmp_idx_ABC', b'pack-1.rev', b'pack-1.keep', b'.midx.swp']), 'wb') as f:
                f.write(b'\xfftOc' * rnd.randrange(0, 9))
        if built and k in ('add', 'rm', 'unstash'):
            ctx.nontrivial()
            ctx.label('changed after building')
        if check and len(w.model) > 1:
            ctx.nontrivial()
        w.fresh('step %d %s' % (step, k))
        if check and not w.tampered:
            if rnd.random() < .6:
                w.keep()
            w.verify()
            w.fresh('step %d %s, checked' % (step, k))

SUITES = [Suite('indexes', case, run, 190, 4000,
                'some merged or bloom index was built over several packs, or packs changed afterwards')]
TECHNIQUE = ('model-based stateful generation: random idx files (both formats, 64-bit offsets, ids sharing prefixes, duplicates) and random '
             'sequences of midx/bloom/add/remove/damage, every lookup compared with a set model and built files parsed independently')
