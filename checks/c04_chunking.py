"""C04: chunk boundaries are the specified pure function of content."""
import os, io, random, threading, hashlib
from hypothesis import strategies as st
from vt import gen, roll, ops
from vt.core import Suite, Violation, require, bup_call

TECHNIQUE = 'property-based testing against an independent model of the rolling-checksum rule; metamorphic edits'
LEVEL = 'exploration'
LEVEL_NOTE = 'Every generated stream is compared chunk by chunk with a closed-form model of the documented rule; trusts vt/roll.py as that rule.'

class Frag:
    """File-like object whose reads return generated amounts."""
    def __init__(self, data, seed):
        self.data, self.pos, self.rnd, self.seed = data, 0, random.Random(seed), seed
    def read(self, n):
        require(n > 0, 'splitter asked for %d bytes' % n)
        mode = self.seed % 4
        k = {0: n, 1: 1 + self.rnd.randrange(7), 2: 1 + self.rnd.randrange(5000),
             3: self.rnd.choice([1, 64, 8192, 65536, n])}[mode]
        r = self.data[self.pos:self.pos + min(n, k)]
        self.pos += len(r)
        return r if self.rnd.randrange(3) else (bytearray(r) if self.rnd.randrange(2) else memoryview(r))

@st.composite
def stream(draw, big=120000):
    n = draw(st.integers(1, 4))
    kinds = st.sampled_from(['frag', 'frag', 'frag', 'bytesio', 'file', 'file', 'pipe'])
    return {'parts': [(draw(kinds), draw(gen.content(3, big)), draw(st.integers(0, 99))) for _ in range(n)],
            'bits': draw(st.sampled_from([13, 13, 13, 13, 14, 15, 16, 17, 21])),
            'fan': draw(st.sampled_from([4, 4, 4, 1, 2, 3, 5, 8])),
            'keep': draw(st.booleans())}

def expect(parts, bits, fan, keep):
    streams = parts if keep else [b''.join(parts)]
    out = []
    for s in streams:
        pos = 0
        for n, lev in roll.split(s, bits, fan):
            out.append((s[pos:pos + n], lev))
            pos += n
    return out

def run_stream(c, ctx):
    from bup import hashsplit
    datas, files, closers = [], [], []
    for i, (kind, segs, seed) in enumerate(c['parts']):
        d = gen.realize(segs)
        datas.append(d)
        if kind == 'frag':
            if seed % 4 == 1:      # reads of a few bytes: keep these short
                d = d[:30000]
                datas[-1] = d
            files.append(Frag(d, seed))
        elif kind == 'bytesio':
            files.append(io.BytesIO(d))
        elif kind == 'file':
            p = ctx.bdir + b'/f%d' % i
            with open(p, 'wb') as f:
                f.write(d)
            f = open(p, 'rb')
            closers.append(f)
            files.append(f)
        else:
            r, w = os.pipe()
            def feed(w=w, d=d, seed=seed):
                rnd = random.Random(seed)
                pos = 0
                try:
                    with os.fdopen(w, 'wb', buffering=0) as f:
                        while pos < len(d):
                            n = rnd.choice([1, 100, 4096, 65536, len(d)])
                            f.write(d[pos:pos + n])
                            pos += n
                except OSError:
                    pass
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            f = os.fdopen(r, 'rb')
            closers.append(f)
            files.append(f)
    prog = []
    try:
        if c['keep'] and c['bits'] == 13 and c['fan'] == 4:
            it = hashsplit.splitter(iter(files), keep_boundaries=True, progress=lambda i, n: prog.append((i, n)))
        else:
            it = hashsplit.splitter(iter(files), keep_boundaries=c['keep'], blobbits=c['bits'], fanbits=c['fan'])
        held = list(bup_call(list, it))
        got = [(bytes(b), lev) for b, lev in held]
    finally:
        for f in closers:
            f.close()
    want = expect(datas, c['bits'], c['fan'], c['keep'])
    compare(want, got, datas, c)
    if prog:
        tot = {}
        for i, n in prog:
            tot[i] = tot.get(i, 0) + n
        require(all(tot.get(i, 0) == len(d) for i, d in enumerate(datas)),
                'progress does not account for the bytes read', tot, [len(d) for d in datas])
    ctx.nontrivial(len(got) > 2)
    if any(l for _, l in got):
        ctx.label('levels')
    if any(l > 1 for _, l in got):
        ctx.label('level>1')
    if any(len(b) == 4 << c['bits'] for b, _ in got):
        ctx.label('max-size chunk')
    ctx.label('keep' if c['keep'] else 'joined')

def compare(want, got, datas, c):
    total = b''.join(datas)
    require(b''.join(b for b, _ in got) == total, 'pieces do not concatenate to the input',
            len(total), [len(b) for b, _ in got][:50])
    require(all(len(b) <= 4 << c['bits'] for b, _ in got), 'piece exceeds the maximum size')
    require([len(b) for b, _ in want] == [len(b) for b, _ in got], 'boundaries differ from the rule',
            [len(b) for b, _ in want][:60], [len(b) for b, _ in got][:60])
    require([l for _, l in want] == [l for _, l in got], 'levels differ from the rule',
            [l for _, l in want][:60], [l for _, l in got][:60])

# Streams beyond the splitter's 8 MiB buffer.
@st.composite
def bigstream(draw):
    return {'n': draw(st.integers(8 * 2**20 - 100000, 8 * 2**20 + 4000000)),
            'extra': draw(st.lists(st.integers(0, 300000), max_size=3)),
            'kind': draw(st.sampled_from(['file', 'frag', 'mixed'])),
            'seed': draw(st.integers(0, 20)), 'bits': draw(st.sampled_from([13, 13, 16, 21])),
            'zeros': draw(st.booleans()), 'keep': draw(st.booleans())}

def run_big(c, ctx):
    from bup import hashsplit
    rnd = random.Random(c['seed'])
    datas = []
    for n in [c['n']] + c['extra']:
        if c['zeros']:
            cut = rnd.randrange(n + 1)
            datas.append(bytes(cut) + rnd.randbytes(n - cut))
        else:
            datas.append(rnd.randbytes(n))
    files = []
    for i, d in enumerate(datas):
        if c['kind'] == 'file' or (c['kind'] == 'mixed' and i % 2):
            p = ctx.bdir + b'/f%d' % i
            with open(p, 'wb') as f:
                f.write(d)
            files.append(open(p, 'rb'))
        else:
            files.append(Frag(d, 3 + 4 * c['seed']) if c['kind'] == 'frag' else io.BytesIO(d))
    got = [(bytes(b), lev) for b, lev in bup_call(
        list, hashsplit.splitter(files, keep_boundaries=c['keep'], blobbits=c['bits']))]
    for f in files:
        if hasattr(f, 'close'):
            f.close()
    compare(expect(datas, c['bits'], 4, c['keep']), got, datas, c)
    ctx.nontrivial(sum(map(len, datas)) > 8 * 2**20)

# Locality of edits.
@st.composite
def edit(draw):
    return {'base': draw(gen.content(4, 200000)), 'pos': draw(st.integers(0, 10**6)),
            'del': draw(st.integers(0, 3000)), 'ins': draw(gen.content(1, 20000)),
            'bits': draw(st.sampled_from([13, 13, 14]))}

def bounds(data, bits):
    from bup import hashsplit
    pos, out = 0, []
    for b, lev in hashsplit.splitter([io.BytesIO(data)], blobbits=bits):
        pos += len(b)
        out.append(pos)
    return out

def run_edit(c, ctx):
    a = gen.realize(c['base'])
    p = c['pos'] % (len(a) + 1)
    q = min(len(a), p + c['del'])
    ins = gen.realize(c['ins'])
    b = a[:p] + ins + a[q:]
    A, B = bounds(a, c['bits']), bounds(b, c['bits'])
    # before: boundaries ending before the edit are the same
    pa = [x for x in A if x < p or (x == p and x < len(a))]
    pb = [x for x in B if x < p or (x == p and x < len(b))]
    require([x for x in pa if x < p] == [x for x in pb if x < p], 'edit changed boundaries before it', A, B, p)
    # after: from the first common boundary on, everything is the same
    d = len(b) - len(a)
    ra = [x for x in A if x >= q]
    rb = [x - d for x in B if x - d >= q]
    common = sorted(set(ra) & set(rb))
    require(common, 'no common boundary at all (the end is one)') if len(a) > q else None
    if common:
        f = common[0]
        require([x for x in ra if x >= f] == [x for x in rb if x >= f],
                'edit changed boundaries after resynchronisation', A, B, p, q)
        # a boundary forced by 64 bytes that both versions contain past the edit
        # must resynchronise, provided the chunk it ends is long enough
        mask = (1 << c['bits']) - 1
        tail = a[q:]
        if len(tail) > 64:
            dg = roll.digests(tail)
            for x in ra:
                i = x - q - 1
                if i >= 64 and (int(dg[i]) & mask) == mask:
                    st_b = max([y for y in [0] + [z - d for z in B] if y < x], default=0)
                    if x - st_b >= 64:
                        require(f <= x, 'boundary past the edit was lost', x, f)
                    break
    ctx.nontrivial(len(A) > 3 and q < len(a))

# Through the command line.
@st.composite
def cli(draw):
    cfg = draw(st.sampled_from([None, 'legacy:13', 'legacy:14', 'legacy:15', 'legacy:17', 'legacy:21']))
    return {'cfg': cfg, 'parts': draw(st.lists(gen.content(3, 150000), min_size=1, max_size=3)),
            'keep': draw(st.booleans()), 'how': draw(st.sampled_from(['stdin', 'files', 'save', 'noop']))}

def run_cli(c, ctx):
    repo = ctx.bdir + b'/r'
    ops.init(ctx, repo, {'bup.split.files': c['cfg']} if c['cfg'] else {})
    bits = int(c['cfg'][-2:]) if c['cfg'] else 13
    datas = [gen.realize(p) for p in c['parts']]
    names = []
    os.mkdir(ctx.bdir + b'/s')
    for i, d in enumerate(datas):
        p = ctx.bdir + b'/s/f%d' % i
        with open(p, 'wb') as f:
            f.write(d)
        names.append(p)
    keep = c['keep'] and c['how'] != 'stdin'
    want = [b for b, _ in expect(datas, bits, 4, keep)]
    ids = [hashlib.sha1(b'blob %d\0' % len(b) + b).hexdigest().encode() for b in want]
    if c['how'] == 'save':
        want = [b for b, _ in expect(datas, bits, 4, True)]
        ops.save(ctx, repo, ctx.bdir + b'/s')
        from vt import gitread
        have = {oid for oid in gitread.Repo(repo).oids()}
        for b in want:
            require(hashlib.sha1(b'blob %d\0' % len(b) + b).digest() in have,
                    'a saved file was not stored as the specified pieces', len(b))
    else:
        a = ['-d', repo, 'split'] + (['--noop', '-b'] if c['how'] == 'noop' else ['-b'])
        if keep:
            a.append('--keep-boundaries')
        r = ctx.bup(*(a + ([] if c['how'] == 'stdin' else names)),
                    stdin=b''.join(datas) if c['how'] == 'stdin' else b'', ok=True)
        require(r.out.split() == ids, 'split -b ids differ from the specified pieces',
                [len(b) for b in want], len(r.out.split()))
    ctx.nontrivial(len(want) > 2)
    ctx.label(c['how'])

SUITES = [
    Suite('stream', stream, run_stream, 1000, 60000,
          '1-4 inputs of generated segments (random, runs, repeats, boundary-forcing windows of chosen level) delivered through '
          'files, pipes and fragmenting readers; non-trivial: more than two pieces', hang=120),
    Suite('big', bigstream, run_big, 12, 400, 'inputs exceeding the 8 MiB read buffer', hang=300),
    Suite('edit', edit, run_edit, 500, 40000, 'insert/delete/replace at a position; non-trivial: more than three pieces and a tail', hang=120),
    Suite('cli', cli, run_cli, 120, 4000, 'bup split -b / --noop / save under each split configuration'),
]
