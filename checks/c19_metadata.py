"""C19: metadata records survive encoding; malformed ones are rejected."""
import io, os, random, stat
from hypothesis import strategies as st
from vt import bupmeta, fs, gen
from vt.core import Suite, Violation, require, bup_call

ASSUMPTIONS = [
    'There are no checksums in metadata records, so arbitrary damage may produce different values; what is required is that truncated '
    'records and records whose parts do not fit together raise an exception, and that no input crashes the process or fails inside the C helpers.',
    'bup meta archives record no hard links and no file content.',
]

# ---- in-process codec

def near(draw, lo, hi):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.integers(lo, hi))
    p = 2 ** draw(st.integers(0, max(1, hi.bit_length())))
    v = p + draw(st.integers(-1, 1))
    if lo < 0 and draw(st.booleans()):
        v = -v
    return min(max(v, lo), hi)

raw = st.one_of(st.binary(min_size=1, max_size=12), st.sampled_from([b'x', b'a/b', b'\0', b'\xff' * 3, b'n' * 127, b'n' * 128, b'n' * 300, b'p' * 20000, b'\n', b',']))
raw0 = st.one_of(st.just(b''), raw)
TYPES = [stat.S_IFREG, stat.S_IFREG, stat.S_IFDIR, stat.S_IFLNK, stat.S_IFCHR, stat.S_IFBLK, stat.S_IFIFO, stat.S_IFSOCK]

@st.composite
def time_ns(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return draw(st.sampled_from([0, 1, -1, 999999999, -999999999, 10**9, -10**9, 10**9 - 1, 1 - 10**9, -10**9 - 1, -1500000000]))
    return near(draw, -2**63, 2**63) * (10**9 if k == 1 else 1) + (draw(st.integers(0, 10**9 - 1)) if k == 2 else 0)

@st.composite
def meta(draw):
    m = {'mode': draw(st.sampled_from(TYPES)) | draw(st.integers(0, 0o7777)),
         'uid': near(draw, 0, 2**32), 'gid': near(draw, 0, 2**32),
         'user': draw(raw0), 'group': draw(raw0),
         'rdev': near(draw, 0, 2**64) if draw(st.integers(0, 3)) == 0 else 0,
         'atime': draw(time_ns()), 'mtime': draw(time_ns()), 'ctime': draw(time_ns())}
    if draw(st.integers(0, 3)):
        m['size'] = near(draw, 0, 2**64)
    if draw(st.booleans()):
        m['path'] = draw(raw)
    if stat.S_ISLNK(m['mode']):
        m['target'] = draw(raw)
        m['size'] = len(m['target'])
    if draw(st.integers(0, 4)) == 0:
        m['hard'] = draw(raw)
    if draw(st.integers(0, 3)) == 0:
        m['acl'] = (draw(raw), draw(raw)) + ((draw(raw), draw(raw)) if draw(st.booleans()) else (b'', b''))
    if draw(st.integers(0, 3)) == 0:
        m['attr'] = max(1, near(draw, 1, 2**64))
    if draw(st.integers(0, 3)) == 0:
        m['xattr'] = tuple(draw(st.lists(st.tuples(raw, raw0), min_size=1, max_size=4)))
    return m

@st.composite
def item(draw):
    k = draw(st.sampled_from(['now'] * 6 + ['empty', 'v2', 'v1', 'unknown', 'unknown', 'acl1', 'order']))
    if k == 'empty':
        return {'k': k}
    m = draw(meta())
    d = {'k': k, 'm': m, 'seed': draw(st.integers(0, 1000))}
    if k == 'unknown':
        d['extra'] = draw(st.lists(st.tuples(st.sampled_from([5, 12, 13, 127, 128, 300, 2**31, 2**40]), raw0), min_size=1, max_size=4))
    return d

@st.composite
def codec(draw):
    return {'items': draw(st.lists(item(), min_size=1, max_size=6)), 'seed': draw(st.integers(0, 10**6))}

SLOTS = {'mode': 'mode', 'uid': 'uid', 'gid': 'gid', 'user': 'user', 'group': 'group', 'rdev': 'rdev', 'atime': 'atime',
         'mtime': 'mtime', 'ctime': 'ctime', 'size': 'size', 'path': 'path', 'target': 'symlink_target', 'hard': 'hardlink_target',
         'attr': 'linux_attr', 'xattr': 'linux_xattr', 'acl': 'posix1e_acl'}

def native(k, v):
    if k == 'acl':
        return v if v[2] else v[:2]
    if k == 'xattr':
        return list(v)
    return v

def to_bup(m):
    from bup.metadata import Metadata
    o = Metadata(frozen=False)
    for k, v in m.items():
        setattr(o, SLOTS[k], native(k, v))
    return o.freeze()

def from_bup(o):
    out = {}
    for k, s in SLOTS.items():
        v = getattr(o, s)
        if v is None:
            continue
        if k == 'acl':
            v = tuple(v) + (b'', b'') * (len(v) == 2)
        if k == 'xattr':
            v = tuple((a, b) for a, b in v)
        out[k] = v
    return out

def rec(tag, data):
    return bupmeta.wvuint(tag) + bupmeta.wbvec(data)

def split_recs(enc):
    rs, i = bupmeta.records(enc)
    assert i == len(enc)
    return rs

def encode_item(it):
    """(bytes, expected fields)"""
    k = it['k']
    if k == 'empty':
        return b'\0', None
    m = dict(it['m'])
    rnd = random.Random(it['seed'])
    if k in ('v1', 'v2') and 'size' in m and 'target' not in m:
        del m['size']
    rs = split_recs(bupmeta.encode(m))
    if k == 'v2':
        for i, (t, d) in enumerate(rs):
            if t == 10:
                v = bupmeta.unpack(bupmeta.FIELDS, d)
                rs[i] = (9, bupmeta.pack(bupmeta.FIELDS[:-1], v[:-1]))
    elif k == 'v1':
        for i, (t, d) in enumerate(rs):
            if t == 10:
                v = bupmeta.unpack(bupmeta.FIELDS, d)
                rs[i] = (2, bupmeta.pack('VVsVsVvVvVvV', v[:-1]))
    elif k == 'acl1' and rnd.random() < .1:
        # an entry in the broken old format that cannot be interpreted: ignored (and reported)
        m.pop('acl', None)
        rs = [r for r in rs if r[0] != 11] + [(4, bupmeta.pack('ssss', [b'u::r,g::r', b'u::r', b'', b'']))]
    elif k == 'acl1':
        a = tuple(x.replace(b',', b';').replace(b'\n', b'.') for x in m.get('acl', (b'u::r', b'u::r', b'', b'')))
        m['acl'] = tuple(x.replace(b';', b',') for x in a)
        rs = [r for r in rs if r[0] != 11] + [(4, bupmeta.pack('ssss', [x.replace(b';', b'\n') for x in a]))]
    elif k == 'unknown':
        for t, d in it['extra']:
            rs.insert(rnd.randrange(0, len(rs) + 1), (t, d))
    elif k == 'order':
        # any order of records is fine, except that the size comes from the common record
        rnd.shuffle(rs)
    return b''.join(rec(t, d) for t, d in rs) + b'\0', m

def read_all(data):
    from bup.metadata import Metadata, empty_metadata
    f = io.BytesIO(data)
    out = []
    while True:
        m = bup_call(Metadata.read, f)
        if m is None:
            require(f.tell() == len(data), 'end of the stream reported early', f.tell(), len(data))
            return out
        out.append(None if m is empty_metadata else m)

def show(m):
    return {k: v for k, v in m.items()} if m is not None else None

def damage(it, rnd):
    """An entry whose records do not fit together: must be rejected."""
    rs = split_recs(encode_item(it)[0])
    kind = rnd.choice(['short', 'short', 'count'])
    cand = [i for i, (t, d) in enumerate(rs) if t in (1, 9, 10, 2, 4, 11, 6, 7)]
    if not cand:
        return None, None
    i = rnd.choice(cand)
    t, d = rs[i]
    if kind == 'count':
        xs = [i for i, (t, d) in enumerate(rs) if t == 7]
        if not xs:
            return None, None
        i = xs[0]
        t, d = rs[i]
        n, j = bupmeta.rvuint(d, 0)
        d = bupmeta.wvuint(n + rnd.choice([1, 2, 100])) + d[j:]
    else:
        if len(d) < 1:
            return None, None
        d = d[:rnd.randrange(len(d))]
    rs[i] = (t, d)
    return b''.join(rec(t, d) for t, d in rs) + b'\0', (kind, t)

def run_codec(c, ctx):
    from bup import metadata
    from bup.metadata import Metadata
    metadata.note_error = lambda msg: None
    rnd = random.Random(c['seed'])
    enc, want = [], []
    for it in c['items']:
        ctx.label(it['k'])
        b, m = encode_item(it)
        enc.append(b)
        want.append(m)
        if it['k'] in ('now', 'unknown', 'order'):
            o = to_bup(it['m'])
            e = bup_call(o.encode)
            ref = bupmeta.encode(it['m'])
            require(e == ref, 'the encoding is not the documented one', e[:300], ref[:300], it['m'])
            f = io.BytesIO()
            bup_call(o.write, f)
            require(f.getvalue() == ref, 'write() and encode() differ')
            nopath = {k: v for k, v in it['m'].items() if k != 'path'}
            require(bup_call(lambda: o.encode(include_path=False)) == bupmeta.encode(nopath), 'include_path=False is wrong', it['m'])
            require(bup_call(to_bup(dict(reversed(list(it['m'].items())))).encode) == ref, 'equal metadata is stored differently')
    if any(m and (m.get('xattr') or m.get('acl') or m.get('target') or m['mtime'] < 0) for m in want):
        ctx.nontrivial()
    data = b''.join(enc)
    got = read_all(data)
    require(len(got) == len(want), 'wrong number of entries', len(got), len(want))
    for w, g in zip(want, got):
        g = None if g is None else from_bup(g)
        require(g == w, 'an entry reads back differently', {k: (w or {}).get(k) for k in SLOTS if (w or {}).get(k) != (g or {}).get(k)},
                {k: (g or {}).get(k) for k in SLOTS if (w or {}).get(k) != (g or {}).get(k)})
    # equality agrees with the content
    objs = [(m, o) for m, o in zip(want, got) if m is not None]
    for m, o in objs:
        require(o == to_bup(m), 'an entry read back does not equal the original', m)
    # every truncation
    ends = [0]
    for b in enc:
        ends.append(ends[-1] + len(b))
    cuts = set(range(len(data))) if len(data) <= 300 else {rnd.randrange(len(data)) for _ in range(120)} | {e + d for e in ends for d in (-2, -1, 0, 1, 2, 3) if 0 <= e + d < len(data)}
    for n in sorted(cuts):
        f = io.BytesIO(data[:n])
        whole = [e for e in ends[1:] if e <= n]
        try:
            for _ in whole:
                bup_call(Metadata.read, f)
            require(f.tell() == (whole[-1] if whole else 0), 'an entry was not read exactly')
        except Exception as ex:
            raise Violation('entries before a truncation cannot be read: %r' % ex) from ex
        if n in ends:
            require(bup_call(Metadata.read, f) is None, 'an entry was read at the end of the stream')
            continue
        try:
            m = Metadata.read(f)
        except Exception as ex:
            require(not isinstance(ex, (SystemError, MemoryError)), 'a truncated entry fails badly: %r' % ex)
            continue
        require(False, 'a truncated entry is accepted (%d of %d bytes)' % (n, len(data)), show(None if m is None else from_bup(m)) if m is not None else 'as the end', data[:n][-60:])
    # records that do not fit
    for it in c['items']:
        if it['k'] == 'empty':
            continue
        for _ in range(4):
            bad, what = damage(it, rnd)
            if bad is None:
                continue
            try:
                m = Metadata.read(io.BytesIO(bad + b'\0'))
            except Exception as ex:
                require(not isinstance(ex, (SystemError, MemoryError)), 'a damaged record fails badly: %r' % ex, what)
                ctx.label('damaged %s' % what[0])
                continue
            require(False, 'a damaged record is accepted', what, from_bup(m))
    # arbitrary damage: no crash; what is accepted can be stored again
    for _ in range(25):
        b = bytearray(data)
        for _ in range(rnd.choice([1, 1, 2, 5])):
            k = rnd.randrange(4)
            p = rnd.randrange(len(b)) if b else 0
            if k == 0 and b:
                b[p] ^= 1 << rnd.randrange(8)
            elif k == 1:
                b[p:p] = bytes(rnd.choice([0, 1, 7, 10, 127, 128, 255]) for _ in range(rnd.randrange(1, 4)))
            elif k == 2:
                del b[p:p + rnd.randrange(1, 5)]
            elif b:
                b[p] = rnd.choice([0, 127, 128, 255])
        f = io.BytesIO(bytes(b))
        for _ in range(50):
            try:
                m = Metadata.read(f)
            except Exception as ex:
                # A damaged length may exceed the address space
                require(not isinstance(ex, SystemError), 'arbitrary data fails badly: %r' % ex, bytes(b)[:200])
                break
            if m is None:
                break

# ---- bup meta

@st.composite
def arch(draw):
    return {'tree': draw(gen.tree(depth=3, max_entries=5, big=300)),
            'recurse': draw(st.integers(0, 4)) != 0,
            'x': draw(st.sampled_from(['x', 'x', 'se'])),
            'symlinks': draw(st.integers(0, 5)) != 0,
            'paths': draw(st.integers(0, 5)) != 0,
            'numeric': draw(st.booleans()),
            'form': draw(st.sampled_from(['rel', 'abs', 'dot', 'many'])),
            'stdio': draw(st.booleans()),
            'cut': draw(st.integers(0, 10**6)),
            'edit': draw(st.lists(st.sampled_from([('--set-uid', 12), ('--set-uid', 0), ('--set-gid', 7), ('--set-user', b'nobody'), ('--set-user', b'\xffx'),
                                                   ('--set-group', b'daemon'), ('--unset-user',), ('--unset-group',)]), max_size=4))}

def run_arch(c, ctx):
    d = ctx.bdir
    src = d + b'/src'
    os.mkdir(src)
    fs.build(src, c['tree'])
    want, _ = fs.snapshot(src)
    recs = {}
    for p, e in want.items():
        recs[p] = os.lstat(os.path.join(src, p) if p else src)
    args = [] if c['recurse'] else ['--no-recurse']
    if not c['symlinks']:
        args.append('--no-symlinks')
    if not c['paths']:
        args.append('--no-paths')
    if c['form'] == 'abs':
        roots, pre = [src], src[1:]
    elif c['form'] == 'dot':
        roots, pre = [b'./src'], b'src'
    elif c['form'] == 'many':
        tops = sorted({p.split(b'/')[0] for p in want if p})
        if not tops:
            return
        roots, pre = [b'src/' + t for t in tops], b'src'
    else:
        roots, pre = [b'src'], b'src'
    def bup(*a, **k):
        return ctx.bup('meta', *a, cwd=k.pop('cwd', d), ok=None, **k)
    f = d + b'/m'
    if c['stdio']:
        r = bup('-c', *args, *roots)
        data = r.out
        with open(f, 'wb') as o:
            o.write(data)
    else:
        r = bup('-c', *args, '-f', f, *roots)
        data = open(f, 'rb').read()
    require(r.rc == 0, 'bup meta -c failed', r)
    got = bupmeta.decode_all(data)
    # which paths are expected
    if c['form'] == 'many':
        exp = [p for p in want if p and (c['recurse'] or b'/' not in p)]
    else:
        exp = [p for p in want if c['recurse'] or not p]
    require(len(got) == len(exp), 'wrong number of entries', len(got), len(exp))
    ctx.nontrivial(len(exp) > 2)
    for t in {want[p]['t'] for p in exp}:
        ctx.label('type ' + t)
    if not c['paths']:
        require(all('path' not in m for m in got), '--no-paths stored a path')
        r = bup('-t', '-f', f)
        require(r.rc != 0, 'paths listed without paths', r)
        r = bup('-t', '-v', '-f', f)
        require(r.rc == 0 and r.out.count(b'\n') >= len(exp), 'listing failed', r)
        return
    by = {}
    for m in got:
        by[m['path']] = m
    full = {}
    for p in exp:
        q = pre + (b'/' + p if p else b'')
        full[q + (b'/' if want[p]['t'] == 'd' else b'')] = p
    require(set(by) == set(full), 'wrong paths', sorted(set(by) ^ set(full))[:5])
    for q, p in full.items():
        m, s, e = by[q], recs[p], want[p]
        chk = {'mode': s.st_mode, 'uid': s.st_uid, 'gid': s.st_gid, 'mtime': s.st_mtime_ns}
        require({k: m[k] for k in chk} == chk, 'wrong metadata stored', p, {k: m[k] for k in chk}, chk)
        if e['t'] == 'l' and c['symlinks']:
            require(m.get('target') == e['to'], 'wrong symlink target stored', p)
    for v in ([], ['-v'], ['-vv']):
        r = bup('-t', *v, '-f', f) if not c['stdio'] else bup('-t', *v, stdin=data)
        require(r.rc == 0, 'listing failed', v, r)
        if not v:
            require(r.out == b''.join(m['path'] + b'\n' for m in got), 'wrong listing', r)
    # extraction
    def extract(f, to, want_of, opts=()):
        os.mkdir(to)
        opts = list(opts)
        if c['numeric']:
            opts.append('--numeric-ids')
        if c['x'] == 'x':
            r = bup('-x', *opts, '-f', f, cwd=to)
        else:
            r = bup('--start-extract', *opts, '-f', f, cwd=to)
            require(r.rc == 0, '--start-extract failed', r)
            r = bup('--finish-extract', *opts, '-f', f, cwd=to)
        require(r.rc == 0, 'extraction failed', r)
        for q, p in full.items():
            e = dict(want_of(q, p))
            path = os.path.join(to, q.rstrip(b'/'))
            require(os.path.lexists(path), 'not extracted', q)
            g, _ = fs.entry(path)
            if e['t'] == 'f':
                require(g['n'] == 0, 'an extracted file is not empty', q)
            for k in ('c', 'n'):
                e.pop(k, None)
                g.pop(k, None)
            require(e == g, 'extracted metadata differs', q, {k: (e.get(k), g.get(k)) for k in e if e.get(k) != g.get(k)})
    if c['symlinks']:
        extract(f, d + b'/out', lambda q, p: want[p])
    # editing
    if c['edit'] and c['symlinks']:
        ctx.label('edited')
        f2 = d + b'/m2'
        flat = [x for e in c['edit'] for x in e]
        r = bup('--edit', *[str(x) if isinstance(x, int) else x for x in flat], f, '-f', f2)
        require(r.rc == 0, 'edit failed', r)
        for a, b in zip(bupmeta.decode_all(data), bupmeta.decode_all(open(f2, 'rb').read()), strict=True):
            w = dict(a)
            for e in c['edit']:
                if e[0] == '--unset-user':
                    w['user'] = b''
                elif e[0] == '--unset-group':
                    w['group'] = b''
                else:
                    w[e[0][6:]] = e[1]
            require(w == b, 'edited metadata is wrong', c['edit'], {k: (w.get(k), b.get(k)) for k in w if w.get(k) != b.get(k)})
    # truncated archives are noticed
    n = c['cut'] % len(data)
    ends, i = [0], 0
    while i < len(data):
        _, i = bupmeta.records(data, i)
        ends.append(i)
    if n not in ends:
        os.mkdir(d + b'/out3')
        with open(d + b'/m3', 'wb') as o:
            o.write(data[:n])
        for a in (['-t', '-v'], ['-x']):
            r = bup(*a, '-f', d + b'/m3', cwd=d + b'/out3')
            require(r.rc > 0, 'a truncated archive went unnoticed', a, n, r)

SUITES = [
    Suite('codec', codec, run_codec, 1600, 60000, 'an entry has xattrs, ACLs, a link target or a time before 1970'),
    Suite('archive', arch, run_arch, 120, 2500, 'at least three paths were archived'),
]
TECHNIQUE = ('round-trip and differential testing of generated metadata against an independent codec, with exhaustive truncation, structural '
             'damage and random mutation; generated trees through bup meta create/list/extract/edit')
