"""Hypothesis strategies for plain-data cases and their realisation."""
import random, struct
from hypothesis import strategies as st

# ---------------------------------------------------------------- contents

def realize(segs):
    """Turn a content spec (list of segments) into bytes."""
    out = []
    for s in segs:
        k = s[0]
        if k == 'r':
            out.append(random.Random(s[1]).randbytes(s[2]))
        elif k == 'z':
            out.append(bytes(s[1]))
        elif k == 'b':
            out.append(bytes([s[1]]) * s[2])
        elif k == 'l':
            out.append(s[1])
        elif k == 'p':     # repeated random unit
            unit = random.Random(s[1]).randbytes(max(1, s[2]))
            out.append((unit * (s[3] // len(unit) + 1))[:s[3]])
        elif k == 't':     # text lines
            rnd = random.Random(s[1])
            b = b''.join(b'%d line %d\n' % (rnd.randrange(1000), i) for i in range(s[2] // 12 + 1))
            out.append(b[:s[2]])
        elif k == 'T':     # window that forces a chunk boundary of some level
            from . import roll
            out.append(roll.trigger(s[1], s[2], s[3]))
        elif k == 'C':     # many small chunks of assorted levels
            from . import roll
            rnd = random.Random(s[1])
            for _ in range(s[2]):
                out.append(rnd.randbytes(rnd.choice([0, 1, 3, 64, 200])))
                out.append(roll.trigger(13, min(9, int(rnd.expovariate(0.25))), rnd.randrange(3)))
        else:
            raise AssertionError(s)
    return b''.join(out)

def length(big=60000):
    return st.one_of(
        st.integers(0, 200),
        st.sampled_from([0, 1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 8191,
                         8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537]).map(lambda n: min(n, big)),
        st.integers(big // 8, big), st.integers(big // 2, big))

@st.composite
def content(draw, max_segs=3, big=60000):
    n = min(max_segs, draw(st.sampled_from([1, 1, 1, 2, 2, 3, 3, 0, max_segs])))
    segs = []
    for _ in range(n):
        k = draw(st.sampled_from('rrrzblptTC'))
        if k == 'T':
            segs.append(('T', draw(st.sampled_from([13, 13, 13, 14, 16])), draw(st.integers(0, 9)), draw(st.integers(0, 2))))
        elif k == 'C':
            segs.append(('C', draw(st.integers(0, 9)), draw(st.integers(0, max(1, big // 300)))))
        elif k == 'l':
            segs.append(('l', draw(st.binary(max_size=20))))
        elif k == 'r':
            segs.append(('r', draw(st.integers(0, 12)), draw(length(big))))
        elif k == 'z':
            segs.append(('z', draw(length(big))))
        elif k == 'b':
            segs.append(('b', draw(st.integers(0, 255)), draw(length(big))))
        elif k == 'p':
            segs.append(('p', draw(st.integers(0, 5)), draw(st.integers(1, 5000)), draw(length(big))))
        else:
            segs.append(('t', draw(st.integers(0, 5)), draw(length(big))))
    return segs

def small_content():
    return st.one_of(
        st.just([]), st.just([]),
        st.binary(max_size=6).map(lambda b: [('l', b)]),
        st.tuples(st.integers(0, 30), st.integers(1, 3000)).map(lambda t: [('r',) + t]))

def mixed_content(big=60000):
    return st.one_of(small_content(), content(2, big), content(2, big),
                     st.tuples(st.integers(0, 9), st.integers(big // 2, big)).map(lambda t: [('r',) + t]))

# ------------------------------------------------------------------- names

SPECIAL_NAMES = [
    b'.bup', b'.bupl', b'.bupm', b'.bupd', b'.bupa', b'.bupx', b'x.bup', b'x.bupl',
    b'x.bupd', b'x.bupm', b'x.bup.bupl', b'.bupm.bupl', b'..bupd', b'1.bupd', b'..1.bupd', b'x..1.bupd',
    b'...', b'..x', b'.x', b'-', b'-x', b'--help', b' ', b' x', b'x ', b'x\ny', b'\n',
    b'\xff', b'\xc3\xa9', b'\xc3', b'a\\b', b'a"b', b"a'b", b'*', b'[x]', b'a:b', b':', b'~', b'#',
    b'latest', b'.tag', b'.commit', b'.git', b'\x01', b'\x7f', b'.gitmodules', b'%s', b'$x', b'a|b', b'%00',
]
COLLIDING = [b'a', b'a.', b'a-', b'a0', b'aa', b'a b', b'ab', b'a.b', b'a\x01', b'a\xff', b'b', b'A', b'foo', b'foo.d', b'foo-d', b'foo0d', b'food']

def name():
    raw = st.binary(min_size=1, max_size=12).map(
        lambda b: b.replace(b'/', b'_').replace(b'\0', b'0')).filter(lambda b: b not in (b'.', b'..'))
    return st.one_of(st.sampled_from(COLLIDING), st.sampled_from(COLLIDING),
                     st.sampled_from(SPECIAL_NAMES), raw,
                     st.tuples(st.sampled_from([b'n', b'long', b'\xe9', b'x.bup']), st.integers(1, 255)).map(
                         lambda t: (t[0] * 255)[:t[1]]))

def plain_name():
    return st.sampled_from([b'a', b'b', b'c', b'd', b'e', b'aa', b'a.', b'a-b', b'foo', b'foo.d', b'bar', b'b0'])

# ------------------------------------------------------------------- trees
# node: ('f', content, meta) ('d', [(name, node)...], meta) ('l', target, meta)
#       ('p', None, meta) fifo  ('s', None, meta) socket ('h', n, None) hard link
# meta: dict with optional keys mode, mt (ns), uid, gid, x (xattrs), acl, dacl

TIMES = [0, 1, -1, 999999999, 10**9, 10**18, 1234567890123456789, -10**9, -10**9 - 1, -123456789012345678,
         2**31 * 10**9, 2**32 * 10**9 + 5, (2**31 - 1) * 10**9 + 999999999, 1700000000000000001]
UIDS = [0, 0, 1, 2, 1000, 12345, 65534]

ACLS = [
    [(1, 6, -1), (2, 4, 1), (4, 4, -1), (0x10, 6, -1), (0x20, 0, -1)],
    [(1, 7, -1), (2, 5, 12345), (4, 4, -1), (8, 6, 2), (0x10, 7, -1), (0x20, 1, -1)],
    [(1, 6, -1), (2, 0, 1), (2, 6, 2), (4, 0, -1), (8, 2, 1), (0x10, 6, -1), (0x20, 4, -1)],
]

def acl_bytes(entries):
    return struct.pack('<I', 2) + b''.join(
        struct.pack('<HHI', t, p, 0xffffffff if i == -1 else i) for t, p, i in entries)

@st.composite
def meta(draw, kind='f', rich=True):
    m = {}
    if draw(st.integers(0, 2)) == 0:
        m['mt'] = draw(st.one_of(st.sampled_from(TIMES), st.integers(-2**60, 2**62)))
    if kind != 'l':
        if draw(st.integers(0, 2)) == 0:
            if kind == 'd':
                m['mode'] = draw(st.one_of(st.sampled_from([0o755, 0o700, 0o1777, 0o2755, 0o3711]),
                                           st.integers(0, 0o7777).map(lambda x: x | 0o700)))
            else:
                m['mode'] = draw(st.one_of(st.sampled_from([0o644, 0o600, 0, 0o4755, 0o2755, 0o1644, 0o7777]),
                                           st.integers(0, 0o7777)))
    if rich:
        if draw(st.integers(0, 3)) == 0:
            m['uid'] = draw(st.sampled_from(UIDS))
            m['gid'] = draw(st.sampled_from(UIDS))
        if kind in 'fd' and draw(st.integers(0, 5)) == 0:
            m['x'] = dict(draw(st.lists(st.tuples(
                st.sampled_from([b'user.a', b'user.b', b'user.\xc3\xa9', b'user.x.y', b'user.' + b'n' * 60]),
                st.one_of(st.binary(max_size=10), st.just(b''), st.just(b'v' * 300))), max_size=3)))
        if kind in 'fd' and draw(st.integers(0, 9)) == 0:
            m['acl'] = draw(st.integers(0, len(ACLS) - 1))
        if kind == 'd' and draw(st.integers(0, 9)) == 0:
            m['dacl'] = draw(st.integers(0, len(ACLS) - 1))
    return m

def target():
    return st.one_of(
        st.sampled_from([b'a', b'.', b'..', b'../a', b'/', b'/nowhere', b'./a/../b', b'a//b', b'x/', b'\xff\n', b'a b', b'foo']),
        st.binary(min_size=1, max_size=30).map(lambda b: b.replace(b'\0', b'0')),
        st.just(b't' * 1000))

@st.composite
def tree(draw, depth=3, max_entries=6, names=None, rich=True, big=60000, kinds='ffffddllpsh'):
    if names is None:
        names = name()
    def node(d):
        k = draw(st.sampled_from(kinds))
        if k == 'd' and d <= 0:
            k = 'f'
        if k == 'f':
            return ('f', draw(mixed_content(big)), draw(meta('f', rich)))
        if k == 'l':
            return ('l', draw(target()), draw(meta('l', rich)))
        if k == 'h':
            return ('h', draw(st.integers(0, 30)), {})
        if k in 'ps':
            return (k, None, draw(meta(k, rich)))
        return dirnode(d - 1)
    def dirnode(d):
        es = draw(st.lists(names, max_size=max_entries, unique=True))
        return ('d', [(n, node(d)) for n in es], draw(meta('d', rich)))
    t = dirnode(depth)
    return t

def count_nodes(t):
    return 1 + sum(count_nodes(n) for _, n in t[1]) if t[0] == 'd' else 1
