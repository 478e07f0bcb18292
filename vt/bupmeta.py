"""Independent codec for bup's metadata records (from DESIGN and the format comments)."""

class Trunc(Exception):
    pass

def rvuint(b, i):
    v = s = 0
    while True:
        if i >= len(b):
            raise Trunc()
        c = b[i]
        i += 1
        v |= (c & 127) << s
        s += 7
        if not c & 128:
            return v, i

def rvint(b, i):
    if i >= len(b):
        raise Trunc()
    c = b[i]
    i += 1
    v = c & 63
    if c & 128:
        hi, i = rvuint(b, i)
        v |= hi << 6
    return (-v if c & 64 else v), i

def rbvec(b, i):
    n, i = rvuint(b, i)
    if i + n > len(b):
        raise Trunc()
    return b[i:i + n], i + n

def wvuint(x):
    out = bytearray()
    while True:
        c = x & 127
        x >>= 7
        out.append(c | (128 if x else 0))
        if not x:
            return bytes(out)

def wvint(x):
    m = abs(x)
    c = (m & 63) | (64 if x < 0 else 0)
    m >>= 6
    return bytes([c | 128]) + wvuint(m) if m else bytes([c])

def wbvec(x):
    return wvuint(len(x)) + x

FIELDS = 'vvsvsvvVvVvVv'

def unpack(fmt, b):
    out, i = [], 0
    for f in fmt:
        v, i = {'v': rvint, 'V': rvuint, 's': rbvec}[f](b, i)
        out.append(v)
    if i != len(b):
        raise ValueError('trailing bytes in record')
    return out

def pack(fmt, vals):
    return b''.join({'v': wvint, 'V': wvuint, 's': wbvec}[f](v) for f, v in zip(fmt, vals))

def records(b, i=0):
    """One entry's raw [(tag, data)], next offset; None at end of data."""
    if i >= len(b):
        return None, i
    out = []
    while True:
        tag, i = rvuint(b, i)
        if tag == 0:
            return out, i
        d, i = rbvec(b, i)
        out.append((tag, d))

def to_meta(recs):
    m = {}
    for tag, d in recs:
        if tag in (10, 9, 2):
            v = unpack({10: FIELDS, 9: FIELDS[:-1], 2: 'VVsVsVvVvVvV'}[tag], d)
            m.update(mode=v[0], uid=v[1], user=v[2], gid=v[3], group=v[4], rdev=v[5])
            for k, j in (('atime', 6), ('mtime', 8), ('ctime', 10)):
                m[k] = v[j] * 10**9 + v[j + 1]
            if tag == 10 and v[12] >= 0:
                m['size'] = v[12]
        elif tag == 1:
            m['path'], = unpack('s', d)
        elif tag == 3:
            m['target'] = d
        elif tag == 8:
            m['hard'] = d
        elif tag == 11:
            m['acl'] = tuple(unpack('ssss', d))
        elif tag == 6:
            m['attr'], = unpack('V', d)
        elif tag == 7:
            n, i = rvuint(d, 0)
            xs = []
            for _ in range(n):
                k, i = rbvec(d, i)
                v, i = rbvec(d, i)
                xs.append((k, v))
            m['xattr'] = tuple(xs)
        else:
            m.setdefault('other', []).append((tag, d))
    return m

def decode_all(b):
    out, i = [], 0
    while True:
        r, i = records(b, i)
        if r is None:
            return out
        out.append(to_meta(r))

def ns(t):
    return t // 10**9, t % 10**9

def encode(m):
    out = b''
    if 'path' in m:
        out += wvuint(1) + wbvec(wbvec(m['path']))
    a, t, c = ns(m.get('atime', 0)), ns(m.get('mtime', 0)), ns(m.get('ctime', 0))
    if m.get('mode'):
        d = pack(FIELDS, [m['mode'], m.get('uid', 0), m.get('user', b''), m.get('gid', 0), m.get('group', b''),
                          m.get('rdev', 0), a[0], a[1], t[0], t[1], c[0], c[1], m.get('size', -1)])
        out += wvuint(10) + wbvec(d)
    if m.get('target'):
        out += wvuint(3) + wbvec(m['target'])
    if m.get('hard'):
        out += wvuint(8) + wbvec(m['hard'])
    if m.get('acl'):
        out += wvuint(11) + wbvec(pack('ssss', m['acl']))
    if m.get('attr'):
        out += wvuint(6) + wbvec(wvuint(m['attr']))
    if m.get('xattr'):
        out += wvuint(7) + wbvec(wvuint(len(m['xattr'])) + b''.join(wbvec(k) + wbvec(v) for k, v in m['xattr']))
    return out + b'\0'
