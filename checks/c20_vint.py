"""C20: variable-length encodings round-trip and detect truncation."""
from io import BytesIO
from hypothesis import strategies as st
from vt.core import Suite, Violation, require, bup_call

def ref_vuint(x):
    out = bytearray()
    while True:
        b = x & 0x7f
        x >>= 7
        out.append(b | (0x80 if x else 0))
        if not x:
            return bytes(out)

def ref_vint(x):
    m = abs(x)
    b = (m & 0x3f) | (0x40 if x < 0 else 0)
    m >>= 6
    if not m:
        return bytes([b])
    return bytes([b | 0x80]) + ref_vuint(m)

def ref(kind, v):
    if kind == 'V':
        return ref_vuint(v)
    if kind == 'v':
        return ref_vint(v)
    return ref_vuint(len(v)) + v

def near_pow(draw):
    p = draw(st.integers(0, 80))
    return (1 << p) + draw(st.integers(-2, 2))

@st.composite
def uint(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.integers(0, 300))
    if k == 1:
        return abs(near_pow(draw))
    if k == 2:
        return abs((1 << (7 * draw(st.integers(0, 12)))) + draw(st.integers(-1, 1)))
    return draw(st.integers(0, 2**draw(st.sampled_from([31, 63, 64, 65, 128, 400]))))

@st.composite
def sint(draw):
    x = draw(uint())
    if draw(st.integers(0, 5)) == 0:
        x = (1 << (6 + 7 * draw(st.integers(0, 9)))) + draw(st.integers(-1, 1))
    return -x if draw(st.booleans()) else x

@st.composite
def item(draw):
    k = draw(st.sampled_from('VvVvs'))
    if k == 'V':
        return (k, draw(uint()))
    if k == 'v':
        return (k, draw(sint()))
    n = draw(st.sampled_from([0, 0, 1, 2, 9, 10, 20, 30, 127, 128, 129, 300, 20000]))
    b = draw(st.binary(max_size=8))
    return (k, ((b or b'\0') * (n // max(1, len(b)) + 1))[:n])

WRITE = {'V': 'write_vuint', 'v': 'write_vint', 's': 'write_bvec'}
READ = {'V': 'read_vuint', 'v': 'read_vint', 's': 'read_bvec'}
ENC = {'V': 'encode_vuint', 'v': 'encode_vint', 's': 'encode_bvec'}

def run_codec(items, ctx):
    from bup import vint
    types = ''.join(k for k, _ in items)
    vals = [v for _, v in items]
    want = b''.join(ref(k, v) for k, v in items)
    ctx.nontrivial(any((k == 's' and not v) or (k != 's' and abs(v) > 127) for k, v in items))
    for k, v in items:
        if k != 's' and abs(v).bit_length() >= 56:
            ctx.label('wide')
        if k != 's' and abs(v).bit_length() >= 64:
            ctx.label('beyond-64-bit')
        if k == 's' and not v:
            ctx.label('empty-bvec')
    # encoders agree with the reference
    out = BytesIO()
    for k, v in items:
        e = bup_call(getattr(vint, ENC[k]), v)
        require(bytes(e) == ref(k, v), 'encoding differs from the reference', k, v, e, ref(k, v))
        bup_call(getattr(vint, WRITE[k]), out, v)
    require(out.getvalue() == want, 'stream writer differs', items, out.getvalue(), want)
    packed = bup_call(vint.pack, types, *vals)
    require(bytes(packed) == want, 'pack differs', items, packed, want)
    out = BytesIO()
    bup_call(vint.send, out, types, *vals)
    require(out.getvalue() == want, 'send differs', items, out.getvalue(), want)
    # decoders invert and consume exactly what was produced
    port = BytesIO(want + b'\xff')
    for k, v in items:
        pos = port.tell()
        got = bup_call(getattr(vint, READ[k]), port)
        require(got == v, 'decoded value differs', k, v, got)
        require(port.tell() - pos == len(ref(k, v)), 'consumed wrong number of bytes', k, v)
    port = BytesIO(want + b'\xff')
    got = bup_call(vint.recv, port, types)
    require(list(got) == vals, 'recv differs', items, got)
    require(port.read() == b'\xff', 'recv consumed the wrong amount', items)
    require(list(bup_call(vint.unpack, types, want)) == vals, 'unpack differs', items)
    # any bytes can be skipped exactly as they would be read
    for k, v in items:
        if k == 's':
            port = BytesIO(ref(k, v) + b'tail')
            bup_call(vint.skip_bvec, port)
            require(port.read() == b'tail', 'skip landed in the wrong place', v)

def expect_eof(fn, *a):
    """Truncated data: EOFError, or None meaning end of input."""
    try:
        r = fn(*a)
    except EOFError:
        return True, None
    except Exception as ex:
        raise Violation('truncated encoding raised %r instead of EOFError' % (ex,))
    return False, r

def run_trunc(case, ctx):
    from bup import vint
    items, cuts = case
    for k, v in items:
        enc = ref(k, v)
        pts = range(len(enc)) if len(enc) < 40 else sorted({c % len(enc) for c in cuts} | {0, 1, len(enc) - 1})
        for n in pts:
            if n:
                ctx.nontrivial()
            eof, got = expect_eof(getattr(vint, READ[k]), BytesIO(enc[:n]))
            require(eof or (n == 0 and got is None),
                    'truncated encoding accepted', k, v, n, got)
            eof, got = expect_eof(vint.unpack, k, enc[:n])
            require(eof, 'unpack accepted truncated data', k, v, n, got)
            if k == 's':
                eof, got = expect_eof(vint.skip_bvec, BytesIO(enc[:n]))
                require(eof, 'skip accepted truncated data', v, n)
    types = ''.join(k for k, _ in items)
    whole = b''.join(ref(k, v) for k, v in items)
    for c in cuts:
        if whole:
            n = c % len(whole)
            eof, got = expect_eof(vint.unpack, types, whole[:n])
            require(eof, 'unpack accepted a truncated sequence', items, n, got)

def run_bad(case, ctx):
    """Invalid requests raise a Python error and never corrupt or crash."""
    from bup import vint
    items, bad, how = case
    ctx.nontrivial()
    types = ''.join(k for k, _ in items)
    vals = [v for _, v in items]
    def raises(fn, *a):
        try:
            r = fn(*a)
        except (ValueError, AssertionError, OverflowError, TypeError):
            return
        except SystemError as ex:
            raise Violation('SystemError from %r' % (a,))
        except Exception:
            return
        raise Violation('invalid request accepted: %r gave %r' % (a, r))
    at = bad % (len(items) + 1)
    neg = -1 - bad
    if how == 0:
        raises(vint.pack, types[:at] + 'V' + types[at:], *(vals[:at] + [neg] + vals[at:]))
        raises(vint.encode_vuint, neg)
        raises(vint.write_vuint, BytesIO(), neg)
    elif how == 1:
        raises(vint.pack, types + 'V', *vals)
        raises(vint.send, BytesIO(), types + 'V', *vals)
        raises(vint.pack, types, *(vals + [1]))
    else:
        raises(vint.pack, types[:at] + 'x' + types[at:], *(vals[:at] + [1] + vals[at:]))
        raises(vint.send, BytesIO(), types[:at] + 'x' + types[at:], *(vals[:at] + [1] + vals[at:]))
        raises(vint.recv, BytesIO(b'\1\2'), 'x')

def items():
    return st.lists(item(), min_size=1, max_size=8)

SUITES = [
    Suite('codec', items, run_codec, 8000, 200000,
          'sequences of 1-8 items (unsigned, signed, byte strings); non-trivial: an integer above one byte or an empty string'),
    Suite('truncation', lambda: st.tuples(items(), st.lists(st.integers(0, 10**6), min_size=1, max_size=4)),
          run_trunc, 4000, 80000, 'every prefix of every item and cut sequences; non-trivial: a non-empty proper prefix'),
    Suite('invalid', lambda: st.tuples(st.lists(item(), max_size=3), st.one_of(st.integers(0, 50), uint()), st.integers(0, 2)),
          run_bad, 2000, 30000, 'negative unsigned values, arity and signature mismatches; all non-trivial'),
]
ASSUMPTIONS = ['reference encoder in checks/c20_vint.py states the documented lucene-style format']
