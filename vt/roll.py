"""Independent statement of bup's chunking rule (see DESIGN: "Hashsplit").

A window of the last 64 bytes (zeroes before the start of the chunk) gives
  s1 = 64*31 + sum of the window
  s2 = 64*63*31 + sum over the window of age * byte   (newest: 1, oldest: 64)
  digest = (s1 << 16 | s2 & 0xffff), 32 bits
A chunk ends at the first byte where the lowest `bits` bits of the digest are
ones, or at 4 << bits bytes.  The level is the number of ones directly above
the (ignored) next bit, divided by fanbits.
"""
import functools, random
import numpy as np

W = np.arange(1, 65, dtype=np.int64)
ONES = np.ones(64, dtype=np.int64)

def digests(data):
    """uint32 digest after each byte of data, from a fresh window."""
    x = np.frombuffer(data, dtype=np.uint8).astype(np.int64)
    n = len(x)
    if n == 0:
        return np.zeros(0, dtype=np.uint32)
    s2 = (64 * 63 * 31 + np.convolve(x, W)[:n]) & 0xffff
    s1 = (64 * 31 + np.convolve(x, ONES)[:n]) & 0xffff
    return ((s1 << 16) | s2).astype(np.uint32)

def extra_ones(digest, bits):
    d = int(digest) >> (bits + 1)
    n = 0
    while d & 1:
        n += 1
        d >>= 1
    return n

def split(data, bits=13, fanbits=4, limit=None):
    """[(length, level)] of one stream."""
    out = []
    mask = np.uint32((1 << bits) - 1)
    mx = 4 << bits
    pos = 0
    while pos < len(data):
        step = 4096
        c = data[pos:pos + mx]
        end = None
        # look in growing prefixes: the rule only looks backwards
        n = min(len(c), 1 << 14)
        while True:
            d = digests(c[:n])
            hit = np.flatnonzero((d & mask) == mask)
            if len(hit):
                end = int(hit[0])
                break
            if n == len(c):
                break
            n = min(len(c), n * 2)
        if end is not None:
            out.append((end + 1, extra_ones(d[end], bits) // fanbits))
            pos += end + 1
        else:
            out.append((len(c), 0))
            pos += len(c)
    return out

@functools.lru_cache(maxsize=None)
def trigger(bits, extra, variant=0):
    """64 bytes after which every chunk of at least that size ends, whatever
    precedes them, with exactly `extra` ones above the ignored bit."""
    rnd = random.Random((bits, extra, variant).__repr__())
    ign = rnd.randrange(2)
    total = bits + 1 + extra
    want = ((1 << bits) - 1) | (ign << bits) | (((1 << extra) - 1) << (bits + 1))
    t2 = want & 0xffff
    m2 = min(total + 1, 16)       # bits of s2 that matter (incl. the zero)
    t1 = want >> 16
    m1 = max(0, total + 1 - 16)
    for _ in range(100000):
        x = [rnd.randrange(256) for _ in range(64)]
        if m1:
            # sum must be = t1 - 64*31 modulo 2**m1
            lo = (t1 - 64 * 31) % (1 << m1)
            s = sum(x)
            cands = [v for v in range(lo, 64 * 255 + 1, 1 << m1)]
            if not cands:
                raise ValueError('impossible')
            goal = min(cands, key=lambda v: abs(v - s))
            i = 0
            while s != goal:
                j = rnd.randrange(64)
                d = max(-x[j], min(255 - x[j], goal - s))
                d = max(-40, min(40, d))
                x[j] += d
                s += d
        # weight of position i (0 oldest) is 64 - i
        for _ in range(2000):
            s2 = 64 * 63 * 31 + sum((64 - i) * v for i, v in enumerate(x))
            diff = (t2 - s2) % (1 << m2)
            if diff == 0:
                b = bytes(x)
                d = digests(b)
                mask = (1 << bits) - 1
                early = any((int(v) & mask) == mask for v in d[:-1])
                if not early and extra_ones(d[-1], bits) == extra \
                        and (int(d[-1]) & mask) == mask:
                    return b
                break
            if diff > (1 << m2) // 2:
                diff -= 1 << m2
            # move units between two positions: sum unchanged
            a, c = rnd.sample(range(64), 2)
            w = c - a      # moving one unit from c to a changes s2 by (64-a)-(64-c) = c-a
            k = int(diff / w)
            if k == 0 and abs(diff) < abs(w):
                k = rnd.choice([-1, 1])
            k = max(-x[a], min(255 - x[a], k))
            k = max(x[c] - 255, min(x[c], k))
            x[a] += k
            x[c] -= k
    raise ValueError('no trigger found')
