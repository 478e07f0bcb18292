"""Writing git packs, loose objects and refs without git or bup."""
import os, struct, zlib, hashlib, random
from . import gitread

NUM = {b'commit': 1, b'tree': 2, b'blob': 3, b'tag': 4}

def obj_header(typ, size):
    n = NUM[typ] if isinstance(typ, bytes) else typ
    b = (n << 4) | (size & 15)
    size >>= 4
    out = bytearray()
    while size:
        out.append(b | 0x80)
        b = size & 0x7f
        size >>= 7
    out.append(b)
    return bytes(out)

def vl(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)

def delta(base, new):
    """A git delta from base to new: copies of the common prefix and suffix."""
    p = 0
    while p < min(len(base), len(new)) and base[p] == new[p]:
        p += 1
    s = 0
    while s < min(len(base), len(new)) - p and base[-1 - s] == new[-1 - s]:
        s += 1
    out = [vl(len(base)), vl(len(new))]
    def copy(o, n):
        while n > 0:
            k = min(n, 0xffff)
            op, args = 0x80, b''
            for i in range(4):
                b = (o >> (8 * i)) & 255
                if b:
                    op |= 1 << i
                    args += bytes([b])
            for i in range(3):
                b = (k >> (8 * i)) & 255
                if b:
                    op |= 16 << i
                    args += bytes([b])
            out.append(bytes([op]) + args)
            o, n = o + k, n - k
    copy(0, p)
    mid = new[p:len(new) - s]
    for i in range(0, len(mid), 127):
        c = mid[i:i + 127]
        out.append(bytes([len(c)]) + c)
    copy(len(base) - s, s)
    return b''.join(out)

def pack_bytes(objs, deltas=None, level=1):
    """(pack data, [(oid, crc, offset)]) of objs [(type, data)].
    deltas: random.Random choosing which objects become deltas."""
    out = [b'PACK' + struct.pack('>II', 2, len(objs))]
    pos = 12
    ents = []
    prev = {}
    for typ, data in objs:
        oid = gitread.hash_object(typ, data)
        base = prev.get(typ)
        d = None
        if deltas and base and deltas.random() < .6:
            boid, bdata, bpos = base
            d = delta(bdata, data)
        # git refuses deltas that are shorter
        if d and data and len(d) >= 4:
            if deltas.random() < .5:
                rel = pos - bpos
                enc = [rel & 0x7f]
                rel >>= 7
                while rel:
                    rel -= 1
                    enc.insert(0, 0x80 | (rel & 0x7f))
                    rel >>= 7
                b = obj_header(6, len(d)) + bytes(enc) + zlib.compress(d, level)
            else:
                b = obj_header(7, len(d)) + boid + zlib.compress(d, level)
        else:
            b = obj_header(typ, len(data)) + zlib.compress(data, level)
        ents.append((oid, zlib.crc32(b), pos))
        if not (deltas and deltas.random() < .3 and typ in prev):
            prev[typ] = (oid, data, pos)
        out.append(b)
        pos += len(b)
    body = b''.join(out)
    return body + hashlib.sha1(body).digest(), ents

def idx_bytes(ents, packsum, big=None):
    ents = sorted(ents)
    fan = [0] * 256
    for o, _, _ in ents:
        fan[o[0]] += 1
    t = 0
    for i in range(256):
        t += fan[i]
        fan[i] = t
    out = [b'\xfftOc' + struct.pack('>I', 2), struct.pack('>256I', *fan)]
    out += [o for o, _, _ in ents]
    out += [struct.pack('>I', c) for _, c, _ in ents]
    bigs = []
    for _, _, p in ents:
        if p >= 2**31 or (big and big(p)):
            out.append(struct.pack('>I', 0x80000000 | len(bigs)))
            bigs.append(p)
        else:
            out.append(struct.pack('>I', p))
    out += [struct.pack('>Q', p) for p in bigs]
    out.append(packsum)
    b = b''.join(out)
    return b + hashlib.sha1(b).digest()

def write_pack(packdir, objs, deltas=None, level=1, big=None):
    """Returns the pack's path without suffix."""
    data, ents = pack_bytes(objs, deltas, level)
    name = os.path.join(os.fsencode(packdir), b'pack-' + data[-20:].hex().encode())
    with open(name + b'.pack', 'wb') as f:
        f.write(data)
    with open(name + b'.idx', 'wb') as f:
        f.write(idx_bytes(ents, data[-20:], big))
    return name

def write_loose(repo, typ, data):
    oid = gitread.hash_object(typ, data)
    h = oid.hex().encode()
    d = os.path.join(os.fsencode(repo), b'objects', h[:2])
    os.makedirs(d, exist_ok=True)
    p = d + b'/' + h[2:]
    if not os.path.exists(p):
        with open(p, 'wb') as f:
            f.write(zlib.compress(typ + b' %d\0' % len(data) + data))
    return oid

def reshuffle(repo, seed, npacks, drop=(), dups=.15, deltas=False, loose=0.0):
    """Redistribute all of the repository's objects (except those in drop)
    over npacks packs, some of them in more than one."""
    r = gitread.Repo(repo)
    objs = {o: r.get(o) for o in r.oids() if o not in drop}
    rnd = random.Random(seed)
    groups = [[] for _ in range(max(1, npacks))]
    order = sorted(objs)
    rnd.shuffle(order)
    loosed = []
    for o in order:
        if rnd.random() < loose:
            loosed.append(o)
            continue
        k = rnd.randrange(len(groups))
        groups[k].append(o)
        if rnd.random() < dups:
            k2 = rnd.randrange(len(groups))
            if k2 != k:
                groups[k2].append(o)
    clear_packs(repo)
    pd = os.path.join(os.fsencode(repo), b'objects/pack')
    for g in groups:
        if g:
            write_pack(pd, [objs[o] for o in g], rnd if deltas else None)
    for o in loosed:
        write_loose(repo, *objs[o])
    return set(objs)

def clear_packs(repo, loose=True):
    od = os.path.join(os.fsencode(repo), b'objects')
    for n in os.listdir(od + b'/pack'):
        os.unlink(od + b'/pack/' + n)
    if loose:
        for d in os.listdir(od):
            if len(d) == 2:
                for f in os.listdir(od + b'/' + d):
                    os.unlink(od + b'/' + d + b'/' + f)
