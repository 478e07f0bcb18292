"""Independent reader of git repositories (packs, loose objects, refs)."""
import os, struct, zlib, hashlib
from .core import Violation, require

class Missing(Violation):
    pass

class BadRepo(Violation):
    pass

TYPES = {1: b'commit', 2: b'tree', 3: b'blob', 4: b'tag'}

class Repo:
    """Reads objects straight from the packs (index-driven) and loose files."""
    def __init__(self, path, use_idx=True):
        self.path = os.fsencode(path)
        self.packs = []   # (packname, data, {oid: offset})
        self.loose = {}
        self.cache = {}
        self.where = {}
        pd = os.path.join(self.path, b'objects/pack')
        names = sorted(os.listdir(pd)) if os.path.isdir(pd) else []
        for n in names:
            if n.endswith(b'.idx'):
                pk = n[:-4] + b'.pack'
                if pk not in names:
                    continue
                with open(os.path.join(pd, n), 'rb') as f:
                    idx = f.read()
                with open(os.path.join(pd, pk), 'rb') as f:
                    data = f.read()
                entries = parse_idx(idx, n)
                self.packs.append((pk, data, entries))
                for oid, ofs in entries.items():
                    self.where.setdefault(oid, []).append((len(self.packs) - 1, ofs))
        od = os.path.join(self.path, b'objects')
        if os.path.isdir(od):
            for d in os.listdir(od):
                if len(d) == 2:
                    for f in os.listdir(os.path.join(od, d)):
                        if len(f) == 38:
                            self.loose[bytes.fromhex((d + f).decode())] = os.path.join(od, d, f)

    def oids(self):
        return set(self.where) | set(self.loose)

    def __contains__(self, oid):
        return oid in self.where or oid in self.loose

    def get(self, oid):
        """(type, data), verified against the id."""
        r = self.cache.get(oid)
        if r is not None:
            return r
        if oid in self.where:
            pi, ofs = self.where[oid][0]
            r = self._unpack(pi, ofs)
        elif oid in self.loose:
            with open(self.loose[oid], 'rb') as f:
                raw = zlib.decompress(f.read())
            hdr, _, body = raw.partition(b'\0')
            r = (hdr.split(b' ')[0], body)
        else:
            raise Missing(oid.hex())
        if hash_object(*r) != oid:
            raise BadRepo('object %s has wrong content' % oid.hex())
        if len(self.cache) > 20000:
            self.cache.clear()
        self.cache[oid] = r
        return r

    def _unpack(self, pi, ofs):
        name, data, entries = self.packs[pi]
        start = ofs
        try:
            b = data[ofs]
            ofs += 1
            typ = (b >> 4) & 7
            size = b & 15
            sh = 4
            while b & 0x80:
                b = data[ofs]
                ofs += 1
                size |= (b & 0x7f) << sh
                sh += 7
            base = None
            if typ == 6:
                b = data[ofs]
                ofs += 1
                rel = b & 0x7f
                while b & 0x80:
                    b = data[ofs]
                    ofs += 1
                    rel = ((rel + 1) << 7) | (b & 0x7f)
                base = self._unpack(pi, start - rel)
            elif typ == 7:
                base = self.get(data[ofs:ofs + 20])
                ofs += 20
            d = zlib.decompressobj()
            body = d.decompress(data[ofs:])
            if not d.eof:
                raise BadRepo('truncated object at %d in %r' % (start, name))
        except (IndexError, zlib.error) as ex:
            raise BadRepo('corrupt object at %d in %r: %s' % (start, name, ex))
        if len(body) != size:
            raise BadRepo('object size mismatch at %d in %r' % (start, name))
        if base is not None:
            return (base[0], apply_delta(base[1], body))
        if typ not in TYPES:
            raise BadRepo('bad object type %d in %r' % (typ, name))
        return (TYPES[typ], body)

    def refs(self):
        out = {}
        p = os.path.join(self.path, b'packed-refs')
        if os.path.exists(p):
            with open(p, 'rb') as f:
                for line in f:
                    if line[:1] in b'#^' or not line.strip():
                        continue
                    h, n = line.rstrip(b'\n').split(b' ', 1)
                    out[n] = bytes.fromhex(h.decode())
        rd = os.path.join(self.path, b'refs')
        for root, dirs, files in os.walk(rd):
            for f in files:
                if f.endswith(b'.lock'):
                    continue
                full = os.path.join(root, f)
                with open(full, 'rb') as fh:
                    h = fh.read().strip()
                n = os.path.relpath(full, self.path)
                if len(h) == 40:
                    out[n] = bytes.fromhex(h.decode())
                else:
                    out[n] = h
        return out

    def links(self, oid):
        typ, data = self.get(oid)
        if typ == b'commit':
            out = []
            for line in data.split(b'\n\n', 1)[0].split(b'\n'):
                if line.startswith((b'tree ', b'parent ')):
                    out.append(bytes.fromhex(line.split(b' ')[1].decode()))
            return out
        if typ == b'tree':
            return [o for m, n, o in parse_tree(data) if m != 0o160000]
        if typ == b'tag':
            return [bytes.fromhex(data.split(b'\n', 1)[0].split(b' ')[1].decode())]
        return []

    def closure(self, oids, missing=None):
        """All objects reachable; raises Missing unless a set is given."""
        seen = set()
        todo = list(oids)
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            try:
                ls = self.links(o)
            except Missing:
                if missing is None:
                    raise
                missing.add(o)
                continue
            seen.add(o)
            todo += ls
        return seen

    def commit(self, oid):
        typ, data = self.get(oid)
        require(typ == b'commit', 'not a commit', oid.hex(), typ)
        hdr, _, msg = data.partition(b'\n\n')
        d = {'parents': [], 'message': msg, 'raw': data}
        for line in hdr.split(b'\n'):
            k, _, v = line.partition(b' ')
            if k == b'parent':
                d['parents'].append(bytes.fromhex(v.decode()))
            elif k == b'tree':
                d['tree'] = bytes.fromhex(v.decode())
            elif k:
                d[k.decode('latin-1')] = v
        return d

    def history(self, oid):
        """First-parent chain, newest first."""
        out = []
        while oid is not None:
            c = self.commit(oid)
            out.append((oid, c))
            oid = c['parents'][0] if c['parents'] else None
        return out

def hash_object(typ, data):
    return hashlib.sha1(typ + b' %d\0' % len(data) + data).digest()

def parse_tree(data):
    out = []
    i = 0
    while i < len(data):
        j = data.index(b'\0', i)
        mode, name = data[i:j].split(b' ', 1)
        out.append((int(mode, 8), name, data[j + 1:j + 21]))
        i = j + 21
    return out

def parse_idx(idx, name=b''):
    if idx[:4] != b'\xfftOc' and (len(idx) - 1024 - 40) % 24 == 0:
        # version 1
        if hashlib.sha1(idx[:-20]).digest() != idx[-20:]:
            raise BadRepo('idx checksum mismatch %r' % name)
        n = struct.unpack('>I', idx[1020:1024])[0]
        es = [idx[1024 + 24 * i:1024 + 24 * i + 24] for i in range(n)]
        return {e[4:]: struct.unpack('>I', e[:4])[0] for e in es}
    if idx[:8] != b'\xfftOc\0\0\0\2':
        raise BadRepo('bad idx header %r' % name)
    if hashlib.sha1(idx[:-20]).digest() != idx[-20:]:
        raise BadRepo('idx checksum mismatch %r' % name)
    fan = struct.unpack('>256I', idx[8:8 + 1024])
    n = fan[255]
    p = 8 + 1024
    oids = [idx[p + 20 * i:p + 20 * i + 20] for i in range(n)]
    p += 24 * n
    ofs = struct.unpack('>%dI' % n, idx[p:p + 4 * n])
    p += 4 * n
    out = {}
    for o, f in zip(oids, ofs):
        if f & 0x80000000:
            k = f & 0x7fffffff
            f = struct.unpack('>Q', idx[p + 8 * k:p + 8 * k + 8])[0]
        out[o] = f
    if oids != sorted(oids):
        raise BadRepo('idx not sorted %r' % name)
    for i in range(256):
        if fan[i] != sum(1 for o in oids if o[0] <= i):
            raise BadRepo('idx fanout wrong %r' % name)
    return out

def apply_delta(base, d):
    i = 0
    def varint():
        nonlocal i
        r = sh = 0
        while True:
            b = d[i]
            i += 1
            r |= (b & 0x7f) << sh
            sh += 7
            if not b & 0x80:
                return r
    varint()
    varint()
    out = []
    while i < len(d):
        c = d[i]
        i += 1
        if c & 0x80:
            o = s = 0
            for k in range(4):
                if c & (1 << k):
                    o |= d[i] << (8 * k)
                    i += 1
            for k in range(3):
                if c & (16 << k):
                    s |= d[i] << (8 * k)
                    i += 1
            out.append(base[o:o + (s or 0x10000)])
        else:
            out.append(d[i:i + c])
            i += c
    return b''.join(out)

# ------------------------------------------------------- bup's tree format
# Decoding of saved trees, from the description in bup's DESIGN.

def join_data(repo, oid):
    """Bytes of a (possibly chunked) file."""
    typ, data = repo.get(oid)
    if typ == b'blob':
        return data
    return b''.join(join_data(repo, o) for m, n, o in sorted(
        parse_tree(data), key=lambda e: int(e[1], 16)))

def demangle(name, mode):
    if name.endswith(b'.bupl'):
        return name[:-5], 'normal'
    if name.endswith(b'.bup'):
        return name[:-4], 'chunked'
    return name, 'normal'

def raw_entries(repo, oid):
    """(bupm oid or None, [(mode, stored name, oid)]) with split trees merged."""
    ents = parse_tree(repo.get(oid)[1])
    split = None
    for m, n, o in ents:
        if m == 0o40000 and n.endswith(b'.bupd') and not n.endswith(b'.bupl'):
            base, _, lev = n[:-5].rpartition(b'..')
            if n != b'.bupd' and lev.isdigit():
                split = int(lev)
    return ents, split

def list_dir(repo, oid):
    """{name: (kind, mode, oid)} with kind 'dir'|'file'|'link'|'chunked'."""
    out = {}
    def leaf(ents):
        for m, n, o in ents:
            if n == b'.bupm':
                continue
            name, k = demangle(n, m)
            if m == 0o40000:
                kind = 'chunked' if k == 'chunked' else 'dir'
            elif m == 0o120000:
                kind = 'link'
            else:
                kind = 'file'
            require(name not in out, 'duplicate name in tree', name)
            out[name] = (kind, m, o)
    def rec(o, level):
        ents = parse_tree(repo.get(o)[1])
        if level == 0:
            leaf(ents)
            return
        for m, n, c in ents:
            if n == b'.bupm':
                continue
            rec(c, level - 1)
    ents, split = raw_entries(repo, oid)
    rec(oid, split or 0)
    return out

def decode(repo, oid, prefix=b''):
    """{path: ('d',)|('f', bytes)|('l', target)} of a saved tree."""
    out = {prefix: ('d',)}
    for name, (kind, mode, o) in list_dir(repo, oid).items():
        p = prefix + b'/' + name if prefix else name
        if kind == 'dir':
            out.update(decode(repo, o, p))
        elif kind == 'link':
            out[p] = ('l', repo.get(o)[1])
        elif kind == 'chunked':
            out[p] = ('f', join_data(repo, o))
        else:
            out[p] = ('f', repo.get(o)[1])
    return out


def leaf_trees(repo, oid):
    """The level-0 trees of a saved directory, in order."""
    ents = parse_tree(repo.get(oid)[1])
    split = raw_entries(repo, oid)[1]
    def rec(o, level):
        if not level:
            return [parse_tree(repo.get(o)[1])]
        return [t for m, n, c in parse_tree(repo.get(o)[1]) if n != b'.bupm' for t in rec(c, level - 1)]
    return rec(oid, split or 0)

def sort_key(n, isdir):
    return n + b'/' if isdir else n

def metas(repo, oid):
    """(own metadata, {name: metadata}) of a saved directory, or (None, {})."""
    from . import bupmeta
    own, out = None, {}
    top, split = raw_entries(repo, oid)
    if split:
        for m, n, o in top:
            if n == b'.bupm':
                rs = bupmeta.decode_all(join_data(repo, o))
                require(len(rs) == 1, 'the top of a split tree must have one metadata record', len(rs))
                own = rs[0]
    for li, ents in enumerate(leaf_trees(repo, oid)):
        raw = None
        names = []
        for m, n, o in ents:
            if n == b'.bupm':
                raw = join_data(repo, o)
            else:
                name, k = demangle(n, m)
                isdir = m == 0o40000 and k != 'chunked'
                names.append((sort_key(name, isdir), name, isdir))
        if raw is None:
            continue
        recs = bupmeta.decode_all(raw)
        if recs:
            if not split:
                own = recs[0]
            else:
                require(not recs[0], 'leaf of a split tree has metadata for the directory', recs[0])
            nd = [x for x in sorted(names) if not x[2]]
            require(len(recs) == 1 + len(nd), 'metadata records do not match the entries', len(recs), len(nd))
            for r, x in zip(recs[1:], nd):
                out[x[1]] = r
    return own, out

def decode_meta(repo, oid, prefix=b'', content=True):
    """{path: (kind, content or target, metadata dict)} of a saved tree."""
    own, ms = metas(repo, oid)
    out = {prefix: ('d', None, own)}
    for name, (kind, mode, o) in list_dir(repo, oid).items():
        p = prefix + b'/' + name if prefix else name
        if kind == 'dir':
            out.update(decode_meta(repo, o, p, content))
        elif kind == 'link':
            out[p] = ('l', repo.get(o)[1], ms.get(name))
        else:
            c = (join_data(repo, o) if kind == 'chunked' else repo.get(o)[1]) if content else o
            out[p] = ('f', c, ms.get(name))
    return out

def view(repo, oid, drop=('atime',)):
    """Comparable form of a saved tree: {path: (kind, content hash or target, metadata items)}."""
    out = {}
    anchor = {}
    entries = decode_meta(repo, oid)
    for p in sorted(entries):
        m = entries[p][2]
        if m and 'hard' in m:
            # Only the grouping matters, not the name recorded for it.
            m['hard'] = anchor.setdefault(m['hard'], p)
    for p, (k, c, m) in entries.items():
        if k == 'f':
            c = hashlib.sha1(c).hexdigest()
        out[p] = (k, c, None if m is None else tuple(sorted((a, b) for a, b in m.items() if a not in drop)))
    return out

def diff_views(a, b, limit=6):
    return ['%r: %r | %r' % (p, a.get(p), b.get(p)) for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p)][:limit]

def require_same_view(a, b, what):
    d = diff_views(a, b)
    require(not d, what, *d)

def under(v, prefix):
    prefix = prefix.strip(b'/')
    return {p: e for p, e in v.items() if p == prefix or p.startswith(prefix + b'/')} if prefix else v
