"""C32: restore's options: ownership, sparse files, existing destinations."""
import os, stat, pwd, grp
from hypothesis import strategies as st
from vt import gen, fs, ops
from vt.core import Suite, require

IDS = [0, 0, 1, 2, 3, 33, 1000, 65534, 1234, 4321]
USERS = [b'root', b'daemon', b'bin', b'sys', b'www-data', b'nobody']
GROUPS = [b'root', b'daemon', b'bin', b'sys', b'www-data', b'nogroup', b'adm']
NEWU = USERS + [b'nosuch', b'', b'']
NEWG = GROUPS + [b'nosuch', b'', b'']

def edge():
    return st.one_of(st.sampled_from([1, 2, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537, 66048, 131072]),
                     st.integers(1, 1500), st.integers(1, 70000))

@st.composite
def holes(draw):
    segs = []
    for _ in range(draw(st.integers(1, 9))):
        n = draw(edge())
        segs.append(draw(st.sampled_from([('z', n), ('z', n), ('b', 1, n % 5000 + 1), ('b', 1, 1), ('r', n % 7, n % 9000)])))
    return segs

OLD = ['file', 'file', 'longfile', 'symlink', 'dangling', 'fifo', 'emptydir', 'hardlink', 'readonly', 'dirlink', 'fulldir']
maps = st.one_of(
    st.tuples(st.just('user'), st.sampled_from(USERS + [b'nosuch']), st.sampled_from(NEWU)),
    st.tuples(st.just('group'), st.sampled_from(GROUPS + [b'nosuch']), st.sampled_from(NEWG)),
    st.tuples(st.just('uid'), st.sampled_from(IDS), st.sampled_from(IDS + [7, 99999])),
    st.tuples(st.just('gid'), st.sampled_from(IDS), st.sampled_from(IDS + [7, 99999])))
BADMAP = [('user', b'=x'), ('user', b'root'), ('uid', b'root=0'), ('uid', b'1='), ('gid', b'=1'), ('gid', b'1=2x'), ('group', b''), ('uid', b'1=0x1')]

@st.composite
def restore(draw):
    return {'maps': draw(st.one_of(st.just([]), st.lists(maps, min_size=1, max_size=6))),
            'bad': draw(st.sampled_from(BADMAP)) if draw(st.integers(0, 14)) == 0 else None,
            'numeric': draw(st.integers(0, 3)) == 0, 'sparse': draw(st.booleans()),
            'v': draw(st.sampled_from([0, 0, 1, 2, -1])), 'how': draw(st.sampled_from(['C', 'C', 'cwd', 'new', 'deep'])),
            'form': draw(st.sampled_from(['dot', 'dot', 'slash', 'plain', 'each', 'each-missing', 'any', 'any', 'any'])),
            'old': draw(st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 9), st.sampled_from(OLD)), max_size=4))),
            'extra': draw(st.booleans()), 'order': draw(st.integers(0, 5)),
            'any': draw(st.lists(st.tuples(st.integers(0, 60), st.booleans()), min_size=1, max_size=5))}

@st.composite
def case(draw):
    few = draw(st.booleans())
    t = draw(gen.tree(depth=2, max_entries=4 if few else 5, big=20000, kinds='ffdlhhh' if few else 'fffdlphhs',
                      names=st.sampled_from([b'a', b'b', b'c', b'd']) if few else None))
    def own(n):
        k, a, m = n
        m = dict(m)
        if k != 'h' and draw(st.integers(0, 3)):
            m['uid'], m['gid'] = draw(st.sampled_from(IDS)), draw(st.sampled_from(IDS))
        if k == 'd':
            a = [(x, own(c)) for x, c in a]
        elif k == 'f' and draw(st.booleans()):
            a = draw(holes())
        return (k, a, m)
    return {'tree': own(t), 'cfg': draw(ops.config()), 'runs': draw(st.lists(restore(), min_size=2, max_size=4))}

def lookup(fn, name):
    try:
        return fn(name.decode())
    except KeyError:
        return None

def owner(e, r):
    """The entry's owner and group after restoring with r's options."""
    out = []
    for key, kind, rev, fwd in (('uid', 'user', lambda i: pwd.getpwuid(i).pw_name, lambda n: pwd.getpwnam(n).pw_uid),
                                ('gid', 'group', lambda i: grp.getgrgid(i).gr_name, lambda n: grp.getgrnam(n).gr_gid)):
        i = e[key]
        try:
            name = rev(i).encode()
        except KeyError:
            name = b''
        ids = {o: n for k, o, n in r['maps'] if k == key}
        names = {o: n for k, o, n in r['maps'] if k == kind}
        i = ids.get(i, i)
        name = names.get(name, name)
        if not r['numeric'] and i != 0 and name:
            found = lookup(fwd, name)
            i = i if found is None else found
        out.append(i)
    return out

def pages(data):
    """How many 4k pages hold anything but runs of at least 512 zeros."""
    keep = set()
    i, n = 0, len(data)
    def mark(a, b):
        if a < b:
            keep.update(range(a // 4096, (b - 1) // 4096 + 1))
    # split into maximal zero runs
    pos = 0
    while pos < n:
        z = data.find(bytes(512), pos)
        if z < 0:
            mark(pos, n)
            break
        mark(pos, z)
        end = z + 512
        while end < n and data[end] == 0:
            step = 4096
            while step and data[end:end + step] != bytes(step)[:len(data[end:end + step])]:
                step //= 2
            end += max(step, 1)
            end = min(end, n)
        pos = end
    return len(keep)

def run(c, ctx):
    d = ctx.bdir
    src = d + b'/src'
    os.mkdir(src)
    fs.build(src, c['tree'])
    repo = ops.init(ctx, d + b'/repo', c['cfg'])
    # reading the links changes their access times
    want = fs.snapshot(src)
    ops.save(ctx, repo, src)
    data = {}
    for p, e in want[0].items():
        if e['t'] == 'f':
            with open(os.path.join(src, p), 'rb') as f:
                data[p] = f.read()
    ctx.nontrivial(len(want[0]) > 2 and any(r['maps'] or r['sparse'] or r['old'] for r in c['runs']))
    for i, r in enumerate(c['runs']):
        one(ctx, d, repo, src, want, data, r, d + b'/w%d' % i)

def plant(dest, out, name, kind):
    """Put something in the way; returns a check for afterwards, or None."""
    p = dest + b'/' + name
    if os.path.lexists(p):
        return
    if kind in ('file', 'longfile', 'readonly'):
        fs.write_file(p, b'old' * (1 if kind == 'file' else 40000))
        if kind == 'readonly':
            os.chmod(p, 0o400)
    elif kind == 'symlink':
        os.symlink(out + b'/f', p)
    elif kind == 'dirlink':
        os.symlink(out, p)
    elif kind == 'dangling':
        os.symlink(out + b'/absent', p)
    elif kind == 'fifo':
        os.mkfifo(p)
    elif kind == 'emptydir':
        os.mkdir(p)
    elif kind == 'hardlink':
        os.link(out + b'/f', p)
    elif kind == 'fulldir':
        os.mkdir(p)
        fs.write_file(p + b'/kept', b'kept')

def one(ctx, d, repo, src, want, data, r, work):
    os.mkdir(work)
    out = work + b'/outside'
    os.mkdir(out)
    fs.write_file(out + b'/f', b'outside')
    dest = work + b'/dest' + (b'/x/y' if r['how'] == 'deep' else b'')
    tops = sorted(p for p in want[0] if p and b'/' not in p)
    base = b'/b/latest' + src
    # What is asked for, as (source, where it ends up)
    root_meta = False
    form = r['form'] if tops or r['form'] in ('dot', 'slash', 'plain') else 'dot'
    rc_bad = False
    if form == 'dot':
        args, parts, root_meta = [base + b'/.'], [(t, t) for t in tops], True
    elif form == 'slash':
        args, parts = [base + b'/'], [(t, t) for t in tops]
    elif form == 'plain':
        args, parts = [base], [(b'', b'src')]
    elif form == 'any':
        args, parts = [], []
        every = sorted(want[0])
        for k, slash in r['any']:
            p = every[k % len(every)]
            if slash and want[0][p]['t'] == 'd':
                args.append(os.path.join(base, p) + (b'/' if p else b'/'))
                parts += [(x, os.path.basename(x)) for x in every if x and os.path.dirname(x) == p]
            else:
                args.append(os.path.join(base, p) if p else base)
                parts.append((p, os.path.basename(p) or b'src'))
    else:
        names = tops[r['order'] % len(tops):] + tops[:r['order'] % len(tops)]
        names = names[:4]
        args, parts = [base + b'/' + n for n in names], [(n, n) for n in names]
        if form == 'each-missing':
            args.insert(r['order'] % (len(args) + 1), base + b'/absent-name')
            rc_bad = True
    ctx.label(form)
    landing = sorted({o for _, o in parts})
    # What should be there afterwards: {path: path in the source}
    placed, clash, replaced = {}, False, False
    for a, b in parts:
        if any(x.startswith(b + b'/') for x in placed):
            clash = True
            break
        replaced = replaced or b in placed
        placed.pop(b, None)
        for p in want[0]:
            if p == a or (p.startswith(a + b'/') if a else True):
                rel = p[len(a):].lstrip(b'/') if a else p
                placed[b + (b'/' if rel else b'') + rel] = p
    made = False
    kinds = {}
    if (r['old'] or r['extra']) and r['how'] in ('C', 'cwd'):
        os.makedirs(dest)
        made = True
        for k, kind in r['old']:
            if landing:
                n = landing[k % len(landing)]
                if n not in kinds:
                    kinds[n] = kind
                    plant(dest, out, n, kind)
                    ctx.label('old-' + kind)
        if r['extra']:
            fs.write_file(dest + b'/unrelated-entry', b'mine')
    elif r['how'] in ('C', 'cwd'):
        os.makedirs(dest)
    # name clashes between trees and our own
    opts = []
    if r['numeric']:
        opts.append('--numeric-ids')
    if r['sparse']:
        opts.append('--sparse')
        ctx.label('sparse')
    opts += {0: [], 1: ['-v'], 2: ['-vv'], -1: ['-q']}[r['v']]
    for k, o, n in r['maps']:
        ctx.label('map-' + k)
        val = b'%s=%s' % tuple(x if isinstance(x, bytes) else b'%d' % x for x in (o, n))
        opts += [b'--map-' + k.encode() + b'=' + val] if len(val) % 2 else [b'--map-' + k.encode(), val]
    if r['bad']:
        opts += [b'--map-' + r['bad'][0].encode() + b'=' + r['bad'][1]]
    cwd = work
    if r['how'] == 'cwd':
        cwd = dest
    elif r['how'] in ('C', 'new'):
        opts += [['-C', dest], [b'--outdir=' + dest], ['-C', b'dest']][len(r['maps']) % 3]
    else:
        opts += ['-C', dest]
    before = fs.snapshot(dest)[0] if os.path.isdir(dest) else None
    out_before = fs.snapshot(out)
    blocked = [n for n, k in kinds.items() if k == 'fulldir']
    res = ctx.bup('-d', repo, 'restore', *opts, *args, cwd=cwd, ok=None)
    fs.require_same(out_before, fs.snapshot(out), 'restoring changed something outside its destination')
    if r['bad']:
        ctx.label('bad mapping')
        require(res.rc != 0, 'an unusable mapping was accepted', r['bad'])
        require((fs.snapshot(dest)[0] if os.path.isdir(dest) else None) == before, 'the destination changed despite an unusable mapping')
        return
    if made and r['extra']:
        with open(dest + b'/unrelated-entry', 'rb') as f:
            require(f.read() == b'mine', 'an unrelated file changed')
    if clash:
        ctx.label('clash')
        require(res.rc != 0, 'a directory restored before was in the way, but the restore succeeded')
        return
    if blocked:
        require(res.rc != 0, 'a non-empty directory was in the way, but the restore succeeded', blocked)
        for n in blocked:
            with open(dest + b'/' + n + b'/kept', 'rb') as f:
                require(f.read() == b'kept', 'the contents of a directory in the way changed', n)
        return
    require((res.rc != 0) == rc_bad and b'Traceback' not in res.err and b'usage:' not in res.err, 'restore: exit status %d' % res.rc, res.err[-600:])
    got = fs.snapshot(dest, root_meta=root_meta)
    exp = {b'': want[0][b''] if root_meta else {'t': 'd'}}
    for p, a in placed.items():
        exp[p] = want[0][a]
    for p, e in exp.items():
        if 'uid' in e:
            exp[p] = dict(e)
            exp[p]['uid'], exp[p]['gid'] = owner(e, r)
    report = dict(exp)
    if made and r['extra']:
        exp[b'unrelated-entry'] = got[0].get(b'unrelated-entry')
    # hard links are kept among everything restored at once
    group = {p: i for i, g in enumerate(want[1]) for p in g}
    links = {}
    for p, a in placed.items():
        if a in group:
            links.setdefault(group[a], []).append(p)
    links = sorted(sorted(g) for g in links.values() if len(g) > 1)
    if replaced:
        ctx.label('replaced')
        for g in got[1]:
            require(any(set(g) <= set(l) for l in links), 'unrelated files are hard linked', g)
        links = got[1]
    fs.require_same((exp, links), got, 'restore %r: %r' % (opts, res.err[-600:]))
    # sparse files
    if r['sparse']:
        for p, a in placed.items():
            if a in data:
                blocks = os.lstat(dest + b'/' + p).st_blocks
                require(blocks <= pages(data[a]) * 8, 'a file restored with --sparse is not', p, blocks, pages(data[a]) * 8)
    if replaced:
        return
    # what was reported
    lines = []
    if r['v'] > 0:
        for p, e in report.items():
            if not p or (p == b'' and root_meta):
                continue
            if e['t'] == 'd':
                lines.append(b'/%s/\n' % p)
            elif r['v'] > 1:
                lines.append(b'/%s%s\n' % (p, b'@ -> ' + e['to'] if e['t'] == 'l' else b''))
    text = res.out
    if not any(b'\n' in l[:-1] for l in lines):
        require(sorted(text.split(b'\n')[:-1]) == sorted(l[:-1] for l in lines), 'restore reported other paths than those it restored',
                sorted(text.split(b'\n'))[:6], sorted(lines)[:6])
    else:
        require(len(text) == sum(map(len, lines)) and all(l in text for l in lines), 'restore reported other paths than those it restored', text[:300])

SUITES = [
    Suite('restore', case, run, quick=320, thorough=5000,
          rule='The tree has at least two entries and some restore maps owners, writes sparsely, or finds something in its way.'),
]
TECHNIQUE = 'property-based testing: random trees restored with random options onto random destinations, against a model of the ownership rules and a snapshot comparison'
LEVEL = 'exploration'
LEVEL_NOTE = 'random trees, owners, options and obstacles; no exhaustive bound'
