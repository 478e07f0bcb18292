"""C31: split directories are equivalent to unsplit ones."""
import os, random, stat
from hypothesis import strategies as st
from vt import gen, fs, ops, gitread, roll
from vt.core import Suite, require

def _suffixes():
    out = []
    v = 0
    while len(out) < 8:
        t = roll.trigger(13, 0, v)
        v += 1
        if 0 not in t and b'/' not in t:
            out.append(t)
    return out
_cache = []
def suffixes():
    if not _cache:
        _cache.extend(_suffixes())
    return _cache

STYLES = ['seq', 'rand', 'common', 'low', 'run', 'dots', 'mix', 'mix', 'bupd']
@st.composite
def names(draw):
    return {'n': draw(st.one_of(st.integers(0, 25), st.integers(0, 60), st.integers(60, 160))), 'style': draw(st.sampled_from(STYLES)),
            'dense': draw(st.sampled_from([0.05, 0.2, 0.2, 0.5, 0.9, 1.0])), 'seed': draw(st.integers(0, 10**6)),
            'kinds': draw(st.sampled_from(['f', 'ffd', 'ffdl', 'd', 'ffffdlpc']))}

def make_names(s):
    rnd = random.Random(s['seed'])
    out = set()
    tries = 0
    while len(out) < s['n'] and tries < 4 * s['n']:
        tries += 1
        i = len(out)
        k = s['style']
        if k == 'mix':
            k = rnd.choice(STYLES[:-3])
        if k == 'seq':
            p = b'%04d' % (i * 7)
        elif k == 'rand':
            p = bytes(rnd.choice([x for x in range(1, 256) if x != 47]) for _ in range(rnd.randint(1, 5)))
        elif k == 'common':
            p = b'x' * rnd.choice([1, 30, 100]) + b'%d' % rnd.randrange(1000)
        elif k == 'low':
            p = rnd.choice([b'!', b' ', b'-', b'+', b'#', b'\n', b'.', b',']) + b'%d' % rnd.randrange(1000)
        elif k == 'run':
            p = rnd.choice([b'a', b'b', b'.', b'a-', b'a.']) * rnd.randint(1, 20)
        elif k == 'dots':
            p = rnd.choice([b'.b', b'.bup', b'.bupm', b'.bupn', b'.bupl', b'...', b'..x', b'.a', b'..1.bupd', b'.bupm0']) + (b'%d' % rnd.randrange(40) if rnd.random() < .7 else b'')
        elif k == 'bupd':
            p = rnd.choice([b'x', b'%d' % rnd.randrange(1000), b'a..', b'']) + rnd.choice([b'..1.bupd', b'.bupd', b'.bup', b'.bupl', b'..2.bupd', b'.bupm'])
        if rnd.random() < s['dense'] and len(p) < 190:
            p += rnd.choice(suffixes())
            if k == 'bupd' and rnd.random() < .5:
                p += b'..1.bupd'
        if p not in (b'.', b'..'):
            out.add(p)
    return sorted(out)

def node(rnd, kinds):
    k = rnd.choice(kinds)
    m = {'mode': rnd.choice([0o644, 0o600, 0o4755, 0o751])} if rnd.random() < .5 else {}
    if rnd.random() < .2:
        m['mt'] = rnd.randrange(10**18)
    if rnd.random() < .1:
        m['uid'], m['gid'] = rnd.choice([1, 1234]), rnd.choice([2, 4321])
    if k == 'f':
        return ('f', [('l', b'%d' % rnd.randrange(50))] if rnd.random() < .7 else [], m)
    if k == 'c':
        return ('f', [('C', rnd.randrange(9), 30), ('r', rnd.randrange(9), 20000)], m)
    if k == 'd':
        m.pop('mode', None)
        return ('d', [(b'in', ('f', [('l', b'x')], {}))] if rnd.random() < .3 else [], m)
    if k == 'l':
        m.pop('mode', None)
        return ('l', b'to %d' % rnd.randrange(9), m)
    return ('p', None, m)

def spec(dirs):
    """Nested directories: each further one is put in the one before."""
    out = None
    for s in reversed(dirs):
        rnd = random.Random(s['seed'] + 1)
        ents = [(n, node(rnd, s['kinds'])) for n in make_names(s)]
        if out is not None:
            ents = [(n, c) for n, c in ents if n != b'nested'] + [(b'nested', out)]
        out = ('d', ents, {'mode': 0o755 if rnd.random() < .5 else 0o700, 'mt': rnd.randrange(10**18)})
    return out

@st.composite
def case(draw):
    cfg = draw(ops.config())
    cfg.pop('bup.split.trees', None)
    cfg.pop('pack.packSizeLimit', None)
    return {'dirs': draw(st.lists(names(), min_size=1, max_size=2)), 'cfg': cfg,
            'picks': draw(st.lists(st.integers(0, 10**4), min_size=1, max_size=5)), 'ls': draw(st.sampled_from([[], ['-l'], ['-a'], ['-lnA'], ['-F'], ['-l', '--human-readable'], ['-lAF']])),
            'copy': draw(st.sampled_from(['append', 'rewrite', 'unnamed', None])), 'commits': draw(st.sampled_from(['', '.commit']))}

def shape(r, oid):
    """The stored names below a directory's tree, and how deep it was split."""
    depth = gitread.raw_entries(r, oid)[1] or 0
    def rec(o, level):
        es = gitread.parse_tree(r.get(o)[1])
        return [(n, rec(c, level - 1) if level and n != b'.bupm' else None) for m, n, c in es]
    return depth, rec(oid, depth)

def check_form(r, oid):
    """What DESIGN says about the names in a split tree."""
    depth = gitread.raw_entries(r, oid)[1] or 0
    if not depth:
        return 0
    def rec(o, level, top):
        """The real names below, in order."""
        es = gitread.parse_tree(r.get(o)[1])
        bupm = [n for m, n, c in es if n == b'.bupm']
        # a part with nothing but directories needs none
        others = any(m != 0o40000 or gitread.demangle(n, m)[1] == 'chunked' for m, n, c in es if n != b'.bupm')
        require(bool(bupm) == (top or (not level and others)), 'a .bupm missing or at the wrong level of a split tree', level, top)
        es = [e for e in es if e[1] != b'.bupm']
        if not level:
            return sorted(gitread.demangle(n, m)[0] for m, n, c in es)
        require(len(es) > 1 or not top, 'a split tree with a single part')
        suffix = b'..%d.bupd' % level
        for m, n, c in es:
            require(n.endswith(suffix) and m == 0o40000 and len(n) > len(suffix), 'a part of a split tree is misnamed', n, level)
        es = sorted((n[:-len(suffix)], c) for m, n, c in es)
        out = []
        for i, (p, c) in enumerate(es):
            below = rec(c, level - 1, False)
            require(below and below[0] >= p, 'a split subtree holds a name before its own', p, below[:1])
            require(i + 1 == len(es) or below[-1] < es[i + 1][0], 'a split subtree holds a name after that of the next', below[-1], es[i + 1:i + 2])
            require(not out or out[-1] < below[0], 'split subtrees overlap')
            require(len(below) > 1 or i + 1 == len(es), 'a split subtree with a single entry', below)
            out += below
        return out
    rec(oid, depth, True)
    return depth

def head_tree(r, b=b'b'):
    t = r.refs()[b'refs/heads/' + b]
    return [l[5:45] for l in r.get(t)[1].split(b'\n') if l.startswith(b'tree ')][0]

def find(r, tree, path):
    for c in path.strip(b'/').split(b'/'):
        tree = gitread.list_dir(r, tree)[c][2]
    return tree

def run(c, ctx):
    d = ctx.bdir
    src = d + b'/src'
    os.mkdir(src)
    fs.build(src, spec(c['dirs']))
    want = fs.snapshot(src)
    repos = {}
    for which, val in (('split', 'true'), ('whole', 'false')):
        repos[which] = ops.init(ctx, d + b'/' + which.encode(), dict(c['cfg'], **{'bup.split.trees': val}))
        ops.save(ctx, repos[which], src, date=10**9)
    rs = {k: gitread.Repo(v) for k, v in repos.items()}
    tops = {k: find(r, bytes.fromhex(head_tree(r).decode()), src) for k, r in rs.items()}
    gitread.require_same_view(gitread.view(rs['split'], tops['split']), gitread.view(rs['whole'], tops['whole']), 'splitting directories changed what was saved')
    depth = check_form(rs['split'], tops['split'])
    require(gitread.raw_entries(rs['whole'], tops['whole'])[1] is None, 'a directory was split though that is disabled')
    for k in c['dirs'][1:]:
        check_form(rs['split'], find(rs['split'], tops['split'], b'nested'))
    ctx.nontrivial(depth > 0)
    ctx.label('depth %d' % depth)
    # browse
    every = sorted(want[0])
    picks = [every[k % len(every)] for k in c['picks']]
    base = b'/b/latest' + src
    paths = [base, base + b'/'] + [base + b'/' + p for p in picks]
    def both(*a, why, same=True):
        q = [ctx.bup('-d', repos[k], *a) for k in ('split', 'whole')]
        require((q[0].rc, q[0].out, q[0].err.replace(b'/split', b'/whole')) == (q[1].rc, q[1].out, q[1].err), why + ' differs for split directories', *q)
        return q[0]
    for p in paths:
        q = both('ls', *c['ls'], p, why='ls %r' % c['ls'])
        require(q.rc == 0, 'ls failed', q)
    both('ls', '-lnd', *paths, why='ls -d')
    both('ls', '-l', base + b'/absent', base + b'/.bupm', base + b'/a..1.bupd', why='ls of an absent name')
    for p in picks:
        e = want[0][p]
        if e['t'] == 'f':
            q = both('cat-file', base + b'/' + p, why='cat-file')
            with open(os.path.join(src, p), 'rb') as f:
                require(q.rc == 0 and q.out == f.read(), 'cat-file: other data', p)
        q = both('cat-file', '--meta', os.path.join(base, p), why='cat-file --meta')
        require(q.rc == 0 and q.out, 'cat-file --meta failed', q)
    # restore
    out = d + b'/out'
    ctx.bup('-d', repos['split'], 'restore', '-C', out, base + b'/.', ok=True)
    fs.require_same(want, fs.snapshot(out), 'restoring split directories')
    for i, p in enumerate(picks):
        if not p:
            continue
        o = d + b'/o%d' % i
        ctx.bup('-d', repos['split'], 'restore', '-C', o, base + b'/' + p, ok=True)
        got = fs.snapshot(o + b'/' + os.path.basename(p))[0]
        exp = {q[len(p):].lstrip(b'/'): e for q, e in want[0].items() if q == p or q.startswith(p + b'/')}
        diff = fs.diff(exp, got)
        require(not diff, 'restoring part of a split directory: trees differ', *diff)
    # copy
    if c['copy']:
        ctx.label('copy ' + c['copy'])
        for a, b in (('split', 'whole'), ('whole', 'split')):
            dst = ops.init(ctx, d + b'/copy-' + a.encode(), dict(c['cfg'], **{'bup.split.trees': 'true' if b == 'split' else 'false'}))
            if c['copy'] == 'append':
                ctx.bup('-d', dst, 'get', '-s', repos[a], '--copy', '--append:', 'b', 'b', ok=True)
            elif c['copy'] == 'rewrite':
                ctx.bup('-d', dst, 'get', '-s', repos[a], '--rewrite', '--append:', 'b', 'b', ok=True)
            else:
                ctx.bup('-d', dst, 'get', '-s', repos[a], '--copy', '--unnamed', b'/b/latest' + src, ok=True)
            r = gitread.Repo(dst)
            top = tops[a] if c['copy'] == 'unnamed' else find(r, bytes.fromhex(head_tree(r).decode()), src)
            if c['copy'] == 'rewrite':
                require(top == tops[b], 'rewriting %s directories gives something other than saving them with the configuration' % a, gitread.diff_views(gitread.view(r, top), gitread.view(rs[b], tops[b])))
            else:
                require(top == tops[a], 'copying changed a split directory')
            gitread.require_same_view(gitread.view(r, top), gitread.view(rs['whole'], tops['whole']), 'copying split directories')

# ------------------------------------------------------- locality and order

@st.composite
def edit_case(draw):
    return {'n': draw(st.integers(20, 160)), 'gap': draw(st.integers(2, 9)), 'seed': draw(st.integers(0, 10**6)), 'wide': draw(st.booleans()),
            'edits': draw(st.lists(st.tuples(st.sampled_from(['add', 'add', 'rm', 'write', 'write', 'retype', 'chmod']), st.integers(0, 10**4)), min_size=1, max_size=3)),
            'parts': draw(st.integers(2, 4))}

def levels(r, oid):
    """{depth from the leaves: [tuple of stored names, tree id]}."""
    depth = gitread.raw_entries(r, oid)[1] or 0
    out = {}
    def rec(o, level):
        es = [e for e in gitread.parse_tree(r.get(o)[1])]
        out.setdefault(level, []).append((tuple(e[1] for e in es if e[1] != b'.bupm'), o))
        if level:
            for m, n, c in es:
                if n != b'.bupm':
                    rec(c, level - 1)
    rec(oid, depth)
    return out

def run_edit(c, ctx):
    d = ctx.bdir
    src = d + b'/src'
    os.mkdir(src)
    rnd = random.Random(c['seed'])
    plain = []
    for i in range(c['n']):
        stem = b'%05d' % (i * 10) if not c['wide'] else b'%05d-%0*d' % (i * 10, rnd.randint(1, 40), 0)
        # Names that end a part are never next to each other
        split = i % c['gap'] == c['gap'] - 1
        n = stem + (rnd.choice(suffixes()) if split else b'')
        if not split:
            plain.append(n)
        fs.write_file(src + b'/' + n, b'%d' % i)
    repo = ops.init(ctx, d + b'/repo', {'bup.split.trees': 'true'})
    def save(n):
        ops.save(ctx, repo, src, date=10**9 + n)
        r = gitread.Repo(repo)
        return r, find(r, bytes.fromhex(head_tree(r).decode()), src)
    r, top = save(0)
    old = levels(r, top)
    check_form(r, top)
    ctx.label('depth %d' % max(old))
    ctx.nontrivial(len(old[0]) > 2)
    for i, (op, k) in enumerate(c['edits']):
        ctx.label(op)
        n = plain[k % len(plain)]
        p = src + b'/' + n
        same_names = True
        if op == 'add':
            new = n[:5][:-1] + b'%d' % (1 + k % 9) + b'new%d' % i
            fs.write_file(src + b'/' + new, b'new')
            n = new
            same_names = False
        elif op == 'rm':
            if len(plain) < 4:
                continue
            os.unlink(p)
            plain.remove(n)
            same_names = False
        elif op == 'write':
            fs.write_file(p, b'changed %d %d' % (i, k))
        elif op == 'chmod':
            os.chmod(p, 0o600 | k % 64)
            if op == 'chmod' and stat.S_IMODE(os.lstat(p).st_mode) == 0o644:
                os.chmod(p, 0o640)
        else:
            if os.path.isdir(p):
                continue
            os.unlink(p)
            os.mkdir(p)
        r, top = save(i + 1)
        new = levels(r, top)
        check_form(r, top)
        before = {l: {o for _, o in v} for l, v in old.items()}
        for l in new:
            changed = [ns for ns, o in new[l] if o not in before.get(l, ())]
            limit = 1 if same_names else 3
            if l < max(new):
                require(len(changed) <= limit, 'a change of one entry changed %d of %d parts' % (len(changed), len(new[l])), op, n, 'level %d' % l, [x[0] for x in changed])
        if same_names:
            a = {l: [gitread_names(ns) for ns, _ in v] for l, v in old.items()}
            b = {l: [gitread_names(ns) for ns, _ in v] for l, v in new.items()}
            require(a == b, 'the form of a split directory depends on more than its names', op, n)
        old = new
    # the same names, gathered from several directories
    r, top = save(len(c['edits']) + 1)
    parts = [d + b'/p%d' % k for k in range(c['parts'])]
    for p in parts:
        os.mkdir(p)
    for n in os.listdir(src):
        to = rnd.choice(parts) + b'/' + n
        if os.path.isdir(src + b'/' + n):
            os.mkdir(to)
        else:
            fs.write_file(to, b'')
    order = list(parts)
    other = ops.init(ctx, d + b'/other', {'bup.split.trees': 'true'})
    ctx.bup('-d', other, 'index', *parts, ok=True)
    ctx.bup('-d', other, 'save', '-n', 'b', *[x for p in parts for x in ('--graft', p + b'=' + b'/x')], *parts, ok=True)
    r2 = gitread.Repo(other)
    t2 = find(r2, bytes.fromhex(head_tree(r2).decode()), b'x')
    require(shape(r, top) == shape(r2, t2), 'the form of a split directory depends on the order of its entries')

def gitread_names(ns):
    # Stored names tell files from directories; the form must not depend on it.
    return tuple(n[:-5] if n.endswith(b'.bupl') else n for n in ns)

SUITES = [
    Suite('equivalence', case, run, 90, 4000, rule='the top directory was split'),
    Suite('locality', edit_case, run_edit, 60, 3000, rule='the directory has at least three parts'),
]
ASSUMPTIONS = ['bounds on the number of parts an edit changes are only demanded where names that end a part are not neighbours']
TECHNIQUE = 'property-based testing: generated directories (names chosen to split them deeply) saved with and without splitting, compared by view, listing, restore and copy; metamorphic edits for locality'
LEVEL = 'exploration'
LEVEL_NOTE = 'directories of at most about 160 names, made to split by names containing boundaries; no exhaustive bound'
