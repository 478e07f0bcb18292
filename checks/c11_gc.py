"""C11: garbage collection keeps all live data and drops dead data."""
import os, shutil
from hypothesis import strategies as st
from vt import fs, gen, edits, ops, gitread, scen, hist, packs
from vt.core import Suite, Violation, require

BEFORE = ['save', 'save', 'save', 'edit', 'edit', 'split', 'split-tree', 'tag', 'get-append', 'get-unnamed', 'get-new-tag', 'get-rewrite',
          'save-strip', 'midx', 'bloom', 'config', 'git-gc', 'save-smaller', 'pack-refs']
REMOVE = ['rm-save', 'rm-save', 'rm-branch', 'untag', 'prune', 'get-replace', 'tag', 'midx', 'bloom', 'save', 'edit']

@st.composite
def case(draw):
    c = draw(hist.history(BEFORE, 3, 7))
    c['rounds'] = draw(st.lists(st.fixed_dictionaries({
        'ops': st.lists(hist.op(REMOVE), min_size=1, max_size=3),
        'shuffle': st.sampled_from([0, 0, 1, 2, 5]), 'deltas': st.booleans(),
        'threshold': st.sampled_from([None, 0, 0, 1, 10, 30, 60, 99, 100]),
        'opts': st.sampled_from([[], ['-v'], ['-0'], ['-9'], ['-v', '-v']]),
        'more': st.lists(hist.op(['save', 'save', 'save-same', 'split', 'edit', 'get-append', 'tag']), max_size=2),
        'seed': st.integers(0, 10**6),
    }), min_size=1, max_size=3))
    c['missing'] = draw(st.integers(0, 3))
    return c

def kinds(r, oids):
    return {o: r.get(o)[0] for o in oids}

def drop_aids(repo):
    pd = repo + b'/objects/pack/'
    for n in os.listdir(pd):
        if n.endswith((b'.midx', b'.bloom')):
            os.unlink(pd + n)

def collect(ctx, h, rd, i):
    if rd['shuffle']:
        drop_aids(h.repo)
        packs.reshuffle(h.repo, rd['seed'], rd['shuffle'], deltas=rd['deltas'])
        if rd['seed'] % 3 == 0:
            ctx.bup('-d', h.repo, 'midx', '-f', ok=True)
        if rd['seed'] % 5 == 0:
            ctx.bup('-d', h.repo, 'bloom', '-f', ok=True)
    r = gitread.Repo(h.repo)
    refs = r.refs()
    live = r.closure(refs.values())
    live_data = {o: r.get(o)[0] for o in live}
    all_ = kinds(r, r.oids())
    dead = set(all_) - live
    loose = set(r.loose)
    old_packs = {name: set(e) for name, _, e in r.packs}
    t = rd['threshold']
    q = ctx.bup('-d', h.repo, 'gc', '--unsafe', *([] if t is None else ['--threshold', str(t)]), *rd['opts'], ok=True)
    left = [n for n in os.listdir(h.repo + b'/objects/pack') if n.startswith(b'tmp')]
    require(not left, 'gc left temporary files in the repository', left)
    t = 10 if t is None else t
    ctx.label('dead' if dead else 'no-dead')
    r2 = gitread.Repo(h.repo)
    what = 'gc %d (threshold %d)' % (i, t)
    require(r2.refs() == refs, what + ' changed references', refs, r2.refs())
    left = r2.oids()
    lost = live - left
    require(not lost, what + ' lost live objects', [(live_data[o], o.hex()) for o in sorted(lost)[:5]])
    for o in live:
        r2.get(o)         # verifies content
    require(not left - set(all_), what + ' invented objects', [o.hex() for o in left - set(all_)][:5])
    kept = dead & left - loose
    structure = [o for o in kept if all_[o] != b'blob']
    require(not structure, what + ' kept dead commits or trees', [(all_[o], o.hex()) for o in structure][:5])
    # The filter may take a few dead blobs for live ones.
    slack = 3 + len(dead) * 2 // 100
    for name, _, e in r2.packs:
        d = set(e) - live
        if name in old_packs:
            require(len(d) <= slack + len(e) * t / 100, what + ' kept a pack with too much garbage', name, len(d), len(e))
        else:
            require(len(d) <= slack, what + ' wrote dead objects', name, len(d), len(e))
    if t == 0:
        require(len(kept) <= slack, what + ' kept garbage', len(kept), len(dead))
        if dead - loose:
            ctx.nontrivial()
            ctx.label('collected')
    if dead - left:
        ctx.nontrivial()
    pd = h.repo + b'/objects/pack/'
    names = sorted(os.listdir(pd))
    for n in names:
        base, ext = os.path.splitext(n)
        require(ext in (b'.pack', b'.idx', b'.midx', b'.bloom', b'.rev', b'.bitmap', b'.keep', b'.mtimes'), what + ' left a strange file', n)
        if ext == b'.pack':
            require(base + b'.idx' in names, what + ' left a pack without index', n)
        if ext == b'.idx':
            require(base + b'.pack' in names, what + ' left an index without pack', n)
    junk = [n for n in os.listdir(h.repo + b'/objects') if n.startswith(b'pack-tmp')]
    require(not junk, what + ' left temporary directories', junk)
    ops.fsck(ctx, h.repo, what)
    return dead - left

def run(c, ctx):
    h = hist.Hist(ctx, c)
    for o in c['ops']:
        h.step(o)
    h.step({'op': 'save', 'i': 0, 'j': 0})
    for i, rd in enumerate(c['rounds']):
        for o in rd['ops']:
            l = h.step(o)
            if l:
                ctx.label(l)
        collect(ctx, h, rd, i)
        for o in rd['more']:
            h.step(o)
        r = gitread.Repo(h.repo)
        r.closure(r.refs().values())
    # What was collected can be saved again, and is complete.
    s = h.srcs[0]
    oid = ops.save(ctx, h.repo, s, name='again', date=h.date + 10)
    r = gitread.Repo(h.repo)
    r.closure(r.refs().values())
    want = fs.snapshot(s, False)[0]
    got = gitread.under(gitread.decode(r, r.commit(oid)['tree']), s)
    n = len(s.strip(b'/')) + 1
    got = {p[n:]: e for p, e in got.items()}
    require(set(got) == set(want), 'saving after gc lacks or invents paths', sorted(set(got) ^ set(want))[:5])
    import hashlib
    for p, e in want.items():
        if e['t'] == 'f':
            require(hashlib.sha256(got[p][1]).hexdigest()[:20] == e['c'], 'saving after gc stored other content', p)
    if c['missing']:
        missing(ctx, h, c, c['missing'])

def missing(ctx, h, c, how):
    """A repository that lacks a live object loses nothing else."""
    r = gitread.Repo(h.repo)
    refs = r.refs()
    live = r.closure(refs.values())
    trees = sorted(o for o in live if r.get(o)[0] != b'blob' and o not in refs.values())
    blobs = sorted(o for o in live if r.get(o)[0] == b'blob')
    pool = trees if how < 3 else blobs
    if not pool:
        return
    gone = pool[c['rounds'][0]['seed'] % len(pool)]
    drop_aids(h.repo)
    packs.reshuffle(h.repo, how, how, drop=[gone])
    r = gitread.Repo(h.repo)
    before = r.oids()
    absent = set()
    reachable = r.closure(refs.values(), absent)
    kind = 'tree' if how < 3 else 'blob'
    if how == 1:
        q = ctx.bup('-d', h.repo, 'gc', '--unsafe', '--threshold', '0')
        require(q.rc != 0, 'gc of a repository with a missing %s succeeds' % kind, q)
        require(gitread.Repo(h.repo).oids() == before, 'gc refused but removed objects')
        ctx.label('missing-refused')
    else:
        q = ctx.bup('-d', h.repo, 'gc', '--unsafe', '--threshold', '0', '--ignore-missing')
        after = gitread.Repo(h.repo).oids()
        require(q.rc in (1, 2), 'gc --ignore-missing of an incomplete repository: exit status', q)
        require(gone.hex().encode() in q.err, 'gc --ignore-missing does not report the missing object', gone.hex(), q)
        lost = (reachable & before) - after
        require(not lost, 'gc --ignore-missing lost reachable objects', [o.hex() for o in lost][:5])
        dead = {o for o in after - reachable if r.get(o)[0] != b'blob'}
        require(not dead, 'gc --ignore-missing kept dead objects')
        ctx.label('missing-ignored')
    require(gitread.Repo(h.repo).refs() == refs, 'gc of an incomplete repository changed references')

SUITES = [Suite('gc', case, run, 120, 6000,
                'random history with removals, objects spread over random packs, up to three collections with random thresholds, '
                'sometimes with a missing object; non-trivial: dead objects were dropped')]
ASSUMPTIONS = ['dead blobs may stay when the liveness Bloom filter takes them for live (at most 3 + 2%) or below the threshold']
