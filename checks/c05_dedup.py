"""C05: identical data is stored once and addressed by content."""
import os, hashlib
from hypothesis import strategies as st
from vt import fs, gen, edits, ops, gitread, scen, hist, packs
from vt.core import Suite, Violation, require

WRITES = ['save', 'save', 'save', 'edit', 'edit', 'split', 'split-tree', 'tag', 'rm-save', 'get-append', 'get-pick', 'get-replace',
          'get-new-tag', 'get-unnamed', 'get-rewrite', 'midx', 'midx', 'bloom', 'bloom', 'save-strip', 'save-smaller',
          'save-flags', 'save-same', 'reshuffle', 'gc', 'git-gc', 'stale-bloom', 'stale-midx', 'drop-aids', 'clear-index']

@st.composite
def case(draw):
    c = draw(hist.history(WRITES, 3, 9))
    c['again'] = draw(st.lists(st.tuples(st.sampled_from(['save', 'split-t', 'split-b', 'split-c', 'split-n', 'get']),
                                         st.sampled_from(['none', 'midx', 'bloom', 'clear', 'drop', 'reshuffle', 'tinybloom']), st.integers(0, 9)),
                               min_size=1, max_size=4))
    return c

def aids(h, how, i=0):
    pd = h.repo + b'/objects/pack/'
    ctx = h.ctx
    if how in ('drop', 'drop-aids'):
        for n in os.listdir(pd):
            if n.endswith((b'.midx', b'.bloom')):
                os.unlink(pd + n)
    elif how == 'midx':
        ctx.bup(*h.R, 'midx', ['-a', '-f'][i % 2], ok=True)
    elif how == 'bloom':
        ctx.bup(*h.R, 'bloom', *(['-f'] if i % 2 else []), ok=True)
    elif how == 'tinybloom':
        ctx.bup(*h.R, 'bloom', '-f', '-k', '45'[i % 2], ok=True)
    elif how == 'clear':
        for n in (b'bupindex', b'bupindex.meta', b'bupindex.hlink'):
            if os.path.exists(h.repo + b'/' + n):
                os.unlink(h.repo + b'/' + n)
        h.indexed.clear()
    elif how == 'reshuffle':
        h.step({'op': 'reshuffle', 'i': i, 'j': i})

def integrity(r, what, skip=()):
    for name, data, entries in r.packs:
        if name in skip:
            continue
        n = int.from_bytes(data[8:12], 'big')
        require(n == len(entries), what + ': pack holds another number of objects than its index', name, n, len(entries))

class Watch:
    def __init__(self, h):
        self.h = h
        self.look()

    def look(self):
        self.r = gitread.Repo(self.h.repo)
        self.oids = self.r.oids()
        self.names = {n for n, _, _ in self.r.packs}

    def check(self, what):
        """New packs share nothing with what was there, nor with each other."""
        old_oids, old_names, old_r = self.oids, self.names, self.r
        self.look()
        integrity(self.r, what, old_names)
        new = {}
        for name, _, e in self.r.packs:
            if name in old_names:
                continue
            again = set(e) & old_oids
            require(not again, what + ' stored objects that were already there', name,
                    [(old_r.get(o)[0], o.hex()) for o in sorted(again)[:3]], len(again))
            for o in e:
                require(o not in new, what + ' stored an object in two packs', o.hex(), name, new.get(o))
                new[o] = name
        for o in new:
            self.r.get(o)      # verifies the name against the content
        return new

def run(c, ctx):
    h = hist.Hist(ctx, c)
    w = Watch(h)
    for o in c['ops']:
        k = o['op']
        if k in ('stale-bloom', 'stale-midx'):
            # keep the aid from before the next write: it then covers only some packs
            aids(h, k[6:], o['i'])
        elif k == 'drop-aids':
            aids(h, k)
        elif k == 'clear-index':
            aids(h, 'clear')
        else:
            l = h.step(o)
            if l is None:
                continue
            if k in ('gc', 'git-gc', 'reshuffle'):
                w.look()
            else:
                n = w.check(k)
                if n:
                    ctx.label('wrote-' + k)
    h.step({'op': 'save', 'i': 1, 'j': 0})
    data = gen.realize(c['data'])
    first = {}
    def split(k):
        h.date += 1
        a = {'split-t': ['-t'], 'split-b': ['-b'], 'split-c': ['-c', '-d', '1000000000'], 'split-n': ['-n', 'again', '-d', str(h.date)]}[k]
        return ctx.bup(*h.R, 'split', '-q', *a, stdin=data, ok=True).out
    for k in ('split-t', 'split-b', 'split-c'):
        first[k] = split(k)
    if any(k == 'get' for k, _, _ in c['again']):
        h.make_other()
        ctx.bup(*h.R, 'get', '-s', h.other, '--copy', '--unnamed', 'o', ok=True)
    ctx.bup(*h.R, 'index', '-u', h.srcs[0], ok=True)
    tree = ctx.bup(*h.R, 'save', '-q', '-t', '-n', 'again0', '-d', str(h.date), h.srcs[0], ok=True).out
    w.look()
    v0 = gitread.under(gitread.view(w.r, bytes.fromhex(tree.decode().strip())), h.srcs[0])
    for k, how, i in c['again']:
        aids(h, how, i)
        w.look()
        what = '%s again after %s' % (k, how)
        if k == 'save':
            h.date += 1
            ctx.bup(*h.R, 'index', '-u', h.srcs[0], ok=True)
            t = ctx.bup(*h.R, 'save', '-q', '-t', '-n', 'again%d' % i, '-d', str(h.date), h.srcs[0], ok=True).out
            new = w.check(what)
            # Access times and directories above the source may have changed, so metadata (and trees) may be new.
            meta = {x for o in new if w.r.get(o)[0] == b'tree' for _, n, x in gitread.parse_tree(w.r.get(o)[1]) if n == b'.bupm'}
            bad = [o.hex() for o in new if w.r.get(o)[0] == b'blob' and o not in meta]
            require(not bad, what + ' stored content again', bad[:5])
            gitread.require_same_view(gitread.under(gitread.view(w.r, bytes.fromhex(t.decode().strip())), h.srcs[0]), v0, what)
        elif k == 'get':
            ctx.bup(*h.R, 'get', '-s', h.other, '--copy', '--unnamed', 'o', ok=True)
            new = w.check(what)
            require(not new, what + ' added objects', [w.r.get(o)[0] for o in new][:5], len(new))
        else:
            out = split(k)
            new = w.check(what)
            kinds = sorted(w.r.get(o)[0] for o in new)
            if k == 'split-n':
                # an empty input has no chunk until it is given a name
                kinds = sorted(w.r.get(o)[0] for o in new if w.r.get(o) != (b'blob', b''))
                # the first use creates the tree that holds the file
                require(kinds in ([b'commit'], [b'commit', b'tree']), what + ' added objects', kinds)
            else:
                require(out == first[k], what + ' gives another id', first[k], out)
                require(not new, what + ' added objects', kinds)
        ctx.label('again-' + how)
        ctx.nontrivial()

@st.composite
def edit_case(draw):
    return {'seed': draw(st.integers(0, 10**6)), 'size': draw(st.integers(400000, 900000)),
            'cfg': draw(st.sampled_from([None, 'legacy:13', 'legacy:14', 'legacy:15'])),
            'edits': draw(st.lists(st.tuples(st.sampled_from(['ins', 'del', 'rep', 'move', 'prepend', 'append']), st.integers(0, 10**6),
                                             st.integers(1, 3000)), min_size=1, max_size=5)),
            'how': draw(st.sampled_from(['-b', '-t', 'save']))}

def run_edit(c, ctx):
    import random
    d = ctx.bdir
    repo = ops.init(ctx, d + b'/repo', {'bup.split.files': c['cfg']} if c['cfg'] else {})
    bits = int(c['cfg'][7:]) if c['cfg'] else 13
    rnd = random.Random(c['seed'])
    data = rnd.randbytes(c['size'])
    os.mkdir(d + b'/s')
    def store(n):
        if c['how'] == 'save':
            fs.write_file(d + b'/s/f%d' % n, data)       # under a new name each time
            ctx.bup('-d', repo, 'index', '-u', d + b'/s', ok=True)
            ctx.bup('-d', repo, 'save', '-q', '-n', 'b', d + b'/s', ok=True)
        else:
            ctx.bup('-d', repo, 'split', c['how'], stdin=data, ok=True)
    store(0)
    old = gitread.Repo(repo).oids()
    for n, (op, pos, size) in enumerate(c['edits'], 1):
        p = pos % len(data)
        new = rnd.randbytes(size)
        if op == 'ins': data = data[:p] + new + data[p:]
        elif op == 'del': data = data[:p] + data[p + size:]
        elif op == 'rep': data = data[:p] + new + data[p + size:]
        elif op == 'prepend': data = new + data
        elif op == 'append': data += new
        elif op == 'move': data = data[p:] + data[:p]
        store(n)
        r = gitread.Repo(repo)
        integrity(r, op)
        added = r.oids() - old
        size_added = sum(len(r.get(o)[1]) for o in added)
        # Boundaries depend only on nearby content, so they reappear soon after the edit: 24 mean chunks
        # (twice, for the two joints of a move) are missed with probability e^-24.
        bound = size + (2 if op == 'move' else 1) * (24 << bits) + 8000
        require(size_added <= bound, 'an edit of %d bytes (%s) stored %d bytes again' % (size, op, size_added), bound, len(data))
        old |= added
        ctx.label(op)
    ctx.nontrivial()

SUITES = [Suite('history', case, run, 130, 6000,
                'random history over several branches, lookup aids and packs; after every writing command the new packs must be disjoint '
                'from all others; then data is stored again under random lookup aids; non-trivial: something was stored again'),
          Suite('locality', edit_case, run_edit, 60, 3000, 'random data with random edits; every case is non-trivial')]
ASSUMPTIONS = ['gc, git gc and repacking by git replace packs rather than add data and are outside the disjointness rule']
