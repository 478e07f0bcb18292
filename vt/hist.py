"""Random histories of commands on one repository (C05, C06, C11, C12, C16)."""
import os, shutil
from hypothesis import strategies as st
from . import gen, fs, ops, edits, gitread, packs, scen
from .core import require, Violation

BRANCHES = [b'b0', b'b1', b'\xc3\xb6.x']
KINDS = ['save', 'save', 'save', 'edit', 'edit', 'split', 'split-tree', 'tag', 'untag', 'rm-save', 'rm-branch', 'gc',
         'prune', 'get-append', 'get-pick', 'get-ff', 'get-replace', 'get-new-tag', 'get-unnamed', 'get-rewrite',
         'midx', 'bloom', 'config', 'git-gc', 'pack-refs', 'save-strip', 'save-smaller', 'reshuffle', 'save-flags', 'save-same']

def op(kinds=KINDS):
    return st.fixed_dictionaries({'op': st.sampled_from(kinds), 'i': st.integers(0, 60), 'j': st.integers(0, 60)})

@st.composite
def history(draw, kinds=KINDS, min_size=3, max_size=9, big=30000, rich=False):
    cfg = draw(ops.config())
    if cfg.get('pack.packSizeLimit') in ('1k', '2000'):
        cfg['pack.packSizeLimit'] = '70000'
    return {'tree': draw(gen.tree(depth=2, max_entries=4, names=st.one_of(gen.plain_name(), gen.name()), rich=rich, big=big, kinds='ffffddlh')),
            'tree2': draw(gen.tree(depth=1, max_entries=4, names=gen.plain_name(), rich=rich, big=big, kinds='fffdl')),
            'cfg': cfg,
            'ops': draw(st.lists(op(kinds), min_size=min_size, max_size=max_size)),
            'edits': draw(st.lists(edits.edit(big=big), min_size=4, max_size=8)),
            'data': draw(gen.content(2, big))}

def save_names(r, head):
    """A branch's saves, oldest first: (name, commit id, commit).

    Saves of the same second are numbered from the oldest."""
    h = r.history(head)[::-1]
    stamps = [scen.stamp(int(cm['author'].split()[-2])).encode() for _, cm in h]
    seen, out = {}, []
    for s, (o, cm) in zip(stamps, h):
        n = stamps.count(s)
        k = seen.get(s, 0)
        seen[s] = k + 1
        out.append((s if n == 1 else b'%s-%0*d' % (s, len(str(n - 1)), k), o, cm))
    return out

class Hist:
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        d = self.d = ctx.bdir
        self.repo = d + b'/repo'
        self.other = None
        self.srcs = [d + b'/s0', d + b'/s1']
        for s, t in zip(self.srcs, (c['tree'], c['tree2'])):
            os.mkdir(s)
            fs.build(s, t)
            fs.write_file(s + b'/keep', b'kept in ' + s[-2:])
        self.date = 10**9
        ops.init(ctx, self.repo, c['cfg'])
        # git's commit graph would still mention commits bup gc removed
        ctx.git(self.repo, 'config', 'gc.writeCommitGraph', 'false')
        self.R = ['-d', self.repo]
        self.n = 0
        self.indexed = set()
        self.reconfigured = False

    def refs(self):
        return gitread.Repo(self.repo).refs()

    def heads(self):
        return {n[11:]: o for n, o in self.refs().items() if n.startswith(b'refs/heads/')}

    def tags(self):
        return {n[10:]: o for n, o in self.refs().items() if n.startswith(b'refs/tags/')}

    def make_other(self):
        if self.other:
            return
        self.other = self.d + b'/other'
        ops.init(self.ctx, self.other, {k: v for k, v in self.c['cfg'].items() if 'pack.' not in k})
        ops.save(self.ctx, self.other, self.srcs[0], name='o', date=10**9 - 10**7)
        fs.write_file(self.srcs[1] + b'/o', gen.realize(self.c['data']))
        ops.save(self.ctx, self.other, self.srcs[1], name='o', date=10**9 - 10**6)

    def saves(self, b):
        """Names of a branch's saves, oldest first."""
        return [n for n, _, _ in save_names(gitread.Repo(self.repo), self.heads()[b])]

    def step(self, o):
        """Perform one operation; returns its label (None: not applicable)."""
        ctx, R, c = self.ctx, self.R, self.c
        k, i, j = o['op'], o['i'], o['j']
        self.date += 86400 * (1 + i % 50)
        heads = sorted(self.heads())
        b = BRANCHES[i % len(BRANCHES)]
        src = self.srcs[j % 2]
        d = str(self.date)
        def bup(*a, stdin=b'', ok=True):
            return ctx.bup(*R, *a, stdin=stdin, ok=ok)
        def index():
            bup('index', '-u', src)
            self.indexed.add(src)
        if k == 'edit':
            e = c['edits'][i % len(c['edits'])]
            e = dict(e, i=e['i'] + j)
            if not edits.apply(src, e):
                return None
            self.indexed.discard(src)
            return 'edit'
        if k in ('save', 'save-strip', 'save-smaller', 'save-flags', 'save-same'):
            if k != 'save-same':
                index()
            elif src not in self.indexed:
                return None
            a = {'save-strip': [['--strip'], ['--strip-path', self.d], ['--graft', os.fsdecode(src) + '=/g/h']][i % 3],
                 'save-smaller': ['--smaller', '2000'],
                 'save-flags': [['-t'], ['-c'], ['-t', '-c', '-v'], ['-0'], ['-9', '-vv']][i % 5]}.get(k, [])
            bup('save', '-q', '-n', b, '-d', d, *a, src)
        elif k == 'split':
            bup('split', '-q', '-n', b, '-d', d, *[[], ['-t'], ['--fanout', '4'], ['-c']][j % 4],
                stdin=gen.realize(c['data']) + b'%d' % i)
        elif k == 'split-tree':
            bup('split', *[['-t'], ['-b'], ['-c', '-d', d], ['--copy']][j % 4], stdin=gen.realize(c['data']) + b't%d' % i)
        elif k == 'tag':
            if not heads:
                return None
            h = heads[i % len(heads)]
            ids = gitread.Repo(self.repo).history(self.heads()[h])
            what = h if j % 3 == 0 and h.isascii() else ids[j % len(ids)][0].hex()
            bup('tag', '-f', b't%d' % (j % 4), what)
        elif k == 'untag':
            t = sorted(self.tags())
            if not t:
                return None
            bup('tag', '-d', t[i % len(t)])
        elif k == 'rm-save':
            if not heads:
                return None
            h = heads[i % len(heads)]
            s = self.saves(h)
            n = {s[(j + q * 7) % len(s)] for q in range(1 + j % 3)}
            bup('rm', '--unsafe', *[b'/' + h + b'/' + x for x in sorted(n)])
        elif k == 'rm-branch':
            if not heads:
                return None
            bup('rm', '--unsafe', heads[i % len(heads)])
        elif k == 'gc':
            bup('gc', '--unsafe', '--threshold', str([0, 0, 10, 50, 100][i % 5]), *[[], ['-v'], ['-0'], ['-9', '-v']][j % 4])
        elif k == 'prune':
            if not heads:
                return None
            bup('prune-older', '--unsafe', '--wrt', str(self.date), ['--keep-all-for', '--keep-dailies-for', '--keep-monthlies-for'][i % 3],
                ['20d', '3m', '1y'][j % 3], *([] if j % 2 else ['--no-gc']))
        elif k.startswith('get-'):
            self.make_other()
            return self.get(k, b, i, j, bup)
        elif k == 'midx':
            bup('midx', *[['-a'], ['-f'], ['-a', '--max-files=5'], ['-p', '-a']][i % 4])
        elif k == 'bloom':
            bup('bloom', *[[], ['-f'], ['-f', '-k', '4'], ['-k', '5']][i % 4])
        elif k == 'config':
            self.reconfigured = True
            ctx.git(self.repo, 'config', *[['bup.split.trees', 'true'], ['bup.split.trees', 'false'], ['pack.compression', '0'],
                    ['core.compression', '6'], ['bup.split.files', 'legacy:14'], ['bup.split.files', 'legacy:13']][i % 6])
        elif k == 'git-gc':
            if not heads:
                return None
            # never prunes: unreachable objects are bup gc's business
            ctx.git(self.repo, *[['repack', '-a', '-d', '-q', '-k'], ['repack', '-q', '-d'], ['gc', '-q', '--no-prune'],
                                 ['repack', '-A', '-d', '-q']][i % 4])
        elif k == 'pack-refs':
            ctx.git(self.repo, 'pack-refs', '--all')
        elif k == 'reshuffle':
            for n in os.listdir(self.repo + b'/objects/pack'):
                if n.endswith((b'.midx', b'.bloom')):
                    os.unlink(self.repo + b'/objects/pack/' + n)
            packs.reshuffle(self.repo, i, 1 + j % 5, deltas=bool(i % 2))
        else:
            raise AssertionError(k)
        return k

    def get(self, k, b, i, j, bup):
        m = k[4:]
        ex = b in self.heads()
        S = ['get', '-s', self.other]
        if m != 'rewrite' and (self.reconfigured or i % 4 == 0):
            S.append('--copy')
        st1 = b'o/' + scen.stamp(10**9 - 10**7).encode()
        if m == 'append':
            bup(*S, '--append:', 'o', b)
        elif m == 'pick':
            bup(*S, *(['--pick:'] if j % 2 else ['--force-pick:']), st1, b)
        elif m == 'ff':
            if ex:
                return None
            bup(*S, '--ff:', 'o', b)
        elif m == 'replace':
            bup(*S, '--replace:', ['o', st1][j % 2] if False else 'o', b)
        elif m == 'new-tag':
            t = b'n%d' % (i % 4)
            if t in self.tags():
                return None
            bup(*S, '--new-tag:', ['o', st1][j % 2], b'.tag/' + t)
        elif m == 'unnamed':
            bup(*S, '--unnamed', ['o', st1, st1 + self.srcs[0]][j % 3])
        elif m == 'rewrite':
            bup(*S, '--rewrite', *(['--append:', 'o', b] if j % 2 else ['--pick:', st1, b]))
        return k
