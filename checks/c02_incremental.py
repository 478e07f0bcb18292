"""C02: incremental saves equal full saves, and history stays intact."""
import os
from hypothesis import strategies as st
from vt import gen, fs, ops, edits, gitread
from vt.core import Suite, Violation, require

save2 = st.fixed_dictionaries({'k': st.just('save'), 'edits': edits.edits(1, 4), 'branch': st.just('b'),
                               'idx': st.just('u'), 'mid': st.just([]), 'off': st.just(2.5)})
step = st.one_of(save2, save2, save2,
    st.fixed_dictionaries({'k': st.just('save'), 'edits': edits.edits(0, 5), 'branch': st.sampled_from(['b', 'b', 'b', 'c']),
                           'idx': st.sampled_from(['u', 'u', 'u', 'parts', 'twice', 'clear', 'fake', 'xdev']),
                           'mid': edits.edits(0, 1), 'off': st.sampled_from([2.5, 2.5, 0])}),
    st.fixed_dictionaries({'k': st.just('save'), 'edits': edits.edits(1, 4), 'branch': st.just('b'),
                           'idx': st.just('u'), 'mid': st.just([]), 'off': st.just(2.5)}),
    st.fixed_dictionaries({'k': st.just('resave')}),
    st.fixed_dictionaries({'k': st.just('other')}),
    st.fixed_dictionaries({'k': st.just('index'), 'edits': edits.edits(1, 3), 'i': st.integers(0, 20)}),
    st.fixed_dictionaries({'k': st.just('subsave'), 'edits': edits.edits(0, 2), 'i': st.integers(0, 20)}))

@st.composite
def case(draw):
    return {'tree': draw(gen.tree(depth=2, max_entries=5, names=st.one_of(gen.plain_name(), gen.name()), big=30000)),
            'cfg': draw(ops.config()),
            'steps': draw(st.lists(step, min_size=2, max_size=5))}

def run(c, ctx):
    d = ctx.bdir
    src = d + b'/src'
    os.mkdir(src)
    fs.build(src, c['tree'])
    repo = ops.init(ctx, d + b'/repo', c['cfg'])
    hist = []          # (branch, date, snapshot, sub, commit)
    parents = {}
    date = [10**9]
    nfull = [0]
    changed = False

    def do_save(branch, paths, rp=None, extra=()):
        date[0] += 100
        a = ['-d', rp or repo, 'save', '-q', '-ct', '-n', branch, '-d', str(date[0])] + list(extra) + list(paths)
        r = ctx.bup(*a, ok=True)
        tree, commit = [bytes.fromhex(x.decode()) for x in r.out.split()]
        return tree, commit

    def full(path):
        nfull[0] += 1
        fr = d + b'/full%d' % nfull[0]
        ops.init(ctx, fr, c['cfg'])
        ctx.bup('-d', fr, 'index', '-u', path, ok=True)
        keep = date[0]
        tree, commit = do_save('full', [path], fr)
        date[0] = keep
        return gitread.Repo(fr), tree

    def compare_full(tree, path):
        fr, ft = full(path)
        a, b = gitread.view(gitread.Repo(repo), tree), gitread.view(fr, ft)
        require(set(a) == set(b), 'incremental save has other paths than full save', sorted(set(a) ^ set(b))[:6])
        gitread.require_same_view(gitread.under(a, path), gitread.under(b, path),
                                  'incremental save differs from full save')

    def restore(branch, dt, path, want, rp=None):
        import time
        out = d + b'/out'
        if os.path.exists(out):
            edits.remove(out)
        name = time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(dt))
        ctx.bup('-d', rp or repo, 'restore', '-q', '-C', out, '/%s/%s' % (branch, name) + os.fsdecode(path) + '/.', ok=True)
        fs.require_same(want, fs.snapshot(out), 'restore of save %s/%s' % (branch, name))

    def record(branch, path, tree, commit):
        want = fs.snapshot(path)
        r = gitread.Repo(repo)
        cm = r.commit(commit)
        require(cm['tree'] == tree, 'save -t and -c disagree')
        require(cm['parents'] == ([parents[branch]] if branch in parents else []), 'wrong parent', branch)
        require(r.refs().get(b'refs/heads/' + branch.encode()) == commit, 'branch does not name the new commit')
        parents[branch] = commit
        compare_full(tree, path)
        hist.append((branch, date[0], path, want))

    for s in c['steps']:
        ctx.label(s['k'])
        did = 0
        for e in s.get('edits', ()):
            op = edits.apply(src, e)
            if op:
                did += 1
                ctx.label('edit-' + op)
        if s['k'] == 'index':
            # index only part of the tree; a later full index must make up for it
            ds = [b''] + [p for p, k in edits.paths(src) if k == 'd']
            p = ds[s['i'] % len(ds)]
            ctx.bup('-d', repo, 'index', '-u', src + b'/' + p if p else src, ok=True)
        elif s['k'] == 'subsave':
            ds = [p for p, k in edits.paths(src) if k == 'd']
            if not ds:
                continue
            p = src + b'/' + ds[s['i'] % len(ds)]
            ctx.bup('-d', repo, 'index', '-u', p, ok=True)
            tree, commit = do_save('sub', [p])
            record('sub', p, tree, commit)
        elif s['k'] == 'save':
            off = s['off']
            how = s['idx']
            I = lambda *a: ctx.bup('-d', repo, 'index', *a, ok=True, time_offset=off)
            ctx.label('idx-' + how)
            if how == 'parts':
                for n in sorted(os.listdir(src)):
                    I('-u', src + b'/' + n)
                I('-u', src)
            elif how == 'twice':
                I('-u', src)
                for e in s['mid']:
                    edits.apply(src, e)
                I('-u', src)
            elif how == 'clear':
                I('--clear')
                I('-u', src)
            elif how == 'fake':
                I('-u', '--fake-invalid', src)
            elif how == 'xdev':
                I('-ux', src)
            else:
                I('-u', src)
            ctx.nontrivial(bool(hist) and did > 0)
            tree, commit = do_save(s['branch'], [src])
            record(s['branch'], src, tree, commit)
        elif s['k'] == 'resave':
            ctx.bup('-d', repo, 'index', '-u', src, ok=True)
            t1, c1 = do_save('re', [src])
            before = {o for o in gitread.Repo(repo).oids()}
            ctx.bup('-d', repo, 'index', '-u', src, ok=True)
            t2, c2 = do_save('re', [src])
            r2 = gitread.Repo(repo)
            if t1 != t2:
                # Reading a directory may have updated its access time.
                a, b = gitread.under(gitread.view(r2, t1), src), gitread.under(gitread.view(r2, t2), src)
                gitread.require_same_view(a, b, 'saving an unchanged tree again gave another tree')
                # and the anchor name of hard links depends on the indexing order.
                a, b = gitread.decode_meta(r2, t1, content=False), gitread.decode_meta(r2, t2, content=False)
                require(a != b, 'saving an unchanged tree again stored it differently')
                ctx.label('atime-or-anchor-changed')
            added = gitread.Repo(repo).oids() - before
            require(t1 != t2 or added <= {c2}, 'saving an unchanged tree again added objects', [o.hex() for o in added])
            parents['re'] = c2
            parents_ok = gitread.Repo(repo).commit(c2)['parents']
            require(parents_ok == [c1], 'wrong parent')
        elif s['k'] == 'other':
            # another repository that lacks the objects the index knows
            orp = d + b'/other'
            if not os.path.exists(orp):
                ops.init(ctx, orp, c['cfg'])
            ix = repo + b'/bupindex'
            ctx.bup('-d', repo, 'index', '-u', src, ok=True)
            want = fs.snapshot(src)
            do_save('o', [src], orp, ['-f', ix])
            restore('o', date[0], src, want, orp)
    for branch, dt, path, want in hist:
        restore(branch, dt, path, want)
    r = gitread.Repo(repo)
    r.closure([o for o in r.refs().values()])

SUITES = [Suite('history', case, run, 240, 8000,
                'random tree, then 2-5 steps of edits + index + save; non-trivial: an edited tree was saved incrementally')]
ASSUMPTIONS = ['access times are not compared (they are not restored by default comparisons and change on reading)',
               'edits that race with the index run itself are not generated']
