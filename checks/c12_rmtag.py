"""C12: removing saves and tagging change exactly what was named."""
import os
from hypothesis import strategies as st
from vt import fs, gen, ops, gitread, hist, mkrepo, packs
from vt.core import Suite, Violation, require

BN = mkrepo.NAMES

@st.composite
def base(draw, nb=(1, 3), size=7):
    names = draw(st.lists(st.sampled_from(BN), min_size=nb[0], max_size=nb[1], unique=True))
    return {'branches': {n: draw(mkrepo.branch(1, size)) for n in names},
            'tags': draw(st.lists(st.tuples(st.sampled_from([b't', b'v1.0', b'\xc3\xa9', b'zz', b'main']), st.integers(0, 50)), max_size=3)),
            'fork': draw(st.one_of(st.none(), st.integers(0, 20))),
            'seed': draw(st.integers(0, 999)), 'npacks': draw(st.integers(1, 3)), 'packrefs': draw(st.booleans()),
            'trees': draw(st.lists(gen.tree(depth=1, max_entries=3, names=gen.plain_name(), rich=False, big=9000, kinds='fffdl'), min_size=1, max_size=3))}

def setup(c, ctx):
    """Saves a few trees, then builds branches of handmade commits on them."""
    d = ctx.bdir
    repo = ops.init(ctx, d + b'/repo', {})
    trees = []
    for i, t in enumerate(c['trees']):
        s = d + b'/s%d' % i
        os.mkdir(s)
        fs.build(s, t)
        ctx.bup('-d', repo, 'index', '-u', s, ok=True)
        out = ctx.bup('-d', repo, 'save', '-q', '-t', '--strip', '-n', 'base', s, ok=True).out
        trees.append(bytes.fromhex(out.decode().strip()))
    ids = mkrepo.write(repo, c['branches'], trees)
    mine = ids[sorted(ids)[0]]
    if c['fork'] is not None:
        # a branch that shares commits with another
        mkrepo.set_ref(repo, b'refs/heads/forked', mine[c['fork'] % len(mine)])
    allc = [o for n in sorted(ids) for o in ids[n]]
    for t, i in c['tags']:
        mkrepo.set_ref(repo, b'refs/tags/' + t, allc[i % len(allc)])
    if c['packrefs']:
        ctx.git(repo, 'pack-refs', '--all')
    if c['npacks'] > 1:
        packs.reshuffle(repo, c['seed'], c['npacks'])
    return repo

def heads(r):
    return {n[11:]: o for n, o in r.refs().items() if n.startswith(b'refs/heads/')}

KEEP = ('tree', 'author', 'committer', 'message')

request = st.fixed_dictionaries({'b': st.integers(0, 9), 'i': st.integers(0, 40), 'n': st.integers(1, 4), 'style': st.sampled_from(['/', '', './', '//', 'dots']),
    'what': st.sampled_from(['save', 'save', 'save', 'save', 'save', 'save', 'save', 'branch', 'all', 'latest', 'nobranch', 'nosave', 'inside', 'root', 'tagdir', 'tag'])})

@st.composite
def rm_case(draw):
    c = draw(base())
    c['rounds'] = draw(st.lists(st.tuples(st.lists(request, min_size=1, max_size=3), st.booleans(), st.sampled_from([[], ['-v'], ['-0'], ['-9']])),
                                min_size=1, max_size=3))
    return c

def run_rm(c, ctx):
    repo = setup(c, ctx)
    for reqs, unsafe, opts in c['rounds']:
        r = gitread.Repo(repo)
        refs = r.refs()
        hs = heads(r)
        if not hs:
            return
        saves = {n: hist.save_names(r, o) for n, o in hs.items()}
        names = sorted(hs)
        paths, bad = [], False
        dead = {n: set() for n in names}
        gone = set()
        for q in reqs:
            n = names[q['b'] % len(names)]
            pre = {'/': b'/', '': b'', './': b'./', '//': b'//', 'dots': b'/' + names[0] + b'/../'}[q['style']]
            ss = saves[n]
            w = q['what']
            if w == 'save':
                for k in range(q['n']):
                    s = ss[(q['i'] + k * k) % len(ss)]
                    paths.append(pre + n + b'/' + s[0])
                    dead[n].add(s[1])
            elif w == 'all':
                for s in ss:
                    paths.append(pre + n + b'/' + s[0])
                    dead[n].add(s[1])
            elif w == 'branch':
                paths.append(pre + n)
                gone.add(n)
            else:
                bad = True
                paths.append({'latest': pre + n + b'/latest', 'nobranch': pre + b'nobranch', 'nosave': pre + n + b'/2001-01-01-000000-77',
                              'inside': pre + n + b'/' + ss[0][0] + b'/nothere', 'root': b'/', 'tagdir': b'/.tag', 'tag': b'/.tag/t'}[w])
            ctx.label('rm-' + w)
        oids = r.oids()
        p = ctx.bup('-d', repo, 'rm', *(['--unsafe'] if unsafe or bad else []), *opts, *paths)
        what = 'rm %r' % (paths,)
        r2 = gitread.Repo(repo)
        if bad or not unsafe:
            require(p.rc != 0, what + ' succeeds though invalid', p)
            require(r2.refs() == refs, what + ' is invalid, but changed references', sorted(set(r2.refs().items()) ^ set(refs.items())))
            ctx.label('refused')
            continue
        require(p.rc == 0, what + ' fails', p)
        want = {}
        for n in names:
            if n in gone:
                continue
            left = [(o, cm) for _, o, cm in saves[n] if o not in dead[n]]
            if left:
                want[n] = left
        now = heads(r2)
        require(set(now) == set(want), what + ': branches', sorted(now), sorted(want))
        require({k: v for k, v in r2.refs().items() if k.startswith(b'refs/tags/')} == {k: v for k, v in refs.items() if k.startswith(b'refs/tags/')},
                what + ' changed tags')
        for n, left in want.items():
            got = r2.history(now[n])[::-1]
            show = lambda cm: {k: cm.get(k) for k in KEEP}
            require([show(cm) for _, cm in got] == [show(cm) for _, cm in left], what + ': remaining saves of %r' % n,
                    [show(cm) for _, cm in got], [show(cm) for _, cm in left])
            if not dead[n]:
                require(now[n] == hs[n], what + ' changed an unrelated branch', n)
        lost = oids - r2.oids()
        require(not lost, what + ' removed objects', len(lost))
        r2.closure(r2.refs().values())
        ops.fsck(ctx, repo, what)
        # The save names follow from the dates again.
        for n in want:
            ls = ctx.bup('-d', repo, 'ls', b'/' + n, ok=True).out.split()
            require(ls == sorted(x[0] for x in hist.save_names(r2, now[n])) + [b'latest'], what + ': ls of branch', n, ls)
        ctx.nontrivial()
        if any(len(v) > 1 for v in dead.values()):
            ctx.label('several')

tagop = st.fixed_dictionaries({'op': st.sampled_from(['new', 'new', 'new', 'force', 'force', 'del', 'del', 'delf', 'list', 'badname', 'badcommit', 'noargs']),
                               'n': st.sampled_from([b't', b't2', b'v1.0-rc', b'\xc3\xa9', b'main', b'x/y', b'latest', b'-'.join([b'a'] * 30)]),
                               'i': st.integers(0, 60), 'by': st.sampled_from(['hex', 'hex', 'branch', 'ref', 'HEX'])})

@st.composite
def tag_case(draw):
    c = draw(base((1, 3), 4))
    c['ops'] = draw(st.lists(tagop, min_size=2, max_size=9))
    return c

def run_tag(c, ctx):
    repo = setup(c, ctx)
    R = ['-d', repo]
    for o in c['ops']:
        r = gitread.Repo(repo)
        refs = r.refs()
        hs = heads(r)
        tags = {n[10:]: v for n, v in refs.items() if n.startswith(b'refs/tags/')}
        name, op = o['n'], o['op']
        k = sorted(hs)[o['i'] % len(hs)]
        ids = [x for x, _ in r.history(hs[k])]
        oid = ids[o['i'] % len(ids)]
        if o['by'] == 'hex': arg = oid.hex().encode()
        elif o['by'] == 'HEX': arg = oid.hex().upper().encode()
        else:
            oid = hs[k]
            arg = k if o['by'] == 'branch' else b'refs/heads/' + k
        want = dict(tags)
        rc = 0
        # git cannot have both x and x/y
        clash = any(t.startswith(name + b'/') or name.startswith(t + b'/') for t in tags)
        if op in ('new', 'force'):
            p = ctx.bup(*R, 'tag', *(['-f'] if op == 'force' else []), name, arg)
            if (name in tags and op == 'new') or clash:
                rc = 1
            else:
                want[name] = oid
        elif op == 'badname':
            bad = [b'', b'.hidden', b'a..b', b'a b', b'x.lock', b'a~1', b'a:b', b'/x', b'x/'][o['i'] % 9]
            p = ctx.bup(*R, 'tag', bad, arg)
            rc = 1
        elif op == 'badcommit':
            bad = [b'nosuch', b'0' * 40, b'1234', b'z' * 40, b'main/nothere', b'nosuch\xff'][o['i'] % 6]
            p = ctx.bup(*R, 'tag', '-f', name, bad)
            rc = 1
        elif op in ('del', 'delf'):
            p = ctx.bup(*R, 'tag', *(['-f'] if op == 'delf' else []), '-d', name)
            if name not in tags and op == 'del':
                rc = 1
            want.pop(name, None)
        elif op == 'list':
            p = ctx.bup(*R, 'tag')
            require(sorted(p.out.splitlines()) == sorted(tags), 'tag list', p.out, sorted(tags))
        else:
            p = ctx.bup(*R, 'tag', name)
            rc = 1
        what = 'tag %s %r %r' % (op, name, arg)
        require((p.rc != 0) == bool(rc), what + ': exit status', p, tags)
        r2 = gitread.Repo(repo)
        got = {n[10:]: v for n, v in r2.refs().items() if n.startswith(b'refs/tags/')}
        require(got == want, what + ': tags', sorted(got), sorted(want))
        require(heads(r2) == hs, what + ' changed branches')
        require(r2.oids() == r.oids(), what + ' changed objects')
        ctx.label(('ok-' if not rc else 'refused-') + op)
        if want != tags:
            ctx.nontrivial()
    if tags:
        ls = ctx.bup(*R, 'ls', '/.tag/', ok=True).out.splitlines()
        top = sorted(n for n in want if b'/' not in n)
        require([x for x in ls if b'/' not in x] == top or any(b'/' in x for x in want), 'ls /.tag', ls, top)

SUITES = [Suite('rm', rm_case, run_rm, 200, 10000,
                'branches of handmade commits (odd authors, zones, messages, equal and decreasing dates) spread over packs; random removals, '
                'valid or not; non-trivial: a valid removal took place'),
          Suite('tag', tag_case, run_tag, 120, 6000, 'random tag commands against a model; non-trivial: a tag changed')]
ASSUMPTIONS = ['branch names do not contain a slash (bup cannot address such branches by path)']
