"""C16: copying saves between repositories preserves them exactly."""
import os, shutil, time
from hypothesis import strategies as st
from vt import fs, gen, ops, gitread, hist, mkrepo, packs, scen
from vt.core import Suite, Violation, require
from checks import c12_rmtag
from checks.c12_rmtag import heads

METHODS = ['ff', 'ff', 'append', 'append', 'append', 'pick', 'pick', 'pick', 'force-pick', 'force-pick', 'new-tag', 'new-tag', 'replace', 'replace', 'unnamed']

GOOD = {'ff': (['branch', 'branch', 'save', 'latest', 'tag'], ['none', 'none', 'same', 'same', 'new', 'new2', 'branch']),
        'append': (['branch', 'branch', 'save', 'latest', 'tag', 'tree'], ['branch', 'branch', 'same', 'new', 'new2', 'none']),
        'pick': (['save', 'save', 'latest', 'tag'], ['branch', 'branch', 'same', 'new', 'newtag', 'newtag2']),
        'force-pick': (['save', 'save', 'latest', 'tag'], ['branch', 'same', 'new', 'newtag', 'tag', 'tag']),
        'new-tag': (['branch', 'save', 'save', 'latest', 'tag', 'tree', 'file'], ['newtag', 'newtag2']),
        'replace': (['branch', 'save', 'latest', 'tag'], ['branch', 'same', 'new', 'tag', 'newtag']),
        'unnamed': (['branch', 'save', 'latest', 'tag', 'tree', 'file'], ['none'])}
ANY = (['branch', 'save', 'latest', 'tag', 'tree', 'file', 'nosuch', 'root', 'tags'],
       ['none', 'branch', 'same', 'new', 'tag', 'newtag', 'save', 'hidden', 'tags', 'inside'])

@st.composite
def spec(draw):
    m = draw(st.sampled_from(METHODS))
    srcs, dsts = GOOD[m] if draw(st.integers(0, 6)) else ANY
    return {'m': m, 'src': draw(st.sampled_from(srcs)), 'dst': draw(st.sampled_from(dsts)), 'i': draw(st.integers(0, 30)),
            'j': draw(st.integers(0, 30)), 'k': draw(st.integers(0, 30)), 'style': draw(st.sampled_from(['', '/', '/']))}

@st.composite
def case(draw):
    c = draw(c12_rmtag.base((1, 3), 5))
    c['cut'] = draw(st.dictionaries(st.integers(0, 4), st.tuples(st.sampled_from(['prefix', 'prefix', 'absent', 'other', 'same', 'extended']), st.integers(0, 20)), max_size=4))
    c['extra'] = draw(mkrepo.branch(1, 2))
    c['dtags'] = draw(st.lists(st.tuples(st.sampled_from([b't', b'v1.0', b'd']), st.integers(0, 50)), max_size=2))
    c['prune'] = draw(st.booleans())
    c['cmds'] = draw(st.lists(st.fixed_dictionaries({'specs': st.lists(spec(), min_size=1, max_size=3), 'remote': st.integers(0, 3),
                     'print': st.sampled_from([[], ['-c'], ['-t'], ['-tc', '--print-tags']]), 'opts': st.sampled_from([[], ['-v'], ['-vvv'], ['-0'], ['--copy'], []])}),
                     min_size=1, max_size=4))
    return c

class Model:
    """What the documentation says each method does."""
    def __init__(self, src, dst):
        self.src, self.dst = src, dst
        self.refs = dict(dst.refs())
        self.new = {}       # placeholder -> (parent, tree, author, message)
        self.out = []

    def history(self, oid):
        return self.src.history(oid)[::-1]

    def commits(self, cs, parent):
        for o, cm in cs:
            key = 'new%d' % len(self.new)
            self.new[key] = (parent, cm['tree'], cm['author'], cm['message'])
            parent = key
        return parent

    def ancestors(self, x):
        return {o for o, _ in self.src.history(x)}

class Bad(Exception):
    pass

def source(c, s, m, sh, tags):
    """(spec text, type, hash, default branch, branch tip)"""
    names = sorted(sh)
    b = names[s['i'] % len(names)]
    pre = b'/' if s['style'] == '/' else b''
    saves = hist.save_names(m.src, sh[b])
    n, oid, cm = saves[s['j'] % len(saves)]
    w = s['src']
    if w == 'tag' and not tags:
        w = 'branch'
    if w == 'branch':
        return pre + b, 'branch', sh[b], b
    if w == 'save':
        return pre + b + b'/' + n, 'save', oid, b
    if w == 'latest':
        return pre + b + b'/latest', 'save', sh[b], b
    if w == 'tag':
        t = sorted(tags)[s['j'] % len(tags)]
        return pre + b'.tag/' + t, 'commit', tags[t], None
    if w == 'tree':
        return pre + b + b'/' + n + b'/dir', 'tree', dict((x, o) for _, x, o in gitread.parse_tree(m.src.get(cm['tree'])[1]))[b'dir'], None
    if w == 'file':
        return pre + b + b'/' + n + b'/file', 'blob', dict((x, o) for _, x, o in gitread.parse_tree(m.src.get(cm['tree'])[1]))[b'file'], None
    return {'nosuch': pre + b'nosuch', 'root': b'/', 'tags': b'/.tag'}[w], 'bad', None, None

def dest(s, m, refs, default):
    """(spec text or None, kind, name)"""
    hs = sorted(n[11:] for n in refs if n.startswith(b'refs/heads/'))
    ts = sorted(n[10:] for n in refs if n.startswith(b'refs/tags/'))
    pre = b'/' if s['style'] == '/' else b''
    w = s['dst']
    if w == 'none' or s['m'] == 'unnamed':
        return None, None, None
    if w == 'branch' and not hs or w == 'save' and not hs or w == 'inside' and not hs:
        w = 'new'
    if w == 'tag' and not ts:
        w = 'newtag'
    if w == 'same':
        if default is None:
            w = 'new'
        else:
            return pre + default, 'branch' if default in hs else 'new', default
    if w in ('new', 'new2'):
        n = b'fresh' if w == 'new' else b'fr\xc3\xa9sh.2'
        return pre + n, 'branch' if n in hs else 'new', n
    if w == 'branch':
        n = hs[s['k'] % len(hs)]
        return pre + n, 'branch', n
    if w == 'tag':
        n = ts[s['k'] % len(ts)]
        return pre + b'.tag/' + n, 'tag', n
    if w in ('newtag', 'newtag2'):
        n = b'nt' if w == 'newtag' else b'n\xc3\xbc-2'
        return pre + b'.tag/' + n, 'tag' if n in ts else 'newtag', n
    if w == 'save':
        h = hs[s['k'] % len(hs)]
        return pre + h + b'/' + hist.save_names(m.dst, refs[b'refs/heads/' + h])[0][0], 'bad', None
    if w == 'inside':
        h = hs[s['k'] % len(hs)]
        return pre + h + b'/' + hist.save_names(m.dst, refs[b'refs/heads/' + h])[0][0] + b'/dir', 'bad', None
    return {'hidden': b'.hidden', 'tags': b'.tag'}[w], 'bad', None

def plan(c, cmd, m, sh, tags, argv):
    """Adds the arguments; computes the outcome or raises Bad."""
    initial = dict(m.refs)
    kinds = {}
    todo, bad = [], None
    tags_seen = set()
    for s in cmd['specs']:
        text, typ, h, default = source(c, s, m, sh, tags)
        dtext, dkind, dname = dest(s, m, initial, default)
        meth = s['m']
        argv += ['--' + meth + (':' if dtext else ''), text] + ([dtext] if dtext else [])
        def fail(why):
            nonlocal bad
            bad = bad or why
        if typ == 'bad':
            fail('source')
            continue
        if dtext is None and meth != 'unnamed':
            hs = [n[11:] for n in initial if n.startswith(b'refs/heads/')]
            istag = text.lstrip(b'/').startswith(b'.tag/')
            tn = text.lstrip(b'/')[5:] if istag else None
            tk = 'tag' if istag and b'refs/tags/' + tn in initial else 'newtag'
            if meth in ('ff', 'append'):
                if typ in ('branch', 'save') and default is not None:
                    dkind, dname = ('branch' if default in hs else 'new'), default
                else:
                    fail('no destination')
            elif meth in ('pick', 'force-pick'):
                if istag:
                    dkind, dname = tk, tn
                elif typ == 'save':
                    dkind, dname = ('branch' if default in hs else 'new'), default
                else:
                    fail('no destination')
            elif meth == 'new-tag':
                if istag:
                    dkind, dname = tk, tn
                else:
                    fail('no destination')
            elif meth == 'replace':
                if istag:
                    dkind, dname = tk, tn
                elif typ == 'branch':
                    dkind, dname = ('branch' if default in hs else 'new'), default
                else:
                    fail('no destination')
        if meth in ('ff', 'append') and dkind in ('tag', 'newtag'):
            fail('tag destination')
        if dkind == 'bad':
            fail('destination')
        if meth == 'ff' and typ not in ('branch', 'save', 'commit'):
            fail('ff of tree')
        if meth == 'append' and typ == 'blob':
            fail('append of blob')
        if meth in ('pick', 'force-pick') and typ not in ('save', 'commit'):
            fail('pick of ' + typ)
        if meth == 'pick' and dkind == 'tag':
            fail('pick onto tag')
        if meth == 'new-tag' and dkind != 'newtag':
            fail('new-tag')
        if meth == 'replace' and dkind in ('branch', 'new') and typ not in ('branch', 'save', 'commit'):
            fail('replace branch with tree')
        if dkind in ('tag', 'newtag'):
            if dname in tags_seen and meth not in ('replace', 'force-pick'):
                fail('tag twice')
            tags_seen.add(dname)
        todo.append((meth, typ, h, dkind, dname))
    if bad:
        raise Bad(bad)
    for meth, typ, h, dkind, dname in todo:
        ref = None
        if meth != 'unnamed':
            ref = (b'refs/tags/' if dkind in ('tag', 'newtag') else b'refs/heads/') + dname
        cur = m.refs.get(ref)
        tree = None
        if meth == 'ff':
            if cur is not None and cur not in m.ancestors(h):
                raise Bad('not a fast-forward')
            res, tree = h, m.src.commit(h)['tree']
        elif meth == 'append':
            if typ == 'tree':
                key = 'new%d' % len(m.new)
                m.new[key] = (cur, h, None, None)
                res, tree = key, h
            else:
                cs = m.history(h)
                res, tree = m.commits(cs, cur), cs[-1][1]['tree']
        elif meth in ('pick', 'force-pick'):
            cm = m.src.commit(h)
            parent = cur
            if isinstance(cur, bytes) and cur in m.dst and m.dst.get(cur)[0] != b'commit' or cur in m.new and m.new[cur] == 'x':
                parent = None
            if isinstance(cur, bytes) and cur not in m.dst and m.src.get(cur)[0] != b'commit':
                parent = None
            res, tree = m.commits([(h, cm)], parent), cm['tree']
        elif meth == 'new-tag':
            res = h
        elif meth == 'replace':
            res = h
            if dkind in ('branch', 'new'):
                tree = m.src.commit(h)['tree']
        else:
            continue
        m.refs[ref] = res
        m.out.append((ref, res, tree))
    return

def prepare(c, ctx):
    """A source of handmade branches, and a destination related to it."""
    d = ctx.bdir
    src = ops.init(ctx, d + b'/src', {})
    trees = []
    for i, t in enumerate(c['trees']):
        s = d + b'/s%d' % i
        os.mkdir(s)
        os.mkdir(s + b'/dir')
        fs.build(s + b'/dir', t)
        fs.write_file(s + b'/file', b'file %d' % i)
        ctx.bup('-d', src, 'index', '-u', s, ok=True)
        out = ctx.bup('-d', src, 'save', '-q', '-t', '--strip', '-n', 'base', s, ok=True).out
        trees.append(bytes.fromhex(out.decode().strip()))
    ids = mkrepo.write(src, c['branches'], trees)
    allc = [o for n in sorted(ids) for o in ids[n]]
    for t, i in c['tags']:
        mkrepo.set_ref(src, b'refs/tags/' + t, allc[i % len(allc)])
    dst = d + b'/dst'
    scen.copytree(src, dst)
    shutil.rmtree(dst + b'/refs')
    shutil.rmtree(dst + b'/logs', ignore_errors=True)
    for n in (b'heads', b'tags'):
        os.makedirs(dst + b'/refs/' + n)
    extra = mkrepo.write(dst, {b'extra': c['extra']}, trees[::-1])[b'extra']
    os.unlink(dst + b'/refs/heads/extra')
    names = sorted(ids)
    for i, (how, j) in sorted(c['cut'].items()):
        if i >= len(names):
            continue
        n, mine = names[i], ids[names[i]]
        if how == 'prefix':
            mkrepo.set_ref(dst, b'refs/heads/' + n, mine[j % len(mine)])
        elif how == 'same':
            mkrepo.set_ref(dst, b'refs/heads/' + n, mine[-1])
        elif how == 'other':
            mkrepo.set_ref(dst, b'refs/heads/' + n, extra[-1])
        elif how == 'extended':
            x = dict(c['extra'][0])
            data = mkrepo.commit_data(trees[0], [mine[-1]], x)
            packs.write_pack(dst + b'/objects/pack', [(b'commit', data)])
            mkrepo.set_ref(dst, b'refs/heads/' + n, gitread.hash_object(b'commit', data))
    for t, i in c['dtags']:
        mkrepo.set_ref(dst, b'refs/tags/' + t, (extra + allc)[i % (len(extra) + len(allc))])
    if c['prune']:
        # the destination knows only what it refers to
        r = gitread.Repo(dst)
        live = r.closure(r.refs().values())
        gone = r.oids() - live
        for n in os.listdir(dst + b'/objects/pack'):
            if n.endswith((b'.midx', b'.bloom')):
                os.unlink(dst + b'/objects/pack/' + n)
        packs.reshuffle(dst, c['seed'], c['npacks'], drop=gone)
    if c['packrefs']:
        ctx.git(src, 'pack-refs', '--all')
        ctx.git(dst, 'pack-refs', '--all')
    return src, dst

def match(m, r2, want, got, started, what):
    """Binds an expected value (an id or a placeholder) to an id found."""
    while True:
        if isinstance(want, bytes) or want is None:
            require(want == got, what, want and want.hex(), got and got.hex())
            return
        parent, tree, author, message = m.new[want]
        require(got is not None, what + ': history too short', m.new[want])
        cm = r2.commit(got)
        require(cm['tree'] == tree, what + ': commit has another tree', cm, m.new[want])
        if author is not None:
            require(cm['author'] == author, what + ': commit has another author', cm, m.new[want])
            require(cm['message'] == message, what + ': commit has another message', cm, m.new[want])
        when = int(cm['committer'].split()[-2])
        require(started - 10 <= when <= time.time() + 60, what + ': commit time', cm, started)
        require(len(cm['parents']) <= 1, what + ': commit has several parents', cm)
        want, got = parent, (cm['parents'][0] if cm['parents'] else None)

def run(c, ctx):
    src, dst = prepare(c, ctx)
    rs = gitread.Repo(src)
    sh = heads(rs)
    tags = {n[10:]: o for n, o in rs.refs().items() if n.startswith(b'refs/tags/')}
    src_before = sorted(rs.oids())
    for cmd in c['cmds']:
        r = gitread.Repo(dst)
        if any(r.get(o)[0] != b'commit' for o in r.refs().values()) and cmd['remote'] == 0:
            ctx.label('tree-tag')
        m = Model(rs, r)
        argv = ['get', '-s', src, *cmd['print'], *cmd['opts']]
        env = None
        pre = ['-d', dst]
        if cmd['remote'] == 0:
            argv[1:1] = ['-r', b'-:' + dst]
            env = {'BUP_TEST_LEVEL': '99'}
            pre = ['-d', src]
            ctx.label('remote')
        refs = dict(m.refs)
        oids = r.oids()
        try:
            plan(c, cmd, m, sh, tags, argv)
            bad = None
        except Bad as ex:
            bad = str(ex)
        started = int(time.time())
        p = ctx.bup(*pre, *argv, env=env)
        what = 'get %r' % (argv[3:],)
        r2 = gitread.Repo(dst)
        now = r2.refs()
        if bad:
            require(p.rc != 0, what + ' succeeds though invalid', bad, p)
            require(now == refs, what + ' is invalid but changed references', bad, sorted(set(now.items()) ^ set(refs.items())))
            require(b'Traceback' not in p.err or bad in ('source',), what + ' crashes', bad, p)
            ctx.label('refused')
            continue
        require(p.rc == 0, what + ' fails', p)
        require(set(now) == set(m.refs), what + ': references', sorted(now), sorted(m.refs))
        for n, w in m.refs.items():
            match(m, r2, w, now[n], started, what + ': ' + repr(n))
        r2.closure(now.values())
        lost = oids - r2.oids()
        require(not lost, what + ' lost objects', len(lost))
        if cmd['print']:
            want = []
            ptr = dict.fromkeys(m.refs)
            for i, (ref, res, tree) in enumerate(m.out):
                # only the last commit made on a reference is known by id
                last = not any(x[0] == ref for x in m.out[i + 1:])
                oid = now[ref].hex() if last else (res.hex() if isinstance(res, bytes) else None)
                if ref.startswith(b'refs/tags/'):
                    if '--print-tags' in cmd['print']:
                        want.append(oid)
                else:
                    if '-t' in cmd['print'] or '-tc' in cmd['print']:
                        want.append(tree.hex())
                    if '-c' in cmd['print'] or '-tc' in cmd['print']:
                        want.append(oid)
            got = p.out.decode().split()
            require(len(got) == len(want) and all(w is None or w == g for w, g in zip(want, got)), what + ' prints other ids', got, want)
        ops.fsck(ctx, dst, what)
        for s in cmd['specs']:
            ctx.label(s['m'])
        if now != refs:
            ctx.nontrivial()
        if len(cmd['specs']) > 1:
            ctx.label('several')
    rs2 = gitread.Repo(src)
    require(sorted(rs2.oids()) == src_before and rs2.refs() == rs.refs(), 'get changed the source repository')

SUITES = [Suite('get', case, run, 260, 14000,
                'a source with up to four branches and tags, a destination holding parts of it, up to four get commands with up to three methods '
                'each (a quarter to a remote) against a model of the documented methods; non-trivial: a reference changed')]
ASSUMPTIONS = ['without --rewrite or --repair (C17); linear histories']
