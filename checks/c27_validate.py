"""C27: validation commands find every missing or inconsistent object."""
import glob, os, random, re
from hypothesis import strategies as st
from vt import gen, gitread, hist, mkrepo, ops, packs, bupmeta
from vt.core import Suite, Violation, require
from checks import c12_rmtag, c17_rewrite
from checks.c12_rmtag import heads

arg = st.fixed_dictionaries({'k': st.sampled_from(['branch', 'save', 'save', 'latest', 'inside', 'inside', 'tag', 'nosuch', 'nosave']), 'i': st.integers(0, 30),
                             'j': st.integers(0, 60), 'style': st.sampled_from(['', '/', '/'])})

@st.composite
def case(draw):
    rich = draw(st.booleans())
    c = draw(c17_rewrite.case()) if rich else draw(c12_rmtag.base((1, 3), 5))
    c['rich'] = rich
    # what to lose: everything picked, from the objects of a kind
    c['lose'] = draw(st.lists(st.tuples(st.sampled_from(['any', 'any', 'commit', 'tree', 'blob', 'bupm', 'chunk', 'dir', 'root', 'head']), st.integers(0, 999)), max_size=4)
                     if draw(st.integers(0, 9)) else st.just([('all', 0)]))
    c['keep'] = bool(draw(st.integers(0, 4)))
    c['frac'] = draw(st.sampled_from([0, 0, 0, 0, .05, .3, .9]))
    # damage to metadata: (which tree, which record, how)
    c['bupm'] = draw(st.lists(st.tuples(st.integers(0, 99), st.sampled_from(['drop', 'drop', 'last', 'extra', 'only', 'empty']), st.integers(0, 99)), max_size=3))
    c['dangle'] = draw(st.sampled_from([None] * 9 + [5]))
    c['shuffle'] = draw(st.fixed_dictionaries({'seed': st.integers(0, 999), 'n': st.integers(1, 3), 'dups': st.sampled_from([0, .2, 1]), 'deltas': st.booleans()}))
    c['aux'] = draw(st.sampled_from(['', '', 'midx', 'bloom', 'both']))
    c['v1'] = draw(st.sampled_from([False, False, True]))
    c['args'] = draw(st.lists(st.lists(arg, min_size=1, max_size=3), min_size=1, max_size=2))
    return c

def all_trees(r, roots):
    """The directory trees (not chunk trees) of some saves: {oid: True if the oid
    is an inner tree of a split one}."""
    out = {}
    def directory(o):
        if o in out:
            return
        split = gitread.raw_entries(r, o)[1]
        def rec(o, level):
            if o in out:
                return
            out[o] = level
            for m, n, x in gitread.parse_tree(r.get(o)[1]):
                if n == b'.bupm':
                    continue
                if level:
                    rec(x, level - 1)
                elif m == 0o40000 and gitread.demangle(n, m)[1] == 'normal':
                    directory(x)
        rec(o, split or 0)
    for o in roots:
        directory(o)
    return out

def expected(ents, level):
    """How many records the metadata of a tree should have."""
    if level:
        return 1
    return 1 + sum(1 for m, n, o in ents if n != b'.bupm' and not (m == 0o40000 and gitread.demangle(n, m)[1] == 'normal'))

def tree_bytes(ents):
    return b''.join(b'%o %s\0%s' % (m, n, o) for m, n, o in ents)

def metadata_faults(r, repo, tree, level, faults):
    """Write a copy of a saved tree with faults in the metadata of some of its
    directories; returns its id and {tree: (records, expected)} of the faulty."""
    trees = all_trees(r, [tree])
    withm = sorted(o for o in trees if any(n == b'.bupm' for m, n, x in gitread.parse_tree(r.get(o)[1])))
    plan = {}
    for i, how, k in faults:
        if withm:
            plan.setdefault(withm[i % len(withm)], (how, k))
    new, objs, bad = {}, [], {}
    def put(typ, data):
        o = gitread.hash_object(typ, data)
        objs.append((typ, data))
        return o
    def rec(o):
        if o in new:
            return new[o]
        ents, out = gitread.parse_tree(r.get(o)[1]), []
        fault = None
        for m, n, x in ents:
            if n == b'.bupm':
                if o in plan:
                    recs = split_records(gitread.join_data(r, x))
                    how, k = plan[o]
                    if how == 'drop':
                        del recs[k % len(recs)]
                    elif how == 'last':
                        recs = recs[:-1]
                    elif how == 'extra':
                        recs.insert(k % (len(recs) + 1), recs[k % len(recs)])
                    elif how == 'only':
                        recs = recs[:1]
                    else:
                        recs = []
                    fault = (len(recs), expected(ents, trees[o]))
                    x = put(b'blob', b''.join(recs))
                    m = 0o100644
            elif x in trees:
                x = rec(x)
            out.append((m, n, x))
        t = put(b'tree', tree_bytes(out))
        if fault and fault[0] != fault[1]:
            bad[t] = fault
        new[o] = t
        return t
    t = rec(tree)
    packs.write_pack(repo + b'/objects/pack', objs)
    return t, bad

def split_records(b):
    """The encoded records in a metadata stream."""
    out, i = [], 0
    while i < len(b):
        s = i
        while True:
            tag, i = bupmeta.rvuint(b, i)
            if not tag:
                break
            _, i = bupmeta.rbvec(b, i)
        out.append(b[s:i])
    return out

def lose(c, r, seed):
    """The objects to lose."""
    oids = sorted(r.oids())
    typ = {o: r.get(o)[0] for o in oids}
    hs = heads(r)
    kinds = {'any': oids, 'head': sorted(set(hs.values()))}
    for t in ('commit', 'tree', 'blob'):
        kinds[t] = [o for o in oids if typ[o] == t.encode()]
    roots = sorted({r.commit(o)['tree'] for o in kinds['commit']})
    kinds['root'] = roots
    kinds['dir'] = sorted(all_trees(r, roots))
    kinds['bupm'], kinds['chunk'] = [], []
    for t in kinds['tree']:
        for m, n, o in gitread.parse_tree(r.get(t)[1]):
            if n == b'.bupm':
                kinds['bupm'].append(o)
            elif t not in kinds['dir']:
                kinds['chunk'].append(o)
    gone = set()
    for k, i in c['lose']:
        if k == 'all':
            gone |= set(oids)
        else:
            l = kinds[k] or oids
            gone.add(l[i % len(l)])
    rnd = random.Random(seed)
    gone |= {o for o in oids if rnd.random() < c['frac'] ** 2}
    return gone

def make(c, ctx):
    if c['rich']:
        return c17_rewrite.source(c, ctx)[0]
    return c12_rmtag.setup(c, ctx)

def run(c, ctx):
    repo = make(c, ctx)
    full = gitread.Repo(repo)
    if c['bupm']:
        hs = heads(full)
        tree = full.commit(hs[sorted(hs)[0]])['tree']
        t, _ = metadata_faults(full, repo, tree, 0, c['bupm'])
        mkrepo.write(repo, {b'odd': [{'t': 10**9, 'ct': 10**9, 'a': mkrepo.PEOPLE[0], 'c': mkrepo.PEOPLE[0], 'm': b'', 'z': b'+0000', 'cz': b'+0000', 'tree': 0}]}, [t])
        full = gitread.Repo(repo)
    gone = lose(c, full, c['shuffle']['seed'])
    if c['keep'] and ('all', 0) not in c['lose']:
        gone -= set(full.refs().values())
    if c['dangle']:
        mkrepo.set_ref(repo, b'refs/heads/dangling', bytes(range(20)))
    shutil_logs(repo)
    s = c['shuffle']
    for n in glob.glob(os.fsdecode(repo) + '/bup.*'):
        os.unlink(n)
    packs.reshuffle(repo, s['seed'], s['n'], gone, s['dups'], s['deltas'])
    pd = repo + b'/objects/pack'
    if c['v1']:
        for n in sorted(os.listdir(pd))[:]:
            if n.endswith(b'.pack'):
                os.unlink(pd + b'/' + n[:-5] + b'.idx')
                ctx.git(repo, 'index-pack', '--index-version=1', pd + b'/' + n)
    r = gitread.Repo(repo)
    if c['aux'] in ('midx', 'both'):
        ctx.bup('-d', repo, 'midx', '-f', ok=True)
    if c['aux'] in ('bloom', 'both') and r.oids():
        ctx.bup('-d', repo, 'bloom', '-f', ok=True)
    before = snapshot(repo)
    have = set(r.oids())
    # every link of every object stored
    want = {(x, o) for o in have for x in r.links(o) if x not in have}
    res = ctx.bup('-d', repo, 'validate-object-links')
    got = res.out.split(b'\n')
    require(got.pop() == b'', 'output does not end with a newline')
    pairs = set()
    for l in got:
        m = re.fullmatch(rb'no ([0-9a-f]{40}) for ([0-9a-f]{40})', l)
        require(m, 'odd line', l)
        pairs.add(tuple(bytes.fromhex(x.decode()) for x in m.groups()))
    require(pairs == want, 'broken links listed wrongly', {'unlisted': [(a.hex(), b.hex()) for a, b in sorted(want - pairs)][:4], 'spurious': [(a.hex(), b.hex()) for a, b in sorted(pairs - want)][:4]})
    require(res.rc == (1 if want else 0), 'exit status of validate-object-links', res.rc, len(want))
    ctx.label('links broken' if want else 'links fine')
    if want and have:
        ctx.nontrivial(True)
    # everything reachable from references
    refs = r.refs()
    judge(c, ctx, r, full, repo, list(refs.values()), [], [])
    names = r_names(full)
    for a in c['args']:
        args, roots, absent, path = [], [], [], set()
        for x in a:
            w, o, need = target(full, x, names)
            if w is None:
                continue
            args.append((b'/' if x['style'] else b'') + w)
            path |= need
            if o is None:
                absent.append(args[-1])
            else:
                roots.append(o)
        if args:
            judge(c, ctx, r, full, repo, roots, args, absent, path)
    after = snapshot(repo)
    require(after == before, 'a validation changed the repository', sorted(set(after.items()) ^ set(before.items()))[:4])

def shutil_logs(repo):
    import shutil
    shutil.rmtree(repo + b'/logs', ignore_errors=True)

def snapshot(repo):
    return {(d, n): os.stat(os.path.join(d, n)).st_mtime_ns for d, ds, fs_ in os.walk(repo) for n in fs_}

def r_names(r):
    """{branch: [(save name, commit, its data)]}"""
    return {n: hist.save_names(r, o) for n, o in heads(r).items() if o in r}

def target(r, x, names):
    """(path, root object or None when there is none such, objects the path needs)"""
    bs = sorted(names)
    b = bs[x['i'] % len(bs)]
    chain = {o for o, _ in r.history(heads(r)[b])}
    k = x['k']
    if k == 'branch':
        return b, heads(r)[b], set()
    if k == 'nosuch':
        return b'nosuch', None, set()
    if k == 'nosave':
        return b + b'/nosuch', None, chain
    if k == 'tag':
        ts = sorted(n for n in r.refs() if n.startswith(b'refs/tags/'))
        if not ts:
            return None, None, None
        t = ts[x['j'] % len(ts)]
        return b'.tag/' + t[10:], r.refs()[t], {r.refs()[t]}
    n, o, cm = names[b][x['j'] % len(names[b])] if k != 'latest' else newest(r, names, b)
    if k in ('save', 'latest'):
        return b + b'/' + (n if k == 'save' else b'latest'), o, chain
    # something inside the save
    need, cur, p = set(chain), cm['tree'], b + b'/' + n
    rnd = random.Random(x['j'])
    for _ in range(rnd.randrange(4)):
        inside = gitread.list_dir(r, cur)
        cand = sorted(e for e in inside if inside[e][0] != 'link')
        if not cand:
            break
        need |= dir_need(r, cur)
        e = cand[rnd.randrange(len(cand))]
        p += b'/' + e
        kind, m, cur = inside[e]
        if kind != 'dir':
            need.add(cur)
            return p, cur, need
    return p, (cur if p.count(b'/') > 1 else o), need | {cur}

def newest(r, names, b):
    h = heads(r)[b]
    return [x for x in names[b] if x[1] == h][0]

def dir_need(r, o):
    out = set()
    split = gitread.raw_entries(r, o)[1] or 0
    def rec(o, level):
        out.add(o)
        if level:
            for m, n, x in gitread.parse_tree(r.get(o)[1]):
                if n != b'.bupm':
                    rec(x, level - 1)
    rec(o, split)
    return out

def judge(c, ctx, r, full, repo, roots, args, absent, path=frozenset()):
    missing = set()
    seen = r.closure(roots, missing)
    have = set(r.oids())
    # trees whose metadata can be checked, and how it is wrong
    commits = [o for o in seen if r.get(o)[0] == b'commit']
    faults = {}
    levels = {}
    for o in full_roots(full, roots):
        levels.update(all_trees(full, [o]))
    for o in seen:
        if o in levels:
            ents = gitread.parse_tree(r.get(o)[1])
            for m, n, x in ents:
                if n == b'.bupm' and not (full.closure([x]) - have):
                    k = len(split_records(gitread.join_data(full, x)))
                    e = expected(ents, levels[o])
                    if k != e:
                        faults[o] = k - e
    short = sum(1 for v in faults.values() if v < 0)
    extra = {o for o, v in faults.items() if v > 0}
    for opts in ([], ['--links'], ['--bupm'], ['--links', '--bupm'], ['validate-ref-links']):
        cmd = opts if opts[:1] == ['validate-ref-links'] else ['validate-refs', *opts]
        links, bupm = '--bupm' != ''.join(opts), '--bupm' in opts or not opts
        res = ctx.bup('-d', repo, *cmd, *args)
        if set(r.refs().values()) - have:
            # git refuses to list references with nothing behind them
            require(res.rc != 0 or not (missing and links or absent), 'success in spite of a reference to nothing', cmd, args)
            ctx.label('dangling')
            continue
        if path - have:
            # the argument cannot be found through what is gone
            require(res.rc != 0, 'success for an argument that cannot be reached', cmd, args)
            continue
        got = [bytes.fromhex(x.decode()) for x in re.findall(rb'(?m)^missing ([0-9a-f]{40}) ', res.err)]
        others = [l for l in res.err.split(b'\n') if l.startswith(b'missing ') and not re.match(rb'missing [0-9a-f]{40} ', l)]
        require(len(others) == len(absent), 'absent references not named one by one', absent, res.err)
        names = [a for a in absent if re.fullmatch(rb'[\w/.@-]+', a) and not re.search(rb'(?m)^missing ' + re.escape(a) + b'$', res.err)]
        require(not names, 'absent references not named', names, res.err)
        if links:
            require(set(got) == missing, 'missing objects named wrongly', {'opts': opts, 'args': args, 'unnamed': [o.hex() for o in missing - set(got)][:4],
                    'spurious': [o.hex() for o in set(got) - missing][:4], 'err': res.err[-400:]})
        else:
            require(set(got) <= missing, 'present objects named missing', opts, args, res.err)
        if bupm:
            a = len(re.findall(rb'(?m)^abridged-bupm ', res.err))
            x = {bytes.fromhex(y.decode()) for y in re.findall(rb'(?m)^error: tree with extra bupm entries .*: ([0-9a-f]{40})$', res.err)}
            require(x == extra, 'directories with more metadata than entries reported wrongly', {'want': [o.hex() for o in extra], 'got': [o.hex() for o in x]})
            require(a == short, 'directories with less metadata than entries reported wrongly', {'want': short, 'got': a, 'err': res.err[-400:]})
        # without --links not everything missing need be noticed
        want = 1 if (missing if links else got) or absent or (bupm and short) else 0
        if bupm and extra:
            want = 2
        require(res.rc == want, 'exit status of the validation', {'cmd': cmd, 'args': args, 'rc': res.rc, 'want': want, 'err': res.err[-400:]})
    ctx.label('refs missing' if missing else 'refs whole')
    if faults:
        ctx.label('metadata faults')

def full_roots(full, roots):
    out = set()
    for o in full.closure([x for x in roots if x in full]):
        if full.get(o)[0] == b'commit':
            out.add(full.commit(o)['tree'])
    for o in roots:
        if o in full and full.get(o)[0] == b'tree':
            # a directory; a chunked file is told by the names in its tree
            ents = gitread.parse_tree(full.get(o)[1])
            if not (ents and all(re.fullmatch(rb'[0-9a-f]+', n) for m, n, x in ents) and any(x for x in ents)):
                out.add(o)
    return out

SUITES = [Suite('validate', case, run, quick=80, thorough=2500, rule='objects remain and some link is broken', shards=8)]
TECHNIQUE = 'random repositories losing random objects and metadata records; independent reachability and link model decides exactly what must be reported'
