"""C17: rewriting, excluding and repairing keep everything else as it was."""
import os, re, shutil
from hypothesis import strategies as st
from vt import fs, gen, ops, gitread, hist, packs, scen, edits, bupmeta, mkrepo
from vt.core import Suite, Violation, require

exclude = st.fixed_dictionaries({'k': st.sampled_from(['name', 'name/', 'name/.', 'path', 'path/', 'path/.', 'sub', 'sub', 'class', 'ext', 'all', 'none', 'from']),
                                 'i': st.integers(0, 60), 'j': st.integers(0, 60)})
command = st.fixed_dictionaries({'m': st.sampled_from(['append', 'append', 'pick', 'pick', 'force-pick']), 'i': st.integers(0, 5),
                                 'dst': st.sampled_from(['new', 'new', 'other']), 'ex': st.one_of(st.just([]), st.lists(exclude, min_size=1, max_size=3)),
                                 'repair': st.integers(0, 4), 'id': st.sampled_from([None, None, 'r1', "a b'c; \"x\\"])})

@st.composite
def case(draw):
    cfg, cfg2 = draw(ops.config()), draw(ops.config())
    for c in (cfg, cfg2):
        if c.get('pack.packSizeLimit') in ('1k', '2000', '20000'):
            c['pack.packSizeLimit'] = '70000'
    many = draw(st.booleans())
    return {'tree': draw(gen.tree(depth=3 if not many else 2, max_entries=5, names=st.one_of(gen.plain_name(), gen.name()), big=40000)),
            'wide': draw(st.sampled_from([0, 0, 0, 150, 600])) if many else 0,
            'cfg': cfg, 'cfg2': cfg2, 'strip': draw(st.booleans()), 'copies': draw(st.booleans()),
            'saves': draw(st.lists(edits.edits(1, 3, big=40000), min_size=0, max_size=2)),
            'cmds': draw(st.lists(st.lists(command, min_size=1, max_size=3), min_size=1, max_size=2)),
            'remote': draw(st.integers(0, 5))}

def source(c, ctx):
    """Saves of a changing tree, in a repository and, directly, in one with
    the destination's configuration."""
    d = ctx.bdir
    src, direct = ops.init(ctx, d + b'/src', c['cfg']), ops.init(ctx, d + b'/direct', c['cfg2'])
    s = d + b'/tree'
    os.mkdir(s)
    fs.build(s, c['tree'])
    if c['wide']:
        os.mkdir(s + b'/wide')
        for i in range(c['wide']):
            fs.write_file(s + b'/wide/f%05d' % (i * 7919 % 100003), b'%d' % (i % 5))
    if c['copies']:
        subs = [p for p, k in edits.paths(s) if k == 'd']
        if subs:
            shutil.copytree(s + b'/' + subs[0], s + b'/copied', symlinks=True, ignore=lambda p, ns: [n for n in ns if not (os.path.isfile(p + b'/' + n) or os.path.isdir(p + b'/' + n) or os.path.islink(p + b'/' + n))])
    out = []
    for i, es in enumerate([[]] + c['saves']):
        for e in es:
            edits.apply(s, e)
        ctx.bup('-d', src, 'index', '-f', d + b'/idx', '-u', s, ok=True)
        res = []
        for rp in (src, direct):
            a = ['-d', rp, 'save', '-q', '-f', d + b'/idx', '-tc', '-n', 's', '-d', str(10**9 + 86400 * i)] + (['--strip'] if c['strip'] else []) + [s]
            t, o = ctx.bup(*a, ok=True).out.split()
            res.append((bytes.fromhex(t.decode()), bytes.fromhex(o.decode())))
        out.append(res)
    return src, direct, out

def patterns(exs, view, ctx):
    ps = sorted(p for p in view if p)
    out, argv = [], []
    for e in exs:
        k = e['k']
        p = ps[e['i'] % len(ps)] if ps else b'x'
        esc = lambda b: re.escape(b).replace(b'\n', b'n')
        n = os.path.basename(p)
        rx = {'name': b'/' + esc(n) + b'$', 'name/': b'/' + esc(n) + b'/$', 'name/.': b'/' + esc(n) + b'/.', 'path': b'^/' + esc(p) + b'$',
              'path/': b'^/' + esc(p) + b'/', 'path/.': b'^/' + esc(p) + b'/.', 'sub': esc((b'/' + p)[e['j'] % (len(p) + 1):][:3]),
              'class': b'[a-%c]$' % (97 + e['j'] % 26), 'ext': b'\\.[^/]*/?$', 'all': b'^/.', 'none': b'^nothing', 'from': esc(b'/' + n)}[k]
        out.append(re.compile(rx))
        if k == 'from':
            n = len(os.listdir(ctx.bdir))
            f = ctx.bdir + b'/patterns%d' % n
            while os.path.exists(f):
                f += b'x'
            with open(f, 'wb') as fh:
                fh.write(b'\n' + rx + b'\n\n' + re.escape(b'/other').replace(b'o', b'[o]'))
            out.append(re.compile(b'/other'))
            argv += ['--exclude-rx-from', f]
        else:
            argv += ['--exclude-rx', rx]
    return out, argv

def excluded(rxs, p, isdir):
    q = b'/' + p + (b'/' if isdir else b'')
    return any(rx.search(q) for rx in rxs)

class Fails(Exception):
    pass

class Plan:
    """What a save turns into: {path: (kind, content, metadata) | ('rep', what, oid, missing, metadata)}."""
    def __init__(self, full, gone, rxs, repair, abridged=None):
        self.full, self.gone, self.rxs, self.repair = full, gone, rxs, repair
        self.abridged = abridged or {}
        self.out = {}
        self.lost, self.links, self.replaced = [], [], []

    def closure(self, oid):
        return self.full.closure([oid]) & self.gone

    def dir_objects(self, oid):
        """Everything needed to list a directory."""
        need = set()
        ents, split = gitread.raw_entries(self.full, oid)
        def rec(o, level):
            need.add(o)
            for m, n, x in gitread.parse_tree(self.full.get(o)[1]):
                if n == b'.bupm':
                    need.update(self.full.closure([x]))
                elif level:
                    rec(x, level - 1)
        rec(oid, split or 0)
        return need & self.gone

    def tree(self, oid, p=b''):
        bad = self.dir_objects(oid)
        if bad:
            if not self.repair or not p:
                raise Fails('unreadable directory', p)
            self.replaced.append(p)
            self.out[p] = ('rep', b'tree', oid, bad, {})
            return
        if oid in self.abridged:
            if not self.repair:
                raise Fails('missing metadata', p)
            own, ms = self.abridged[oid], None
        else:
            own, ms = gitread.metas(self.full, oid)
        self.out[p] = ('d', None, own)
        for n, (kind, mode, o) in sorted(gitread.list_dir(self.full, oid).items()):
            q = p + b'/' + n if p else n
            if excluded(self.rxs, q, kind == 'dir'):
                continue
            if kind == 'dir':
                self.tree(o, q)
                continue
            meta = None if ms is None else ms.get(n)
            if oid in self.abridged:
                self.lost.append(q)
            fmt = meta['mode'] & 0o170000 if meta else 0o120000 if kind == 'link' else 0o100000
            if kind == 'link':
                if o not in self.gone:
                    self.out[q] = ('l', self.full.get(o)[1], meta)
                elif meta:
                    self.links.append(q)
                    self.out[q] = ('l', meta['target'], meta)
                else:
                    self.replace(q, b'symlink', o, {o}, meta)
            elif fmt != 0o100000:
                self.out[q] = ('f', b'', meta)
            else:
                bad = self.closure(o)
                if bad:
                    self.replace(q, b'file', o, bad, meta)
                else:
                    self.out[q] = ('f', gitread.join_data(self.full, o), meta)

    def replace(self, q, kind, o, bad, meta):
        if not self.repair:
            raise Fails('unreadable', q)
        self.replaced.append(q)
        self.out[q] = ('rep', kind, o, bad, meta or {})

    def repairs(self):
        return len(self.lost) + len(self.links) + len(self.replaced)

WORDS = {b'file': b'file', b'symlink': b'symbolic link', b'tree': b'tree'}

def compare(plan, got, rid, what):
    require(set(got) == set(plan.out), what + ': other paths than expected', sorted(set(got) ^ set(plan.out))[:6])
    for p, w in plan.out.items():
        k, data, meta = got[p]
        if w[0] != 'rep':
            require((k, data) == w[:2], what + ': changed', p, (k, data), w[:2])
            require((meta or None) == (w[2] or None), what + ': metadata changed', p, meta, w[2])
            continue
        require(k == 'f', what + ': replacement is not a file', p, got[p])
        m = re.fullmatch(rb'This is a replacement for a (.*) that was unreadable\nduring a bup repair operation\.\n\nBup-Replacement-Info: (.*)\nReplaced: (\S+) ([0-9a-f]{40})\nMissing: ([0-9a-f]{40})\n', data)
        require(m, what + ': not a replacement', p, data)
        require(m.group(1) == WORDS[w[1]] and m.group(3) == w[1] and m.group(4) == w[2].hex().encode(), what + ': replacement describes something else', p, data)
        require(rid is None or m.group(2) == rid.encode(), what + ': replacement has another repair id', p, data, rid)
        require(bytes.fromhex(m.group(5).decode()) in w[3], what + ': replacement names an object that is not missing', p, data)
        require(meta and meta['mode'] & 0o170000 == 0o100000 and meta.get('size') == len(data), what + ': replacement metadata', p, meta)
        for key in ('uid', 'gid', 'user', 'group'):
            require(key not in w[4] or meta.get(key) == w[4][key], what + ': replacement has another owner', p, meta, w[4])

def require_commit(r2, oid, src_commit, plan, rid, name):
    cm = r2.commit(oid)
    what = 'rewritten save ' + name
    require(cm['author'] == src_commit['author'], what + ' has another author or date', cm['author'], src_commit['author'])
    require(cm['message'].startswith(src_commit['message'].rstrip()), what + ' lost its message', cm['message'], src_commit['message'])
    rest = cm['message'][len(src_commit['message'].rstrip()):]
    tr = re.findall(rb'(?m)^(Bup-[A-Za-z-]+): (.*)$', rest)
    by = lambda k: [v for n, v in tr if n == k]
    require(len(by(b'Bup-Argv')) == 1 and b'get' in by(b'Bup-Argv')[0], what + ' does not record the command', rest)
    n = plan.repairs()
    require(bool(by(b'Bup-Repair-ID')) == bool(n), what + ': repair id although nothing was repaired, or none although something was', rest, n)
    if n and rid:
        require(by(b'Bup-Repair-ID') == [rid.encode()], what + ': another repair id', rest, rid)
    require(len(by(b'Bup-Replaced')) == len(plan.replaced), what + ': replacements not recorded', rest, plan.replaced)
    require(len(by(b'Bup-Restored-Link-Blob')) == len(plan.links), what + ': restored links not recorded', rest, plan.links)
    require(len(by(b'Bup-Lost-Meta')) == len(plan.lost), what + ': lost metadata not recorded', rest, plan.lost)
    compare(plan, gitread.decode_meta(r2, cm['tree']), rid, what)
    return cm

def do_commands(c, ctx, src, gone, full, commits, on_done=None, abridged=None):
    """commits: the source branch's (id, commit), oldest first."""
    d = ctx.bdir
    dst = ops.init(ctx, d + b'/dst', c['cfg2'])
    names = [n for n, _, _ in hist.save_names(full, commits[-1][0])]
    tips = {}
    views = {}
    for cmds in c['cmds']:
        argv = ['get', '-s', src]
        pre, env = ['-d', dst], None
        if c['remote'] == 0:
            argv += ['-r', b'-:' + dst]
            pre, env = ['-d', src], {'BUP_TEST_LEVEL': '99'}
        want = dict(tips)
        total, fails = 0, None
        new = {}
        for x in cmds:
            i = x['i'] % len(commits)
            tree = commits[i][1]['tree']
            if tree not in views:
                views[tree] = gitread.decode(full, tree)
            rxs, ea = patterns(x['ex'], views[tree], ctx)
            repair = x['repair'] == 0 if not gone and not abridged else x['repair'] < 4
            rid = x['id']
            argv += ['--no-excludes'] + ea + (['--repair'] if repair else ['--rewrite']) + (['--repair-id', rid] if rid else [])
            argv += ['--' + x['m'] + ':', b's' if x['m'] == 'append' else b's/' + names[i], x['dst']]
            which = commits if x['m'] == 'append' else [commits[i]]
            for k, (o, cm) in enumerate(which):
                plan = Plan(full, gone, rxs, repair, abridged)
                if fails is None:
                    try:
                        plan.tree(cm['tree'])
                    except Fails as ex:
                        fails = ex
                total += plan.repairs()
                want[x['dst']] = want.get(x['dst'], []) + [(o, cm, plan, rid, repair, len(rxs))]
            if rxs:
                ctx.label('excludes')
            if repair:
                ctx.label('repair')
        r = ctx.bup(*pre, *argv, env=env)
        what = 'bup get: ' + repr(argv)
        r2 = gitread.Repo(dst)
        heads = {n[11:].decode(): o for n, o in r2.refs().items()}
        if fails:
            ctx.label('refused')
            require(r.rc not in (0, 3), 'success although something is unreadable', what, r, fails.args)
            require(heads == {k: v[-1][-1] for k, v in tips.items()}, 'a failing rewrite moved a branch', what, r)
            continue
        require(r.rc == (3 if total else 0), 'exit status after %d repairs' % total, what, r)
        ids = {k: [o for o, _ in r2.history(v)[::-1]] for k, v in heads.items()}
        require({k: len(v) for k, v in ids.items()} == {k: len(v) for k, v in want.items()}, 'other commits than expected', what,
                {k: len(v) for k, v in ids.items()}, {k: len(v) for k, v in want.items()})
        for k, ws in want.items():
            olds = tips.get(k, [])
            for q, w in enumerate(ws):
                if q < len(olds):
                    require(olds[q][-1] == ids[k][q], 'an existing commit changed', what)
                    ws[q] = olds[q]
                    continue
                cm = require_commit(r2, ids[k][q], w[1], w[2], w[3], '%s/%d of %r' % (k, q, argv))
                if on_done:
                    on_done(r2, cm, w)
                ws[q] = w + (ids[k][q],)
        if total:
            ctx.label('repaired')
        tips = want
        r2.closure([v for v in heads.values()])
    ops.fsck(ctx, dst, 'after rewriting')

def sub(r, tree, path):
    for n in path.strip(b'/').split(b'/'):
        if n:
            tree = gitread.list_dir(r, tree)[n][2]
    return tree

def shape(r, oid):
    """How a directory is stored, metadata aside (symlinks' access times
    change under our eyes)."""
    return [(m if n != b'.bupm' else None, n, None if n == b'.bupm' else shape(r, o) if m == 0o40000 and not n.endswith(b'.bup') else o)
            for m, n, o in gitread.parse_tree(r.get(oid)[1])]

def run(c, ctx):
    src, direct, saves = source(c, ctx)
    full = gitread.Repo(src)
    commits = full.history(saves[-1][0][1])[::-1]
    dr = gitread.Repo(direct)
    top = b'' if c['strip'] else ctx.bdir + b'/tree'
    want = {s[0][0]: sub(dr, s[1][0], top) for s in saves}
    seen = {}
    def done(r2, cm, w):
        if w[5]:
            # the same exclusions must give the same tree however it is reached
            seen.setdefault((w[1]['tree'], tuple(sorted(w[2].out))), set()).add(cm['tree'])
            require(len(seen[(w[1]['tree'], tuple(sorted(w[2].out)))]) == 1, 'rewriting the same things gives different trees')
            return
        got = sub(r2, cm['tree'], top)
        ctx.nontrivial(c['cfg'] != c['cfg2'])
        if shape(r2, got) != shape(dr, want[w[1]['tree']]):
            raise Violation('a rewritten save is not stored like a save made with the same configuration', top,
                            *gitread.diff_views(gitread.view(r2, got, ()), gitread.view(dr, want[w[1]['tree']], ())), got.hex(), want[w[1]['tree']].hex())
    if c['cfg'].get('bup.split.files') != c['cfg2'].get('bup.split.files'):
        ctx.label('files-differ')
    if c['cfg'].get('bup.split.trees') != c['cfg2'].get('bup.split.trees'):
        ctx.label('trees-differ')
    before = {n: o for n, o in full.refs().items()}
    do_commands(c, ctx, src, set(), full, commits, done)
    require(gitread.Repo(src).refs() == before, 'the source changed')

# ---------------------------------------------------------------- repairs

@st.composite
def broken_case(draw):
    c = draw(case())
    c['wide'] = min(c['wide'], 150)
    c['drop'] = draw(st.lists(st.tuples(st.sampled_from(['link', 'file', 'chunk', 'tree', 'bupm', 'any', 'any', 'special']), st.integers(0, 300)), max_size=3))
    c['abridge'] = draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)), max_size=1)) if draw(st.integers(0, 2)) == 0 else []
    c['npacks'] = draw(st.integers(1, 3))
    c['seed'] = draw(st.integers(0, 1000))
    return c

def abridge(full, src, commits, i, j):
    """Rewrites the newest save so that a directory lacks a metadata record.
    Returns {tree id: the directory's own metadata} and the new commit id."""
    tip, cm = commits[-1]
    cand = []
    def walk(oid, comps):
        ents, split = gitread.raw_entries(full, oid)
        if split:
            return
        own, ms = gitread.metas(full, oid)
        if ms:
            cand.append((comps, oid))
        for n, (kind, mode, o) in sorted(gitread.list_dir(full, oid).items()):
            if kind == 'dir':
                walk(o, comps + [n])
    walk(cm['tree'], [])
    if not cand:
        return {}, tip
    comps, oid = cand[i % len(cand)]
    ents = gitread.parse_tree(full.get(oid)[1])
    raw = gitread.join_data(full, [o for m, n, o in ents if n == b'.bupm'][0])
    cuts, at = [], 0
    while at < len(raw):
        rec, nxt = bupmeta.records(raw, at)
        cuts.append(raw[at:nxt])
        at = nxt
    k = 1 + j % (len(cuts) - 1)
    own = bupmeta.decode_all(raw)[0]
    objs = []
    def put(typ, data):
        objs.append((typ, data))
        return gitread.hash_object(typ, data)
    def tree(es):
        return put(b'tree', b''.join(b'%o %s\0%s' % e for e in es))
    bupm = put(b'blob', b''.join(cuts[:k] + cuts[k + 1:]))
    new = tree([(0o100644, n, bupm) if n == b'.bupm' else (m, n, o) for m, n, o in ents])
    res = {new: own}
    trees = [cm['tree']]
    for n in comps:
        trees.append(gitread.list_dir(full, trees[-1])[n][2])
    cur = new
    for n, t in reversed(list(zip(comps, trees))):
        es = gitread.parse_tree(full.get(t)[1])
        cur = tree([(m, x, cur if m == 0o40000 and gitread.demangle(x, m) == (n, 'normal') else o) for m, x, o in es])
    data = cm['raw'].replace(b'tree ' + cm['tree'].hex().encode(), b'tree ' + cur.hex().encode(), 1)
    tip = put(b'commit', data)
    packs.write_pack(src + b'/objects/pack', list({gitread.hash_object(*o): o for o in objs}.values()))
    mkrepo.set_ref(src, b'refs/heads/s', tip)
    return res, tip

def victims(full, commits, drop):
    kinds = {'link': set(), 'file': set(), 'chunk': set(), 'tree': set(), 'bupm': set(), 'special': set()}
    def walk(oid):
        ents, split = gitread.raw_entries(full, oid)
        def rec(o, level):
            kinds['tree'].add(o)
            for m, n, x in gitread.parse_tree(full.get(o)[1]):
                if n == b'.bupm':
                    kinds['bupm'].update(full.closure([x]))
                elif level:
                    rec(x, level - 1)
                elif m == 0o120000:
                    kinds['link'].add(x)
                elif m != 0o40000:
                    kinds['special' if not full.get(x)[1] else 'file'].add(x)
                elif gitread.demangle(n, m)[1] == 'chunked':
                    kinds['chunk'].update(full.closure([x]))
                else:
                    walk(x)
        rec(oid, split or 0)
    for _, cm in commits:
        walk(cm['tree'])
    roots = {cm['tree'] for _, cm in commits}
    gone, labels = set(), []
    for k, i in drop:
        pool = sorted(set().union(*kinds.values()) - roots if k == 'any' else kinds[k] - roots)
        if pool:
            gone.add(pool[i % len(pool)])
            labels.append(k)
    return gone, labels

def run_repair(c, ctx):
    src, direct, saves = source(c, ctx)
    full = gitread.Repo(src)
    commits = full.history(saves[-1][0][1])[::-1]
    abridged = {}
    for i, j in c['abridge']:
        abridged, tip = abridge(full, src, commits, i, j)
        full = gitread.Repo(src)
        commits = full.history(tip)[::-1]
        if abridged:
            ctx.label('abridged')
    # decoding must not trip over the abridged metadata
    orig = gitread.metas
    gitread.metas = lambda r, o: (abridged[o], {}) if o in abridged else orig(r, o)
    try:
        gone, labels = victims(full, commits, c['drop'])
    finally:
        gitread.metas = orig
    for x in labels:
        ctx.label('drop-' + x)
    if gone:
        shutil.rmtree(src + b'/logs', ignore_errors=True)
        packs.reshuffle(src, c['seed'], c['npacks'], drop=gone)
    ctx.nontrivial(bool(gone or abridged))
    do_commands(c, ctx, src, gone, full, commits, None, abridged)

# ------------------------------------------------- saves without metadata

gitname = st.one_of(gen.plain_name(), gen.name()).filter(lambda n: not re.search(rb'\.bup[a-z]?$', n) and n not in (b'.git', b'.bupm') and n.lower() != b'.git')

@st.composite
def git_tree(draw, depth=2):
    out = {}
    for _ in range(draw(st.integers(0 if depth < 2 else 1, 5))):
        n = draw(gitname)
        k = draw(st.sampled_from('fffxxlld' if depth else 'fxl'))
        if k == 'd':
            out[n] = draw(git_tree(depth - 1))
        elif k == 'l':
            out[n] = ('l', draw(gen.target()))
        else:
            out[n] = (k, draw(gen.content(2, 20000)))
    return out

@st.composite
def git_case(draw):
    return {'trees': draw(st.lists(git_tree(), min_size=1, max_size=3)), 'commits': draw(mkrepo.branch(1, 3)),
            'cfg2': draw(ops.config(('legacy:13', 'legacy:14', None))),
            'dup': draw(st.booleans()), 'cmds': draw(st.lists(command, min_size=1, max_size=2)), 'drop': draw(st.lists(st.integers(0, 60), max_size=1))}

def run_git(c, ctx):
    """Branches written by git (or an ancient bup): no metadata, files whole."""
    d = ctx.bdir
    src, dst = ops.init(ctx, d + b'/src'), ops.init(ctx, d + b'/dst', {k: v for k, v in c['cfg2'].items() if 'pack.' not in k})
    objs = {}
    def put(typ, data):
        o = gitread.hash_object(typ, data)
        objs[o] = (typ, data)
        return o
    def build(t):
        es = []
        for n, v in t.items():
            if isinstance(v, dict):
                es.append((0o40000, n, build(v)))
            elif v[0] == 'l':
                es.append((0o120000, n, put(b'blob', v[1])))
            else:
                es.append((0o100755 if v[0] == 'x' else 0o100644, n, put(b'blob', gen.realize(v[1]))))
        return put(b'tree', b''.join(b'%o %s\0%s' % e for e in sorted(es, key=lambda e: gitread.sort_key(e[1], e[0] == 0o40000))))
    def modes(r, oid, p=b''):
        out = {}
        for n, (kind, mode, o) in gitread.list_dir(r, oid).items():
            q = p + b'/' + n
            if kind == 'dir':
                out.update(modes(r, o, q))
            out[q] = mode if kind != 'chunked' else 'chunked'
        return out
    trees = []
    for t in c['trees']:
        if c['dup']:
            t = dict(t)
            t[b'again'] = {b'x': dict(t), b'y': dict(t)}
        trees.append(build(t))
    packs.write_pack(src + b'/objects/pack', list(objs.values()))
    mkrepo.write(src, {b's': c['commits']}, trees)
    full = gitread.Repo(src)
    commits = full.history(full.refs()[b'refs/heads/s'])[::-1]
    names = [n for n, _, _ in hist.save_names(full, commits[-1][0])]
    blobs = sorted(o for o, (t, x) in objs.items() if t == b'blob')
    gone = {blobs[i % len(blobs)] for i in c['drop'] if blobs}
    if gone:
        packs.reshuffle(src, 1, 1, drop=gone)
    for n, x in enumerate(c['cmds']):
        i = x['i'] % len(commits)
        o, cm = commits[i]
        rxs, ea = patterns(x['ex'], gitread.decode(full, cm['tree']), ctx)
        repair = x['repair'] < 3
        b = 'b%d' % n
        r = ctx.bup('-d', dst, 'get', '-s', src, *ea, '--repair' if repair else '--rewrite', '--pick:', b's/' + names[i], b)
        plan = Plan(full, gone, rxs, repair)
        r2 = gitread.Repo(dst)
        new = r2.refs().get(b'refs/heads/' + b.encode())
        try:
            plan.tree(cm['tree'])
        except Fails as ex:
            require(r.rc not in (0, 3) and new is None, 'success although something is unreadable', r, ex.args)
            ctx.label('refused')
            continue
        ctx.nontrivial(True)
        require(r.rc == (3 if plan.repairs() else 0), 'exit status after %d repairs' % plan.repairs(), r)
        c2 = r2.commit(new)
        require(c2['author'].split(b'>')[1].split()[0] == cm['author'].split(b'>')[1].split()[0], 'another date', c2, cm)
        compare(plan, gitread.decode_meta(r2, c2['tree']), None, 'rewritten git commit')
        want, got = modes(full, cm['tree']), modes(r2, c2['tree'])
        for p, m in want.items():
            if m == 0o100755 and p[1:] in plan.out and plan.out[p[1:]][0] != 'rep':
                require(got[p] in (0o100755, 'chunked'), 'an executable is no longer one', p, got[p])
            elif m == 0o100644 and p in got:
                require(got[p] in (0o100644, 'chunked'), 'mode changed', p, got[p])
        if any(v[0] == 'l' for v in plan.out.values()):
            ctx.label('symlink')

SUITES = [Suite('rewrite', case, run, 200, 3000, 'source and destination configurations differ and a save was rewritten'),
          Suite('repair', broken_case, run_repair, 260, 4000, 'objects or metadata records are missing from the source'),
          Suite('git', git_case, run_git, 150, 2000, 'a commit without bup metadata was rewritten')]
ASSUMPTIONS = ['the vt/gitread decoder of saved trees, written from DESIGN, is the reference for what a save contains']
