"""C15: reading any part of a stored file returns that part."""
import hashlib, os, random
from hypothesis import strategies as st
from vt import gen, gitread, ops, packs
from vt.child import in_child
from vt.core import Suite, require

# ---- chunk layouts: a leaf is a chunk length, a list a chunk tree

@st.composite
def layout(draw, depth=4):
    size = st.one_of(st.integers(1, 4), st.integers(1, 300), st.sampled_from([15, 16, 17, 255, 256, 257, 4096, 65535, 65536]))
    def node(d):
        if d == 0 or draw(st.integers(0, 2)) == 0:
            return draw(size)
        return [node(d - 1) for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 5, 17])))]
    return node(draw(st.integers(0, depth)))

@st.composite
def file(draw):
    k = draw(st.sampled_from(['crafted', 'crafted', 'split', 'save']))
    if k == 'crafted':
        return {'k': k, 'layout': draw(layout()), 'seed': draw(st.integers(0, 99)), 'width': draw(st.sampled_from([0, 0, 0, 2, 16])),
                'same': draw(st.integers(0, 4)) == 0}
    return {'k': k, 'c': draw(gen.content(max_segs=4, big=90000))}

@st.composite
def step(draw):
    return (draw(st.integers(0, 5)), draw(st.sampled_from(['read'] * 6 + ['seek'] * 4 + ['all', 'tell', 'size', 'zero', 'reopen', 'past', 'near'])),
            draw(st.integers(0, 2**20)), draw(st.sampled_from([0, 1, 1, 2, 3, 7, 16, 100, 4096, 65536, 200000])))

@st.composite
def case(draw):
    return {'files': draw(st.lists(file(), min_size=1, max_size=3)),
            'cfg': draw(ops.config()),
            'steps': draw(st.lists(step(), min_size=6, max_size=40)),
            'remote': draw(st.integers(0, 4)) == 0}

def chunk_bytes(rnd, n, same):
    return (b'abc' * n)[:n] if same else rnd.randbytes(n)

def craft(f, objs):
    """(mode, oid, content, chunk boundaries)"""
    rnd = random.Random(f['seed'])
    bounds = []
    def build(node, at):
        if isinstance(node, int):
            d = chunk_bytes(rnd, node, f['same'])
            oid = gitread.hash_object(b'blob', d)
            objs[oid] = (b'blob', d)
            bounds.append(at)
            return b'100644', oid, d
        ents, data, total = [], [], 0
        parts = []
        for c in node:
            m, o, d = build(c, at + total)
            parts.append((total, m, o))
            total += len(d)
            data.append(d)
        w = max(len(b'%x' % total), f['width'])
        for ofs, m, o in parts:
            ents.append(m + b' %0*x\0' % (w, ofs) + o)
        t = b''.join(ents)
        oid = gitread.hash_object(b'tree', t)
        objs[oid] = (b'tree', t)
        return b'40000', oid, b''.join(data)
    mode, oid, data = build(f['layout'], 0)
    return mode, oid, data, bounds

def depth(x):
    return 0 if isinstance(x, int) else 1 + max(depth(y) for y in x)

def run(c, ctx):
    d = ctx.bdir
    repo = ops.init(ctx, d + b'/r', c['cfg'])
    env = {'BUP_DIR': os.fsdecode(repo)}
    objs, ents, want = {}, [], {}
    src = d + b'/src'
    os.mkdir(src)
    saved = False
    for i, f in enumerate(c['files']):
        n = b'f%d' % i
        if f['k'] == 'crafted':
            mode, oid, data, bounds = craft(f, objs)
            ents.append((n + b'.bup' if mode == b'40000' else n, mode, oid))
            want[n] = (b'/craft/latest/' + n, data, bounds)
            ctx.label('levels %d' % depth(f['layout']))
            ctx.nontrivial(len(bounds) > 2)
        elif f['k'] == 'split':
            data = gen.realize(f['c'])
            ctx.bup('split', '-q', '-n', 's%d' % i, env=env, stdin=data)
            want[n] = (b'/s%d/latest/data' % i, data, None)
            ctx.label('split')
        else:
            data = gen.realize(f['c'])
            with open(src + b'/' + n, 'wb') as o:
                o.write(data)
            saved = True
            want[n] = (b'/save/latest/' + n, data, None)
            ctx.label('saved')
    if saved:
        ops.save(ctx, repo, src, name='save', extra=['--strip'])
    if ents:
        t = b''.join(m + b' ' + n + b'\0' + o for n, m, o in sorted(ents, key=lambda e: e[0] + (b'/' if e[1] == b'40000' else b'')))
        toid = gitread.hash_object(b'tree', t)
        objs[toid] = (b'tree', t)
        cm = b'tree ' + toid.hex().encode() + b'\nauthor a <a@b> 1000000000 +0000\ncommitter a <a@b> 1000000000 +0000\n\nm\n'
        coid = gitread.hash_object(b'commit', cm)
        objs[coid] = (b'commit', cm)
        packs.write_pack(repo + b'/objects/pack', list(objs.values()))
        with open(repo + b'/refs/heads/craft', 'wb') as o:
            o.write(coid.hex().encode() + b'\n')
    # real files: the chunk boundaries, from the stored objects
    g = gitread.Repo(repo)
    names = sorted(want)
    for n in names:
        path, data, bounds = want[n]
        if bounds is None:
            bounds = stored_bounds(g, path)
            want[n] = path, data, bounds
            if len(bounds) > 1:
                ctx.nontrivial()
                ctx.label('several chunks')
    plan = make_plan(c, names, want)
    if c['remote']:
        ctx.label('remote')
    ok, res = in_child(lambda: play(repo, c['remote'], [want[n][0] for n in names], plan))
    require(ok, 'reading failed', res)
    for (what, arg, exp), got in zip(plan, res):
        if what in ('open', 'seek'):
            continue
        if isinstance(exp, bytes):
            exp = (len(exp), hashlib.sha1(exp).hexdigest())
        require(exp == got, 'wrong answer', (what, arg), exp, got)
    # and as a whole, through the commands
    for n in names[:2]:
        path, data, _ = want[n]
        r = ctx.bup('cat-file', path, env=env)
        require(r.out == data, 'cat-file differs', path, len(r.out), len(data))
        r = ctx.bup('ls', '-s', path, env=env)
        r2 = ctx.bup('ls', '-l', path, env=env)
        require(r2.out.split()[2] == b'%d' % len(data), 'wrong size listed', r2.out, len(data))
        s = path.split(b'/')
        if s[1].startswith(b's') and s[1] != b'save':
            r = ctx.bup('join', s[1], env=env)
            require(r.out == data, 'join differs', path, len(r.out), len(data))

def stored_bounds(g, path):
    _, branch, _, leaf = path.split(b'/')
    tip = g.refs()[b'refs/heads/' + branch]
    tree = g.commit(tip)['tree'] if isinstance(g.commit(tip), dict) else g.commit(tip).tree
    for mode, name, oid in gitread.parse_tree(g.get(tree)[1]):
        if name in (leaf, leaf + b'.bup'):
            out = []
            def walk(oid, at):
                typ, data = g.get(oid)
                if typ == b'blob':
                    out.append(at)
                    return
                for m, n, o in gitread.parse_tree(data):
                    walk(o, at + int(n, 16))
            walk(oid, 0)
            return out
    raise AssertionError((path, 'not found'))

def make_plan(c, names, want):
    """[(op, argument, expectation)] over several open readers."""
    plan, pos, who = [], {}, {}
    for h, kind, a, n in c['steps']:
        if h not in pos or kind == 'reopen':
            who[h] = names[a % len(names)]
            plan.append(('open', (h, names.index(who[h])), None))
            pos[h] = 0
            if kind == 'reopen':
                continue
        data, bounds = want[who[h]][1:]
        size = len(data)
        if kind == 'read':
            exp = data[pos[h]:pos[h] + n] if n else b''
            plan.append(('read', (h, n), exp))
            pos[h] += len(exp)
        elif kind == 'near':
            # up to, or just past the next chunk boundary
            nxt = [b for b in bounds if b > pos[h]]
            k = (nxt[a % min(3, len(nxt))] if nxt else size) - pos[h] + (n % 3 - 1)
            if k > 0:
                exp = data[pos[h]:pos[h] + k]
                plan.append(('read', (h, k), exp))
                pos[h] += len(exp)
        elif kind == 'all':
            plan.append(('read', (h, -1), data[pos[h]:]))
            pos[h] = size
        elif kind == 'zero':
            plan.append(('read', (h, 0), b''))
        elif kind == 'seek':
            b = bounds[a % len(bounds)] if bounds else 0
            to = [a % (size + 1), b, b + 1, b - 1, 0, size, size - 1, pos[h] + n, pos[h] - n, pos[h]][a % 10]
            to = min(max(to, 0), size)
            plan.append(('seek', (h, to), None))
            pos[h] = to
        elif kind == 'past':
            plan.append(('seek', (h, size), None))
            plan.append(('read', (h, n or -1), b''))
            pos[h] = size
        elif kind == 'tell':
            plan.append(('tell', h, pos[h]))
        elif kind == 'size':
            plan.append(('size', names.index(who[h]), size))
    return plan

def play(repo, remote, paths, plan):
    from contextlib import ExitStack
    from bup import vfs
    from bup.repo import LocalRepo, main_repo_location, repo_for_location
    os.environ['BUP_TEST_LEVEL'] = '99'
    def die(msg):
        raise Exception(msg)
    out = []
    with ExitStack() as stack:
        r = stack.enter_context(repo_for_location(main_repo_location(b'-:' + repo, die)) if remote else LocalRepo(repo_dir=repo))
        items = []
        for p in paths:
            res = vfs.resolve(r, p)
            assert res[-1][1], p
            items.append(res[-1][1])
        fs = {}
        for what, arg, _ in plan:
            if what == 'open':
                h, i = arg
                if h in fs:
                    fs[h].close()
                fs[h] = stack.enter_context(vfs.fopen(r, items[i]))
                out.append(None)
            elif what == 'read':
                d = fs[arg[0]].read(arg[1])
                out.append((len(d), hashlib.sha1(d).hexdigest()))
            elif what == 'seek':
                fs[arg[0]].seek(arg[1])
                out.append(None)
            elif what == 'tell':
                out.append(fs[arg].tell())
            elif what == 'size':
                it = items[arg]
                s = vfs.item_size(r, it)
                s2 = vfs._compute_item_size(r, it) if hasattr(vfs, '_compute_item_size') else s
                s3 = vfs.augment_item_meta(r, it, include_size=True).meta.size
                assert s == s2 == s3, (s, s2, s3)
                out.append(s)
    return out

SUITES = [Suite('reads', case, run, 260, 5000, 'a file has more than two chunks')]
TECHNIQUE = ('model-based stateful generation: random chunk layouts and contents, random interleaved seek/read/size sequences over several '
             'readers, each answer compared with a slice of the content')
