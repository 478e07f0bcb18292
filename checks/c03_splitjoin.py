"""C03: split then join returns exactly the original bytes."""
import os, random
from hypothesis import strategies as st
from vt import gen, ops, gitread
from vt.core import Suite, Violation, require, fsb

TECHNIQUE = 'property-based testing: split/join round trips over generated streams and option sets, stateful over a branch'
LEVEL = 'exploration'
LEVEL_NOTE = 'Round trip judged byte for byte; the stored commits are read back by an independent pack reader.'

def opts():
    return st.fixed_dictionaries({
        'fanout': st.sampled_from([None, None, '2', '3', '4', '16', '128', '1024']),
        'size': st.sampled_from([None, None, '1k', '20k', '1M', '3000']),
        'objects': st.sampled_from([None, None, None, '1', '2', '5', '100']),
        'keep': st.booleans(),
        'level': st.sampled_from([None, None, '-0', '-1', '-9', '--compress=4']),
    })

def flags(o):
    a = []
    if o['fanout']:
        a.append('--fanout=' + o['fanout'])
    if o['size']:
        a.append('--max-pack-size=' + o['size'])
    if o['objects']:
        a.append('--max-pack-objects=' + o['objects'])
    if o['keep']:
        a.append('--keep-boundaries')
    if o['level']:
        a.append(o['level'])
    return a

@st.composite
def step(draw):
    return {'how': draw(st.sampled_from(['t', 'c', 'n', 'n', 'nc', 'ntc', 'b', 'b', 'copy', 'noop', 'tc'])),
            'input': draw(st.sampled_from(['stdin', 'files', 'files', 'ids'])),
            'parts': draw(st.lists(st.one_of(gen.content(3, 80000), gen.content(3, 80000), gen.small_content()), min_size=1, max_size=3)),
            'opts': draw(opts()), 'branch': draw(st.sampled_from(['x', 'y', 'a/b', 'z-1.2'])),
            'date': draw(st.integers(0, 2**33)),
            'join': draw(st.sampled_from(['args', 'stdin', 'out']))}

@st.composite
def case(draw):
    return {'cfg': draw(ops.config()), 'steps': draw(st.lists(step(), min_size=1, max_size=5)),
            'tree': draw(st.booleans())}

def run(c, ctx):
    repo = ops.init(ctx, ctx.bdir + b'/r', c['cfg'])
    heads = {}
    made = []     # (id, bytes) kept for the end
    for i, s in enumerate(c['steps']):
        do_step(ctx, repo, i, s, heads, made)
    # everything still joins at the end
    for name, (commits, datas) in heads.items():
        r = ctx.bup('-d', repo, 'join', name, ok=True)
        require(r.out == datas[-1], 'branch %s does not join to its last input' % name, len(r.out), len(datas[-1]))
        rd = gitread.Repo(repo)
        require(rd.refs().get(b'refs/heads/' + name.encode()) == commits[-1], 'branch moved', name)
        hist = [o for o, _ in rd.history(commits[-1])]
        require(hist == commits[::-1], 'branch history is not the sequence of splits', name, hist, commits)
        for cid, d in zip(commits, datas):
            require(ctx.bup('-d', repo, 'join', cid.hex(), ok=True).out == d, 'an earlier split changed')
    for ids, d in made:
        r = ctx.bup('-d', repo, 'join', stdin=b''.join(x + b'\n' for x in ids), ok=True)
        require(r.out == d, 'earlier ids no longer join to their input', len(r.out), len(d))
    ctx.nontrivial(any(len(d) > 16384 for _, d in made) or any(
        len(d) > 16384 for _, ds in heads.values() for d in ds))

def do_step(ctx, repo, i, s, heads, made):
    datas = [gen.realize(p) for p in s['parts']]
    total = b''.join(datas)
    how = s['how']
    stdin, extra = b'', []
    if s['input'] == 'stdin':
        stdin = total
    elif s['input'] == 'files':
        for j, d in enumerate(datas):
            p = ctx.bdir + b'/in%d-%d' % (i, j)
            with open(p, 'wb') as f:
                f.write(d)
            extra.append(p)
    else:
        # store the parts as whole blobs with git, and split those
        ids = []
        for d in datas:
            ids.append(ctx.git(repo, 'hash-object', '-w', '--stdin', stdin=d).stdout.strip())
        stdin = b''.join(x + b'\n' for x in ids)
        extra = ['--git-ids']
    ctx.label(how, 'input-' + s['input'])
    a = ['-d', repo, 'split', '-q'] + flags(s['opts'])
    if how in ('copy', 'noop'):
        before = gitread.Repo(repo).oids()
        r = ctx.bup(*(a + ['--' + how] + extra), stdin=stdin, ok=True)
        if how == 'copy':
            require(r.out == total, '--copy did not reproduce its input', len(r.out), len(total))
        else:
            require(r.out == b'', '--noop printed something', r)
        require(gitread.Repo(repo).oids() == before, '--%s stored objects' % how)
        return
    if how == 'b':
        r = ctx.bup(*(a + ['-b'] + extra), stdin=stdin, ok=True)
        ids = r.out.split()
        require(all(len(x) == 40 for x in ids), 'bad ids', r)
        join(ctx, repo, s, i, ids, total)
        made.append((ids, total))
        return
    named = 'n' in how
    want = []
    if 't' in how:
        a.append('-t')
    if 'c' in how:
        a.append('-c')
    if named:
        a += ['-n', s['branch']]
    a += ['-d', str(s['date'])]
    r = ctx.bup(*(a + extra), stdin=stdin, ok=True)
    ids = r.out.split()
    require(len(ids) == ('t' in how) + ('c' in how), 'unexpected output', r)
    for x in ids:
        join(ctx, repo, s, i, [x], total)
    made += [([x], total) for x in ids]
    rd = gitread.Repo(repo)
    prev = heads.get(s['branch'], ([], []))
    cid = bytes.fromhex(ids[-1].decode()) if 'c' in how else None
    tree = bytes.fromhex(ids[0].decode()) if 't' in how else None
    if named:
        head = rd.refs().get(b'refs/heads/' + s['branch'].encode())
        require(head is not None, 'branch was not created', s['branch'])
        require(cid is None or cid == head, 'printed commit is not the branch head')
        cid = head
        heads[s['branch']] = (prev[0] + [head], prev[1] + [total])
    if cid is not None:
        cm = rd.commit(cid)
        require(tree is None or tree == cm['tree'], 'commit does not have the printed tree')
        require(cm['parents'] == (prev[0][-1:] if named else []), 'wrong parents', cm['parents'])
        for k in ('author', 'committer'):
            require(cm[k].split()[-2] == str(s['date']).encode(), 'wrong date', cm[k], s['date'])
        got = gitread.decode(rd, cm['tree']) if named else None
        if named:
            require(got == {b'': ('d',), b'data': ('f', total)}, 'saved tree is not {data: input}', sorted(got))
        else:
            require(gitread.join_data(rd, cm['tree']) == total, 'stored tree is not the input')
    rd.closure([x for x in rd.refs().values()])

def join(ctx, repo, s, i, ids, total):
    if s['join'] == 'args' and len(ids) < 200 and ids:
        r = ctx.bup('-d', repo, 'join', *ids, ok=True)
        out = r.out
    elif s['join'] == 'out' and len(ids) < 200 and ids:
        p = ctx.bdir + b'/out%d' % i
        ctx.bup('-d', repo, 'join', '-o', p, *ids, ok=True)
        with open(p, 'rb') as f:
            out = f.read()
    else:
        out = ctx.bup('-d', repo, 'join', stdin=b''.join(x + b'\n' for x in ids), ok=True).out
    require(out == total, 'join did not return the input', len(out), len(total), s['how'])

# Larger amounts: beyond the splitter's buffer, many levels.
@st.composite
def bigcase(draw):
    return {'sizes': draw(st.lists(st.integers(1, 5 * 2**20), min_size=2, max_size=4)),
            'seed': draw(st.integers(0, 9)), 'input': draw(st.sampled_from(['stdin', 'files', 'ids', 'ids'])),
            'keep': draw(st.booleans()), 'how': draw(st.sampled_from(['-n', '-b', '--copy']))}

def run_big(c, ctx):
    repo = ops.init(ctx, ctx.bdir + b'/r', {'bup.split.files': 'legacy:16', 'core.compression': '0'})
    rnd = random.Random(c['seed'])
    sizes = list(c['sizes'])
    if sum(sizes) < 9 * 2**20:
        sizes[-1] += 9 * 2**20
    s = {'parts': None, 'how': c['how'].strip('-'), 'input': c['input'], 'branch': 'x', 'date': 5, 'join': 'stdin',
         'opts': {'fanout': None, 'size': None, 'objects': None, 'keep': c['keep'], 'level': None}}
    s['parts'] = [[('r', c['seed'] + k, n)] for k, n in enumerate(sizes)]
    heads, made = {}, []
    do_step(ctx, repo, 0, s, heads, made)
    ctx.nontrivial()
    ctx.label('input-' + c['input'])

SUITES = [
    Suite('history', case, run, 200, 12000,
          'sequences of splits (mode x input kind x options x configuration) with everything joined again at the end; '
          'non-trivial: an input over 16 KiB'),
    Suite('big', bigcase, run_big, 16, 200, '9-25 MiB through each input kind'),
]
