"""C08: losing power loses nothing that references depend on."""
import os, random, shutil
from hypothesis import strategies as st
from vt import fs, ops, gitread, scen, shim, power
from vt.core import Suite, Violation, require

NEEDS_SHIM = True
KINDS = ['save', 'save', 'save', 'save-new', 'split', 'get', 'get', 'rm-save', 'rm-branch', 'gc', 'gc', 'gc', 'prune', 'midx', 'bloom', 'tag']

@st.composite
def case(draw):
    c = draw(scen.scenario(KINDS))
    c['seed'] = draw(st.integers(0, 10**9))
    return c

def run(c, ctx):
    s = scen.Scen(ctx, c)
    kind = c['op']
    ctx.label('op-' + kind)
    snap = ctx.bdir + b'/snap'
    rnd = random.Random(c['seed'])
    sh = shim.Shim(ctx, [s.repo], snap)
    both = shim.MUT | shim.SYNC
    sh.arm(classes=both)
    rs = s.run(sh)
    require(all(r.rc == 0 for r in rs), 'undisturbed command failed', *rs)
    total = sh.count
    if not total:
        return
    # References move near the end.
    points = {total + 1, 1 + rnd.randrange(total), 1 + rnd.randrange(total)}
    points |= set(rnd.randint(max(1, total - 12), total) for _ in range(3))
    points |= set(1 + rnd.randrange(total) for _ in range(2))
    for at in sorted(points):
        s.reset()
        shutil.rmtree(snap)
        os.mkdir(snap)
        disk = power.Disk(s.repo)
        sh = shim.Shim(ctx, [s.repo], snap)
        sh.arm(at if at <= total else 0, shim.KILL, classes=both)
        s.run(sh)
        what = 'power lost at call %d of %d (%s)' % (at, total, sh.what or 'end')
        ctx.label('at-' + (sh.what.split(' ')[0] or 'end'))
        disk.crash(snap)
        new = gitread.Repo(s.repo).refs()
        for mode in ('lost', 'late', 'entries', 'mix', 'mix'):
            out = ctx.bdir + b'/after'
            shutil.rmtree(out, True)
            disk.build(out, rnd, mode)
            if disk.lost:
                ctx.nontrivial()
                ctx.label('mode-' + mode)
            verify(ctx, s, out, new, '%s, %s' % (what, mode), kind)
        if rnd.random() < .4:
            resume(ctx, s, out, what + ', mix')

def verify(ctx, s, out, new, what, kind):
    try:
        r = gitread.Repo(out)
        refs = r.refs()
        for n in set(s.old) | set(new) | set(refs):
            v = refs.get(n)
            if v in (s.old.get(n), new.get(n)):
                continue
            raise Violation('%s: %r is %r, was %s, should become %s' % (
                what, n, v and v.hex(), s.old.get(n) and s.old[n].hex(), new.get(n) and new[n].hex()))
        r.closure(refs.values())
    except (gitread.Missing, gitread.BadRepo) as ex:
        raise Violation('%s: a reference leads to missing or partial data: %s' % (what, ex))
    p = ctx.git(out, 'rev-list', '--objects', '--all', check=False)
    require(p.returncode == 0, what + ': git cannot read all that references lead to', p.stderr[-500:])

def resume(ctx, s, out, what):
    """Saving again into what is left gives a whole backup."""
    for root, ds, fs_ in os.walk(out):
        for f in fs_:
            if f.endswith(b'.lock') or f == b'packed-refs.new':
                os.unlink(os.path.join(root, f))
    pd = out + b'/objects/pack'
    for f in os.listdir(pd):
        if f == b'bup.bloom' or f.endswith(b'.midx'):
            os.unlink(os.path.join(pd, f))
    if s.c['op'] in ('gc', 'prune'):
        # As gc asks for when it was interrupted.
        ctx.bup('-d', out, 'gc', '--unsafe', ok=True)
    ops.save(ctx, out, s.src, name='again', date=2 * 10**9, extra=())
    r = gitread.Repo(out)
    try:
        r.closure(r.refs().values())
    except (gitread.Missing, gitread.BadRepo) as ex:
        raise Violation('%s: a save made afterwards relies on missing data: %s' % (what, ex))

SUITES = [Suite('power', case, run, 110, 4000,
                'random history, one command, power lost at up to eight points, five possible disk states each; '
                'non-trivial: some state lacked something unflushed')]
ASSUMPTIONS = ['a disk state holds everything explicitly flushed and any part of the rest, each directory entry and file independently, except that a pack comes no later than its index; '
               'what precedes the disturbed command is durable',
               'git writes its reference files safely: once a reference file has its name it has its content, and its reference changes reach the disk before later removals of packs']
