"""C13: pruning keeps exactly the saves the retention periods require."""
import os, time
from hypothesis import strategies as st
from vt import fs, gen, ops, gitread, hist, mkrepo, packs
from vt.core import Suite, Violation, require
from checks import c12_rmtag

DAY = 86400
SCALE = {'s': 1, 'min': 60, 'h': 3600, 'd': DAY, 'w': 7 * DAY, 'm': 31 * DAY, 'y': 366 * DAY}
KINDS = ['all', 'dailies', 'monthlies', 'yearlies']

gap = st.one_of(st.sampled_from([0, 1, 59, 3600, DAY // 2, DAY, DAY - 1, DAY + 1, 31 * DAY, 28 * DAY, 365 * DAY, 366 * DAY, 364 * DAY, 730 * DAY]),
                st.integers(0, 2 * DAY), st.integers(0, 40 * DAY), st.integers(0, 500 * DAY))

@st.composite
def case(draw):
    names = draw(st.lists(st.sampled_from([b'main', b'b2', b'\xc3\xa4.z']), min_size=1, max_size=2, unique=True))
    c = {'branches': {}, 'tags': draw(st.lists(st.tuples(st.just(b't'), st.integers(0, 50)), max_size=1)), 'fork': None,
         'seed': draw(st.integers(0, 99)), 'npacks': 1, 'packrefs': draw(st.booleans()),
         'trees': draw(st.lists(gen.tree(depth=0, max_entries=2, names=gen.plain_name(), rich=False, big=500, kinds='f'), min_size=1, max_size=2))}
    span = draw(st.sampled_from([gap, st.integers(0, 3 * DAY), st.integers(0, 90 * DAY), st.sampled_from([0, 1, DAY, 365 * DAY])]))
    for n in names:
        b = draw(mkrepo.branch(1, 25, gaps=span, start=st.sampled_from([10**9, 951782400 - DAY, 1700000000, 5 * DAY, 86399])))
        if draw(st.integers(0, 4)) == 0 and len(b) > 1:
            i = draw(st.integers(0, len(b) - 2))        # a clock that was wrong for a while
            b[i]['t'] += draw(st.sampled_from([DAY * 1000, DAY * 400, DAY * 2, 100]))
        c['branches'][n] = b
    last = max(x['t'] for b in c['branches'].values() for x in b)
    first = min(x['t'] for b in c['branches'].values() for x in b)
    c['runs'] = draw(st.lists(st.fixed_dictionaries({
        'keep': st.dictionaries(st.sampled_from(KINDS), st.one_of(
            st.sampled_from(['forever', '1d', '2d', '1w', '1m', '3m', '1y', '2y', '1h', '90min', '1s', '0d']),
            st.integers(0, last - first + DAY).map(lambda s: '%ds' % s),
            st.integers(0, 100).map(lambda s: '%dw' % s)), min_size=1, max_size=4),
        'wrt': st.one_of(st.sampled_from([last, last, last + 1, last + DAY, last + 400 * DAY, first]), st.integers(first, last + 1)),
        'gc': st.booleans(), 'roots': st.sampled_from(['', '', 'one', 'all', 'bad']), 'v': st.booleans()}), min_size=1, max_size=3))
    c['tz'] = draw(st.sampled_from(['UTC', 'UTC', 'JST-9', 'EST5EDT,M3.2.0,M11.1.0', '<+0545>-5:45', 'CET-1CEST']))
    return c

def decide(utcs, keep, wrt, lt):
    """The documented rule; utcs newest first (child before parent)."""
    start = {k: (float('-inf') if v == 'forever' else wrt - secs(v)) for k, v in keep.items()}
    n = 1
    while n < len(utcs) and utcs[n] <= utcs[n - 1]:
        n += 1
    out = []
    seen = set()
    for i, t in enumerate(utcs):
        if i >= n or t > wrt:
            out.append(True)
            continue
        for kind, group in (('all', None), ('dailies', 3), ('monthlies', 2), ('yearlies', 1)):
            if kind in start and t >= start[kind]:
                key = (kind, lt(t)[:group] if group else i)
                out.append(key not in seen)
                seen.add(key)
                break
        else:
            out.append(False)
    return out

def secs(p):
    for s in sorted(SCALE, key=len, reverse=True):
        if p.endswith(s):
            return int(p[:-len(s)]) * SCALE[s]

def run(c, ctx):
    repo = c12_rmtag.setup(c, ctx)
    env = {'TZ': c['tz']}
    tz_before = os.environ.get('TZ')
    os.environ['TZ'] = c['tz']
    time.tzset()
    try:
        for rn in c['runs']:
            one(c, ctx, repo, rn, env)
    finally:
        if tz_before is None:
            os.environ.pop('TZ')
        else:
            os.environ['TZ'] = tz_before
        time.tzset()

def one(c, ctx, repo, rn, env):
    r = gitread.Repo(repo)
    refs = r.refs()
    hs = c12_rmtag.heads(r)
    mine = sorted(n for n in hs if n != b'base')
    roots = {'': [], 'one': mine[:1], 'all': sorted(hs), 'bad': [b'nosuch']}[rn['roots']]
    if not mine and rn['roots'] == 'one':
        return
    args = ['-d', repo, 'prune-older', '--unsafe', '--wrt', str(rn['wrt'])] + ['--keep-%s-for=%s' % kv for kv in sorted(rn['keep'].items())]
    if rn['v']:
        args.append('-v')
    if any(v != 'forever' and secs(v) == 0 for v in rn['keep'].values()):
        p = ctx.bup(*args, *roots, env=env)
        require(p.rc != 0, 'prune-older accepts a zero period', p)
        require(gitread.Repo(repo).refs() == refs, 'refused prune-older changed references')
        ctx.label('zero')
        return
    expect, names = {}, {}
    plan = []
    for n in (hs if not roots else [x for x in hs if x in roots]):
        h = r.history(hs[n])
        utcs = [int(cm['author'].split()[-2]) for _, cm in h]
        keep = decide(utcs, rn['keep'], rn['wrt'], time.localtime)
        sn = hist_names(utcs)
        expect[n] = [cm for k, (_, cm) in zip(keep, h) if k]
        plan += [(b'+ ' if k else b'- ') + n + b'/' + s for k, s in zip(keep, sn)]
        if True in keep and False in keep:
            ctx.nontrivial()
        if any(b > a for a, b in zip(utcs, utcs[1:])):
            ctx.label('disorder')
        if any(t > rn['wrt'] for t in utcs):
            ctx.label('future')
    for k in rn['keep']:
        ctx.label(k)
    objs = r.oids()
    p = ctx.bup(*args, '--pretend', *roots, env=env)
    r2 = gitread.Repo(repo)
    require(r2.refs() == refs and r2.oids() == objs, 'prune-older --pretend changed the repository')
    what = 'prune-older of %r' % (sorted(rn['keep'].items()),)
    require(p.rc == 0, what + ' --pretend fails', p)
    got = p.out.splitlines()
    require(sorted(got) == sorted(plan), what + ' --pretend reports another decision', rn, sorted(set(got) ^ set(plan)), got, plan)
    p = ctx.bup(*args, *([] if rn['gc'] else ['--no-gc']), *roots, env=env)
    require(p.rc == 0, what + ' fails', p)
    r2 = gitread.Repo(repo)
    now = c12_rmtag.heads(r2)
    for n, cms in expect.items():
        if not cms:
            require(n not in now, what + ' kept a branch without saves', n)
            continue
        require(n in now, what + ' lost a branch', n)
        show = lambda cm: {k: cm.get(k) for k in c12_rmtag.KEEP}
        have = [show(cm) for _, cm in r2.history(now[n])]
        require(have == [show(cm) for cm in cms], what + ': saves left on %r' % n, rn,
                [x['author'] for x in have], [x['author'] for x in cms])
    for n, o in refs.items():
        if n[11:] not in expect:
            require(r2.refs().get(n) == o, what + ' changed an unrelated reference', n)
    require({n for n in r2.refs()} <= set(refs), what + ' created references')
    r2.closure(r2.refs().values())
    if not rn['gc']:
        require(objs <= r2.oids(), what + ' --no-gc removed objects')
    ops.fsck(ctx, repo, what)

def hist_names(utcs):
    """Save names, newest first, in local time."""
    s = [time.strftime('%Y-%m-%d-%H%M%S', time.localtime(t)).encode() for t in utcs[::-1]]
    seen, out = {}, []
    for x in s:
        n = s.count(x)
        k = seen.get(x, 0)
        seen[x] = k + 1
        out.append(x if n == 1 else b'%s-%0*d' % (x, len(str(n - 1)), k))
    return out[::-1]

SUITES = [Suite('prune', case, run, 200, 12000,
                'branches of up to 25 saves with random gaps (equal, sub-day, years; sometimes out of order), one to three prunings with random '
                'periods, end points and time zones, each also with --pretend; non-trivial: some saves are kept and some removed')]
ASSUMPTIONS = ['local days, months and years are those of the C library for the zone in TZ']
