"""C07: a command killed at any instant never damages existing backups."""
import os
from hypothesis import strategies as st
from vt import gen, fs, ops, gitread, scen, shim
from vt.core import Suite, Violation, require

NEEDS_SHIM = True

@st.composite
def case(draw):
    c = draw(scen.scenario())
    c['points'] = draw(st.lists(st.tuples(st.integers(0, 10**6), st.sampled_from([shim.KILL, shim.KILL, shim.KILLAFTER, shim.PARTKILL]),
                                          st.booleans()), min_size=5, max_size=5))
    return c

def same_commit(r, o, ref, w):
    """Equal but for the committer's time."""
    while o != w:
        a, b = r.commit(o), ref.commit(w)
        if any(a.get(k) != b.get(k) for k in ('tree', 'author', 'message')) or len(a['parents']) != len(b['parents']):
            return False
        if not a['parents']:
            return True
        o, w = a['parents'][0], b['parents'][0]
    return True

def check_refs(s, r, ref, new, when):
    refs = r.refs()
    for n in set(s.old) | set(new) | set(refs):
        v = refs.get(n)
        if v == s.old.get(n) or v == new.get(n):
            continue
        if s.c['op'] == 'get' and v and n in new and same_commit(r, v, ref, new[n]):
            continue
        if s.c['op'] in ('save', 'save-new') and v and n in new and v in r:
            # Access times may differ.
            a, b = r.commit(v), ref.commit(new[n])
            require(all(a[k] == b[k] for k in ('parents', 'author', 'message')), when + ': another commit', a['raw'], b['raw'])
            gitread.require_same_view(gitread.under(gitread.view(ref, b['tree']), s.src),
                                      gitread.under(gitread.view(r, a['tree']), s.src), when + ': another tree')
            continue
        raise Violation('%s: %r is %s, was %s, should become %s' % (
            when, n, v and v.hex(), s.old.get(n) and s.old[n].hex(), new.get(n) and new[n].hex()))
    try:
        r.closure(refs.values())
    except gitread.Missing as ex:
        raise Violation('%s: a reference leads to missing objects: %s' % (when, ex))
    return refs

def run(c, ctx):
    s = scen.Scen(ctx, c)
    sh = shim.Shim(ctx, [s.repo])
    kind = c['op']
    ctx.label('op-' + kind)
    # the uninterrupted run
    sh.arm()
    rs = s.run(sh)
    require(all(r.rc == 0 for r in rs), 'undisturbed command failed', *rs)
    total = sh.count
    ref = gitread.Repo(s.repo)
    new = ref.refs()
    ref_oids = ref.oids()
    ref.closure(new.values())
    ref_commits = {n: ref.commit(o) for n, o in new.items()}
    views = {}
    pre = s.src if kind in ('save', 'save-new') else b''
    if total == 0:
        return
    seen = set()
    for x, action, restore in c['points']:
        at = 1 + x % total
        if (at, action) in seen:
            continue
        seen.add((at, action))
        s.reset()
        sh.arm(at, action)
        rs = s.run(sh)
        what = 'killed at call %d of %d (%s, mode %d)' % (at, total, sh.what, action)
        if not sh.fired:
            continue
        ctx.nontrivial()
        ctx.label('at-' + sh.what.split(' ')[0])
        r = gitread.Repo(s.repo)
        refs = check_refs(s, r, ref, new, what)
        if kind != 'gc':
            pass
        missing = set() if kind in ('gc', 'prune') else s.old_oids - r.oids()
        require(not missing, what + ': objects disappeared', [o.hex() for o in missing][:5])
        if restore:
            check_reads(ctx, s, r, refs, what)
        # again, undisturbed
        rs = rerun(s)
        # When (part of) what was asked is done already, e.g. a branch is gone,
        # the same request may be refused.
        partly = refs != s.old and kind in ('rm-save', 'rm-branch', 'tag', 'get')
        failed = any(q.rc for q in rs)
        require(partly or not failed, what + ': running the command again failed', *rs)
        r2 = gitread.Repo(s.repo)
        refs2 = r2.refs()
        if failed:
            require(refs2 == refs, what + ': a refused command changed references')
            continue
        require(set(refs2) == set(new), what + ': other references after running again', sorted(refs2), sorted(new))
        r2.closure(refs2.values())
        for n, o in refs2.items():
            if o == new[n] or o == s.old.get(n) == new[n]:
                continue
            # Access times may differ, and a commit that was completed before
            # the kill may precede the final one.
            cm, want = r2.commit(o), ref_commits[n]
            require(kind in ('save', 'save-new', 'split', 'get'), what + ': running again gave another result', n)
            if n not in views:
                views[n] = gitread.under(gitread.view(ref, want['tree']), pre)
            gitread.require_same_view(views[n], gitread.under(gitread.view(r2, cm['tree']), pre), what + ': running again gave another result')
            require(cm['message'] == want['message'] and cm['author'] == want['author'],
                    what + ': running again gave another commit', cm['raw'], want['raw'])
            first = refs.get(n)
            ps = cm['parents']
            require(ps == want['parents'] or (first != s.old.get(n) and ps == [first]) or kind == 'get',
                    what + ': running again gave another history', n, cm['raw'], want['raw'])
        if kind == 'gc' and 'threshold' in repr(s.cmds) and "'--threshold', '0'" in repr(s.cmds):
            require(r2.oids() == ref_oids, what + ': collecting again kept or lost other objects',
                    [o.hex() for o in r2.oids() ^ ref_oids][:5])
        p = ctx.git(s.repo, 'fsck', '--full', '--no-dangling', check=False)
        require(p.returncode == 0, what + ': git fsck fails after running again', p.stderr[-600:])

def locks(repo):
    out = []
    for root, dirs, files in os.walk(repo):
        if '/objects' in os.fsdecode(root)[len(repo):]:
            continue
        out += [os.path.join(root, f) for f in files if f.endswith(b'.lock') or f == b'packed-refs.new']
    return out

def rerun(s):
    # A lock file left by a killed git must be removed by hand.
    for l in locks(s.repo):
        os.unlink(l)
    return s.run()

def check_reads(ctx, s, r, refs, what):
    """bup itself still reads every branch."""
    for n, o in sorted(refs.items()):
        if not n.startswith(b'refs/heads/'):
            continue
        b = n[11:]
        tree = r.commit(o)['tree']
        out = ctx.bdir + b'/out'
        if os.path.exists(out):
            import shutil
            shutil.rmtree(out)
        q = ctx.bup('-d', s.repo, 'restore', '-q', '-C', out, b'/' + b + b'/latest/.')
        lines = [l for l in q.err.split(b'\n') if l and not l.startswith((b'error: chattr(', b'warning: '))]
        require(q.rc == 0 or not lines, what + ': restoring branch %r fails' % b, q)
        want = {p: e[0] for p, e in gitread.decode_meta(r, tree, content=False).items()}
        got = {p: 'f' if e['t'] not in 'dl' else e['t'] for p, e in fs.snapshot(out, False)[0].items()}
        if b in (b's',) or set(want) == {b''} or list(want) == [b'', b'data']:
            continue
        require(set(want) == set(got), what + ': restore of %r lacks or invents paths' % b, sorted(set(want) ^ set(got))[:5])

SUITES = [Suite('kill', case, run, 150, 5000,
                'random history, one command killed (before, after or halfway through) at five random file-modifying calls; '
                'non-trivial: at least one kill happened')]
ASSUMPTIONS = ['kills are simulated at file-modifying system calls (before, after, or in the middle of a write)',
               'lock files left by a killed git are removed by hand, as git asks for, before running again']
