"""C06: every repository bup leaves behind is a valid git repository."""
import os, hashlib
from hypothesis import strategies as st
from vt import fs, gen, edits, ops, gitread, scen, hist, packs
from vt.core import Suite, Violation, require

@st.composite
def case(draw):
    return draw(hist.history(hist.KINDS, 3, 9, rich=False))

def expected_refs(h, l, o, before, after, what):
    """Which references may differ after this operation, and how."""
    changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
    b = b'refs/heads/' + hist.BRANCHES[o['i'] % len(hist.BRANCHES)]
    r = gitread.Repo(h.repo)
    if l in ('save', 'save-strip', 'save-smaller', 'save-flags', 'save-same', 'split'):
        require(changed == {b}, what + ' changed other references', sorted(changed), b)
        cm = r.commit(after[b])
        require(cm['parents'] == ([before[b]] if b in before else []), what + ': wrong parent', cm)
    elif l in ('get-append', 'get-pick', 'get-ff', 'get-replace', 'get-rewrite'):
        require(changed <= {b}, what + ' changed other references', sorted(changed), b)
        require(b in after, what + ': no branch')
    elif l in ('split-tree', 'get-unnamed', 'midx', 'bloom', 'config', 'git-gc', 'pack-refs', 'gc', 'edit', 'reshuffle'):
        require(not changed, what + ' changed references', sorted(changed))
    elif l == 'tag':
        t = b'refs/tags/t%d' % (o['j'] % 4)
        require(changed <= {t} and t in after, what + ' changed other references', sorted(changed), t)
    elif l == 'get-new-tag':
        t = b'refs/tags/n%d' % (o['i'] % 4)
        require(changed == {t}, what + ' changed other references', sorted(changed), t)
    elif l == 'untag':
        t = sorted(n for n in before if n.startswith(b'refs/tags/'))
        require(changed == {t[o['i'] % len(t)]}, what + ' changed other references', sorted(changed))
    elif l in ('rm-save', 'rm-branch', 'prune'):
        require(all(n.startswith(b'refs/heads/') for n in changed), what + ' changed tags', sorted(changed))
        if l != 'prune':
            require(len(changed) == 1, what + ': changed references', sorted(changed))
        if l == 'rm-branch':
            require(not changed & set(after), what + ' kept the branch')
    for n, oid in after.items():
        require(n.startswith((b'refs/heads/', b'refs/tags/')), what + ' made a strange reference', n)
        typ = r.get(oid)[0]
        require(typ == b'commit', what + ': reference does not name a commit', n, typ)

def check_packs(h, seen, what):
    """git builds the very same index for each new pack."""
    pd = h.repo + b'/objects/pack/'
    for n in sorted(os.listdir(pd)):
        if not n.endswith(b'.pack') or n in seen:
            continue
        seen.add(n)
        stem = pd + n[:-5]
        require(os.path.exists(stem + b'.idx'), what + ': pack without index', n)
        out = h.d + b'/check.idx'
        p = h.ctx.git(h.repo, 'index-pack', '-o', os.fsdecode(out), os.fsdecode(pd + n), check=False)
        require(p.returncode == 0, what + ': git cannot index the pack', n, p.stderr[-400:])
        with open(out, 'rb') as f, open(stem + b'.idx', 'rb') as g:
            a, b = f.read(), g.read()
        os.unlink(out)
        rev = out[:-4] + b'.rev'
        if os.path.exists(rev):
            os.unlink(rev)
        require(a == b, what + ': the index differs from the one git builds', n, len(a), len(b))

def canonical(r, oid):
    data = r.get(oid)[1]
    es = gitread.parse_tree(data)
    ks = [n + (b'/' if m == 0o40000 else b'') for m, n, _ in es]
    require(ks == sorted(ks) and len({n for _, n, _ in es}) == len(es), 'tree entries out of order or repeated', oid.hex(), [e[:2] for e in es][:10])
    want = b''.join(b'%o %s\0%s' % (m, n, o) for m, n, o in es)
    require(want == data, 'tree is not in canonical form', oid.hex())
    for m, n, o in es:
        require(m in (0o100644, 0o100755, 0o40000, 0o120000), 'tree holds a strange mode', oct(m), n)
        require(n and b'/' not in n and n not in (b'.', b'..'), 'tree holds a bad name', n)
        typ = r.get(o)[0]
        require(typ == (b'tree' if m == 0o40000 else b'blob'), 'tree entry has another type than its mode says', oct(m), n, typ)

def run(c, ctx):
    h = hist.Hist(ctx, c)
    seen, checked = set(), set()
    n = 0
    steps = list(c['ops']) + [{'op': 'save', 'i': 1, 'j': 0}]
    for o in steps:
        before = h.refs()
        l = h.step(o)
        if l is None:
            continue
        ctx.label(l)
        n += 1
        what = 'step %d (%s)' % (n, l)
        after = h.refs()
        expected_refs(h, l, o, before, after, what)
        if l in ('edit', 'config'):
            continue
        ops.fsck(ctx, h.repo, what)
        if l in ('git-gc', 'reshuffle'):
            pd = h.repo + b'/objects/pack/'
            seen |= set(os.listdir(pd))
        else:
            check_packs(h, seen, what)
        r = gitread.Repo(h.repo)
        for oid in r.closure(after.values()):
            if oid not in checked:
                checked.add(oid)
                if r.get(oid)[0] == b'tree':
                    canonical(r, oid)
        r.closure(after.values())
    if n >= 3:
        ctx.nontrivial()
    # What git reads is what bup stored.
    r = gitread.Repo(h.repo)
    p = ctx.git(h.repo, 'cat-file', '--batch-all-objects', '--batch-check')
    got = {l.split()[0]: l.split()[1:] for l in p.stdout.splitlines()}
    want = {o.hex().encode(): [r.get(o)[0], b'%d' % len(r.get(o)[1])] for o in r.oids()}
    require(got == want, 'git lists other objects', sorted(set(got) ^ set(want))[:5])
    b = hist.BRANCHES[1]
    src = h.srcs[0]
    rel = src.strip(b'/')
    cm = r.commit(h.heads()[b])
    require(cm['author'].split()[-2] == b'%d' % h.date, 'commit has another date', cm['author'], h.date)
    for who in (cm['author'], cm['committer']):
        require(who.split()[-1] == b'+0000', 'commit has a strange time zone', who)
    require(b"bup', 'save'" in cm['message'] or b'bup save' in cm['message'], 'commit message', cm['message'])
    snap = fs.snapshot(src, False)[0]
    ls = ctx.git(h.repo, 'ls-tree', '-r', '-z', '-t', '--full-tree', os.fsdecode(cm['tree'].hex()), check=True).stdout
    have = {}
    for line in ls.split(b'\0'):
        if line:
            meta, name = line.split(b'\t', 1)
            have[name] = meta.split()
    if not any(x.startswith(b'bup.split.trees') for x in ctx.git(h.repo, 'config', '-l', check=True).stdout.lower().splitlines() if x.endswith(b'true')):
        for q, e in snap.items():
            full = rel + b'/' + q if q else rel
            if b'.bup' in full:
                continue         # stored under another name
            if e['t'] == 'd':
                require(have.get(full, [0, 0])[1] == b'tree', 'git does not see a saved directory', full)
            elif e['t'] in 'fl':
                m = have.get(full) or have.get(full + b'.bup')
                require(m is not None, 'git does not see a saved file', full)
                if m[1] == b'blob':
                    data = ctx.git(h.repo, 'cat-file', 'blob', m[2].decode()).stdout
                    if e['t'] == 'f':
                        require(hashlib.sha256(data).hexdigest()[:20] == e['c'], 'git reads other content', full)
                    else:
                        require(m[0] == b'120000' and data == e['to'], 'git reads another link target', full, data)

SUITES = [Suite('history', case, run, 220, 10000,
                'random history of 3 to 9 commands; git fsck, git index-pack and an independent reader examine the repository after each; '
                'non-trivial: at least three commands took effect')]
ASSUMPTIONS = ['git fsck messages about .gitmodules, .gitattributes and .git names are ignored: they concern checkouts']
