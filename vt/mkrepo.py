"""Branches made of hand-written commits over stored trees."""
import os
from hypothesis import strategies as st
from . import packs, gitread

NAMES = [b'main', b'b2', b'\xc3\xa4\xff.z', b'a-b', b'x@y', b'L' * 60, b'latest', b'tag']
PEOPLE = [b'root <root@localhost>', b'J. R\xc3\xa4ndom <j@example.org>', b'A B C <a+b@x-y.z>', b'\xff\xfe <raw@x>', b'x <>', b'Sammy Davis Jr. <s@x.>']
MESSAGES = [b"bup save\n\nGenerated by command:\n['bup', 'save']\n", b'one line', b'no newline at end', b'',
            b'\n\nblank lines first\n\n\nand inside\n\n', b'tree 0123\nparent x\nauthor y\n', b'\xff\xfe\x80 raw', b'trailing spaces   \n', 'ünïcode\n'.encode()]
ZONES = [b'+0000', b'+0530', b'-0730', b'+1400', b'-1200', b'+0001']

people = st.sampled_from(PEOPLE)

@st.composite
def branch(draw, min_size=1, max_size=8, gaps=None, start=None):
    """A list of commits, oldest first."""
    gap = gaps if gaps is not None else st.sampled_from([1, 1, 60, 3600, 86400, 86400 * 9, 86400 * 40, 0, -5, 86400 * 366])
    t = draw(start if start is not None else st.sampled_from([10**9, 0, 86400, 1700000000, 2**31 - 3, 951782400]))
    out = []
    for _ in range(draw(st.integers(min_size, max_size))):
        t = max(0, t + draw(gap))
        out.append({'t': t, 'ct': draw(st.sampled_from([t, t, t + 5, 10**9, 0])), 'a': draw(people), 'c': draw(people),
                    'm': draw(st.sampled_from(MESSAGES)), 'z': draw(st.sampled_from(ZONES)), 'cz': draw(st.sampled_from(ZONES)),
                    'tree': draw(st.integers(0, 5))})
    return out

def commit_data(tree, parents, c):
    return (b'tree ' + tree.hex().encode() + b'\n' + b''.join(b'parent ' + p.hex().encode() + b'\n' for p in parents)
            + b'author %s %d %s\ncommitter %s %d %s\n\n' % (c['a'], c['t'], c['z'], c['c'], c['ct'], c['cz']) + c['m'])

def write(repo, branches, trees):
    """Write {name: commits}; the commits of a branch may extend those of an
    earlier one ('on': (name, n)).  Returns {name: [commit ids]}."""
    objs, out = {}, {}
    for name, cs in branches.items():
        ids = []
        for c in cs:
            d = commit_data(trees[c['tree'] % len(trees)], ids[-1:], c)
            o = gitread.hash_object(b'commit', d)
            objs[o] = (b'commit', d)
            ids.append(o)
        out[name] = ids
        set_ref(repo, b'refs/heads/' + name, ids[-1])
    if objs:
        packs.write_pack(os.path.join(os.fsencode(repo), b'objects/pack'), list(objs.values()))
    return out

def set_ref(repo, ref, oid):
    p = os.path.join(os.fsencode(repo), ref)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(oid.hex().encode() + b'\n')
