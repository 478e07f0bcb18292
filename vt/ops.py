"""Common bup operations on generated configurations."""
import os
from hypothesis import strategies as st
from .core import require, Violation

@st.composite
def config(draw, split_files=('legacy:13', 'legacy:13', 'legacy:14', 'legacy:16', None)):
    c = {}
    v = draw(st.sampled_from(list(split_files)))
    if v:
        c['bup.split.files'] = v
    if draw(st.booleans()):
        c['bup.split.trees'] = draw(st.sampled_from(['true', 'true', 'false']))
    if draw(st.integers(0, 2)) == 0:
        c[draw(st.sampled_from(['core.compression', 'pack.compression']))] = draw(st.sampled_from(['0', '1', '6', '9', '-1']))
    if draw(st.integers(0, 3)) == 0:
        c['pack.packSizeLimit'] = draw(st.sampled_from(['1k', '20000', '64k', '1m', '2000']))
    return c

def init(ctx, repo, cfg=None):
    ctx.bup('-d', repo, 'init', ok=True)
    set_config(repo, cfg or {})
    return repo

def set_config(repo, cfg):
    if not cfg:
        return
    with open(os.path.join(os.fsencode(repo), b'config'), 'ab') as f:
        for k, v in sorted(cfg.items()):
            sec, _, key = k.rpartition('.')
            top, _, sub = sec.partition('.')
            if sub:
                f.write(b'[%s "%s"]\n' % (top.encode(), sub.encode()))
            else:
                f.write(b'[%s]\n' % top.encode())
            f.write(b'\t%s = %s\n' % (key.encode(), v.encode()))

def save(ctx, repo, src, name='b', date=None, extra=(), index=True, real=False, paths=None):
    if index:
        ctx.bup('-d', repo, 'index', *( ['-u'] + list(paths or [src])), ok=True, real=real)
    a = ['-d', repo, 'save', '-q', '-c', '-n', name]
    if date is not None:
        a += ['-d', str(date)]
    r = ctx.bup(*(a + list(extra) + list(paths or [src])), ok=True, real=real)
    out = r.out.strip().split(b'\n')[-1]
    require(len(out) == 40, 'save -c did not print a commit id', r)
    return bytes.fromhex(out.decode())

# Complaints about file names and contents that only matter to git checkouts.
FSCK = [x for k in ('gitmodulesSymlink', 'gitmodulesBlob', 'gitmodulesParse', 'gitmodulesName', 'gitmodulesPath', 'gitmodulesUrl',
                    'gitmodulesUpdate', 'gitmodulesMissing', 'gitmodulesLarge', 'gitattributesBlob', 'gitattributesMissing',
                    'gitattributesLarge', 'gitattributesLineLength', 'hasDotgit') for x in ('-c', 'fsck.%s=ignore' % k)]

def fsck(ctx, repo, what, *args):
    p = ctx.git(repo, *FSCK, 'fsck', '--full', '--no-dangling', *args, check=False)
    require(p.returncode == 0, what + ': git fsck fails', p.stderr[-600:])
    return p
