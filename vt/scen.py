"""Repositories with some history, and one operation to disturb (C07-C10)."""
import os, shutil
from hypothesis import strategies as st
from . import gen, fs, ops, edits, gitread
from .core import require, Violation

OPS = ['save', 'save', 'save-new', 'split', 'get', 'get', 'rm-save', 'rm-branch', 'gc', 'gc', 'prune', 'midx', 'bloom', 'tag', 'index']

@st.composite
def scenario(draw, kinds=OPS, big=40000):
    cfg = draw(ops.config())
    if cfg.get('pack.packSizeLimit') in ('1k', '2000', '20000', '64k'):
        # A midx run per pack makes disturbed commands take very long.
        cfg['pack.packSizeLimit'] = '120000'
    return {'tree': draw(gen.tree(depth=2, max_entries=4, names=gen.plain_name(), rich=False, big=big, kinds='ffffddlh')),
            'edits': draw(st.lists(edits.edits(1, 3, names=gen.plain_name(), big=big), min_size=1, max_size=3)),
            'cfg': cfg,
            'aids': draw(st.lists(st.sampled_from(['midx', 'midxf', 'bloom', 'tag', 'packrefs']), max_size=3, unique=True)),
            'op': draw(st.sampled_from(kinds)), 'k': draw(st.integers(0, 40)),
            'data': draw(gen.content(2, big)),
            'last': draw(edits.edits(1, 3, names=gen.plain_name(), big=big))}

class Scen:
    """After setup: self.repo, self.cmds [(args, stdin)], self.old refs and views."""
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        d = self.d = ctx.bdir
        self.repo, self.src, self.other = d + b'/repo', d + b'/src', d + b'/other'
        os.mkdir(self.src)
        fs.build(self.src, c['tree'])
        fs.write_file(self.src + b'/keep', b'always here')
        ops.init(ctx, self.repo, c['cfg'])
        date = 10**9
        day = 86400
        kind = c['op']
        for i, es in enumerate(c['edits']):
            date += day * 40
            for e in es:
                edits.apply(self.src, e)
            self.last = ops.save(ctx, self.repo, self.src, date=date)
        self.date = date
        # a branch of its own whose only data is there
        fs.write_file(d + b'/solo', gen.realize([('r', 77, 30000)]))
        ops.save(ctx, self.repo, d + b'/solo', name='solo', date=date)
        if 'tag' in c['aids'] or kind == 'tag':
            ctx.bup('-d', self.repo, 'tag', 't1', 'b', ok=True)
        if kind == 'gc':
            # dead data: a removed branch sharing packs with nothing, and one mixed
            fs.write_file(d + b'/dead', gen.realize([('r', 78, 20000)]))
            ops.save(ctx, self.repo, d + b'/dead', name='dead', date=date)
            ctx.bup('-d', self.repo, 'rm', '--unsafe', 'dead' if c['k'] % 3 else 'solo', ok=True)
            if c['k'] % 2 and len(c['edits']) > 1:
                ctx.bup('-d', self.repo, 'rm', '--unsafe', 'b/' + stamp(10**9 + day * 40), ok=True)
        for a in c['aids']:
            if a == 'midx':
                ctx.bup('-d', self.repo, 'midx', '-a', ok=True)
            elif a == 'midxf':
                ctx.bup('-d', self.repo, 'midx', '-f', ok=True)
            elif a == 'bloom':
                ctx.bup('-d', self.repo, 'bloom', ok=True)
            elif a == 'packrefs':
                ctx.git(self.repo, 'pack-refs', '--all')
        self.cmds = []
        R = ['-d', self.repo]
        k = c['k']
        def cmd(*a, stdin=b''):
            self.cmds.append((R + list(a), stdin))
        if kind in ('save', 'save-new', 'index'):
            for e in c['last']:
                edits.apply(self.src, e)
            fs.write_file(self.src + b'/new', gen.realize(c['data']) + b'new')
            cmd('index', '-u', self.src)
            if kind != 'index':
                cmd('save', '-q', '-n', 'b' if kind == 'save' else 'fresh', '-d', str(date + 10 * day), self.src)
        elif kind == 'split':
            cmd('split', '-q', '-n', 's' if k % 2 else 'solo', '-d', str(date + day), stdin=gen.realize(c['data']) + b'end')
        elif kind == 'get':
            ops.init(ctx, self.other, c['cfg'])
            fs.write_file(self.src + b'/elsewhere', gen.realize(c['data']) + b'else')
            self.last_o = ops.save(ctx, self.other, self.src, date=date + day, name='o')
            fs.write_file(self.src + b'/elsewhere2', b'2')
            ops.save(ctx, self.other, self.src, date=date + 2 * day, name='o')
            m = [['--append:', 'o', 'b'], ['--pick:', 'o/' + stamp(date + day), 'b'], ['--ff:', 'o', 'fresh'],
                 ['--replace:', 'o', 'solo'], ['--new-tag:', 'o', '.tag/nt'], ['--unnamed', 'o'],
                 ['--append:', 'o', 'fresh'], ['--rewrite', '--append:', 'o', 'b']][k % 8]
            cmd('get', '-s', self.other, *m)
        elif kind == 'rm-save':
            cmd('rm', '--unsafe', 'b/' + stamp(10**9 + day * 40 * (1 + k % len(c['edits']))))
        elif kind == 'rm-branch':
            cmd('rm', '--unsafe', *(['solo'] if k % 2 else ['solo', 'b/' + stamp(10**9 + day * 40)]))
        elif kind == 'gc':
            cmd('gc', '--unsafe', *([['--threshold', '0'], [], ['-1'], ['--threshold', '0', '-1']][k % 4] if k % 4 != 2 else ['--threshold', '1']))
        elif kind == 'prune':
            cmd('prune-older', '--unsafe', '--keep-all-for', ['1d', '1m', '1w'][k % 3], *(['--no-gc'] if k % 2 else ['--gc-threshold', '0']))
        elif kind == 'midx':
            cmd('midx', *[['-a'], ['-f'], ['-a', '--max-files=5'], ['-f', '-o', self.repo + b'/objects/pack/midx-x.midx']][k % 3])
        elif kind == 'bloom':
            cmd('bloom', *[[], ['-f'], ['-f', '-k', '4']][k % 3])
        elif kind == 'restore':
            cmd('restore', '-q', '-C', d + b'/out', *(['--sparse'] if k % 3 == 0 else []), '/b/latest' + fs_path(self.src) + '/.')
        elif kind == 'join':
            fs_data = gen.realize(c['data']) + b'joined'
            self.joined = fs_data
            ctx.bup('-d', self.repo, 'split', '-n', 'j', stdin=fs_data, ok=True)
            cmd('join', *(['-o', d + b'/out'] if k % 2 else []), 'j')
        elif kind == 'tag':
            cmd('tag', *[['t2', 'b'], ['-f', 't1', 'solo'], ['-d', 't1']][k % 3])
        else:
            raise AssertionError(kind)
        r = gitread.Repo(self.repo)
        self.old = r.refs()
        self.old_oids = r.oids()
        self.old_live = r.closure(self.old.values())
        self.backup = d + b'/backup'
        copytree(self.repo, self.backup)

    def reset(self):
        shutil.rmtree(self.repo)
        copytree(self.backup, self.repo)

    def run(self, shim=None, stop_on_kill=True, ok=None):
        rs = []
        for args, stdin in self.cmds:
            r = self.ctx.bup(*args, stdin=stdin, env=shim.env() if shim else None, ok=ok)
            rs.append(r)
            if r.rc == -9 or (r.rc != 0):
                break
        return rs

def fs_path(p):
    return os.fsdecode(p)

def stamp(date):
    import time
    return time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(date))

def copytree(a, b):
    """Copy preserving hard links being irrelevant; times kept."""
    shutil.copytree(a, b, symlinks=True)
