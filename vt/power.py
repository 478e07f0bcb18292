"""What a repository may look like after a power loss.

Everything explicitly flushed (file contents at fsync, directory entries at the
directory's fsync) is there; of everything else any part may be.  Within
a directory a pack's entry does not get lost if its index's, made later, is
there.  Snapshots of what was flushed come from shim.c."""
import os, shutil
from . import shim

class Disk:
    def __init__(self, root):
        """Remember the tree at root, all of it durable, before the command."""
        self.root = root
        self.dirs = {}      # ino -> {name: ino}
        self.files = {}     # ino -> path in self.backup terms (content)
        self.scan(root, self.dirs, self.files)
        self.rootino = os.lstat(root).st_ino
        self.data0 = {}
        for i, p in self.files.items():
            with open(p, 'rb') as f:
                self.data0[i] = f.read()

    @staticmethod
    def scan(root, dirs, files):
        for d, ds, fs in os.walk(root):
            e = {}
            for n in ds + fs:
                p = os.path.join(d, n)
                i = os.lstat(p).st_ino
                e[n] = i
                if n in fs:
                    files[i] = p
            dirs[os.lstat(d).st_ino] = e

    def crash(self, snap):
        """Collect what the interrupted command left."""
        self.cur_dirs, cur_files = {}, {}
        self.scan(self.root, self.cur_dirs, cur_files)
        self.cur = {}
        for i, p in cur_files.items():
            with open(p, 'rb') as f:
                self.cur[i] = f.read()
        self.dur_dirs = dict(self.dirs)
        self.dur = dict(self.data0)
        self.ops = shim.read_log(snap)
        for seq, op, ino, p, p2 in self.ops:
            if op == 'syncdir':
                with open(os.path.join(snap, b'%d' % seq), 'rb') as f:
                    e = {}
                    for x in f.read().split(b'\0'):
                        n, _, i = x.rpartition(b'/')
                        if n and n not in (b'.', b'..'):
                            e[n] = int(i)
                    self.dur_dirs[ino] = e
            elif op == 'syncfile':
                with open(os.path.join(snap, b'%d' % seq), 'rb') as f:
                    self.dur[ino] = f.read()

    def build(self, dest, rnd, mode):
        """Write one possible state to dest.  Modes: 'lost' (nothing unflushed
        persisted), 'late' (unlinks and moved references persisted, new entries
        and contents did not), 'entries' (all entries, no unflushed contents),
        'mix' (any)."""
        self.lost = 0
        # git's reference changes precede later removals of packs on disk too
        pd = self.dirs[self.rootino].get(b'objects')
        pd = self.dirs.get(pd, {}).get(b'pack')
        self.removed = any(n.endswith((b'.pack', b'.idx')) and n not in self.cur_dirs.get(pd, {}) for n in self.dirs.get(pd, ()))
        self._dir(self.rootino, dest, rnd, mode, b'')

    def _dir(self, ino, dest, rnd, mode, rel):
        os.mkdir(dest)
        dur = self.dur_dirs.get(ino, {})
        cur = self.cur_dirs.get(ino, dur)
        git_own = rel == b'' or rel.startswith((b'refs', b'logs'))
        late = {}   # an index's entry is not there before its pack's
        for n in sorted(set(dur) | set(cur)):
            a, b = dur.get(n), cur.get(n)
            if a == b:
                pick = a
            elif git_own and self.removed:
                pick = b
            elif mode == 'lost':
                pick = a
            elif mode == 'entries':
                pick = b
            elif mode == 'late':
                pick = b if git_own or b is None else a
            else:
                pick = rnd.choice((a, b))
            if n.endswith(b'.pack') and pick is None and b is not None and b == late.get(n):
                pick = b
            if n.endswith(b'.idx') and pick is not None and pick == b:
                late[n[:-4] + b'.pack'] = cur.get(n[:-4] + b'.pack')
            if pick != b:
                self.lost += 1
            if pick is None:
                continue
            p = os.path.join(dest, n)
            r = rel + b'/' + n if rel else n
            if pick in self.dirs or pick in self.cur_dirs or pick in self.dur_dirs:
                self._dir(pick, p, rnd, mode, r)
                continue
            # git's own small files: trust git to write contents before renaming
            d, c = self.dur.get(pick), self.cur.get(pick)
            if git_own and c is not None:
                data = c
            elif c is None or d == c:
                data = d if d is not None else b''
            elif d is None:
                data = rnd.choice((b'', c, c[:len(c) // 2], bytes(len(c)))) if mode == 'mix' else b''
            else:
                data = rnd.choice((d, c)) if mode == 'mix' else d
            if c is not None and data != c:
                self.lost += 1
            with open(p, 'wb') as f:
                f.write(data)
