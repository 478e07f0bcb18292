"""Control of shim.c: disturb, trace or pause the file-system calls of a run."""
import mmap, os, struct, socket

NONE, KILL, KILLAFTER, PARTKILL, FAIL, FAILALL, SHORT, PAUSE = range(8)
MUT, SYNC, OPENR, READ = 1, 2, 4, 8
SIZE = 7 * 4 + 200 + 100 + 200

class Shim:
    def __init__(self, ctx, roots, snap=None):
        self.ctx = ctx
        self.path = os.path.join(ctx.bdir, b'ctl')
        with open(self.path, 'wb') as f:
            f.write(bytes(4096))
        fd = os.open(self.path, os.O_RDWR)
        self.m = mmap.mmap(fd, 4096)
        os.close(fd)
        self.roots, self.snap = roots, snap
        if snap:
            os.makedirs(snap, exist_ok=True)

    def arm(self, target=0, action=NONE, err=0, classes=MUT, sock=b'', only=b''):
        self.m[:SIZE] = struct.pack('<7I200s100s200s', 0, target, action, err, classes, 0, 0, b'', sock, only)

    @property
    def count(self):
        return struct.unpack_from('<I', self.m, 0)[0]

    @property
    def fired(self):
        return struct.unpack_from('<I', self.m, 20)[0]

    @property
    def what(self):
        return self.m[28:228].split(b'\0')[0].decode(errors='replace')

    def env(self):
        from .core import Ctx
        e = {'VT_CTL': os.fsdecode(self.path), 'LD_PRELOAD': Ctx.shim, 'VT_ZYGOTE': '',
             'VT_ROOTS': ':'.join(os.fsdecode(r) for r in self.roots)}
        if self.snap:
            e['VT_SNAP'] = os.fsdecode(self.snap)
        return e

    def close(self):
        self.m.close()

def read_log(snap):
    """[(seq, op, inode, path, path2)] in order."""
    out = []
    try:
        with open(os.path.join(snap, b'log'), 'rb') as f:
            for line in f:
                a = line.rstrip(b'\n').split(b' ')
                if len(a) == 5:
                    out.append((int(a[0]), a[1].decode(), int(a[2]), bytes.fromhex(a[3].decode()),
                                bytes.fromhex(a[4].decode()) if a[4] != b'-' else None))
    except FileNotFoundError:
        pass
    out.sort()
    return out
