"""Process death and failing file-system calls in a driver process (shim/shim.c)."""
import mmap, os, struct
import vp

HEAD = 32
SIZE = HEAD + (1 << 20)
OFF, COUNT, DIE, ONCE, STICKY, STOP, PAUSE = range(7)
EIO, EACCES, ENOSPC = 5, 13, 28


class Shim:
    """Control block of one preloaded shim; `base` is the directory whose calls count."""

    def __init__(self, base):
        self.so = vp.build_shim()
        self.base = base
        self.path = os.path.join(os.path.dirname(base), os.path.basename(base) + ".shim")
        with open(self.path, "wb") as f:
            f.truncate(SIZE)
        self.f = open(self.path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), SIZE)

    @property
    def env(self):
        return {"LD_PRELOAD": self.so, "VP_SHIM_CTL": self.path, "VP_SHIM_DIR": self.base}

    def arm(self, mode, at=0, err=EIO, part=0, muts=0):
        self.m[0:HEAD] = struct.pack("<8i", 0, at, err, part, 0, 0, muts, 0)
        self.m[0:4] = struct.pack("<i", mode)

    def off(self):
        self.m[0:4] = struct.pack("<i", 0)

    @property
    def count(self):
        return struct.unpack("<i", self.m[16:20])[0]

    @property
    def hit(self):
        return struct.unpack("<i", self.m[20:24])[0]

    def log(self):
        """[(kind, path, other path, size)] of the counted calls, paths relative to the base"""
        n = struct.unpack("<i", self.m[28:32])[0]
        out = []
        for l in self.m[HEAD:HEAD + n].decode("utf8", "replace").split("\n")[:-1]:
            k, p, q, c = l.split("\x1f")
            out.append((k, p, q, int(c)))
        return out

    def close(self):
        self.m.close()
        self.f.close()
        os.unlink(self.path)
