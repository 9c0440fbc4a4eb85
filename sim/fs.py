"""Files of a run's scratch directory behind a seam that can fail.

builtins.open and io.open are replaced for paths below the scratch directory;
everything else opens as usual.  The directory holds real files, the raw layer
between them and Python's buffering applies the faults of the specification:
[name, "open"|"read"|"write"|"close", n, what], where n counts operations of
that kind on that file and what is an errno name, "short" (fewer bytes than
asked for) or ["swap", other] (another file is renamed over it).
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

real_open = builtins.open


class FS:
    def __init__(self):
        self.dir = None
        self.faults = []
        self.count = {}
        self.kinds = {}
        self.raws = []
        self.log = []
        self.errors = []

    def hit(self, path, op):
        name = os.path.relpath(path, self.dir)
        k = (name, op)
        n = self.count[k] = self.count.get(k, 0) + 1
        self.log.append([name, op])
        out = []
        for f in self.faults:
            if f[0] == name and f[1] == op and (f[2] == n or f[2] == 0):
                self.kinds["%s %s" % (op, f[3] if isinstance(f[3], str) else f[3][0])] = self.kinds.get("%s %s" % (op, f[3] if isinstance(f[3], str) else f[3][0]), 0) + 1
                out.append(f[3])
        return out

    def apply(self, path, op):
        short = False
        for w in self.hit(path, op):
            if w == "short":
                short = True
            elif isinstance(w, list):
                shutil.copy(os.path.join(self.dir, w[1]), path + ".new")
                os.replace(path + ".new", path)
            else:
                self.errors.append([os.path.relpath(path, self.dir), op, w])
                raise OSError(getattr(errno, w), os.strerror(getattr(errno, w)), path)
        return short

    def inside(self, p):
        if self.dir is None or isinstance(p, int):
            return None
        try:
            p = os.path.abspath(os.fspath(p))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith(self.dir + os.sep) else None

    def leaked(self):
        return [r.path for r in self.raws if not r.closed]


fs = FS()


class Raw(io.FileIO):
    def __init__(self, path, mode, **kw):
        self.path = path
        fs.apply(path, "open")
        super().__init__(path, mode, **kw)
        fs.raws.append(self)

    def readinto(self, b):
        if fs.apply(self.path, "read") and len(b) > 1:
            b = memoryview(b)[:max(1, len(b) // 3)]
        return super().readinto(b)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = []
        while True:
            b = bytearray(64)
            n = self.readinto(b)
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))

    def write(self, b):
        if fs.apply(self.path, "write") and len(b) > 1:
            b = memoryview(b)[:max(1, len(b) // 3)]
        return super().write(b)

    def close(self):
        if not self.closed:
            super().close()
            fs.apply(self.path, "close")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = fs.inside(file)
    if p is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = Raw(p, mode.replace("b", "").replace("t", ""), opener=opener)
    if "b" in mode and buffering == 0:
        return raw
    try:
        size = buffering if buffering > 1 else 512
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in mode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def install():
    builtins.open = sim_open
    io.open = sim_open


def scratch(faults=()):
    """a new, empty scratch directory"""
    fs.__init__()
    fs.dir = os.path.realpath(tempfile.mkdtemp(prefix="acltk-sim-"))
    fs.faults = [list(f) for f in faults]
    return fs.dir


def put(name, data):
    p = os.path.join(fs.dir, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with real_open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    return p


def get(name):
    p = os.path.join(fs.dir, name)
    if not os.path.exists(p):
        return None
    with real_open(p, "rb") as f:
        return f.read()


def cleanup():
    if fs.dir:
        shutil.rmtree(fs.dir, ignore_errors=True)
        fs.dir = None
