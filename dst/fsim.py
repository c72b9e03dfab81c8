"""Simulated faults of the file system below one folder.

The package's opens (built-in and io.open), directory creations and removals pass through here; the data go to real files in a
scratch folder, and the nth operation of a kind that can fail (open for writing, each write, flush, close, mkdir, remove) fails
with a given error, once or from then on, after a given part of a write has reached the file.
"""
import io, os
from . import env

_mkdir, _remove, _unlink, _rename, _replace, _rmdir = os.mkdir, os.remove, os.unlink, os.rename, os.replace, os.rmdir


class FaultFS:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.begin()

    def begin(self, plan=None):
        """plan: None or dict(at=n-th operation, code=errno (-1: MemoryError), part=share of the write that succeeds, stay=bool)."""
        self.plan, self.n, self.fired = plan, 0, 0
        self.wrote, self.touched, self.kinds = [], [], {}
        return self

    # ------------------------------------------------------------ operations
    def full(self, p):
        if isinstance(p, int):
            return None
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.normpath(os.path.join(os.getcwd(), p))

    def op(self, kind, path):
        i = self.n
        self.n += 1
        pl = self.plan
        if pl and (i == pl["at"] or (pl.get("stay") and i > pl["at"])):
            self.fired += 1
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
            if pl["code"] < 0:
                return MemoryError("no memory for %s" % path)
            return OSError(pl["code"], os.strerror(pl["code"]), path)

    def check(self, kind, path):
        e = self.op(kind, path)
        if e:
            raise e

    def open(self, real, file, mode="r", *a, **k):
        p = self.full(file)
        if p is None or not any(c in mode for c in "wax+"):
            return real(file, mode, *a, **k)
        self.touched.append(("open", p))
        if not p.startswith(self.root + os.sep):
            return real(file, mode, *a, **k)
        self.check("open", p)
        f = real(file, mode, *a, **k)
        self.wrote.append(p)
        return Handle(self, f, p)

    def mkdir(self, path, *a, **k):
        p = self.full(path)
        if os.path.isdir(p):
            return _mkdir(path, *a, **k)
        self.touched.append(("mkdir", p))
        if p.startswith(self.root + os.sep):
            self.check("mkdir", p)
        return _mkdir(path, *a, **k)

    def remove(self, path, *a, **k):
        p = self.full(path)
        self.touched.append(("remove", p))
        if not p.startswith(self.root + os.sep):
            raise PermissionError(1, "the simulator lets nothing outside its folder be removed", p)
        self.check("remove", p)
        return _remove(path, *a, **k)

    def __enter__(self):
        env.FS_HOOK["open"] = self.open
        os.mkdir, os.remove, os.unlink = self.mkdir, self.remove, self.remove
        return self

    def __exit__(self, *e):
        env.FS_HOOK["open"] = None
        os.mkdir, os.remove, os.unlink = _mkdir, _remove, _unlink


class Handle:
    def __init__(self, fs, f, path):
        self.__dict__.update(_fs=fs, _f=f, _p=path, _closed=False)

    def write(self, b):
        e = self._fs.op("write", self._p)
        if e:
            n = int(len(b) * self._fs.plan.get("part", 0))
            if n:
                self._f.write(b[:n])
            raise e
        return self._f.write(b)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        self._fs.check("flush", self._p)
        return self._f.flush()

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        if self._closed:
            return
        self.__dict__["_closed"] = True
        self._f.close()
        self._fs.check("close", self._p)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)
