"""
Crash / fault injection for code which works on real files of a scratch directory.

Every mutating file operation under the root is one step. The step at which the process dies (or an operation fails)
is a symbolic input. Data which was written but not yet flushed/closed at the crash is lost or partially there.
"""

from __future__ import annotations

import builtins
import errno
import os
import shutil

from .harness import patched


class Crash(BaseException):
    """the process is gone"""


_real_open = builtins.open


class _WFile:
    """file opened for writing. buffered: content reaches the disk on flush/close"""

    def __init__(self, fs, path, mode, kwargs):
        self.fs = fs
        self.path = path
        self.mode = mode
        self.name = path
        self.f = _real_open(path, mode, **kwargs)
        self.buf = []
        self.closed = False

    def write(self, s):
        """write"""
        self.fs.alive()
        self.buf.append(s)
        return len(s)

    def writelines(self, ls):
        """write"""
        for x in ls:
            self.write(x)

    def flush(self):
        """to disk"""
        self.fs.alive()
        if not self.buf:
            return
        data = self.buf[0][:0].join(self.buf)
        self.buf = []
        kind = self.fs.step("write " + os.path.basename(self.path))
        if kind:
            self.f.write(data[: len(data) // 2])
            self.f.flush()
            self.fs.fail(kind)
        self.f.write(data)
        self.f.flush()

    def close(self):
        """close"""
        if self.closed:
            return
        try:
            if not self.fs.crashed:
                self.flush()
        finally:
            self.closed = True
            self.f.close()

    def fileno(self):
        """fd"""
        return self.f.fileno()

    def tell(self):
        """pos"""
        self.flush()
        return self.f.tell()

    def seek(self, *a):
        """pos"""
        self.flush()
        return self.f.seek(*a)

    def truncate(self, *a):
        """truncate"""
        self.flush()
        return self.f.truncate(*a)

    def writable(self):
        """yes"""
        return True

    def readable(self):
        """only if opened like that"""
        return self.f.readable()

    def read(self, *a):
        """read"""
        return self.f.read(*a)

    def seekable(self):
        """yes"""
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self.f.close()
        except Exception:
            pass


class CrashFS:
    """
    :param h: harness
    :param root: scratch directory; paths elsewhere are not touched by this
    :param max_steps: crash_at is in 0..max_steps, where crash_at == max_steps means: no crash
    :param mode: "crash", or "error" (OSError ENOSPC once, at that step)
    """

    def __init__(self, h, root, max_steps, mode="crash", name="crash_at"):
        self.h = h
        self.root = os.path.realpath(root) + "/"
        self.at = h.int(name, 0, max_steps)
        self.max_steps = max_steps
        self.mode = mode
        self.n = 0
        self.crashed = False
        self.failed = False
        self.enabled = True
        self.log = []

    def alive(self):
        """check"""
        if self.crashed:
            raise Crash()

    def step(self, what):
        """:return: kind of failure at this step, or None"""
        self.alive()
        if not self.enabled:
            return None
        i = self.n
        self.n += 1
        self.log.append(what)
        if i >= self.max_steps:
            return None
        if bool(self.at == i):
            return self.mode
        return None

    def fail(self, kind):
        """die"""
        if kind == "crash":
            self.crashed = True
            self.failed = True
            raise Crash()
        self.failed = True
        raise OSError(errno.ENOSPC, "No space left on device (injected)")

    def _mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        return isinstance(p, str) and (p + "/").startswith(self.root)

    def _wrap(self, mod, name, num_paths=1):
        orig = getattr(mod, name)

        def _f(*args, **kwargs):
            paths = [a for a in args[:num_paths]]
            if paths and any(self._mine(p) for p in paths):
                self.alive()
                kind = self.step("%s %s" % (name, " ".join(os.path.basename(str(p)) for p in paths)))
                if kind:
                    self.fail(kind)
            return orig(*args, **kwargs)

        return mod, name, _f

    def patches(self):
        """for :func:`patched`"""

        def _open(file, mode="r", *args, **kwargs):
            if isinstance(file, (str, os.PathLike)) and self._mine(file) and any(c in mode for c in "wax+"):
                self.alive()
                kind = self.step("open %s %s" % (os.path.basename(str(file)), mode))
                if kind:
                    self.fail(kind)
                if args:
                    kwargs["buffering"] = args[0]
                if kwargs.get("buffering") == 0:
                    kwargs.pop("buffering")
                return _WFile(self, os.fspath(file), mode, kwargs)
            return _real_open(file, mode, *args, **kwargs)

        res = [(builtins, "open", _open)]
        for name, n in [
            ("rename", 2),
            ("replace", 2),
            ("remove", 1),
            ("unlink", 1),
            ("mkdir", 1),
            ("rmdir", 1),
            ("link", 2),
            ("symlink", 2),
            ("truncate", 1),
            ("utime", 1),
        ]:
            res.append(self._wrap(os, name, n))
        if hasattr(shutil, "_USE_CP_SENDFILE"):
            res.append((shutil, "_USE_CP_SENDFILE", False))
        return res

    def __enter__(self):
        self._ctx = patched(*self.patches())
        self._ctx.__enter__()
        return self

    def __exit__(self, *a):
        return self._ctx.__exit__(*a)
