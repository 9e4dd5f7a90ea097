"""
Processes which work on the real files of a scratch directory, with virtual time and a symbolic schedule.

The real code of each process runs as a cooperatively scheduled thread (exactly one runs at a time).
Every file operation under the root is a point where the scheduler can switch to another process (or to the background
thread of the same process), and where a process can die. The points of the switches, of the death, and of a failing
operation are symbolic inputs. ``time.time``, ``time.sleep`` and the mtimes of the files use the virtual clock.
"""

from __future__ import annotations

import builtins
import collections
import errno
import os
import shutil
import threading
import time

from .harness import patched

_real_open = builtins.open
_real_utime = os.utime
_real_time = time.time
_real_sleep = time.sleep
_real_stat = os.stat


class _Killed(BaseException):
    pass


class Stuck(Exception):
    """nothing can happen anymore"""


class Event:
    """like threading.Event"""

    sim = None

    def __init__(self):
        self.flag = False

    def set(self):
        """set"""
        self.flag = True

    def is_set(self):
        """is set"""
        return self.flag

    def clear(self):
        """clear"""
        self.flag = False

    def wait(self, timeout=None):
        """wait"""
        if not self.flag and Event.sim is not None:
            Event.sim.sleep(timeout if timeout is not None else 10**6)
        return self.flag


class _T:
    """thread"""

    def __init__(self, sim, proc, fn, name, background=False):
        self.sim, self.proc, self.fn, self.name, self.background = sim, proc, fn, name, background
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.wake = None
        self.done = False
        self.killed = False
        self.result = None
        self.exc = None

    def run(self):
        """in the thread"""
        self.sim.local.t = self
        self.sem.acquire()
        try:
            if not self.killed:
                self.result = self.fn()
        except _Killed:
            pass
        except Exception as exc:
            self.exc = exc
        except BaseException as exc:  # from the engine: end of this path
            self.sim.abort = exc
        self.done = True
        self.sim.main_sem.release()


class Sim:
    """
    :param root: scratch directory
    :param max_points: symbolic points are in 0..max_points (max_points: never)
    :param preempt: number of switches at arbitrary points (switches where a process waits are not counted)
    """

    T0 = 1_700_000_000

    def __init__(self, h, root, *, max_points=80, preempt=0, total=10**6, used=0):
        self.h = h
        self.root = os.path.realpath(root) + "/"
        self.now = self.T0
        self.threads = []
        self.main_sem = threading.Semaphore(0)
        self.local = threading.local()
        self.abort = None
        self.n = 0
        self.nm = 0
        self.max_points = max_points
        self.preempt = [h.int("switch%i" % i, 0, max_points) for i in range(preempt)]
        self.crash_at = None
        self.crash_proc = None
        self.fail_at = None
        self.fail_count = 0
        self.failed = 0
        self.crashed = False
        self.total, self.used = total, used
        self.log = []
        self.write_time = 0  # for writes of file content
        self.max_time = 10**6

    # ---- processes

    def spawn(self, proc, fn, name="main", background=False):
        """new process or thread"""
        t = _T(self, proc, fn, name, background)
        t.thread = threading.Thread(target=t.run, daemon=True)
        t.thread.start()
        self.threads.append(t)
        return t

    def cur(self):
        """current sim thread or None"""
        return getattr(self.local, "t", None)

    def kill(self, proc):
        """process dies"""
        for t in self.threads:
            if t.proc == proc:
                t.killed = True

    def _runnable(self):
        return [t for t in self.threads if not t.done and not t.killed and (t.wake is None or t.wake <= self.now)]

    def _resume(self, t):
        t.wake = None
        t.sem.release()
        self.main_sem.acquire()
        if self.abort is not None:
            exc, self.abort = self.abort, None
            raise exc

    def run(self, until=None):
        """run until all foreground threads are done, or until that time"""
        self.next = None
        last = None
        while True:
            if until is None:
                if all(t.done or t.killed for t in self.threads if not t.background):
                    return
            elif self.now >= until and not self._runnable():
                return
            rs = self._runnable()
            if not rs:
                wakes = [t.wake for t in self.threads if not t.done and not t.killed and t.wake is not None]
                if until is not None and (not wakes or min(wakes) > until):
                    self.now = until
                    continue
                if not wakes or self.now - self.T0 > self.max_time:
                    raise Stuck("no process can continue")
                self.now = min(wakes)
                continue
            t = None
            if self.next is not None and self.next in rs:
                t = self.next
            elif last is not None and len(rs) > 1:
                others = [x for x in rs if x is not last]
                t = others[0]
            self.next = None
            t = t or rs[0]
            last = t
            self._resume(t)

    def close(self):
        """end all"""
        for t in self.threads:
            if not t.done:
                t.killed = True
                t.sem.release()
                t.thread.join(10)
        Event.sim = None

    def _switch(self, t):
        self.main_sem.release()
        t.sem.acquire()
        if t.killed:
            raise _Killed()

    def sleep(self, secs):
        """time passes"""
        t = self.cur()
        if t is None:
            _real_sleep(secs)
            return
        if t.killed:
            raise _Killed()
        t.wake = self.now + max(secs, 0)
        self._switch(t)

    def point(self, what, mutating=False, can_fail=True):
        """another process can run now, or this one can die. :return: whether the operation should fail"""
        t = self.cur()
        if t is None:
            return False
        if t.killed:
            raise _Killed()
        i = self.n
        self.n += 1
        self.log.append("%s/%s: %s" % (t.proc, t.name, what))
        if i < self.max_points:
            others = [x for x in self._runnable() if x is not t]
            # the background thread can wake up at any time within the next second
            others += [x for x in self.threads if x.background and not x.done and not x.killed and x is not t and x not in others and x.wake is not None and x.wake <= self.now + 1]
            if others:
                for k, p in enumerate(self.preempt):
                    if bool(p == i):
                        j = int(self.h.int("to%i" % k, 0, len(others) - 1)) if len(others) > 1 else 0
                        self.next = others[j]
                        if others[j].wake is not None and others[j].wake > self.now:
                            self.now = others[j].wake
                        t.wake = None
                        self._switch(t)
                        break
        if mutating and t.proc == self.crash_proc and self.nm < self.max_points and not t.background:
            j = self.nm
            self.nm += 1
            if self.crash_at is not None and bool(self.crash_at == j):
                self.crashed = True
                self.kill(t.proc)
                raise _Killed()
            if can_fail and self.fail_at is not None and self.failed == 0 and bool(self.fail_at == j):
                self.failed = 1
                return True
            if 0 < self.failed < self.fail_count and what.startswith("write"):
                self.failed += 1
                return True
        return False

    # ---- files

    def mine(self, path):
        """in the scratch dir"""
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        return isinstance(p, str) and (p + "/").startswith(self.root)

    def stamp(self, path, parent=False):
        """set mtime"""
        ns = int(self.now * 10**9)
        try:
            _real_utime(path, ns=(ns, ns))
        except OSError:
            pass
        if parent:
            self.stamp(os.path.dirname(os.path.abspath(path)))

    def patches(self):
        """patches"""
        sim = self

        def _open(file, mode="r", *args, **kwargs):
            if sim.cur() is not None and isinstance(file, (str, os.PathLike)) and sim.mine(file):
                if any(c in mode for c in "wax+"):
                    if sim.point("open %s %s" % (os.path.basename(os.fspath(file)), mode), True):
                        raise OSError(errno.ENOSPC, "No space left on device (injected)")
                    return _File(sim, os.fspath(file), mode, args, kwargs)
                sim.point("read %s" % os.path.basename(os.fspath(file)))
            return _real_open(file, mode, *args, **kwargs)

        real_os_open = os.open

        def _os_open(path, flags, *args, **kwargs):
            if sim.cur() is None or not sim.mine(path):
                return real_os_open(path, flags, *args, **kwargs)
            if sim.point("os.open %s" % os.path.basename(os.fspath(path)), True):
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
            existed = os.path.lexists(path)
            fd = real_os_open(path, flags, *args, **kwargs)
            if not existed:
                sim.stamp(path, parent=True)
            return fd

        def _utime(path, times=None, *, ns=None, **kwargs):
            if sim.cur() is None or not sim.mine(path):
                return _real_utime(path, times, **({"ns": ns} if ns is not None else {}), **kwargs)
            sim.point("utime %s" % os.path.basename(os.fspath(path)))
            if times is None and ns is None:
                v = int(sim.now * 10**9)
                return _real_utime(path, ns=(v, v))
            return _real_utime(path, times, **({"ns": ns} if ns is not None else {}))

        def _stat(path, *args, **kwargs):
            if sim.cur() is not None and sim.mine(path):
                sim.point("stat %s" % os.path.basename(os.fspath(path)))
            return _real_stat(path, *args, **kwargs)

        def _time():
            return float(sim.now) if sim.cur() is not None else _real_time()

        def _disk_usage(_path):
            used = sim.used
            for root, _, files in os.walk(sim.root + "cache"):
                for fn in files:
                    if not fn.endswith(".returnn-info"):
                        used += os.lstat(root + "/" + fn).st_size
            return collections.namedtuple("usage", "total used free")(sim.total, used, sim.total - used)

        real_fallocate = os.posix_fallocate

        def _fallocate(fd, *args):
            if sim.cur() is not None and sim.point("fallocate", True):
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
            res = real_fallocate(fd, *args)
            if sim.cur() is not None:
                _real_utime(fd, ns=(int(sim.now * 10**9),) * 2)
            return res

        res = [
            (builtins, "open", _open),
            (os, "open", _os_open),
            (os, "utime", _utime),
            (os, "stat", _stat),
            (time, "time", _time),
            (time, "sleep", self.sleep),
            (shutil, "disk_usage", _disk_usage),
            (shutil, "COPY_BUFSIZE", 3),
            (os, "posix_fallocate", _fallocate),
        ]
        if hasattr(shutil, "_USE_CP_SENDFILE"):
            res.append((shutil, "_USE_CP_SENDFILE", False))
        for name, num in [("rename", 2), ("replace", 2), ("remove", 1), ("unlink", 1), ("mkdir", 1), ("rmdir", 1)]:
            res.append((os, name, self._wrap(getattr(os, name), name, num)))
        Event.sim = self
        return res

    def _wrap(self, orig, name, num):
        def _f(*args, **kwargs):
            paths = args[:num]
            if self.cur() is None or not any(self.mine(p) for p in paths):
                return orig(*args, **kwargs)
            can_fail = name == "mkdir"
            if self.point("%s %s" % (name, " ".join(os.path.basename(os.fspath(p)) for p in paths)), True, can_fail):
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
            res = orig(*args, **kwargs)
            for p in paths:
                self.stamp(os.path.dirname(os.path.abspath(p)))
            if name == "mkdir":
                self.stamp(paths[0])
            return res

        return _f


class _File:
    """file opened for writing; each write reaches the disk"""

    def __init__(self, sim, path, mode, args, kwargs):
        existed = os.path.lexists(path)
        self.sim, self.path, self.name, self.mode = sim, path, path, mode
        self.f = _real_open(path, mode, *args, **kwargs)
        sim.stamp(path, parent=not existed)

    def write(self, data):
        """write"""
        if self.sim.point("write %s" % os.path.basename(self.path), True):
            self.f.write(data[: len(data) // 2])
            self.f.flush()
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        self.f.write(data)
        self.f.flush()
        self._stamp()
        if self.sim.write_time and self.path.endswith(".copy") and self.sim.cur() is not None:
            self.sim.sleep(self.sim.write_time)
        return len(data)

    def _stamp(self):
        ns = int(self.sim.now * 10**9)
        _real_utime(self.f.fileno(), ns=(ns, ns))

    def truncate(self, *a):
        """truncate"""
        self.sim.point("truncate %s" % os.path.basename(self.path), True, False)
        self.f.flush()
        res = self.f.truncate(*a)
        self._stamp()
        return res

    def close(self):
        """close"""
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def run_ctx(sim):
    """context"""
    return patched(*sim.patches())
