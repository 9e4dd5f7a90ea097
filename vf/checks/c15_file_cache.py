"""
C15: the file cache delivers complete and current copies, and never removes files in use.
"""

import contextlib
import io
import os
import shutil
import sys
import tempfile
from types import SimpleNamespace
from vf.harness import *
from vf import fssim
from vf.symx import s_and, s_or, s_not, s_implies, s_sum

import returnn.util.file_cache as fc
from returnn.util.basic import LockFile

PROPERTY = "C15"
ASSUMPTIONS = [
    "file operations under the scratch directory are atomic steps; the clock and all mtimes are virtual; a background thread which sleeps one second runs within the next second",
    "the source file is only changed between the calls, and then gets a newer mtime",
    "the scan and delete of a cleanup is not interleaved with another process which starts to use an old cached file in between",
    "a lock left by a dead process is taken over by one waiting process (several waiting processes at once: not covered)",
]
COVERS = ["copied", "reused", "recopied", "crashed", "waited", "retried", "gave_up", "both", "removed", "not_removed", "refused", "skipped", "in_use_kept", "old_removed", "lock_handover"]

_CONTENT = {1: b"abcdefg", 2: b"ABCDEFG", 3: b"xyz"}  # 2: same size


class _Env:
    """scratch dir with source files and cache"""

    def __init__(self, h, **kwargs):
        self.h = h
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vfc15"))
        self.sim = fssim.Sim(h, self.root, **kwargs)
        os.mkdir(self.root + "/src")
        self.cache_dir = self.root + "/cache"
        self.src = self.root + "/src/f"
        self.caches = {}

    def write(self, version, name="f", age=100):
        """source file"""
        fn = self.root + "/src/" + name
        with open(fn, "wb") as f:
            f.write(_CONTENT[version])
        ns = int((self.sim.now - age) * 10**9)
        os.utime(fn, ns=(ns, ns))
        return fn

    def proc(self, name, fn, **kwargs):
        """process with own cache"""

        def _main():
            cache = fc.FileCache(cache_directory=self.cache_dir, **kwargs)
            self.caches[name] = cache
            return fn(cache)

        return self.sim.spawn(name, _main)

    def __enter__(self):
        sim = self.sim

        def _start(thread):
            t = sim.cur()
            sim.spawn(t.proc if t else None, thread.run, "touch", background=True)

        patches = list(sim.patches()) + [(fc._TouchFilesThread, "start", _start), (fc, "Event", fssim.Event)]
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(patched(*patches))
        self.stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
        return self

    def __exit__(self, *args):
        try:
            self.sim.close()
        finally:
            self.stack.close()
            shutil.rmtree(self.root, ignore_errors=True)

    def content(self, fn):
        """content, None if not there"""
        try:
            with open(fn, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def leftovers(self):
        """files which should not be there"""
        res = []
        for r, _, files in os.walk(self.cache_dir):
            res += [f for f in files if f.endswith(".copy") or f.endswith(".lock")]
        return res

    def age(self, fn):
        """secs"""
        return self.sim.now - os.stat(fn).st_mtime


def _get(env, keep=0.0, name="f"):
    """process: get file, read it, keep using it"""

    def _f(cache):
        src = env.root + "/src/" + name
        dst = cache.get_file(src)
        env.h.check(env.age(dst) <= 2, "file not marked as used")
        content = env.content(dst)
        if keep:
            env.sim.sleep(keep)
        return dst, content, (env.content(dst) if keep else content)

    return _f


def _check_result(h, env, t, version, what):
    if t.exc is not None:
        h.check(False, "%s: %s: %s" % (what, type(t.exc).__name__, str(t.exc).replace(env.root, "")[:200]))
        return
    dst, c1, c2 = t.result
    h.check(dst.startswith(env.cache_dir + "/"), "%s: path not in cache" % what)
    h.check(c1 == _CONTENT[version], "%s: content %r, expected %r" % (what, c1, _CONTENT[version]))
    h.check(c2 == _CONTENT[version], "%s: content after some time %r, expected %r" % (what, c2, _CONTENT[version]))


def h_history(h, crash, quick=True):
    """a process gets the file (and maybe dies at any point), the source maybe changes, another process gets the file"""
    with _Env(h, max_points=60) as env:
        sim = env.sim
        env.write(1)
        if crash:
            sim.crash_proc = "p1"
            sim.crash_at = h.int("crash_at", 0, 60)
        t1 = env.proc("p1", _get(env))
        sim.run()
        if not sim.crashed:
            _check_result(h, env, t1, 1, "first process")
            h.check(env.leftovers() == [], "left over: %s" % env.leftovers())
            h.cover("copied")
        h.cover("crashed", sim.crashed)
        h.observe([sim.crashed])
        sim.kill("p1")
        version = int(h.int("version", 1, 3))
        delay = [0, 15, 100][int(h.int("delay", 0, 2))]
        sim.run(until=sim.now + delay)
        if version > 1:
            env.write(version, age=0 if delay else -1)
        start = sim.now
        t2 = env.proc("p2", _get(env, keep=30))
        sim.run()
        _check_result(h, env, t2, version, "second process")
        h.check(env.leftovers() == [], "left over: %s" % env.leftovers())
        h.cover("waited", sim.now - start > 35)
        h.check(sim.now - start <= 60, "waited too long for the lock of the dead process")
        if t2.exc is None:
            h.check(env.age(t2.result[0]) <= 2, "used file not marked as used")
            h.check(env.age(t2.result[0] + ".returnn-info") <= 2, "info file of used file not marked as used")
        h.cover("reused", version == 1 and not sim.crashed)
        h.cover("recopied", version > 1)


def h_copy_only_once(h):
    """the file is not copied again when it is current"""
    with _Env(h, max_points=0) as env:
        sim = env.sim
        env.write(1)
        t1 = env.proc("p1", _get(env))
        sim.run()
        sim.kill("p1")
        _check_result(h, env, t1, 1, "first")
        kind = int(h.int("kind", 0, 2))  # unchanged, newer, other size with the same mtime
        changed = kind > 0
        mtime = os.stat(env.src).st_mtime_ns
        gap = int(h.int("gap", 0, 100))
        sim.run(until=sim.now + gap)
        if changed:
            env.write(1 + kind, age=0 if gap else -1)
        if kind == 2:
            os.utime(env.src, ns=(mtime, mtime))
        copied = []
        orig = fc.shutil.copyfileobj
        n = len(sim.log)
        with patched((shutil, "copyfileobj", lambda a, b, *args: (copied.append(1), orig(a, b, *args))[1])):
            t2 = env.proc("p2", _get(env))
            sim.run()
        _check_result(h, env, t2, 1 + kind, "second")
        wrote = any("write f.copy" in s for s in sim.log[n:])
        h.check(wrote == changed, "copied again: %s, source changed: %s" % (wrote, changed))
        h.cover("reused", not changed)
        h.cover("recopied", changed)


def h_enospc(h, count):
    """no space at any point of the copy, maybe again in the retries"""
    with _Env(h, max_points=60) as env:
        sim = env.sim
        env.write(1)
        sim.crash_proc = "p1"
        sim.fail_at = h.int("fail_at", 0, 60)
        sim.fail_count = count
        t1 = env.proc("p1", _get(env))
        sim.run()
        h.cover("retried", sim.failed > 0 and t1.exc is None)
        if t1.exc is None:
            _check_result(h, env, t1, 1, "process")
            h.check(env.leftovers() == [], "left over: %s" % env.leftovers())
        else:
            h.cover("gave_up")
            h.check(isinstance(t1.exc, OSError) and t1.exc.errno == 28, "error %s: %s" % (type(t1.exc).__name__, str(t1.exc)[:200]))
            h.check(sim.failed >= 3, "gave up after %i failures" % sim.failed)
            dst = env.cache_dir + env.src
            h.check(env.content(dst) in (None, _CONTENT[1]), "partial file visible")
        # and nothing bad remains for the next one
        sim.fail_at = None
        sim.fail_count = 0
        sim.kill("p1")
        sim.run(until=sim.now + int(h.choice("later", [0, 30])))
        t2 = env.proc("p2", _get(env))
        sim.run()
        _check_result(h, env, t2, 1, "next process")


def h_two(h, preempt, pre=None):
    """two processes get the same file at the same time"""
    with _Env(h, max_points=70, preempt=preempt) as env:
        sim = env.sim
        env.write(1)
        if pre:  # an outdated copy exists already
            t0 = env.proc("p0", _get(env))
            n = sim.preempt
            sim.preempt = []
            sim.run()
            sim.kill("p0")
            sim.preempt = n
            sim.n = 0
            env.write(2, age=-1)
        v = 2 if pre else 1
        t1 = env.proc("p1", _get(env, keep=3))
        t2 = env.proc("p2", _get(env, keep=3))
        sim.run()
        _check_result(h, env, t1, v, "process 1")
        _check_result(h, env, t2, v, "process 2")
        h.check(env.leftovers() == [], "left over: %s" % env.leftovers())
        for t in sim.threads:
            if t.background and t.exc is not None:
                h.check(False, "background thread died: %s %s" % (type(t.exc).__name__, str(t.exc).replace(env.root, "")))
        h.cover("both")


def h_slow(h):
    """copying takes long: the other processes wait until it is done, and the file is copied only once"""
    with _Env(h, max_points=0) as env:
        sim = env.sim
        env.write(1)
        sim.write_time = int(h.choice("write_time", [1, 7, 15, 40]))
        ts = [env.proc("p0", _get(env, keep=60))]
        for i in range(2):
            sim.run(until=sim.now + int(h.choice("delay%i" % i, [0, 1, 14, 39])))
            ts.append(env.proc("p%i" % (i + 1), _get(env, keep=60)))
        sim.run()
        for i, t in enumerate(ts):
            _check_result(h, env, t, 1, "process %i" % i)
        h.check(env.leftovers() == [], "left over: %s" % env.leftovers())
        n = len([s for s in sim.log if ": open f.copy" in s])
        h.check(n == 1, "copied %i times" % n)
        h.cover("both")


def h_touch(h, preempt, one=False):
    """the thread which marks the used files, at any time: survives, and used files are marked until they are released"""
    with _Env(h, max_points=70, preempt=preempt) as env:
        sim = env.sim
        env.write(1, "f")
        env.write(2, "g")

        def _main(cache):
            a = cache.get_file(env.root + "/src/f")
            b = cache.get_file(env.root + "/src/g") if not one else a
            n = 1
            if not one and bool(h.bool("again")):
                cache.get_file(env.root + "/src/f")
                n += 1
            sim.sleep(1.5)
            for i in range(int(h.int("release", 0, n) if not one else 0)):
                cache.release_files(a if i else [a])
                n -= 1
            sim.sleep(30)
            return a, b, n, sim.now

        t = env.proc("p", _main)
        sim.run()
        if t.exc is not None:
            h.check(False, "%s: %s" % (type(t.exc).__name__, str(t.exc)[:200]))
        a, b, n, now = t.result
        for x in sim.threads:
            if x.background and x.exc is not None:
                h.check(False, "background thread died: %s %s" % (type(x.exc).__name__, str(x.exc).replace(env.root, "")))
        age = lambda fn: now - os.stat(fn).st_mtime
        h.check(age(b) <= 2, "used file not marked as used")
        h.check(age(os.path.dirname(b)) <= 2, "dir of used file not marked as used")
        h.check((age(a) <= 2) == (n > 0), "file used %i times: age %s" % (n, age(a)))
        h.check((age(a + ".returnn-info") <= 2) == (n > 0), "info file")
        h.cover("both")


def h_in_use(h):
    """one process uses a file, the other one needs space"""
    with _Env(h, max_points=0, total=1000) as env:
        sim = env.sim
        env.write(1, "old", age=10**7)
        env.write(1, "used", age=10**7)
        env.write(2, "f", age=10**7)
        t0 = env.proc("p0", _get(env, name="old"))
        sim.run()
        sim.kill("p0")
        sim.run(until=sim.now + [20, 90000][int(h.int("gap", 0, 1))])
        t1 = env.proc("p1", _get(env, name="used", keep=200))
        sim.run(until=sim.now + [1, 100][int(h.int("gap2", 0, 1))])
        # free: 1000 - used - 14
        free = int(h.int("free", 0, 40))
        sim.used = 1000 - 14 - free
        t2 = env.proc("p2", _get(env, keep=30))
        sim.run()
        h.check(t1.exc is None, "process with the used file failed")
        _check_result(h, env, t1, 1, "process with the used file")
        old = env.content(env.cache_dir + env.root + "/src/old")
        blk = 512 * 8  # each small file counts as a whole block
        if t2.exc is None:
            _check_result(h, env, t2, 2, "process which needs space")
        else:
            h.check(free + blk < 8 or old is None, "refused, although there is space")
        h.observe([old is None, t2.exc is None])
        h.cover("in_use_kept")
        if free < 8:
            h.check(old is None, "old file kept, although the space is needed")
            h.cover("old_removed")


class _Fs:
    """directory content with symbolic mtimes and sizes"""

    def __init__(self, h, n, opt):
        self.h = h
        self.base = "/vfc15-nonexisting/cache"
        self.now = 10**9
        self.m = [self.now - h.int("age%i" % i, 0, 40 * 86400) for i in range(n)]
        self.blocks = [h.int("blocks%i" % i, 0, 100) for i in range(n)]
        self.files = [self.base + "/d%i/f%i" % (i % 2, i) for i in range(n)]
        self.removed = []
        self.info_removed = []
        self.rm_dirs = []
        self.fail = None
        self.last = h.int("last_full", 0, 2000)
        self.have_last = "simple" not in opt and bool(h.bool("have_last"))
        self.free = h.int("free", 0, 10**5)
        self.total = [0, 2 * 10**5][int(h.int("total", 0, 1)) if "simple" not in opt else 0]

    def stat(self, path, *args, **kwargs):
        """stat"""
        path = os.fspath(path)
        if path in self.files:
            i = self.files.index(path)
            return SimpleNamespace(st_mtime=self.m[i], st_mtime_ns=self.m[i] * 10**9, st_blocks=self.blocks[i], st_size=self.blocks[i] * 512, st_mode=0o100644)
        if path == self.base + "/.recent_full_cleanup":
            if not self.have_last:
                raise FileNotFoundError(path)
            return SimpleNamespace(st_mtime=self.now - self.last, st_blocks=0, st_size=0, st_mode=0o100644)
        if path in (self.base, self.base + "/d0", self.base + "/d1"):
            return SimpleNamespace(st_mtime=self.now - 5, st_blocks=0, st_size=0, st_mode=0o40755)
        if path.endswith(".returnn-info") and path[: -len(".returnn-info")] in self.files:
            i = self.files.index(path[: -len(".returnn-info")])
            return SimpleNamespace(st_mtime=self.m[i], st_mtime_ns=self.m[i] * 10**9, st_blocks=8, st_size=30, st_mode=0o100644)
        raise FileNotFoundError(path)

    def walk(self, top, topdown=True, **_kw):
        """walk"""
        d0 = [f for i, f in enumerate(self.files) if i % 2 == 0]
        d1 = [f for i, f in enumerate(self.files) if i % 2 == 1]
        res = [(self.base, ["d0", "d1"], [".recent_full_cleanup"])]
        for name, fs in [("d0", d0), ("d1", d1)]:
            ls = []
            for f in fs:
                if f not in self.removed:
                    ls.append(os.path.basename(f))
                if f not in self.info_removed:
                    ls.append(os.path.basename(f) + ".returnn-info")
            res.append((self.base + "/" + name, [], ls))
        return res if topdown else res[::-1]

    def rmdir(self, path, **_kw):
        """rmdir. all dirs are recent, i.e. another process is maybe about to put a file into it"""
        path = os.fspath(path)
        if any(os.path.dirname(f) == path for f in self.files if f not in self.removed or f not in self.info_removed):
            raise OSError(39, "Directory not empty", path)
        self.rm_dirs.append(path)

    def remove(self, path, **_kw):
        """remove"""
        path = os.fspath(path)
        if path.endswith(".returnn-info"):
            self.info_removed.append(path[: -len(".returnn-info")])
            return
        if path not in self.files:
            self.h.check(False, "removes %s" % path)
        if self.fail is not None and path == self.files[self.fail]:
            raise PermissionError(path)
        self.removed.append(path)


def h_cleanup(h, n, need, opt=()):
    """what the cleanup removes, for all ages and sizes"""
    fs = _Fs(h, n, opt)
    if "fail" in opt:
        fs.fail = 0
    real = {k: getattr(os, k) for k in ["stat", "walk", "remove", "unlink", "rmdir", "utime", "open", "close"]}

    def _route(name, fake):
        def _f(path, *args, **kwargs):
            if isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(fs.base):
                return fake(path, *args, **kwargs)
            return real[name](path, *args, **kwargs)

        return os, name, _f

    touched = []
    clock = SimpleNamespace(time=lambda: fs.now, sleep=lambda s: None)
    exc = None
    always, wanted = 31, 1
    with patched((fc, "Event", fssim.Event)):
        cache = fc.FileCache(cache_directory=fs.base)
    with patched(
        _route("stat", fs.stat),
        _route("walk", fs.walk),
        _route("remove", fs.remove),
        _route("unlink", fs.remove),
        _route("rmdir", fs.rmdir),
        _route("utime", lambda p, *a, **k: touched.append(os.fspath(p))),
        _route("open", lambda p, *a, **k: (touched.append(os.fspath(p)), real["open"]("/dev/null", os.O_RDONLY))[1]),
        (shutil, "disk_usage", lambda p: SimpleNamespace(total=fs.total, used=fs.total, free=fs.free)),
        (fc, "time", clock),
        (fc, "human_bytes_size", lambda *a, **k: "?"),
    ):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                cache.cleanup(need_at_least_free_space_size=need)
        except Exception as e:
            if type(e) is not Exception:
                raise
            exc = e
    want = max(2 * need, fs.total // 5)
    age = [fs.now - m for m in fs.m]
    size = [b * 512 for b in fs.blocks]
    R = [fs.files.index(f) for f in fs.removed]
    h.observe([R, exc is None])
    skip = s_and(want <= fs.free, fs.have_last, fs.last < 600)
    if R:
        h.check(s_not(skip), "removed files although not needed and there was a recent cleanup")
    free = fs.free
    for i in R:
        h.check(age[i] > 10, "file in use removed")
        h.check(
            s_or(age[i] > always * 86400, need > free, s_and(want > free, age[i] > wanted * 86400)),
            "file removed although enough space is free",
        )
        free = free + size[i]
    h.check(not fs.rm_dirs, "removes directory which maybe is about to be used: %s" % fs.rm_dirs)
    kept = [i for i in range(n) if i not in R]
    for i in R:
        for j in kept:
            if j != fs.fail:
                h.check(fs.m[i] <= fs.m[j], "older file kept")
    h.check(sorted(fs.info_removed) == sorted(fs.removed + ([fs.files[fs.fail]] if fs.fail is not None and fs.files[fs.fail] in fs.info_removed else [])), "info files removed: %s" % fs.info_removed)
    if exc is not None:
        h.cover("refused")
        h.check(need > free, "refused, although there is enough space")
        for j in kept:
            if j != fs.fail:
                h.check(age[j] <= 10, "refused, although another file could be removed")
    else:
        h.check(free >= need, "not enough space, and no error")
        for j in kept:
            if j != fs.fail:
                h.check(s_or(skip, age[j] <= always * 86400), "very old file kept")
                h.check(s_or(free >= want, age[j] <= wanted * 86400), "file older than wanted kept, although space is wanted")
        h.cover("not_removed", not R)
        h.cover("skipped", skip)
        h.check(s_or(skip, len(touched) > 0), "time of the cleanup not stored")
    h.cover("removed", len(R) > 0)


def h_lock(h, preempt):
    """LockFile: never two holders (as long as the holder is alive and marks it), a lock of a dead process is taken over"""
    with _Env(h, max_points=40, preempt=preempt) as env:
        sim = env.sim
        holders = []
        bad = []

        def _main(name, hold, rounds=1):
            def _f():
                for i in range(rounds):
                    if i:
                        sim.sleep(0)
                    with LockFile(env.root + "/l", name="x", lock_timeout=20) as lock:
                        holders.append(name)
                        if len(holders) > 1:
                            bad.append(list(holders))
                        h.check(bool(lock.is_locked()), "not locked")
                        os.stat(env.root + "/l/x")
                        sim.sleep(hold)
                        os.stat(env.root + "/l/x")
                        holders.remove(name)
                return sim.now

            return _f

        dead = bool(h.bool("dead"))
        if dead:
            os.mkdir(env.root + "/l")
            with open(env.root + "/l/x", "w"):
                pass
            a = int(h.choice("age", [0, 10, 19, 21]))
            ns = (sim.now - a) * 10**9
            os.utime(env.root + "/l/x", ns=(ns, ns))
        start = sim.now
        t1 = sim.spawn("p1", _main("p1", int(h.int("hold", 0, 3)), rounds=1 if dead else 2))
        t2 = sim.spawn("p2", _main("p2", 1)) if not dead else None
        sim.run()
        for t in (t1, t2):
            if t is not None:
                h.check(t.exc is None, "exception %s: %s" % (type(t.exc).__name__, str(t.exc).replace(env.root, "")))
        h.check(not bad, "two holders at the same time: %s" % bad)
        h.check(not os.path.exists(env.root + "/l/x"), "lock left")
        if dead:
            wait = t1.result - start
            h.check(wait >= 20 - a, "lock of another process broken after %s s" % wait)
            h.check(wait <= 30, "waited %s s" % wait)
        h.cover("lock_handover")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def _add(name, f, b, **kw):
        res.append(Case(name, f, kw, bounds=b, validate=4))

    _add("history/plain", h_history, "2 processes one after another, 3 versions of the source", crash=False)
    _add("history/crash", h_history, "death of the first process at any file operation, 3 versions of the source", crash=True)
    _add("copy_once", h_copy_only_once, "2 processes one after another, up to 100 s between")
    _add("slow", h_slow, "3 processes, writes of 1..40 s, starting in 0..78 s")
    for c in [1, 2, 3, 4]:
        _add("enospc/%i" % c, h_enospc, "no space at any operation, %i times" % c, count=c)
    _add("two/fresh", h_two, "2 processes, %i switches at any file operation" % (1 if q else 2), preempt=1 if q else 2)
    _add("two/outdated", h_two, "2 processes, %i switches at any file operation" % (1 if q else 2), preempt=1 if q else 2, pre=True)
    _add("touch", h_touch, "%i switches at any file operation" % (1 if q else 2), preempt=1 if q else 2)
    if q:
        _add("touch/one", h_touch, "one file, 2 switches at any file operation", preempt=2, one=True)
    _add("in_use", h_in_use, "3 files, 3 processes, free space 0..40")
    for need in [0, 5000]:
        _add("cleanup/%i" % need, h_cleanup, "%i files with any age up to 40 days and any size up to 100 blocks" % (2 if q else 3), n=2 if q else 3, need=need)
    _add("cleanup/fail", h_cleanup, "2 files, removal of one fails", n=2, need=5000, opt=("fail",))
    if q:
        _add("cleanup/3", h_cleanup, "3 files", n=3, need=30000, opt=("simple",))
    _add("lock", h_lock, "2 processes, 2 switches at any file operation", preempt=2)
    return res
