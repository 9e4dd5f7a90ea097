"""
Simulated ``multiprocessing``: the real worker functions run as cooperatively scheduled threads (exactly one runs at a time)
with in-memory pipes. Where real timing decides (does ``poll`` see the next message already?), the choice is symbolic,
so all interleavings of the messages are explored.
"""

import pickle
import threading


class Deadlock(Exception):
    """all wait for each other"""


class _Killed(BaseException):
    pass


class Sim:
    """the processes"""

    def __init__(self, h, *, prefix="sched", max_prefetch=None):
        self.h = h
        self.prefix = prefix
        self.n = 0
        self.procs = []
        self.current = None  # None: main
        self.main_sem = threading.Semaphore(0)
        self.error = None
        self.closed = False
        self.max_prefetch = max_prefetch

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True
        for p in self.procs:
            if p.thread and p.thread.is_alive():
                p.killed = True
                p.sem.release()
                p.thread.join(10)

    # multiprocessing context interface
    def Pipe(self, duplex=True):  # noqa
        """pipe"""
        a, b = Conn(self), Conn(self)
        a.peer, b.peer = b, a
        return a, b

    def Process(self, target=None, args=(), kwargs=None, name=None, daemon=None, **_kw):  # noqa
        """process"""
        return Proc(self, target, args, kwargs or {}, name)

    def get_context(self, *_a):
        """self"""
        return self

    def choose_prefetch(self):
        """whether the worker gets to run further before the next message arrives"""
        if self.max_prefetch is not None and self.n >= self.max_prefetch:
            return False
        self.n += 1
        return bool(self.h.bool("%s%i" % (self.prefix, self.n)))

    # scheduling
    def wait(self, cond):
        """current process waits for cond"""
        me = self.current
        if me is not None:
            me.cond = cond
            self.current = None
            self.main_sem.release()
            me.sem.acquire()
            if me.killed:
                raise _Killed()
            return
        while not cond():
            for p in self.procs:
                if p.started and not p.done and p.cond():
                    self._run(p)
                    break
            else:
                raise Deadlock("all processes wait")

    def _run(self, p):
        self.current = p
        p.cond = lambda: False
        if p.thread is None:
            p.thread = threading.Thread(target=p.run, daemon=True)
            p.thread.start()
        else:
            p.sem.release()
        self.main_sem.acquire()
        if self.error is not None:
            err, self.error = self.error, None
            raise err


class Proc:
    """process"""

    def __init__(self, sim, target, args, kwargs, name):
        self.sim = sim
        self.target, self.args, self.kwargs, self.name = target, args, kwargs, name
        self.started = self.done = self.killed = False
        self.thread = None
        self.sem = threading.Semaphore(0)
        self.cond = lambda: True
        self.exitcode = None
        self.pid = 0

    def start(self):
        """start"""
        self.started = True
        self.sim.procs.append(self)

    def run(self):
        """in the thread"""
        try:
            self.target(*self.args, **self.kwargs)
        except _Killed:
            return
        except BaseException as exc:
            self.sim.error = exc
        self.done = True
        self.exitcode = 0
        if self.killed:
            return
        self.sim.current = None
        self.sim.main_sem.release()

    def is_alive(self):
        """alive"""
        return self.started and not self.done

    def join(self, timeout=None):
        """join"""
        if self.sim.closed or self.sim.current is self or not self.started:
            return
        self.sim.wait(lambda: self.done)

    def terminate(self):
        """kill"""
        self.done = True

    kill = terminate

    def close(self):
        """nothing"""


class Conn:
    """connection"""

    def __init__(self, sim):
        self.sim = sim
        self.queue = []
        self.peer = None

    def send(self, obj):
        """send"""
        if self.sim.closed:
            raise OSError("closed")
        self.peer.queue.append(pickle.dumps(obj))

    def recv(self):
        """recv"""
        if self.sim.closed:
            raise EOFError
        if not self.queue:
            self.sim.wait(lambda: bool(self.queue))
        return pickle.loads(self.queue.pop(0))

    def poll(self, timeout=0):
        """poll: the other side might be faster or slower"""
        if self.queue:
            return True
        if self.sim.current is None or self.sim.choose_prefetch():
            return False
        self.sim.wait(lambda: bool(self.queue))
        return True

    def close(self):
        """nothing"""

    def fileno(self):
        """fake"""
        return -1
