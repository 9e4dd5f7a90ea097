"""
C10: datasets loaded in worker processes deliver exactly what the wrapped dataset delivers, for every interleaving.
"""

import numpy
from vf.harness import *
from vf.mpsim import Sim, Conn, Deadlock

import returnn.datasets.multi_proc as mpd
from returnn.datasets.basic import init_dataset, DatasetSeq
from returnn.datasets.cached2 import CachedDataset2
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])

PROPERTY = "C10"
ASSUMPTIONS = [
    "processes are simulated: the real worker loop runs cooperatively, pipes are FIFO and reliable, pickling is real; "
    "whether the worker prefetches further before the next message arrives is symbolic",
    "the wrapped dataset is a stand-in corpus with arbitrary (permuted) order, known or unknown number of sequences",
    "no worker dies",
]
COVERS = ["end", "prefetched", "second_epoch", "stopped_early", "skipped", "dedicated", "unbalanced", "unknown", "freed", "seq_list"]


class _Corpus(CachedDataset2):
    """
    wrapped dataset
    """

    def __init__(self, n, known=True, shard_sizes=None, **kwargs):
        super().__init__(**kwargs)
        self.n = n
        self.known = known
        self.shard_sizes = shard_sizes  # own kind of sharding
        self.num_inputs = 2
        self.num_outputs = {"data": (2, 2), "classes": (100, 1)}
        self.labels = {"classes": ["a", "b"]}
        self.order = None

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        """init"""
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        if epoch is None and seq_list is None and seq_order is None:
            self.order = []
        elif seq_order is not None:
            self.order = list(seq_order)
        elif seq_list is not None:
            self.order = [int(t[len("tag-") :]) for t in seq_list]
        elif self.shard_sizes is not None:
            start = sum(self.shard_sizes[: self._shard_index])
            end = start + self.shard_sizes[self._shard_index] if self._num_shards > 1 else self.n
            self.order = list(range(start, end))
        else:
            self.order = [int(i) for i in self.get_seq_order_for_epoch(epoch=epoch, num_seqs=self.n, get_seq_len=lambda i: i)]
        self._num_seqs = len(self.order) if self.known else None
        return True

    def supports_sharding(self):
        """yes"""
        return True

    def supports_seq_order_sorting(self):
        """yes"""
        return True

    def is_less_than_num_seqs(self, n):
        """less"""
        return n < len(self.order)

    def get_current_seq_order(self):
        """order"""
        return self.order

    def have_corpus_seq_idx(self):
        """yes"""
        return True

    def get_corpus_seq_idx(self, seq_idx):
        """idx"""
        return self.order[seq_idx]

    def get_total_num_seqs(self, *, fast=False):
        """n"""
        return self.n

    def get_all_tags(self):
        """tags"""
        return ["tag-%i" % i for i in range(self.n)]

    def finish_epoch(self, *, free_resources=False):
        """finish"""
        super().finish_epoch(free_resources=free_resources)
        self.order = None  # nothing may be accessed until the next init_seq_order

    def _collect_single_seq(self, seq_idx):
        if seq_idx >= len(self.order):
            return None
        i = self.order[seq_idx]
        return DatasetSeq(
            seq_idx=seq_idx,
            seq_tag="tag-%i" % i,
            features={"data": numpy.full((i + 1, 2), self.epoch * 100 + i, dtype="float32"), "classes": numpy.full((i + 2,), i, dtype="int32")},
        )

    def get_data_keys(self):
        """keys"""
        return ["data", "classes"]


class _NoHook:
    @staticmethod
    def setup_all(*_a, **_kw):
        """no"""


def sim_patches(mod, sim):
    """run the processes of this module in the simulation"""
    return patched(
        (mod, "NonDaemonicSpawnContext", lambda *_a, **_kw: sim),
        (mod, "mpConnection", Conn),
        (mod, "better_exchook", _NoHook),
        *([(mod, "_mp", sim)] if hasattr(mod, "_mp") else []),
    )


def _seq(ds, i):
    """all about one seq"""
    return (ds.get_tag(i), {k: ds.get_data(i, k).tolist() for k in ds.get_data_keys()})


def _read(h, ds, n_max, keep_loaded=1):
    """as the engines: increasing"""
    res = []
    fracs = []
    i = 0
    while i < n_max and ds.is_less_than_num_seqs(i):
        ds.load_seqs(i, i + keep_loaded)
        res.append(_seq(ds, i))
        fracs.append(ds.get_complete_frac(i, allow_only_lr_suitable=True))
        i += 1
    return res, fracs


def _ref(cfg, **kwargs):
    ds = init_dataset(dict(cfg))
    ds.init_seq_order(**kwargs)
    return _read(None, ds, 10**6)


def _check_fracs(h, fracs, known, complete):
    for a, b in zip(fracs, fracs[1:]):
        if a is not None and b is not None:
            h.check(a <= b, "complete fraction decreases: %s" % fracs)
    for f in fracs:
        h.check(f is None or 0 < f <= 1, "complete fraction not in (0,1]: %s" % fracs)
    if known and fracs:
        h.check(all(f is not None for f in fracs), "no complete fraction: %s" % fracs)
        if complete:
            h.check(fracs[-1] == 1, "complete fraction at the end: %s" % fracs)


def h_mp(h, n, method, ordering, max_workers, max_buf, opt, max_prefetch=None):
    """epochs via worker processes"""
    workers = int(h.int("num_workers", 1, max_workers))
    buf = int(h.int("buffer_size", 1, max_buf))
    known = "unknown" not in opt
    cfg = {"class": _Corpus, "n": n, "seq_ordering": ordering, "known": known}
    if "part" in opt:
        cfg["partition_epoch"] = 2
    sizes = None
    if "unbalanced" in opt:
        sizes = [int(h.int("size%i" % i, 0, n)) for i in range(workers)]
        h.assume(sum(sizes) == n)
        cfg["shard_sizes"] = sizes
        h.cover("unbalanced", workers > 1)
    rnd = RandomStub(h)
    ep1 = int(h.int("epoch", 1, 3)) if "part" in opt else 1
    with Sim(h, max_prefetch=max_prefetch) as sim, sim_patches(mpd, sim), patched((numpy.random, "RandomState", rnd.RandomState)):
        try:
            ds = mpd.MultiProcDataset(dataset=dict(cfg), num_workers=workers, buffer_size=buf, sharding_method=method)
            ds.initialize()
            h.check(dict(ds.num_outputs) == {"data": (2, 2), "classes": (100, 1)}, "num_outputs %s" % (ds.num_outputs,))
            h.check(dict(ds.labels) == {"classes": ["a", "b"]}, "labels")
            all_fracs = []
            for i, ep in enumerate([ep1, ep1 + 1]):
                if i == 1:
                    how = h.choice("between", ["next", "finish", "free"] if "history" in opt else ["next"])
                    if how != "next":
                        ds.finish_epoch(free_resources=how == "free")
                        h.cover("freed", how == "free")
                    h.cover("second_epoch")
                kw = {"epoch": ep}
                if "seq_list" in opt and i == 0:
                    sel = [j for j in reversed(range(n)) if bool(h.bool("sel%i" % j))]
                    if not sel:
                        h.stop()
                    if bool(h.bool("as_seq_order")):
                        kw["seq_order"] = sel
                    else:
                        kw["seq_list"] = ["tag-%i" % j for j in sel]
                    h.cover("seq_list")
                ds.init_seq_order(**kw)
                want, want_fracs = _ref({k: v for k, v in cfg.items() if k != "shard_sizes"}, **kw)
                stop = n + 1
                if i == 0 and "history" in opt:
                    stop = int(h.int("stop", 0, n))
                    h.cover("stopped_early", stop < n)
                ahead = int(h.int("ahead", 1, 2)) if "history" in opt and i == 0 else 1
                got, fracs = _read(h, ds, stop, keep_loaded=ahead)
                h.observe([t for t, _ in got])
                if method == "seq_order":
                    h.check(got == want[:stop], "sequences %s, expected %s" % ([t for t, _ in got], [t for t, _ in want[:stop]]))
                elif stop > n:
                    h.check(
                        sorted(got, key=lambda x: x[0]) == sorted(want, key=lambda x: x[0]),
                        "sequences %s, expected (in some order) %s" % ([t for t, _ in got], [t for t, _ in want]),
                    )
                    h.cover("dedicated")
                _check_fracs(h, fracs, known, stop > n)
                all_fracs.append(fracs)
                if i == 1 and not opt:
                    h.check(fracs == all_fracs[0], "complete fractions of next epoch %s, of first epoch %s" % (fracs, all_fracs[0]))
                if known:
                    h.check(ds.num_seqs == len(want), "num_seqs %s instead of %i" % (ds.num_seqs, len(want)))
                else:
                    h.cover("unknown")
            if "history" not in opt:
                h.check(ds.get_total_num_seqs() == n, "total num seqs")
                h.check(ds.get_all_tags() == ["tag-%i" % i for i in range(n)], "all tags")
            h.cover("prefetched", sim.n > 0)
            h.cover("end")
        except Deadlock as exc:
            h.fail("deadlock: %s" % exc)
        finally:
            ds._worker_procs = None  # no exit via __del__


def h_skip(h, n, max_workers, method):
    """not all seqs are read (e.g. the batch is stopped at the end)"""
    workers = int(h.int("num_workers", 1, max_workers))
    buf = int(h.int("buffer_size", 1, 2))
    cfg = {"class": _Corpus, "n": n, "seq_ordering": "default"}
    with Sim(h, max_prefetch=4) as sim, sim_patches(mpd, sim):
        try:
            ds = mpd.MultiProcDataset(dataset=dict(cfg), num_workers=workers, buffer_size=buf, sharding_method=method)
            ds.initialize()
            ds.init_seq_order(epoch=1)
            take = [i for i in range(n) if bool(h.bool("take%i" % i))]
            h.cover("skipped", len(take) < n)
            got = []
            for i in take:
                ds.load_seqs(i, i + 1)
                got.append(ds.get_tag(i))
                h.check(int(ds.get_data(i, "classes")[0]) == int(got[-1][len("tag-") :]), "data of other seq")
                if method == "seq_order":
                    h.check(got[-1] == "tag-%i" % i, "seq %i is %s" % (i, got[-1]))
            h.check(len(set(got)) == len(got), "a sequence twice: %s" % got)
            h.observe(got)
        except Deadlock as exc:
            h.fail("deadlock: %s" % exc)
        except Exception as exc:
            if "buffer too small" in str(exc):
                h.stop()  # documented limit
            raise
        finally:
            ds._worker_procs = None


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    B = "n=%i seqs, workers<=%i, buffer<=%i, all interleavings%s"

    def _add(name, **kw):
        res.append(
            Case(
                "mp/" + name,
                h_mp,
                kw,
                bounds=B % (kw["n"], kw["max_workers"], kw["max_buf"], "" if kw.get("max_prefetch") is None else " of the first %i scheduling choices" % kw["max_prefetch"]),
                validate=4,
            )
        )

    P = 8 if q else 14
    for n in [1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6]:
        _add("seq_order/default/n%i" % n, n=n, method="seq_order", ordering="default", max_workers=3, max_buf=2, opt=(), max_prefetch=min(P, 6))
        _add("dedicated/default/n%i" % n, n=n, method="dedicated", ordering="default", max_workers=3, max_buf=2, opt=(), max_prefetch=min(P, 6))
    _add("seq_order/random", n=3, method="seq_order", ordering="random", max_workers=2, max_buf=2, opt=("part",), max_prefetch=2)
    _add("dedicated/random", n=3, method="dedicated", ordering="random", max_workers=2, max_buf=1, opt=("part",), max_prefetch=2)
    for method in ["seq_order", "dedicated"]:
        _add(method + "/history", n=3, method=method, ordering="default", max_workers=2, max_buf=2, opt=("history",), max_prefetch=4 if q else 6)
        _add(method + "/seq_list", n=3, method=method, ordering="default", max_workers=2, max_buf=2, opt=("seq_list",), max_prefetch=2)
    _add("dedicated/unbalanced", n=3 if q else 4, method="dedicated", ordering="default", max_workers=3, max_buf=2, opt=("unbalanced",), max_prefetch=3)
    _add("dedicated/unknown", n=3 if q else 4, method="dedicated", ordering="default", max_workers=2, max_buf=2, opt=("unbalanced", "unknown"), max_prefetch=3)
    _add("deep", n=3, method="seq_order", ordering="default", max_workers=1, max_buf=3, opt=(), max_prefetch=P + 1)
    for method in ["seq_order", "dedicated"]:
        res.append(Case("skip/" + method, h_skip, dict(n=4, max_workers=3, method=method), bounds="4 seqs, any subset read", validate=4))
    return res
