"""
C07: DistributeFilesDataset: all files used exactly once per full epoch, over all sub-epochs and shards, and all their sequences delivered.
"""

import numpy
import os
from vf.harness import *
from vf.mpsim import Sim, Deadlock
from vf.checks.c10_multi_proc import sim_patches, _read, _check_fracs

import returnn.datasets.distrib_files as dfd
from returnn.datasets.basic import DatasetSeq
from returnn.datasets.cached2 import CachedDataset2
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])

PROPERTY = "C07"
ASSUMPTIONS = [
    "processes are simulated (see C10), no worker dies; file sizes are arbitrary (os.path.getsize is a stand-in)",
    "numpy.random.RandomState is a stub: arbitrary permutation as function of the seed",
    "the sub dataset is a stand-in which delivers the sequences of its files, each with its own order",
]
COVERS = ["end", "files_end", "shards", "restart", "equal", "nested", "preload", "stopped_early", "again"]

_NUM = {}  # file -> num seqs


def _flat(t):
    if isinstance(t, str):
        return [t]
    if isinstance(t, dict):
        return [x for k in sorted(t) for x in _flat(t[k])]
    return [x for y in t for x in _flat(y)]


class _FilesDs(CachedDataset2):
    """sub dataset"""

    def __init__(self, files, num, **kwargs):
        super().__init__(**kwargs)
        self.tags = ["%s/%i" % (_flat(f)[0], i) for f in files for i in range(num[_flat(f)[0]])]
        self.num_inputs = 1
        self.num_outputs = {"data": (1, 2)}

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        """init"""
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        assert seq_list is None and seq_order is None
        self.order = [int(i) for i in self.get_seq_order_for_epoch(epoch=epoch, num_seqs=len(self.tags), get_seq_len=lambda i: 1)]
        self._num_seqs = len(self.order)
        return True

    def _collect_single_seq(self, seq_idx):
        if seq_idx >= len(self.order):
            return None
        i = self.order[seq_idx]
        return DatasetSeq(seq_idx=seq_idx, seq_tag=self.tags[i], features={"data": numpy.full((2, 1), self.epoch, dtype="float32")})

    def get_data_keys(self):
        """keys"""
        return ["data"]

    def supports_sharding(self):
        """yes, as most datasets"""
        return True


def h_bins(h, n, max_size):
    """distribution by size"""
    num_bins = int(h.int("num_bins", 1, n))
    files = ["f%i" % i for i in range(n)]
    sizes = {f: h.int("size_" + f, 0, max_size) for f in files}
    bins = dfd.DistributeFilesDataset._distribute_evenly_by_size(num_bins=num_bins, file_sizes=sizes, files_order=files)
    h.observe([len(b) for b in bins])
    h.check(len(bins) == num_bins, "%i bins instead of %i" % (len(bins), num_bins))
    h.check([f for b in bins for f in b] == files, "files lost, duplicated or reordered: %s" % bins)
    h.check(all(bins), "empty bin: %s" % bins)
    # evenly, if that is possible: all same size
    counts = [len(b) for b in bins]
    same = s_and(*[sizes[f] == sizes[files[0]] for f in files], sizes[files[0]] > 0)
    h.check(s_implies(same, max(counts) - min(counts) <= 1), "files of same size not evenly distributed: %s" % counts)
    h.cover("equal", same)


def _make(files, get, part, shards, idx, preload, buf, ordering, **kw):
    return dfd.DistributeFilesDataset(
        files=files,
        get_sub_epoch_dataset=get,
        preload_next_n_sub_epochs=preload,
        buffer_size=buf,
        seq_ordering=ordering,
        partition_epoch=part,
        _num_shards=shards,
        _shard_index=idx,
        **kw,
    )


def h_files(h, n, max_part, max_shards, ordering, opt, max_size=3):
    """files over sub-epochs and shards, histories"""
    part = int(h.int("partition_epoch", 1, max_part))
    shards = int(h.int("num_shards", 1, max_shards))
    h.assume(n >= part * shards)
    preload = int(h.int("preload", 0, 2)) if "preload" in opt else 1
    if "nested" in opt:
        files = [("a%i" % i, {"x": "b%i" % i, "y": ["c%i" % i]}) for i in range(n)]
        h.cover("nested")
    else:
        files = ["f%i" % i for i in range(n)]
    sizes = {fn: h.int("size_" + fn, 0, max_size) for f in files for fn in _flat(f)}
    num = {_flat(f)[0]: 2 for f in files}
    rnd = RandomStub(h)
    full = int(h.int("full_epoch", 0, 1)) if "two" in opt else 0
    used = {}  # ep, shard -> files

    def _get(files_):
        return {"class": _FilesDs, "files": files_, "num": num, "seq_ordering": "default"}

    with Sim(h, max_prefetch=0) as sim, sim_patches(dfd, sim), patched(
        (numpy.random, "RandomState", rnd.RandomState), (os.path, "getsize", lambda fn: sizes[fn])
    ):
        try:
            for s in range(shards):
                ds = _make(files, _get, part, shards, s, preload, 1, ordering)
                ds.initialize()
                for p in range(part):
                    ep = full * part + p + 1
                    got, fracs = _read_epoch(h, ds, ep)
                    used[ep, s] = [t.split("/")[0] for t, _ in got if t.endswith("/0")]
                    h.check([t for t, _ in got] == ["%s/%i" % (f, i) for f in used[ep, s] for i in range(2)], "sequences %s" % [t for t, _ in got])
                    h.check(used[ep, s], "empty sub-epoch %i" % ep)
                    _check_fracs(h, fracs, True, True)
                    h.cover("preload", preload > 0)
                if "restart" in opt and bool(h.bool("restart%i" % s)):
                    ds2 = _make(files, _get, part, shards, s, preload, 1, ordering)
                    ds2.initialize()
                    ep = full * part + int(h.int("restart_part%i" % s, 0, part - 1)) + 1
                    got, _ = _read_epoch(h, ds2, ep)
                    h.check([t.split("/")[0] for t, _ in got if t.endswith("/0")] == used[ep, s], "other files for epoch %i after restart" % ep)
                    h.cover("restart")
        except Deadlock as exc:
            h.fail("deadlock: %s" % exc)
    names = [_flat(f)[0] for f in files]
    all_used = [f for s in range(shards) for p in range(part) for f in used[full * part + p + 1, s]]
    h.observe(all_used)
    h.check(sorted(all_used) == sorted(names), "files over the full epoch: %s, expected each of %s once" % (all_used, names))
    if ordering == "default":
        h.check(all_used == names, "default order not kept: %s" % all_used)
    h.cover("shards", shards > 1)
    h.cover("files_end")


def _read_epoch(h, ds, ep, stop=10**6):
    ds.init_seq_order(epoch=ep)
    got, fracs = _read(h, ds, stop)
    if stop > len(got):
        h.check(ds.num_seqs == len(got), "num_seqs %s, but %i sequences" % (ds.num_seqs, len(got)))
    return got, fracs


def h_seqs(h, max_seqs, part, max_prefetch, opt):
    """all sequences, histories of epochs, interleavings"""
    n = 3
    files = ["f%i" % i for i in range(n)]
    num = {f: int(h.int("num_" + f, 1, max_seqs)) if "history" not in opt else 2 - i % 2 for i, f in enumerate(files)}
    sizes = {f: 1 for f in files}
    buf = int(h.int("buffer_size", 1, 2))
    preload = int(h.int("preload", 0, 2))
    rnd = RandomStub(h)
    sub_order = "random" if "random" in opt else "default"

    def _get(files_):
        return {"class": _FilesDs, "files": files_, "num": num, "seq_ordering": sub_order}

    with Sim(h, max_prefetch=max_prefetch) as sim, sim_patches(dfd, sim), patched(
        (numpy.random, "RandomState", rnd.RandomState), (os.path, "getsize", lambda fn: sizes[fn])
    ):
        try:
            ds = _make(files, _get, part, 1, 0, preload, buf, "default")
            ds.initialize()
            eps = [1, 2]
            if "history" in opt:
                eps = [h.choice("first", [1, 2]), h.choice("second", [1, 2, 3, 4])]
            seen = {}
            for i, ep in enumerate(eps):
                stop = 10**6
                if i == 0 and "history" in opt:
                    stop = h.choice("stop", [0, 1, 10**6])
                    h.cover("stopped_early", stop < 2)
                if i == 1 and "history" in opt:
                    how = h.choice("between", ["next", "finish", "free"])
                    if how != "next":
                        ds.finish_epoch(free_resources=how == "free")
                        h.cover("again", ep == eps[0])
                    elif ep <= eps[0]:
                        h.stop()  # epoch again without having finished it
                got, fracs = _read_epoch(h, ds, ep, stop)
                tags = [t for t, _ in got]
                h.observe(tags)
                h.check(len(set(tags)) == len(tags), "a sequence twice: %s" % tags)
                fs = sorted(set(t.split("/")[0] for t in tags))
                if stop > 10:
                    want = ["%s/%i" % (f, j) for f in fs for j in range(num[f])]
                    h.check(sorted(tags) == sorted(want), "sequences %s, expected %s" % (tags, want))
                    if sub_order == "default":
                        h.check(tags == want, "order %s" % tags)
                    _check_fracs(h, fracs, True, True)
                    seen[ep] = tags
                # the data is that of the full epoch
                full = (ep - 1) // part + 1
                h.check(all(d["data"][0][0] == full for _, d in got), "sub dataset not at the epoch")
            if "history" not in opt and part == 2:
                h.check(
                    sorted(seen[1] + seen[2]) == sorted("%s/%i" % (f, j) for f in files for j in range(num[f])),
                    "sequences over the full epoch: %s" % seen,
                )
            h.cover("end")
        except Deadlock as exc:
            h.fail("deadlock: %s" % exc)


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    for n in range(1, 6 if q else 7):
        res.append(Case("bins/n%i" % n, h_bins, dict(n=n, max_size=50), bounds="%i files, any number of bins, sizes 0..50" % n))

    def _add(name, **kw):
        res.append(
            Case(
                "files/" + name,
                h_files,
                kw,
                bounds="%i files, partition_epoch<=%i, shards<=%i, any sizes" % (kw["n"], kw["max_part"], kw["max_shards"]),
                validate=4,
            )
        )

    for n in [2, 3, 4] if q else [2, 3, 4, 5]:
        _add("default/n%i" % n, n=n, max_part=3, max_shards=2, ordering="default", opt=("restart",), max_size=2)
    _add("random", n=3, max_part=2, max_shards=2, ordering="random", opt=("restart", "two") if not q else ("restart",), max_size=1)
    _add("preload", n=3, max_part=3, max_shards=1, ordering="default", opt=("restart", "preload", "two"), max_size=1)
    _add("nested", n=2, max_part=2, max_shards=2, ordering="default", opt=("nested",), max_size=1)
    for part in [1, 2]:
        res.append(Case("seqs/part%i" % part, h_seqs, dict(max_seqs=2, part=part, max_prefetch=4 if q else 7, opt=()), bounds="3 files, <=2 seqs each, all interleavings of the first scheduling choices", validate=4))
    res.append(Case("seqs/random", h_seqs, dict(max_seqs=2, part=2, max_prefetch=0, opt=("random",)), bounds="3 files, <=2 seqs each, any order", validate=4))
    res.append(Case("seqs/history", h_seqs, dict(max_seqs=2, part=2, max_prefetch=2, opt=("history",)), bounds="any two of 4 epochs in sequence, stopped early or not", validate=4))
    return res
