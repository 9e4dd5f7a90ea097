"""
C01: within each full epoch, sub-epochs x shards cover every sequence exactly once.
"""

import os
import tempfile
import numpy
from vf.harness import *

from returnn.datasets.basic import Dataset

PROPERTY = "C01"
ASSUMPTIONS = [
    "numpy.random.RandomState is replaced by a stub: each draw is an arbitrary value of its range "
    "(an arbitrary permutation), a deterministic function of the seed and of the draw index",
    "the dataset is a direct Dataset subclass with arbitrary sequence lengths and tags",
]
COVERS = ["cover_end", "multi_shard", "uneven", "filter_end", "unique_end"]


class _Ds(Dataset):
    def __init__(self, tags, **kwargs):
        super().__init__(**kwargs)
        self.tags = tags

    def get_all_tags(self):
        """all"""
        return list(self.tags)

    def get_total_num_seqs(self, *, fast=False):
        """num"""
        return len(self.tags)

    def supports_sharding(self):
        """yes"""
        return True


def _make(tags, **kwargs):
    return _Ds(tags, random_seed_offset=0, **kwargs)


def check_permutation(h, items, n, what):
    """items is a permutation of range(n)"""
    h.check(len(items) == n, "%s: %i entries instead of %i" % (what, len(items), n))
    h.check_all([s_and(i >= 0, i < n) for i in items], "%s: index out of range" % what)
    h.check(s_distinct(items), "%s: a sequence occurs twice (and so another is lost)" % what)


def h_cover(h, method, n, max_part, max_shards, max_full=2, max_len=6, fixed_perm=False):
    """exact cover"""
    part = int(h.int("partition_epoch", 1, max_part))
    shards = int(h.int("num_shards", 1, max_shards))
    full = h.int("full_epoch", 0, max_full)
    lens = h.ints("len", n, 0, max_len) if not method.startswith(("random", "default", "reverse")) else [1] * n
    tags = ["seq-%i" % i for i in range(n)]
    rnd = RandomStub(h)
    rnd_fork = method.startswith(("laplace", "sort_bin"))
    res = []
    sizes = []
    rs = rnd.RandomState if rnd_fork else lambda s=None: _LazyPerm(rnd.RandomState(s))
    if fixed_perm:
        rs = lambda s=None: _FixedPerm(rnd.RandomState(s), n)
    with patched((numpy.random, "RandomState", rs)):
        for p in range(part):
            for s in range(shards):
                ds = _make(
                    tags, seq_ordering=method, partition_epoch=part, _num_shards=shards, _shard_index=s
                )
                order = ds.get_seq_order_for_epoch(
                    epoch=full * part + p + 1, num_seqs=n, get_seq_len=lambda i: lens[int(i)]
                )
                order = list(order)
                sizes.append(len(order))
                res.extend(order)
    h.observe(sizes)
    h.check(max(sizes) - min(sizes) <= 1, "%s: sub-epochs/shards not balanced: %s" % (method, sizes))
    check_permutation(h, res, n, "%s over %i sub-epochs x %i shards" % (method, part, shards))
    h.cover("cover_end")
    if shards > 1:
        h.cover("multi_shard")
    if n % (part * shards):
        h.cover("uneven")


class _FixedPerm:
    """first permutation is fixed (other draws arbitrary)"""

    def __init__(self, rs, n):
        self.rs = rs
        self.n = n

    def permutation(self, n):
        """perm"""
        if self.n is not None and isinstance(n, int) and int(n) == self.n:
            self.n = None
            return numpy.array([i for i in range(1, n, 2)] + [i for i in range(0, n, 2)], dtype="int64")
        self.n = None
        return self.rs.permutation(n)

    def __getattr__(self, item):
        return getattr(self.rs, item)


class _LazyPerm:
    """permutation as array of symbolic indices (no case split)"""

    def __init__(self, rs):
        self.rs = rs

    def permutation(self, n):
        """perm"""
        n = int(n)
        p = self.rs._draw(("perm", n), lambda name: self.rs.owner.h.permutation(name, n))
        arr = numpy.empty((n,), dtype=object)
        arr[:] = p
        return arr

    def __getattr__(self, item):
        return getattr(self.rs, item)


def h_full_epochs_differ(h, method, n):
    """within a full epoch the same shuffling, and a new shuffling (other seed) in the next full epoch"""
    part = h.int("partition_epoch", 1, 4)
    nth = h.int("nth", 1, 3)
    ep1 = h.int("epoch1", 1, 40)
    ep2 = h.int("epoch2", 1, 40)
    off = h.int("random_seed_offset", 0, 100000)
    h.assume(ep1 <= ep2)
    seeds = []

    class _Rec:
        def __init__(self, seed=None):
            seeds.append(seed)

        def permutation(self, k):
            """id"""
            return numpy.arange(int(k))

        def shuffle(self, x):
            """id"""

    part = int(part)
    nth = int(nth)
    meth = {"random": "random:%i", "laplace": "laplace:2:%i", "sort_bin_shuffle": "sort_bin_shuffle:2:%i"}[method] % nth
    ds = _Ds(["a"] * n, seq_ordering=meth, partition_epoch=part, random_seed_offset=off)
    off2 = h.int("random_seed_offset2", 0, 100000)
    fixed = h.choice("fixed_random_seed", [None, 0, 7])
    ds2 = _Ds(["a"] * n, seq_ordering=meth, partition_epoch=part, random_seed_offset=off2)
    ds3 = _Ds(["a"] * n, seq_ordering=meth, partition_epoch=part, random_seed_offset=off, fixed_random_seed=fixed)
    res = []
    with patched((numpy.random, "RandomState", _Rec)):
        for ds_, ep in [(ds, ep1), (ds, ep2), (ds2, ep1), (ds3, ep1), (ds3, ep2)]:
            ds_.get_seq_order_for_epoch(epoch=ep, num_seqs=n, get_seq_len=lambda i: 1)
            h.check(len(seeds) > 0, "random generator used")
            res.append(seeds[0])
            seeds.clear()
    s1, s2, s3, f1, f2 = res
    h.check(s_implies(off != off2, s1 != s3), "%s: random_seed_offset ignored" % meth)
    if fixed is not None:
        h.check(s_and(f1 == fixed, f2 == fixed), "%s: fixed_random_seed=%s not used" % (meth, fixed))
    h.observe(s1, s2)
    full1 = (ep1 - 1) // (part * nth)
    full2 = (ep2 - 1) // (part * nth)
    h.check(
        s_implies(full1 == full2, s1 == s2), "%s: different random seeds inside one full epoch" % meth
    )
    h.check(
        s_implies(full1 != full2, s1 != s2), "%s: same shuffling in different full epochs" % meth
    )
    h.cover("cover_end")


def h_filter(h, method, n, max_part, max_shards=1):
    """seq tag filter: exactly the listed seqs, each once per full epoch"""
    part = int(h.int("partition_epoch", 1, max_part))
    keep = [h.bool("keep%i" % i) for i in range(n)]
    keep = [bool(k) for k in keep]
    shards = int(h.int("num_shards", 1, max_shards))
    h.assume(any(keep))
    tags = ["seq-%i" % i for i in range(n)]
    rnd = RandomStub(h)
    res = []
    fn = os.path.join(tempfile.gettempdir(), "filter_%s.txt" % "".join(str(int(k)) for k in keep))
    with open(fn, "w") as f:
        f.write("".join(t + "\n" for t, k in zip(tags, keep) if k))
    with patched((numpy.random, "RandomState", rnd.RandomState)):
        for p, s in [(p, s) for p in range(part) for s in range(shards)]:
            ds = _make(tags, seq_ordering=method, partition_epoch=part, seq_list_filter_file=fn, _num_shards=shards, _shard_index=s)
            try:
                order = ds.get_seq_order_for_epoch(epoch=p + 1, num_seqs=n, get_seq_len=lambda i: 1)
            except AssertionError:  # documented: filter must not leave a sub-epoch empty
                h.stop()
            res.extend(order)
    h.observe(res)
    h.check(
        sorted(int(i) for i in res) == [i for i in range(n) if keep[i]],
        "seq filter: got %s, filter %s" % (res, keep),
    )
    h.cover("filter_end")


def h_unique(h, n, num_tags, part_max):
    """unique_seq_tags: each tag once per full epoch"""
    part = int(h.int("partition_epoch", 1, part_max))
    t = [int(x) for x in h.ints("tag", n, 0, num_tags - 1)]
    tags = ["seq-%i" % i for i in t]
    res = []
    rnd = RandomStub(h)
    with patched((numpy.random, "RandomState", rnd.RandomState)):
        for p in range(part):
            ds = _make(tags, seq_ordering="random", partition_epoch=part, unique_seq_tags=True)
            res.extend(ds.get_seq_order_for_epoch(epoch=p + 1, num_seqs=n, get_seq_len=lambda i: 1))
    got = sorted(tags[int(i)] for i in res)
    h.observe(got)
    h.check(got == sorted(set(tags)), "unique_seq_tags: got %s, tags %s" % (got, tags))
    h.cover("unique_end")


def h_repeat(h, method, n, rmax, max_shards=1):
    """repeat_epoch"""
    rep = int(h.int("repeat", 1, rmax))
    shards = int(h.int("num_shards", 1, max_shards))
    rnd = RandomStub(h)
    ep = h.int("epoch", 1, 5)
    res = [[] for _ in range(rep)]
    with patched((numpy.random, "RandomState", lambda s=None: _LazyPerm(rnd.RandomState(s)))):
        for s in range(shards):
            ds = _make(["s%i" % i for i in range(n)], seq_ordering=method, repeat_epoch=rep, _num_shards=shards, _shard_index=s)
            order = list(ds.get_seq_order_for_epoch(epoch=ep, num_seqs=n, get_seq_len=lambda i: 1))
            h.check(len(order) % rep == 0, "repeat_epoch: len")
            k = len(order) // rep
            for r in range(rep):
                res[r] += order[r * k : (r + 1) * k]
    for r in range(rep):
        check_permutation(h, res[r], n, "repetition %i" % r)


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    for n in range(1, (14 if q else 26)):
        for m in ["default", "reverse", "random"]:
            res.append(
                Case(
                    "cover/%s/n%i" % (m, n),
                    h_cover,
                    dict(method=m, n=n, max_part=5 if q else 8, max_shards=4 if q else 5),
                    bounds="num_seqs=%i, partition_epoch<=%i, shards<=%i, arbitrary permutation, 3 full epochs" % (n, 5 if q else 8, 4 if q else 5),
                )
            )
    for n in range(1, 5 if q else 6):
        for m in ["sorted", "sorted_reverse", "random:2"]:
            res.append(
                Case(
                    "cover/%s/n%i" % (m, n),
                    h_cover,
                    dict(method=m, n=n, max_part=3, max_shards=2, max_full=1),
                    bounds="num_seqs=%i, partition_epoch<=3, shards<=2, arbitrary lens 0..6" % n,
                )
            )
    for n in range(1, 4 if q else 5):
        for m in ["laplace", "laplace:3", "laplace:.2", "sort_bin_shuffle:2", "sort_bin_shuffle:.1", "sort_bin_shuffle_x2:2", "laplace:2:2"]:
            res.append(
                Case(
                    "cover/%s/n%i" % (m, n),
                    h_cover,
                    dict(method=m, n=n, max_part=2, max_shards=2, max_full=1),
                    bounds="num_seqs=%i, partition_epoch<=2, shards<=2, arbitrary lens 0..6 and permutations" % n,
                )
            )
    for n in range(4, 8 if q else 10):
        for m in ["laplace:3", "laplace:4", "laplace:.3", "sort_bin_shuffle:3", "sort_bin_shuffle:4", "sort_bin_shuffle_x2:3"]:
            if m == "sort_bin_shuffle_x2:3" and n > 6:
                continue
            res.append(
                Case(
                    "cover_bins/%s/n%i" % (m, n),
                    h_cover,
                    dict(method=m, n=n, max_part=2, max_shards=1, max_full=0, max_len=1, fixed_perm=True),
                    bounds="num_seqs=%i, partition_epoch<=2, lens 0..1, one permutation of the seqs, all others" % n,
                )
            )
    for m in ["random", "laplace", "sort_bin_shuffle"]:
        res.append(Case("seeds/" + m, h_full_epochs_differ, dict(method=m, n=3), bounds="epochs 1..40, partition_epoch<=4, nth<=3, any offset"))
    for m in ["default", "random"]:
        res.append(Case("filter/" + m, h_filter, dict(method=m, n=4 if m == "default" else 3, max_part=2, max_shards=2), bounds="4 seqs, any subset, any permutation"))
    res.append(Case("unique", h_unique, dict(n=3 if q else 4, num_tags=3, part_max=2), bounds="3 seqs, any tags, any permutation"))
    for m in ["default", "random"]:
        res.append(Case("repeat/" + m, h_repeat, dict(method=m, n=4, rmax=3, max_shards=3), bounds="4 seqs, repeat<=3, shards<=3"))
    return res
