"""
C02: the sequence order of an epoch is a pure function of (options, epoch), and has the order the method promises.
"""

import numpy
from vf.harness import *
from vf.checks.c01_epoch_cover import _Ds, _LazyPerm, _FixedPerm, check_permutation, h_full_epochs_differ

PROPERTY = "C02"
ASSUMPTIONS = [
    "numpy.random.RandomState is replaced by a stub: each draw is an arbitrary value of its range, "
    "a deterministic function of the seed and of the draw index",
]
COVERS = ["sorted_end", "laplace_end", "bins_end", "determ_end", "everyn_end", "ties"]


def _order(h, method, n, lens, rnd, epoch=1, lazy=False, ds=None, fixed=False, **kwargs):
    ds = ds or _Ds(["s%i" % i for i in range(n)], random_seed_offset=0, seq_ordering=method, **kwargs)
    rs = (lambda s=None: _LazyPerm(rnd.RandomState(s))) if lazy else rnd.RandomState
    if fixed:
        rs = lambda s=None: _FixedPerm(rnd.RandomState(s), n)
    with patched((numpy.random, "RandomState", rs)):
        return list(ds.get_seq_order_for_epoch(epoch=epoch, num_seqs=n, get_seq_len=lambda i: lens[int(i)]))


def h_sorted(h, method, n):
    """sorted / sorted_reverse / reverse / default"""
    lens = h.ints("len", n, 0, 1000)
    order = _order(h, method, n, lens, RandomStub(h))
    h.observe(order)
    check_permutation(h, order, n, method)
    order = [int(i) for i in order]
    if method == "default":
        h.check(order == list(range(n)), "default order")
    elif method == "reverse":
        h.check(order == list(reversed(range(n))), "reverse order")
    else:
        for a, b in zip(order, order[1:]):
            if method == "sorted":
                h.check(s_or(lens[a] < lens[b], s_and(lens[a] == lens[b], a < b)), "sorted: not sorted / not stable")
            else:
                h.check(s_or(lens[a] > lens[b], s_and(lens[a] == lens[b], a < b)), "sorted_reverse: not sorted / not stable")
            h.cover("ties", lens[a] == lens[b])
        h.cover("sorted_end")


def _num_bins(spec, n):
    if not spec:
        return 2
    if spec.startswith("."):
        return max(n // int(spec[1:]), 2)
    return int(spec)


def h_laplace(h, spec, n, fixed=False, max_len=1000):
    """zig-zag over bins"""
    lens = h.ints("len", n, 0, max_len)
    order = [int(i) for i in _order(h, "laplace" + (":" + spec if spec else ""), n, lens, RandomStub(h), fixed=fixed)]
    h.observe(order)
    check_permutation(h, order, n, "laplace")
    bins = _num_bins(spec, n)
    bounds = [i * n // bins for i in range(bins + 1)]
    h.check(bounds[-1] == n, "spec")
    for i in range(bins):
        part = order[bounds[i] : bounds[i + 1]]
        for a, b in zip(part, part[1:]):
            h.check(
                lens[a] <= lens[b] if i % 2 == 0 else lens[a] >= lens[b],
                "laplace: bin %i not sorted %s" % (i, "ascending" if i % 2 == 0 else "descending"),
            )
    h.cover("laplace_end")


def h_bins(h, variant, spec, n, fixed=False, max_len=1000):
    """sort_bin_shuffle"""
    lens = h.ints("len", n, 0, max_len)
    rnd = RandomStub(h)
    order = [int(i) for i in _order(h, variant + (":" + spec if spec else ""), n, lens, rnd, fixed=fixed)]
    h.observe(order)
    check_permutation(h, order, n, variant)
    bins = _num_bins(spec, n)
    bounds = [i * n // bins for i in range(bins + 1)]
    sizes = sorted(bounds[i + 1] - bounds[i] for i in range(bins))
    # exists split of the result in bins, such that bins are separated by length (and sorted inside, if not x2)
    # The order of bins is arbitrary, so check over all splits given by the block sizes.
    import itertools

    options = []
    for perm in sorted(set(itertools.permutations(range(bins)))):
        conds = []
        pos = 0
        blocks = {}
        for bi in perm:
            k = bounds[bi + 1] - bounds[bi]
            blocks[bi] = order[pos : pos + k]
            pos += k
        for bi in range(bins):
            if variant == "sort_bin_shuffle":
                conds += [lens[a] <= lens[b] for a, b in zip(blocks[bi], blocks[bi][1:])]
            for bj in range(bi + 1, bins):
                conds += [lens[a] <= lens[b] for a in blocks[bi] for b in blocks[bj]]
        options.append(s_and(*conds) if conds else True)
    h.check(s_or(*options), "%s: result is not a shuffle of length-sorted bins" % variant)
    h.cover("bins_end")


def h_determ(h, method, n, num_prev):
    """same options, same epoch -> same order, independent of the history of calls and of the instance"""
    ep = h.int("epoch", 1, 6)
    part = int(h.int("partition_epoch", 1, 2))
    prev = [h.int("prev_epoch%i" % i, 1, 6) for i in range(num_prev)]
    lens = h.ints("len", n, 0, 2)
    rnd = RandomStub(h)
    kw = dict(partition_epoch=part, lazy=False)
    ds = _Ds(["s%i" % i for i in range(n)], random_seed_offset=0, seq_ordering=method, partition_epoch=part)
    for p in prev:
        _order(h, method, n, lens, rnd, epoch=p, ds=ds)
    o1 = _order(h, method, n, lens, rnd, epoch=ep, ds=ds)
    o2 = _order(h, method, n, lens, rnd, epoch=ep, **kw)
    o3 = _order(h, method, n, lens, rnd, epoch=ep, ds=ds)
    h.observe(o2)
    h.check(len(o1) == len(o2) == len(o3), "order depends on earlier epochs")
    h.check_all([a == b for a, b in zip(o1, o2)], "order depends on earlier calls (resumed training sees other data)")
    h.check_all([a == b for a, b in zip(o3, o2)], "order differs when asked again")
    h.cover("determ_end")


def h_determ_simple(h, method, n):
    """history = one other epoch; arbitrary seeds"""
    ep = int(h.int("epoch", 1, 4))
    prev = int(h.int("prev", 1, 4))
    fixed = bool(h.bool("fixed"))
    off = h.int("offset", 0, 1000)
    rnd = RandomStub(h)
    kw = dict(seq_ordering=method, random_seed_offset=off, fixed_random_seed=7 if fixed else None)
    lens = [1] * n
    ds = _Ds(["s%i" % i for i in range(n)], **kw)
    ds2 = _Ds(["s%i" % i for i in range(n)], **kw)
    _order(h, method, n, lens, rnd, epoch=prev, ds=ds, lazy=True)
    o1 = _order(h, method, n, lens, rnd, epoch=ep, ds=ds, lazy=True)
    o2 = _order(h, method, n, lens, rnd, epoch=ep, ds=ds2, lazy=True)
    h.check(len(o1) == len(o2), "len")
    h.check_all([a == b for a, b in zip(o1, o2)], "order depends on earlier calls (resumed training sees other data)")
    if fixed:
        o3 = _order(h, method, n, lens, rnd, epoch=prev, ds=ds2, lazy=True)
        h.check_all([a == b for a, b in zip(o1, o3)], "fixed_random_seed: order differs between epochs")
    h.cover("determ_end")


def h_every_n(h, nmax, kmax):
    """default_every_n"""
    n = int(h.int("num_seqs", 1, nmax))
    k = int(h.int("n", 1, kmax))
    order = [int(i) for i in _order(h, "default_every_n:%i" % k, n, [1] * n, RandomStub(h))]
    m = n // k
    h.check(sorted(order) == list(range(m * k)), "default_every_n: cover")
    # element j of each consecutive group of k continues the sequence of stream j
    for j in range(k):
        h.check(order[j::k] == list(range(j * m, (j + 1) * m)), "default_every_n: stream %i not contiguous" % j)
    h.cover("everyn_end")


def h_callable(h, n):
    """seq_ordering given as function of the epoch"""
    ep = int(h.int("epoch", 1, 4))
    rev = [bool(h.bool("rev%i" % i)) for i in range(4)]
    ds = _Ds(["s"] * n, random_seed_offset=0, seq_ordering=lambda *, epoch, **_: "reverse" if rev[epoch - 1] else "default")
    order = [int(i) for i in ds.get_seq_order_for_epoch(epoch=ep, num_seqs=n)]
    want = list(range(n))
    h.check(order == (want[::-1] if rev[ep - 1] else want), "callable seq_ordering")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    for m in ["default", "reverse", "sorted", "sorted_reverse"]:
        for n in range(1, 6 if q else 7):
            res.append(Case("%s/n%i" % (m, n), h_sorted, dict(method=m, n=n), bounds="%i seqs, lens 0..1000" % n))
    for spec in ["", "3", ".2", "1"]:
        for n in range(1, 5 if q else 6):
            res.append(Case("laplace:%s/n%i" % (spec, n), h_laplace, dict(spec=spec, n=n), bounds="%i seqs, lens 0..1000, all permutations" % n))
    for v in ["sort_bin_shuffle", "sort_bin_shuffle_x2"]:
        for spec in ["2", "3", ".2", ""]:
            for n in range(1, 4 if q else 5):
                res.append(Case("%s:%s/n%i" % (v, spec, n), h_bins, dict(variant=v, spec=spec, n=n), bounds="%i seqs, all permutations" % n))
    for m in ["random", "laplace:2", "sort_bin_shuffle:2", "sorted"]:
        res.append(Case("determ/" + m, h_determ, dict(method=m, n=2, num_prev=1 if q and m.startswith("sort_bin") else 2), bounds="2 seqs, epochs 1..6, 1-2 earlier calls"))
    for m in ["random", "random:3", "default", "reverse"]:
        res.append(Case("determ1/" + m, h_determ_simple, dict(method=m, n=6), bounds="6 seqs, any permutation, epochs 1..4"))
    for spec, n in [("3", 6), ("4", 8), ("4", 7), (".2", 8), (".3", 7), ("5", 10)]:
        res.append(Case("laplace_big:%s/n%i" % (spec, n), h_laplace, dict(spec=spec, n=n, fixed=True), bounds="%i seqs, lens 0..1000, one permutation" % n))
    for v in ["sort_bin_shuffle", "sort_bin_shuffle_x2"]:
        for spec, n in [("3", 5), ("3", 6), (".2", 6), ("2", 5)]:
            if q and v.endswith("x2") and n > 5:
                continue
            res.append(Case("%s_big:%s/n%i" % (v, spec, n), h_bins, dict(variant=v, spec=spec, n=n, fixed=True, max_len=1), bounds="%i seqs, lens 0..1, one permutation of the seqs" % n))
    for m in ["random", "laplace", "sort_bin_shuffle"]:
        res.append(Case("seeds/" + m, h_full_epochs_differ, dict(method=m, n=3), bounds="epochs 1..40, partition_epoch<=4, nth<=3, any offset"))
    res.append(Case("every_n", h_every_n, dict(nmax=12, kmax=5), bounds="<=12 seqs, n<=5"))
    res.append(Case("callable", h_callable, dict(n=4), bounds="4 epochs"))
    return res
