"""
C04: chunking, length filter, bucket batching and shuffle buffer of the PyTorch data pipeline.
"""

import io
import numpy
import torch.utils.data
from vf.harness import *
from vf.checks.c03_torch_batching import FakeArr, _Iterable, _idx

from returnn.torch.data import pipeline as pl
from returnn.log import log as _log

PROPERTY = "C04"
ASSUMPTIONS = [
    "numpy.random.RandomState in the shuffle buffer and the buckets is a stub with arbitrary draws",
]
COVERS = ["chunk_end", "chunk_overlap", "chunk_drop", "filter_drop", "filter_keep", "bucket_drop", "bucket_full", "bucket_rest", "bucket_rand", "shuffle_multi", "shuffle_end"]


def h_chunking(h, max_len, max_size, max_step, max_min, two_keys):
    """chunking"""
    n_seqs = 2
    lens = [int(x) for x in h.ints("len", n_seqs, 0, max_len)]
    size = int(h.int("chunk_size", 1, max_size))
    step = int(h.int("chunk_step", 1, max_step))
    min_size = int(h.int("min_chunk_size", 0, max_min))
    form = h.choice("form", ["tuple", "dict"] if two_keys else ["tuple", "str", "dict"])
    keys = ["data", "classes"] if two_keys else ["data"]

    def _seqs():
        for i in range(n_seqs):
            d = {k: numpy.arange(lens[i]) + 100 * (i + 1) + 1000 * ki for ki, k in enumerate(keys)}
            d["seq_tag"] = numpy.array("seq-%i" % i)
            d["seq_idx"] = numpy.array(i)
            if form == "dict":
                d["other"] = numpy.arange(3) + i
            yield d

    if form == "tuple":
        chunking = (size, step)
    elif form == "str":
        chunking = "%i:%i" % (size, step)
    else:
        chunking = ({k: size for k in keys}, {k: step for k in keys})
    pipe = pl.ChunkingIterDataPipe(_Iterable(_seqs), chunking, min_chunk_size=min_size)
    chunks = list(pipe)
    want = []
    for i in range(n_seqs):
        for start in range(0, lens[i], step):
            end = min(start + size, lens[i])
            if end - start >= min_size:
                want.append((i, start, end))
            else:
                h.cover("chunk_drop")
    h.observe(len(chunks))
    h.check(len(chunks) == len(want), "chunking: %i chunks, expected %i" % (len(chunks), len(want)))
    for c, (i, start, end) in zip(chunks, want):
        h.check(str(c["seq_tag"]) == "seq-%i" % i and int(c["seq_idx"]) == i, "chunking: wrong seq tag")
        for ki, k in enumerate(keys):
            full = list(range(100 * (i + 1) + 1000 * ki, 100 * (i + 1) + 1000 * ki + lens[i]))
            h.check([int(x) for x in c[k]] == full[start:end], "chunking: wrong frames for %r" % k)
        if form == "dict":
            h.check([int(x) for x in c["other"]] == [i, i + 1, i + 2], "chunking: non-chunked key not passed through")
    if step < size:
        h.cover("chunk_overlap")
    h.cover("chunk_end")


def h_filter(h, n, mode):
    """LenFilterDataPipe"""
    keys = ["data", "classes"]
    lens = {k: h.ints("len_" + k, n, 0, 1000) for k in keys}
    if mode == "int":
        mn, mx = h.int("min", 0, 1000), h.int("max", 0, 1000)
        lim_min, lim_max = {k: mn for k in keys}, {k: mx for k in keys}
        kw = dict(min_seq_length=mn, max_seq_length=mx)
    elif mode == "dict":
        lim_min = {k: h.int("min_" + k, 0, 1000) for k in keys[:1]}
        lim_max = {k: h.int("max_" + k, 0, 1000) for k in keys[1:]}
        kw = dict(min_seq_length=dict(lim_min), max_seq_length=dict(lim_max))
    elif mode == "min":
        mn = h.int("min", 0, 1000)
        lim_min, lim_max = {k: mn for k in keys}, {}
        kw = dict(min_seq_length=mn)
    else:
        mx = h.int("max", 0, 1000)
        lim_min, lim_max = {}, {k: mx for k in keys}
        kw = dict(max_seq_length=mx)

    def _seqs():
        for i in range(n):
            yield {**{k: FakeArr(lens[k][i]) for k in keys}, "seq_idx": numpy.array(i), "seq_tag": numpy.array("x")}

    if mode == "dict":
        from returnn.util.basic import NumbersDict

        kw = {k: NumbersDict(v) for k, v in kw.items()}
    res = [int(d["seq_idx"]) for d in pl.LenFilterDataPipe(_Iterable(_seqs), **kw)]
    h.observe(res)
    h.check(res == sorted(set(res)), "filter: order changed")
    for i in range(n):
        keep = s_and(
            *[lens[k][i] >= lim_min[k] for k in lim_min], *[lens[k][i] <= lim_max[k] for k in lim_max]
        )
        if i in res:
            h.check(keep, "filter: kept a seq outside of the length limits")
            h.cover("filter_keep")
        else:
            h.check(s_not(keep), "filter: dropped a seq inside of the length limits")
            h.cover("filter_drop")


def h_bucket(h, n, nb, random_bucket, fixed=False):
    """BucketOrderingIterDataPipe"""
    lens = h.ints("len", n, 0, 1000)
    sizes = h.ints("bucket_len", nb, 1, nb + 1) if not fixed else [5, 2, 8, 11][:nb]
    h.assume(s_distinct(sizes))
    caps = [int(c) for c in h.ints("bucket_cap", nb, 1, 2)]
    rnd = RandomStub(h)
    _print_off()

    def _seqs():
        for i in range(n):
            yield {"data": FakeArr(lens[i]), "seq_idx": numpy.array(i)}

    with patched((numpy.random, "RandomState", rnd.RandomState)):
        pipe = pl.BucketOrderingIterDataPipe(
            _Iterable(_seqs),
            buckets=list(zip(sizes, caps)),
            length_key="data",
            random_bucket_prob=0.5 if random_bucket else 0.0,
            seed=1,
        )
        batches = [[int(d["seq_idx"]) for d in b] for b in pipe]
    h.observe(batches)
    flat = sorted(i for b in batches for i in b)
    h.check(flat == sorted(set(flat)), "bucket: sequence duplicated")
    big = s_max(sizes)
    for i in range(n):
        if i in flat:
            h.check(lens[i] <= big, "bucket: too long sequence kept")
        else:
            h.check(lens[i] > big, "bucket: sequence lost")
            h.cover("bucket_drop")
    for b in batches:
        h.check(bool(b), "bucket: empty batch")
        # fits in one bucket: exists bucket with len limit >= all, cap >= num
        opts = []
        for s, c in zip(sizes, caps):
            cond = [lens[i] <= s for i in b]
            if not random_bucket:
                # best fitting: no smaller bucket would fit
                for i in b:
                    cond += [s_or(s2 >= s, lens[i] > s2) for s2 in sizes]
            if len(b) <= c:
                opts.append(s_and(*cond))
        h.check(s_or(*opts), "bucket: batch does not fit to one bucket")
        h.check(b == sorted(b), "bucket: order inside of batch")
        h.cover("bucket_full" if len(b) in caps else "bucket_rest")
        if len(b) == 1 and 2 in caps and 1 not in caps:
            h.cover("bucket_rest")
    if random_bucket:
        h.cover("bucket_rand")


def _print_off():
    if not getattr(_log, "v4", None):
        _log.initialize(verbosity=[1])


def h_shuffle(h, n, max_buf, batch_len, max_stop=None):
    """ShufflingDataPipe: permutation of the batches, monotonic keys stay in order"""
    buf = int(h.int("buffer_size", 1, max_buf))
    rnd = RandomStub(h)
    fracs = h.ints("frac", n * batch_len, 0, 1000)

    def _seqs():
        k = 0
        for i in range(n):
            b = []
            for j in range(batch_len):
                b.append({"seq_tag": "seq-%i-%i" % (i, j), "complete_frac": fracs[k], "data": (i, j)})
                k += 1
            yield b

    with patched((numpy.random, "RandomState", rnd.RandomState)):
        pipe = pl.ShufflingDataPipe(
            _Iterable(_seqs), buffer_size=buf, monotonic_data_keys=("complete_frac",), seed=1
        )
        if max_stop is not None:  # an earlier epoch, which was stopped early
            stop = int(h.int("stop", 0, max_stop))
            for i, _ in enumerate(pipe):
                if i >= stop:
                    break
            pipe.set_seed(2)
        out = []
        for b in pipe:
            out.append([dict(d) for d in b])
    h.observe([[d["seq_tag"] for d in b] for b in out])
    got = [[d["data"] for d in b] for b in out]
    want = [[(i, j) for j in range(batch_len)] for i in range(n)]
    h.check(sorted(got) == want, "shuffle buffer: lost/duplicated/torn batches: %s" % got)
    h.check([d["seq_tag"] for b in out for d in b] == ["seq-%i-%i" % x for b in got for x in b], "shuffle: data of one seq mixed")
    flat = [d["complete_frac"] for b in out for d in b]
    h.check(len(flat) == len(fracs), "shuffle: number of seqs")
    h.check_all([a == b for a, b in zip(flat, fracs)], "shuffle: monotonic key got reordered")
    if n > buf:
        h.cover("shuffle_multi")
    h.cover("shuffle_end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    for two in [False, True]:
        res.append(
            Case(
                "chunking/%s" % ("2keys" if two else "1key"),
                h_chunking,
                dict(max_len=6 if q else 9, max_size=4 if q else 6, max_step=4 if q else 6, max_min=2 if q else 4, two_keys=two),
                bounds="2 seqs, len<=%i, size/step<=%i, min_chunk_size<=%i" % ((6, 4, 2) if q else (9, 6, 4)),
            )
        )
    for mode in ["int", "dict", "min", "max"]:
        res.append(Case("filter/" + mode, h_filter, dict(n=2 if q else 3, mode=mode), bounds="%i seqs, 2 keys, any len <=1000, any limits" % (2 if q else 3)))
    for nb in [1, 2, 3]:
        n = (2 if nb == 3 else 3) if q else (3 if nb == 3 else 4)
        res.append(Case("bucket/nb%i" % nb, h_bucket, dict(n=n, nb=nb, random_bucket=False), bounds="%i seqs, %i buckets with limits in 1..nb+1, any len" % (n, nb)))
    res.append(Case("bucket/rand", h_bucket, dict(n=2 if q else 3, nb=2, random_bucket=True), bounds="2 buckets, random bucket choice"))
    for n in range(0, 5 if q else 6):
        res.append(Case("shuffle/n%i" % n, h_shuffle, dict(n=n, max_buf=3, batch_len=1), bounds="%i batches, buffer<=3, all shufflings" % n))
    res.append(Case("bucket/rand3", h_bucket, dict(n=2, nb=3, random_bucket=True, fixed=True), bounds="3 buckets, random bucket choice"))
    res.append(Case("shuffle/again", h_shuffle, dict(n=3, max_buf=2, batch_len=1, max_stop=2), bounds="3 batches, after an epoch which was stopped early"))
    res.append(Case("shuffle/b2", h_shuffle, dict(n=3, max_buf=2, batch_len=2), bounds="3 batches of 2 seqs"))
    return res
