"""
C05: generic (backend independent) chunking and batch generation of datasets.
"""

import numpy
from vf.harness import *

from returnn.datasets.basic import Dataset
from returnn.engine.batch import BatchSetGenerator
from returnn.util.basic import NumbersDict
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])

PROPERTY = "C05"
ASSUMPTIONS = ["sequence lengths are >= 1 for batch generation (a batch without any frame is never emitted)"]
COVERS = ["chunk_multi", "chunk_end", "batch_multi", "batch_end", "filtered", "nonrec_split", "bsg_end", "bsg_reset", "total_limit", "ctx_end"]


class _Ds(Dataset):
    def __init__(self, lens, **kwargs):
        super().__init__(**kwargs)
        self._lens = lens  # list of dict
        self.num_outputs = {k: (1, 2) for k in (lens[0] if lens else {"data": 0})}
        self.num_inputs = 1

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        """init"""
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        self._num_seqs = len(self._lens)
        return True

    @property
    def num_seqs(self):
        """num"""
        return len(self._lens)

    def is_less_than_num_seqs(self, n):
        """is"""
        return n < len(self._lens)

    def get_seq_length(self, seq_idx):
        """len"""
        return NumbersDict(dict(self._lens[seq_idx]))


def _mk(lens, **kw):
    ds = _Ds(lens, **kw)
    ds.init_seq_order(epoch=1)
    return ds


def h_chunks(h, n, max_len, max_size, max_step, max_min, keys):
    """iterate_seqs"""
    lens = [h.int("len%i" % i, 0, max_len) for i in range(n)]
    size = h.int("chunk_size", 1, max_size)
    step = h.int("chunk_step", 1, max_step)
    mn = h.int("min_chunk_size", 0, max_min)
    ds = _mk([{k: ln for k in keys} for ln in lens], chunking=(size, step), min_chunk_size=mn)
    chunks = [
        (s, {k: a[k] for k in keys}, {k: b[k] for k in keys})
        for s, a, b in ds.iterate_seqs(used_data_keys=set(keys))
    ]
    h.observe([(s, a["data"], b["data"]) for s, a, b in chunks])
    pos = 0
    for i in range(n):
        ln = lens[i]
        mine = [c for c in chunks if c[0] == i]
        h.check(chunks[pos : pos + len(mine)] == mine or all(chunks[pos + j][0] == i for j in range(len(mine))), "chunks of seqs mixed up")
        pos += len(mine)
        for j, (_, a, b) in enumerate(mine):
            for k in keys:
                h.check(a[k] == j * step, "chunk start")
                h.check(b[k] == s_min(j * step + size, ln), "chunk end")
            h.check(j * step < ln, "chunk starts behind the end of the seq")
            if j > 0:
                h.check(ln - j * step >= mn, "chunk shorter than min_chunk_size")
                h.cover("chunk_multi")
        nxt = len(mine) * step
        if not mine:
            h.check(ln == 0, "seq lost")
        else:
            h.check(s_or(nxt >= ln, ln - nxt <= mn), "frames at the end of the seq lost")
    h.check(pos == len(chunks), "more chunks than expected")
    h.cover("chunk_end")


def h_chunks_ratio(h, n, max_len, ratio, max_size):
    """keys with different frame rates: chunk sizes in same ratio"""
    cls_len = [h.int("len%i" % i, 1, max_len) for i in range(n)]
    size = h.int("chunk_size", 1, max_size)
    ds = _mk(
        [{"data": ln * ratio, "classes": ln} for ln in cls_len],
        chunking=({"data": size * ratio, "classes": size}, {"data": size * ratio, "classes": size}),
        min_chunk_size={"data": ratio, "classes": 1},
    )
    chunks = list(ds.iterate_seqs(used_data_keys={"data", "classes"}))
    for s, a, b in chunks:
        h.check_all(
            [a["data"] == a["classes"] * ratio, s_or(b["data"] == b["classes"] * ratio, cls_len[s] <= 1)],
            "chunks of the keys not aligned",
        )
    for i in range(n):
        mine = [(a, b) for s, a, b in chunks if s == i]
        h.check(len(mine) > 0, "seq lost")
        h.check_all([a["classes"] == j * size for j, (a, _) in enumerate(mine)], "chunk starts")
        h.check(cls_len[i] - len(mine) * size <= 1, "frames at the end of the seq lost")
    h.cover("chunk_end")


def h_chunks_full(h, max_len, max_size):
    """a key with one frame (or none): the full seq in every chunk"""
    ln = h.int("len", 2, max_len)
    ln2 = h.int("len_classes", 0, 1)
    size = h.int("chunk_size", 1, max_size)
    step = h.int("chunk_step", 1, size)
    ds = _mk([{"data": ln, "classes": ln2}], chunking=(size, step))
    chunks = list(ds.iterate_seqs(used_data_keys={"data", "classes"}))
    h.check(len(chunks) > 0, "seq lost")
    for j, (s, a, b) in enumerate(chunks):
        h.check_all([a["classes"] == 0, b["classes"] == ln2], "full seq for the key with one frame")
        h.check_all([a["data"] == j * step, b["data"] == s_min(j * step + size, ln)], "chunks of data")
    h.check(len(chunks) * step >= ln, "frames of data lost")
    h.cover("chunk_end")


def h_batches(h, n, max_len, keys, opts, chunked):
    """_generate_batches, recurrent"""
    lens = [{k: h.int("len_%s_%i" % (k, i), 1 if k == "data" else 0, max_len) for k in keys} for i in range(n)]
    kw = {}
    dskw = {}
    big = 4 * max_len
    bs = {k: h.int("batch_size_" + k, 1, big) for k in keys}
    kw["batch_size"] = dict(bs)
    ms = mp = mx = mnl = None
    if "max_seqs" in opts:
        ms = kw["max_seqs"] = h.int("max_seqs", 1, n)
    if "max_pad_size" in opts:
        mp = h.int("max_pad_size", 0, big)
        kw["max_pad_size"] = mp
    neg = None
    if "neg_max_seq_length" in opts:
        neg = h.int("max_seq_length", 1, max_len)
        kw["max_seq_length"] = -neg
    if "max_seq_length" in opts:
        mx = kw["max_seq_length"] = h.int("max_seq_length", 1, max_len)
    if "min_seq_length" in opts:
        mnl = kw["min_seq_length"] = h.int("min_seq_length", 0, max_len)
    if chunked:
        for ln in lens:
            for k in keys[1:]:
                ln[k] = ln[keys[0]]
        size = h.int("chunk_size", 1, max_len)
        dskw["chunking"] = (size, size)
    ctx = 1
    if "context_window" in opts:
        ctx = int(h.int("context_window", 1, 3))
        dskw["context_window"] = NumbersDict({k: ctx for k in keys})
    ds = _mk(lens, **dskw)
    gen = ds.generate_batches(recurrent_net=True, used_data_keys=set(keys), **kw)
    batches = []
    while gen.has_more():
        (b,) = gen.peek_next_n(1)
        batches.append(b)
        gen.advance(1)
        h.check(len(batches) <= 4 * n * max_len, "endless")
    # expected stream of chunks
    left, right = (ctx - 1) // 2, ctx - 1 - (ctx - 1) // 2
    got = []
    for b in batches:
        h.check(len(b.seqs) > 0, "empty batch")
        h.check(b.num_slices == len(b.seqs), "num slices")
        for j, p in enumerate(b.seqs):
            h.check(p.batch_slice == j, "two sequences in the same slice")
            got.append((p.seq_idx, {k: p.seq_start_frame[k] for k in keys}, {k: p.seq_end_frame[k] for k in keys}))
    h.observe([g[0] for g in got])
    h.check([g[0] for g in got] == sorted(g[0] for g in got), "order of seqs changed")
    for b in batches:
        m = len(b.seqs)
        if ms is not None:
            h.check(m <= ms, "more than max_seqs sequences in batch")
        for k in keys:
            ls = [p.seq_end_frame[k] - p.seq_start_frame[k] for p in b.seqs]
            h.check(b.max_num_frames_per_slice[k] == s_max(ls), "padded length of batch")
            if m > 1:
                h.check(s_max(ls) * m <= bs[k], "padded batch larger than batch_size")
                if mp is not None:
                    h.check(s_max(ls) * m - s_sum(ls) <= mp, "more than max_pad_size padded frames")
            if mx is not None:
                h.check_all([x <= mx for x in ls], "sequence longer than max_seq_length")
            if mnl is not None:
                h.check_all([x >= mnl for x in ls], "sequence shorter than min_seq_length")
    if not chunked:
        for i in range(n):
            mine = [g for g in got if g[0] == i]
            h.check(len(mine) <= 1, "sequence used twice")
            tot = {k: lens[i][k] + ctx - 1 for k in keys}
            ok = s_and(
                *([tot[k] <= mx for k in keys] if mx is not None else []),
                *([tot[k] >= mnl for k in keys] if mnl is not None else []),
                *([tot["classes"] <= neg] if neg is not None else []),
            )
            if not mine:
                h.check(s_not(ok), "sequence lost")
                h.cover("filtered")
            else:
                h.check(ok, "sequence outside of the length limits used")
                _, a, b = mine[0]
                h.check_all([s_and(a[k] == -left, b[k] == lens[i][k] + right) for k in keys], "wrong frame range of the seq")
    else:
        for i in range(n):
            mine = [g for g in got if g[0] == i]
            end = 0
            for _, a, b in mine:
                for k in keys:
                    h.check(s_and(a[k] == end - left, b[k] == s_min(end + size, lens[i][k]) + right), "chunks not contiguous")
                end = end + size
            if mx is None and mnl is None:
                h.check(end >= lens[i][keys[0]], "frames lost")
    if len(batches) > 1:
        h.cover("batch_multi")
    if ctx > 1:
        h.cover("ctx_end")
    h.cover("batch_end")


def h_batches_nonrec(h, n, max_len):
    """non recurrent: frames are concatenated"""
    lens = [{"data": h.int("len%i" % i, 1, max_len)} for i in range(n)]
    bs = h.int("batch_size", 1, max_len + 1)
    ds = _mk(lens)
    gen = ds.generate_batches(recurrent_net=False, batch_size=bs, used_data_keys={"data"})
    batches = []
    while gen.has_more():
        batches.append(gen.peek_next_n(1)[0])
        gen.advance(1)
    pos = {i: 0 for i in range(n)}
    last = 0
    for b in batches:
        h.check(b.num_slices == 1, "non-recurrent: one slice")
        off = 0
        for p in b.seqs:
            h.check(p.seq_idx >= last, "order")
            last = p.seq_idx
            h.check(p.seq_start_frame["data"] == pos[p.seq_idx], "frames not contiguous")
            h.check(p.seq_end_frame["data"] > p.seq_start_frame["data"], "empty part")
            h.check(p.batch_frame_offset["data"] == off, "parts overlap in the batch")
            off = off + p.frame_length["data"]
            pos[p.seq_idx] = p.seq_end_frame["data"]
        h.check(off <= bs, "more than batch_size frames")
        h.check(b.get_all_slices_num_frames()["data"] == off, "frames of batch")
    h.check_all([pos[i] == lens[i]["data"] for i in range(n)], "frames lost")
    if len(batches) > 1:
        h.cover("nonrec_split")


def h_total(h, n, max_len):
    """max_total_num_seqs"""
    lens = [{"data": h.int("len%i" % i, 1, max_len)} for i in range(n)]
    mt = h.int("max_total_num_seqs", 1, n + 1)
    size = h.int("chunk_size", 0, 2)
    ds = _mk(lens, chunking=(size, size))
    gen = ds.generate_batches(
        recurrent_net=True, batch_size=1000, max_seqs=h.int("max_seqs", 1, 2), max_total_num_seqs=mt, used_data_keys={"data"}
    )
    seqs = []
    frames = {}
    while gen.has_more():
        for p in gen.peek_next_n(1)[0].seqs:
            seqs.append(p.seq_idx)
            frames[p.seq_idx] = frames.get(p.seq_idx, 0) + p.frame_length["data"]
        gen.advance(1)
    used = sorted(set(seqs))
    h.check(used == list(range(len(used))), "seqs")
    h.check(len(used) == s_min(mt, n), "max_total_num_seqs: number of sequences")
    h.check_all([frames[i] == lens[i]["data"] for i in used], "max_total_num_seqs: sequence cut")
    h.cover("total_limit")


class _B:
    def __init__(self, i):
        self.start_seq = i


def h_bsg(h, n, steps, cached):
    """BatchSetGenerator: any history of peek / advance / has_more"""
    bs = [_B(i) for i in range(n)]
    ds = _mk([{"data": 1}] * max(n, 1))
    gen = BatchSetGenerator(dataset=ds, generator=iter(bs), cache_whole_epoch=cached)
    early = bool(h.bool("early")) if cached else False
    for rnd in range((3 if early else 2) if cached else 1):
        pos = 0
        for t in range(steps if rnd == 0 else 1 if rnd == 1 and not early else 0):
            op = h.choice("op%i_%i" % (rnd, t), ["peek", "advance", "has_more"])
            k = int(h.int("k%i_%i" % (rnd, t), 1, 3))
            if op == "peek":
                got = gen.peek_next_n(k)
                h.check([b.start_seq for b in got] == list(range(pos, min(pos + k, n))), "peek_next_n")
            elif op == "has_more":
                h.check(gen.has_more() == (pos < n), "has_more")
            else:
                if pos + k > n:
                    continue
                gen.advance(k)
                pos += k
                h.check(gen.get_current_batch_idx() == pos, "batch idx")
        if early and rnd == 0:
            gen.reset()
            continue
        rest = []
        while gen.has_more():
            rest += gen.peek_next_n(1)
            gen.advance(1)
        h.check([b.start_seq for b in rest] == list(range(pos, n)), "batches lost or duplicated")
        h.check(not gen.has_more(), "end")
        if cached:
            gen.reset()
            h.cover("bsg_reset")
    h.cover("bsg_end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    for keys in [("data",), ("classes", "data")]:
        res.append(
            Case(
                "chunks/" + "+".join(keys),
                h_chunks,
                dict(n=2, max_len=6 if q else 9, max_size=4, max_step=3 if q else 4, max_min=2 if q else 3, keys=keys),
                bounds="2 seqs, len<=%i, size<=4, step<=3" % (6 if q else 9),
            )
        )
    res.append(Case("chunks_ratio", h_chunks_ratio, dict(n=1, max_len=6, ratio=3, max_size=3), bounds="len<=6"))
    for keys in [("data",), ("data", "classes")]:
        for opts in [(), ("max_seqs",), ("max_pad_size",), ("max_seq_length", "min_seq_length"), ("max_seqs", "context_window"), ("max_seqs", "max_pad_size", "max_seq_length")]:
            n = 3 if len(keys) == 1 else 2
            if not q:
                n += 1
            res.append(
                Case(
                    "batches/%s/%s" % ("+".join(keys), "+".join(opts)),
                    h_batches,
                    dict(n=n, max_len=100, keys=keys, opts=opts, chunked=False),
                    bounds="%i seqs, len<=100, any limits" % n,
                )
            )
    res.append(Case("batches/data+classes/neg_max", h_batches, dict(n=2 if q else 3, max_len=100, keys=("data", "classes"), opts=("neg_max_seq_length",), chunked=False), bounds="2 seqs, len<=100"))
    res.append(Case("chunks_full", h_chunks_full, dict(max_len=6 if q else 8, max_size=3), bounds="len<=6, other key len<=1"))
    res.append(Case("batches_chunked", h_batches, dict(n=2, max_len=4 if q else 6, keys=("data",), opts=("max_seqs",), chunked=True), bounds="2 seqs, len<=4"))
    res.append(Case("batches_chunked2", h_batches, dict(n=1, max_len=4 if q else 6, keys=("data", "classes"), opts=("max_seqs", "max_pad_size"), chunked=True), bounds="1 seq, len<=4"))
    res.append(Case("nonrec", h_batches_nonrec, dict(n=2 if q else 3, max_len=4), bounds="2 seqs, len<=4"))
    res.append(Case("total", h_total, dict(n=3, max_len=4), bounds="3 seqs, len<=4, chunk_size<=2"))
    for n in range(0, 4):
        for cached in [False, True]:
            res.append(Case("bsg/n%i/%s" % (n, cached), h_bsg, dict(n=n, steps=3 if q else 4, cached=cached), bounds="%i batches, all histories of %i ops" % (n, 3 if q else 4)))
    return res
