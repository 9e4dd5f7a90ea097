"""
C03: PyTorch batching groups the sequences in order, loses/duplicates none, keeps all limits (padding included).
"""

import numpy
from vf.harness import *

from returnn.torch.data.pipeline import BatchingIterDataPipe, get_batching_iterable_dataset_from_config
from returnn.config import Config

PROPERTY = "C03"
ASSUMPTIONS = [
    "sequences are stand-ins for numpy arrays, with symbolic shape[0]",
    "integer arithmetic is exact (Python int)",
]
COVERS = ["multi_batch", "limit_closes", "max_seqs_closes", "callable_end", "too_long_single", "config_end"]


class FakeArr:
    """array with symbolic length"""

    def __init__(self, *shape):
        self.shape = tuple(shape)
        self.ndim = len(shape)
        self.dtype = numpy.dtype("float32")
        self.size = shape[0] if len(shape) == 1 else 1

    def __len__(self):
        return int(self.shape[0])


def _src(n, lens_by_key, extra=None):
    for i in range(n):
        d = {k: FakeArr(ls[i]) if k != "multi" else FakeArr(ls[i], 3) for k, ls in lens_by_key.items()}
        d["seq_idx"] = numpy.array(i)
        d["seq_tag"] = numpy.array("seq-%i" % i)
        if extra:
            d.update(extra(i))
        yield d


class _Iterable:
    def __init__(self, f):
        self.f = f

    def __iter__(self):
        return iter(self.f())


def _idx(batch):
    return [int(d["seq_idx"]) for d in batch]


def check_batches(h, batches, n, lens_by_key, limit, max_seqs, what=""):
    """
    :param limit: func(key, seq_idx) -> limit in effect when that seq is added, or None
    :param max_seqs: func(seq_idx)
    """
    h.observe([_idx(b) for b in batches])
    h.check(all(len(b) > 0 for b in batches), what + "empty batch")
    flat = [i for b in batches for i in _idx(b)]
    h.check(flat == list(range(n)), what + "not every sequence exactly once and in order: %s" % flat)
    for bi, b in enumerate(batches):
        idx = _idx(b)
        last = idx[-1]
        ms = max_seqs(last)
        if ms is not None:
            h.check(len(idx) <= ms, what + "batch has more than max_seqs sequences")
        if len(idx) > 1:
            conds = []
            for k, lens in lens_by_key.items():
                lim = limit(k, last)
                if lim is not None:
                    conds.append(s_max([lens[i] for i in idx]) * len(idx) <= lim)
            h.check_all(conds, what + "padded batch exceeds the batch size limit")
        if bi + 1 < len(batches):
            # closed only if the next one would not have fit
            nxt = last + 1
            reasons = []
            ms = max_seqs(nxt)
            if ms is not None:
                reasons.append(len(idx) >= ms)
            for k, lens in lens_by_key.items():
                lim = limit(k, nxt)
                if lim is not None:
                    reasons.append(s_max([lens[i] for i in idx + [nxt]]) * (len(idx) + 1) > lim)
            h.check(s_or(*reasons), what + "batch closed although the next sequence would have fit")
            h.cover("multi_batch")
            for r in reasons[1:]:
                h.cover("limit_closes", r)
            h.cover("max_seqs_closes", reasons[0])


def h_batching(h, n, keys, limit_kind, max_seqs_kind, max_len):
    """BatchingIterDataPipe"""
    lens = {k: h.ints("len_%s_" % k, n, 0, max_len) for k in keys}
    if limit_kind == "int":
        bs = h.int("batch_size", 1, 3 * max_len)
        lim = {k: bs for k in keys}
    elif limit_kind == "dict":
        lim = {k: h.int("batch_size_" + k, 1, 3 * max_len) for k in keys}
        bs = dict(lim)
    elif limit_kind == "dict_partial":
        lim = {keys[0]: h.int("batch_size_" + keys[0], 1, 3 * max_len)}
        bs = dict(lim)
    elif limit_kind == "none":
        bs = None
        lim = {}
    else:
        raise ValueError(limit_kind)
    if max_seqs_kind == "int":
        ms = h.int("max_seqs", 1, n + 1)
        ms_ = ms
    elif max_seqs_kind == "none":
        ms, ms_ = None, None
    else:
        ms, ms_ = -1, None
    pipe = BatchingIterDataPipe(_Iterable(lambda: _src(n, lens)), batch_size=bs, max_seqs=ms)
    batches = [list(b) for b in pipe]
    if lim:
        for b in batches:
            if len(b) == 1 and n > 1:
                h.cover("too_long_single", s_or(*[lens[k][_idx(b)[0]] > lim[k] for k in lim]))
    check_batches(h, batches, n, lens, lambda k, i: lim.get(k), lambda i: ms_)
    # second pass over the same pipe: same result (no state left over)
    batches2 = [_idx(b) for b in pipe]
    h.check(batches2 == [_idx(b) for b in batches], "second iteration over the same pipe differs")


def h_callable(h, n, max_len):
    """limits given as functions of the position in the epoch"""
    lens = {"data": h.ints("len", n, 0, max_len)}
    bs = [h.int("bs%i" % i, 1, 3 * max_len) for i in range(n)]
    ms = [h.int("ms%i" % i, 1, n) for i in range(n)]
    epoch = int(h.int("epoch", 1, 3))
    known = h.choice("known", ["frac", "num_seqs", "none"])
    unlimited = h.choice("unlimited", ["no", "-1", "None"]) if known == "none" else "no"
    if unlimited != "no":
        ms = [n + 1] * n
        if unlimited == "None":
            bs = [3 * n * max_len + 1] * n
    seen = []

    def _kw(i, epoch, seq_idx, epoch_continuous):
        h.check(epoch == epoch_, "epoch arg")
        if known == "frac":
            want = epoch_ - 1 + frac(seq_idx)
        elif known == "num_seqs":
            want = epoch_ - 1 + (seq_idx + 1) / n
        else:
            want = None
        h.check(epoch_continuous == want, "epoch_continuous arg: %s, expected %s" % (epoch_continuous, want))
        seen.append((i, seq_idx))

    epoch_ = epoch

    def frac(i):
        """complete frac"""
        return i / 8.0

    def _bs(*, epoch, seq_idx, epoch_continuous, **_kwargs):
        _kw("bs", epoch, seq_idx, epoch_continuous)
        return bs[seq_idx] if unlimited != "None" else None

    def _ms(*, epoch, seq_idx, epoch_continuous, **_kwargs):
        _kw("ms", epoch, seq_idx, epoch_continuous)
        return {"no": ms[seq_idx], "-1": -1, "None": None}[unlimited]

    def _extra(i):
        return {
            "epoch": numpy.array(epoch),
            "num_seqs": numpy.array(n if known in ("num_seqs", "frac") else -1),
            "complete_frac": numpy.array(frac(i) if known == "frac" else -1.0, dtype="float32"),
        }

    pipe = BatchingIterDataPipe(_Iterable(lambda: _src(n, lens, _extra)), batch_size=_bs, max_seqs=_ms)
    batches = [list(b) for b in pipe]
    check_batches_dyn(h, batches, n, lens["data"], bs, ms)
    h.cover("callable_end")


def check_batches_dyn(h, batches, n, lens, bs, ms):
    """limits at the time of adding each seq"""
    h.observe([_idx(b) for b in batches])
    flat = [i for b in batches for i in _idx(b)]
    h.check(flat == list(range(n)), "not every sequence exactly once and in order: %s" % flat)
    for b in batches:
        idx = _idx(b)
        h.check(bool(idx), "empty batch")
        for j in range(1, len(idx)):
            i = idx[j]
            h.check_all(
                [j + 1 <= ms[i], s_max([lens[x] for x in idx[: j + 1]]) * (j + 1) <= bs[i]],
                "sequence added although the limit in effect for it was exceeded",
            )
    for b, b_next in zip(batches, batches[1:]):
        idx, nxt = _idx(b), _idx(b_next)[0]
        h.check(
            s_or(len(idx) >= ms[nxt], s_max([lens[x] for x in idx + [nxt]]) * (len(idx) + 1) > bs[nxt]),
            "batch closed although the next sequence would have fit (limits in effect for it)",
        )


def h_config(h, n, max_len):
    """via config, train/dev specific batch size"""
    lens = {"data": h.ints("len", n, 0, max_len)}
    bs = h.int("batch_size", 1, 2 * max_len)
    bs_train = h.int("batch_size_train", 1, 2 * max_len)
    bs_dev = h.int("batch_size_dev", 1, 2 * max_len)
    has_train = bool(h.bool("has_train"))
    has_dev = bool(h.bool("has_dev"))
    train = bool(h.bool("train"))
    has_ms = bool(h.bool("has_max_seqs"))
    ms = h.int("max_seqs", 1, n)
    opts = {"batch_size": bs}
    if has_train:
        opts["batch_size_train"] = bs_train
    if has_dev:
        opts["batch_size_dev"] = bs_dev
    if has_ms:
        opts["max_seqs"] = ms
    config = Config()
    config.update(opts)
    pipe = get_batching_iterable_dataset_from_config(
        dataset=_Iterable(lambda: _src(n, lens)), config=config, train=train
    )
    batches = [list(b) for b in pipe]
    lim = (bs_train if has_train else bs) if train else (bs_dev if has_dev else bs)
    check_batches(h, batches, n, lens, lambda k, i: lim, lambda i: ms if has_ms else None)
    h.cover("config_end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    nmax = 4 if q else 5
    for n in range(0, nmax + 1):
        for keys in [("data",), ("data", "classes")]:
            for lk in ["int", "dict", "dict_partial", "none"]:
                for mk in ["int", "none", "minus1"]:
                    if mk == "minus1" and lk != "int":
                        continue
                    if len(keys) == 1 and lk == "dict_partial":
                        continue
                    if len(keys) == 2 and n > (3 if q else 4):
                        continue
                    res.append(
                        Case(
                            "batching/%s/%s/%s/n%i" % ("+".join(keys), lk, mk, n),
                            h_batching,
                            dict(n=n, keys=keys, limit_kind=lk, max_seqs_kind=mk, max_len=1000),
                            bounds="%i seqs, lens 0..1000 per key %s, batch_size 1..3000, max_seqs 1..n+1" % (n, keys),
                        )
                    )
    for n in range(1, 4 if q else 5):
        res.append(Case("callable/n%i" % n, h_callable, dict(n=n, max_len=100), bounds="%i seqs" % n))
    res.append(Case("config", h_config, dict(n=2, max_len=100), bounds="2 seqs"))
    return res
