"""
C08: post-processed datasets: every sequence of the wrapped dataset goes exactly once, in order, through the mapping.
"""

import numpy
from vf.harness import *

import returnn.datasets.postprocessing as pp
import returnn.datasets.basic as dsb
from returnn.datasets.basic import init_dataset, DatasetSeq
from returnn.datasets.cached2 import CachedDataset2
from returnn.tensor import TensorDict
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])

PROPERTY = "C08"
ASSUMPTIONS = [
    "the wrapped dataset is a stand-in corpus (real CachedDataset2 subclass) with symbolic sequence lengths, arbitrary order, known or unknown number of sequences",
    "the mapping functions are given by the harness: what they drop, duplicate or reorder is symbolic",
    "random draws are an arbitrary function of (seed, draw index)",
]
COVERS = ["end", "second_epoch", "stopped_early", "laplace", "laplace_tie", "laplace_partial", "dropped", "dup", "none_left", "refused", "unknown", "no_frac", "seq_list", "shard", "skipped"]


class SymArr(numpy.ndarray):
    """array with symbolic length"""

    def __new__(cls, length, value, dims=(2,), dtype="float32"):
        """new"""
        obj = numpy.full((1,) + dims, value, dtype=dtype).view(cls)
        obj.sym_length = length
        return obj

    def __array_finalize__(self, obj):
        self.sym_length = getattr(obj, "sym_length", None)

    @property
    def shape(self):
        """shape"""
        base = numpy.ndarray.shape.__get__(self)
        if self.sym_length is None:
            return base
        return (self.sym_length,) + base[1:]

    def __len__(self):
        return self.shape[0]

    @property
    def val(self):
        """val"""
        return float(self.view(numpy.ndarray).flat[0])


class _Corpus(CachedDataset2):
    """wrapped dataset"""

    lens = None  # set by harness

    def __init__(self, n, known=True, **kwargs):
        super().__init__(**kwargs)
        self.n = n
        self.known = known
        self.num_inputs = 2
        self.num_outputs = {"data": (2, 2), "classes": (100, 1)}
        self.labels = {}
        self.order = None

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        """init"""
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        if epoch is None and seq_list is None and seq_order is None:
            self.order = []
        elif seq_order is not None:
            self.order = list(seq_order)
        elif seq_list is not None:
            self.order = [int(t[len("tag-") :]) for t in seq_list]
        else:
            self.order = [int(i) for i in self.get_seq_order_for_epoch(epoch=epoch, num_seqs=self.n)]
        self._num_seqs = len(self.order) if self.known else None
        return True

    def supports_sharding(self):
        """yes"""
        return True

    def get_current_seq_order(self):
        """order"""
        return self.order

    def get_total_num_seqs(self, *, fast=False):
        """n"""
        return self.n

    def get_data_keys(self):
        """keys"""
        return ["data", "classes"]

    def get_data_dtype(self, key):
        """dtype"""
        return {"data": "float32", "classes": "int32"}[key]

    def get_data_shape(self, key):
        """shape"""
        return {"data": [2], "classes": []}[key]

    def _collect_single_seq(self, seq_idx):
        if seq_idx >= len(self.order):
            return None
        i = self.order[seq_idx]
        return DatasetSeq(
            seq_idx=seq_idx,
            seq_tag="tag-%i" % i,
            features={"data": SymArr(_Corpus.lens[i], self.epoch * 100 + i), "classes": SymArr(_Corpus.lens[i], i, (), "int32")},
        )


def _val(x):
    return float(numpy.asarray(x).view(numpy.ndarray).flat[0])


def _tag(td):
    return str(td.data["seq_tag"].raw_tensor)


def _read(ds, n_max, ahead=1):
    res = []
    i = 0
    while i < n_max and ds.is_less_than_num_seqs(i):
        ds.load_seqs(i, i + ahead)
        res.append((ds.get_tag(i), _val(ds.get_data(i, "data")), _val(ds.get_data(i, "classes")), ds.get_complete_frac(i, allow_only_lr_suitable=True)))
        i += 1
    return res


def _check_frac(h, fracs, known, complete):
    for a, b in zip(fracs, fracs[1:]):
        if a is not None and b is not None:
            h.check(a <= b, "complete fraction decreases: %s" % fracs)
    for f in fracs:
        h.check(f is None or 0 < f <= 1, "complete fraction not in (0,1]: %s" % fracs)
    if known and fracs:
        h.check(all(f is not None for f in fracs), "no complete fraction: %s" % fracs)
        if complete:
            h.check(fracs[-1] == 1, "complete fraction at the end: %s" % fracs)


def _orders(h, cfg, n):
    """reference order"""
    ds = init_dataset(dict(cfg))
    return ds


def h_map_seq(h, n, ordering, opt):
    """map_seq"""
    _Corpus.lens = [h.int("len%i" % i, 1, 50) for i in range(n)]
    known = "unknown" not in opt
    cfg = {"class": _Corpus, "n": n, "known": known, "seq_ordering": ordering}
    outer = {}
    if "part" in opt:
        cfg["partition_epoch"] = 2
    if "shard" in opt:
        ns = int(h.int("num_shards", 1, 3))
        si = int(h.int("shard_index", 0, 2))
        h.assume(si < ns)
        outer = {"_num_shards": ns, "_shard_index": si}
        h.cover("shard", ns > 1)
    drop_meta = "drop_meta" in opt
    rnd = RandomStub(h)
    calls = []

    def map_seq(td, *, epoch, seq_idx, rng, **_kw):
        """map"""
        i = int(_val(td.data["classes"].raw_tensor))
        draw = rng.randint(0, 10)
        calls.append((epoch, seq_idx, _tag(td), i, draw))
        h.check(_val(td.data["data"].raw_tensor) == epoch * 100 + i, "data of other sequence")
        h.check(td.data["data"].raw_tensor.shape[0] == _Corpus.lens[i], "length changed")
        out = TensorDict({k: v for k, v in td.data.items() if not drop_meta or k in ("data", "classes")})
        new = out.data["data"].copy_template()
        new.raw_tensor = SymArr(_Corpus.lens[i] * 2, epoch * 1000 + i)
        out.data["data"] = new
        return out

    ep = int(h.int("epoch", 1, 3))
    with patched((dsb, "RandomState", rnd.RandomState), (numpy.random, "RandomState", rnd.RandomState), (pp, "RandomState", rnd.RandomState)):
        ds = init_dataset({"class": "PostprocessingDataset", "dataset": dict(cfg), "map_seq": map_seq, **outer})
        ref = init_dataset({**cfg, **outer})
        hist = [ep]
        if "history" in opt:
            hist = [int(h.int("epoch0", 1, 3)), ep, ep]
        draws = {}
        for j, e in enumerate(hist):
            kw = {"epoch": e}
            if "seq_list" in opt:
                sel = [i for i in reversed(range(n)) if bool(h.bool("sel%i" % i))]
                if not sel:
                    h.stop()
                if bool(h.bool("as_seq_order")):
                    kw["seq_order"] = sel
                else:
                    kw["seq_list"] = ["tag-%i" % i for i in sel]
                h.cover("seq_list")
            calls.clear()
            ds.init_seq_order(**kw)
            ref.init_seq_order(**kw)
            want = [("tag-%i" % i, float(e * 1000 + i), float(i)) for i in ref.order]
            if known:
                h.check(ds.num_seqs == len(want), "num_seqs %s instead of %i" % (ds.num_seqs, len(want)))
            else:
                h.cover("unknown")
            stop = int(h.int("stop", 0, n)) if "history" in opt and j == 0 else n + 1
            h.cover("stopped_early", stop < n)
            h.cover("second_epoch", j > 0)
            if not known and not want:
                h.stop()  # "Not a single seq was loaded"
            if "skip" in opt:
                for i in range(len(want)):
                    if bool(h.bool("take%i" % i)):
                        ds.load_seqs(i, i + 1)
                        x = (ds.get_tag(i), _val(ds.get_data(i, "data")), _val(ds.get_data(i, "classes")))
                        h.check(x == want[i], "sequence %i is %s, expected %s" % (i, x, want[i]))
                    else:
                        h.cover("skipped")
                h.cover("end")
                h.stop()
            if "beyond" in opt:
                beyond = int(h.int("beyond", 0, 2 * n))
                h.check(bool(ds.is_less_than_num_seqs(beyond)) == (beyond < len(want)), "is_less_than_num_seqs(%i), but %i sequences" % (beyond, len(want)))
                if beyond >= len(want):
                    h.check(ds.num_seqs == len(want), "num_seqs %s instead of %i" % (ds.num_seqs, len(want)))
            ahead = int(h.int("ahead", 1, 3)) if "history" in opt and j == 0 else 1
            got = _read(ds, stop, ahead)
            h.observe([x[0] for x in got])
            h.check([x[:3] for x in got] == want[:stop], "epoch %i: sequences %s, expected %s" % (e, [x[:3] for x in got], want[:stop]))
            _check_frac(h, [x[3] for x in got], known, stop > n)
            h.check([c[0] for c in calls] == [e] * len(calls), "epoch given to map_seq: %s" % calls)
            h.check([c[1] for c in calls] == list(range(len(calls))), "seq_idx given to map_seq: %s" % calls)
            h.check([c[2] for c in calls[: len(got)]] == [w[0] for w in want[: len(got)]], "tags given to map_seq: %s" % calls)
            if "random" not in opt:
                for (_, k, _, _, d) in calls:
                    if (e, k) in draws:
                        h.check(d == draws[e, k], "random numbers of epoch %i depend on what was loaded before" % e)
                    draws[e, k] = d
            if stop > n and "seq_list" not in opt:
                h.check(ds.get_total_num_seqs() == n, "total num seqs")
                h.check(list(ds.get_current_seq_order()) == list(ref.order), "current seq order")
        h.cover("end")


def h_stream(h, n, kind, opt):
    """map_seq_stream"""
    _Corpus.lens = [h.int("len%i" % i, 1, 50) for i in range(n)]
    known = "unknown" not in opt
    cfg = {"class": _Corpus, "n": n, "known": known}
    rep = [int(h.int("rep%i" % i, 0, 2 if kind == "any" else 1)) for i in range(n)]
    no_frac = "no_frac" in opt
    h.cover("dropped", any(r == 0 for r in rep))
    h.cover("dup", any(r == 2 for r in rep))
    h.cover("no_frac", no_frac)
    seen = []

    def stream(it, *, epoch, rng, **_kw):
        """map"""
        assert rng is not None
        for td in it:
            i = int(_val(td.data["classes"].raw_tensor))
            seen.append((epoch, i))
            for k in range(rep[i]):
                out = TensorDict(dict(td.data))
                new = out.data["data"].copy_template()
                new.raw_tensor = SymArr(_Corpus.lens[i] + k, epoch * 1000 + i * 10 + k)
                out.data["data"] = new
                if no_frac:
                    out.data.pop("complete_frac", None)
                yield out

    extra = {}
    if "preserve" in opt:
        extra["map_seq_stream_preserves_num_seqs"] = True
    func = stream
    if "seq" in opt:
        g = []

        def second(it, **_kw):
            """count"""
            for td in it:
                g.append(_tag(td))
                yield td

        func = pp.Sequential(stream, second)
        if "laplace" in opt:
            func = pp.Sequential(stream, second, pp.LaplaceOrdering(num_seqs_per_bin=1))
    ds = init_dataset({"class": "PostprocessingDataset", "dataset": dict(cfg), "map_seq_stream": func, **extra})
    ep1 = int(h.int("epoch", 1, 3))
    for j, e in enumerate([ep1, ep1 + 1]):
        want = [("tag-%i" % i, float(e * 1000 + i * 10 + k), float(i)) for i in range(n) for k in range(rep[i])]
        seen.clear()
        if "seq" in opt:
            g.clear()
        ds.init_seq_order(epoch=e)
        stop = int(h.int("stop", 0, n)) if j == 0 and "history" in opt else 3 * n
        h.cover("stopped_early", stop < len(want))
        if "preserve" in opt:
            h.check(ds.num_seqs == n, "num_seqs")
            if len(want) != n:
                # promised, but not kept: must not be hidden
                got = []
                try:
                    for i in range(n):
                        ds.load_seqs(i, i + 1)
                        got.append(ds.get_tag(i))
                    ds.load_seqs(n, n + 1)
                except (AssertionError, AttributeError):
                    h.cover("refused")
                    h.observe(got)
                    h.check(got == [w[0] for w in want][: len(got)], "sequences %s instead of %s" % (got, want))
                    h.stop()
                if len(want) < n:
                    h.fail("fewer sequences than promised were accepted: %s" % got)
                h.stop()
        if not want:
            h.cover("none_left")
            try:
                got = _read(ds, stop)
            except AssertionError:
                h.stop()  # refused ("Not a single seq was loaded")
            h.check(got == [], "sequences from nowhere")
            h.stop()
        got = _read(ds, stop)
        h.observe([x[0] for x in got])
        h.check([x[:3] for x in got] == want[:stop], "epoch %i: sequences %s, expected %s" % (e, [x[:3] for x in got], want[:stop]))
        if "preserve" in opt:
            _check_frac(h, [x[3] for x in got], known, stop >= len(want) and all(r == 1 for r in rep))
        else:
            _check_frac(h, [x[3] for x in got], False, False)
        if known and not no_frac and stop > 0:
            h.check(all(x[3] is not None for x in got), "complete fraction lost")
        h.check([s for s in seen] == [(e, i) for i in range(len(seen))], "stream input %s" % seen)
        if stop >= 3 * n and ("preserve" not in opt or all(r == 1 for r in rep)):
            h.check(len(seen) == n, "stream got %i of %i sequences" % (len(seen), n))
        if "seq" in opt:
            h.check(g == [w[0] for w in want][: len(g)] and len(g) >= len(got), "second function of Sequential got %s, expected %s" % (g, want))
        h.cover("second_epoch", j > 0)
        h.cover("unknown", not known)
    h.cover("end")


def h_laplace(h, n, max_bin, opt):
    """LaplaceOrdering"""
    # lengths by key differ
    lens = [h.int("len%i" % i, 1, 1000) for i in range(n)]
    _Corpus.lens = lens
    bin_size = int(h.int("bin", 1 if "bin2" not in opt else 2, max_bin))
    cfg = {"class": _Corpus, "n": n, "known": "unknown" not in opt}
    order = pp.LaplaceOrdering(num_seqs_per_bin=bin_size, **({"length_key": "classes"} if "key" in opt else {}))
    if "key" in opt:
        other = [h.int("other%i" % i, 1, 1000) for i in range(n)]

        def change(it, **_kw):
            """data gets other lengths"""
            for td in it:
                i = int(_val(td.data["classes"].raw_tensor))
                new = td.data["data"].copy_template()
                new.raw_tensor = SymArr(other[i], i)
                td.data["data"] = new
                yield td

        change.preserves_num_seqs = True
        order = pp.Sequential(change, order)
    ds = init_dataset({"class": "PostprocessingDataset", "dataset": cfg, "map_seq_stream": order})
    for e in [1, 2] if "two" in opt else [1]:
        ds.init_seq_order(epoch=e)
        if "unknown" not in opt:
            h.check(ds.num_seqs == n, "num_seqs")
        got = _read(ds, 3 * n)
        idx = [int(x[2]) for x in got]
        h.observe(idx)
        h.check(sorted(idx) == list(range(n)), "sequences %s of %i" % (idx, n))
        h.check([x[0] for x in got] == ["tag-%i" % i for i in idx], "tag mixed up")
        if "key" not in opt:
            h.check([x[1] for x in got] == [float(e * 100 + i) for i in idx], "data mixed up")
        if "unknown" not in opt:
            f = [x[3] for x in got]
            h.check(all(abs(a - (i + 1) / n) < 1e-6 for i, a in enumerate(f)), "complete fractions %s" % f)
        for b in range(0, n, bin_size):
            part = idx[b : b + bin_size]
            h.check(sorted(part) == list(range(b, min(b + bin_size, n))), "bin %i has sequences %s" % (b // bin_size, part))
            down = (b // bin_size) % 2 == 1
            for i, j in zip(part, part[1:]):
                h.check(lens[i] >= lens[j] if down else lens[i] <= lens[j], "bin %i not sorted %s: %s" % (b // bin_size, "down" if down else "up", part))
                h.cover("laplace_tie", lens[i] == lens[j])
        h.cover("laplace")
        h.cover("laplace_partial", n % bin_size != 0)
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def _add(name, f, b, **kw):
        res.append(Case(name, f, kw, bounds=b, validate=4))

    for n in [1, 3] if q else [1, 2, 3, 4]:
        for opt in [("history",), ("history", "unknown"), ("history", "drop_meta"), ("drop_meta", "unknown"), ("skip",), ("skip", "unknown"), ("beyond", "unknown"), ("seq_list",), ("shard",)]:
            _add("map_seq/n%i/%s" % (n, "+".join(opt)), h_map_seq, "%i sequences of any length, epochs 1..3, any read position" % n, n=n, ordering="default", opt=opt)
    _add("map_seq/random", h_map_seq, "3 sequences, any permutation", n=3, ordering="random", opt=("part", "random", "history"))
    _add("map_seq/random_shard", h_map_seq, "3 sequences, any permutation, up to 3 shards", n=3, ordering="random", opt=("shard", "random"))
    for n in [2, 3] if q else [2, 3, 4]:
        for opt in [("history",), ("unknown",), ("no_frac",), ("preserve",), ("seq",), ("seq", "laplace"), ("preserve", "seq")]:
            _add("stream/n%i/%s" % (n, "+".join(opt)), h_stream, "%i sequences, each dropped, kept or doubled" % n, n=n, kind="any", opt=opt)
    for n in [1, 2, 3, 4, 5] if q else [1, 2, 3, 4, 5, 6]:
        _add("laplace/n%i" % n, h_laplace, "%i sequences of any length, bin size 1..%i" % (n, min(n + 1, 4)), n=n, max_bin=min(n + 1, 4), opt=() if n > 3 else ("two",))
    _add("laplace/phases", h_laplace, "7 sequences of any length, bin size 2", n=7, max_bin=2, opt=("bin2",))
    _add("laplace/key", h_laplace, "4 sequences, length of another key", n=4, max_bin=3, opt=("key",))
    _add("laplace/unknown", h_laplace, "3 sequences", n=3, max_bin=4, opt=("unknown",))
    return res
