"""
C26: HDF files: what was written is read back, per sequence and data key, in any order, with any caching.
"""

import contextlib
import os
import shutil
import sys
import tempfile
import numpy
from vf.harness import *
from vf import fakeh5
from vf.symx import s_and

import returnn.datasets.hdf as hdf
import returnn.datasets.cached as cached
from returnn.datasets.basic import DatasetSeq
from returnn.datasets.cached2 import CachedDataset2
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])

PROPERTY = "C26"
ASSUMPTIONS = [
    "h5py itself is right: the symbolic runs use a stand-in for it (the concrete runs use h5py)",
    "the preloading thread of the cache runs to its end before the main thread continues",
    "sequence tags are unique, and the same data keys with the same dims are written for all sequences",
]
COVERS = [
    "end", "empty_seq", "second_file", "by_tag", "seq_list", "seq_order", "no_inputs", "no_targets", "padded", "extended", "two_axes",
    "extra", "cached", "cached_partly", "reordered", "dumped", "data_as_target", "part", "nextgen", "segments", "less_keys",
]


@contextlib.contextmanager
def _env(h):
    root = tempfile.mkdtemp(prefix="vfc26")
    try:
        with contextlib.ExitStack() as stack:
            if h.symbolic:
                stack.enter_context(fakeh5.installed())
            stack.enter_context(patched((tempfile, "tempdir", root)))
            yield root
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _h5():
    import h5py

    return h5py


class _Np:
    """numpy, where offsets can be symbolic"""

    def __getattr__(self, name):
        return getattr(numpy, name)

    @staticmethod
    def zeros(shape, dtype=None):
        """zeros"""
        if dtype == "int64":
            res = numpy.empty(shape, dtype=object)
            res.fill(0)
            return res
        return numpy.zeros(shape, dtype=dtype)

    @staticmethod
    def cumsum(a, axis=None, dtype=None, out=None):
        """cumsum"""
        if a.dtype == object:
            return numpy.cumsum(a, axis=axis, out=out)
        return numpy.cumsum(a, axis=axis, dtype=dtype, out=out)


_DIM = {"data": 2, "classes": 3, "b": 4, "c": 1, "aa": 5, "cz": 6}


def _value(key, file_idx, pos):
    return 1000 * file_idx + 100 * (sorted(_DIM).index(key) + 1) + pos


def h_read(h, inputs, targets, sizes, n_max=40):
    """reader alone: for all sequence lengths"""
    keys = (["data"] if inputs else []) + sorted(targets)
    lens = {}
    with _env(h) as root:
        files = []
        for fi, n in enumerate(sizes):
            fn = root + "/f%i.hdf" % fi
            files.append(fn)
            # later files can have additional targets
            fkeys = list(keys)
            if fi and inputs and targets and h.choice("more%i" % fi, [False, True]):
                fkeys = ["data"] + sorted(targets + ["aa"])
                h.cover("less_keys")
            cols = fkeys + (["classes"] if not targets else [])  # dummy
            L = numpy.array([[h.int("len%i_%i_%s" % (fi, i, k), 0, n_max) for k in cols] for i in range(n)], dtype=object).reshape(n, len(cols))
            for i in range(n):
                for k in keys:
                    lens[len(lens) // len(keys), k] = L[i, cols.index(k)]
            f = _h5().File(fn, "w")
            f.attrs["inputPattSize"] = 2
            f.create_dataset("seqTags", data=numpy.array([("t%i-%i" % (fi, i)).encode() for i in range(n)], dtype="S10"))
            f.create_dataset("seqLengths", data=L if h.symbolic else L.astype("int32"))
            if "targets" in (["targets"] if targets else []):
                f.create_group("targets/data")
                f.create_group("targets/size")
                f.create_group("targets/labels")
            for k in fkeys:
                total = sum(int(L[i, cols.index(k)]) for i in range(n)) if not h.symbolic else n * n_max
                shape = (total, 2) if k == "data" else (total,)
                data = numpy.array([_value(k, fi, j) for j in range(total)], dtype="int32")
                if k == "data":
                    data = numpy.stack([data, data + 1], axis=1).astype("float32") if total else numpy.zeros((0, 2), "float32")
                ds = (f if k == "data" else f["targets/data"]).create_dataset("inputs" if k == "data" else k, shape=shape, dtype="float32" if k == "data" else "int32")
                ds[...] = data
                if h.symbolic:
                    ds.attrs["_sym_len"] = sum(L[:, cols.index(k)])
                if k != "data":
                    f["targets/size"].attrs[k] = [_DIM[k], 1]
                    f["targets/labels"].create_dataset(k, data=numpy.array([b"l%i" % i for i in range(_DIM[k])], dtype="S5"))
            f.close()
        with patched((hdf, "numpy", _Np()), (hdf, "int", SymInt)) if h.symbolic else contextlib.nullcontext():
            d = hdf.HDFDataset(files)
            d.initialize()
            N = sum(sizes)
            tags = ["t%i-%i" % (fi, i) for fi, n in enumerate(sizes) for i in range(n)]
            where = [(fi, i) for fi, n in enumerate(sizes) for i in range(n)]
            order = list(range(N))
            kind = h.choice("kind", ["default", "seq_list", "seq_order"])
            if kind == "default":
                d.init_seq_order(epoch=1)
            else:
                order = [int(h.choice("o%i" % i, list(range(N)))) for i in range(2)]
                if kind == "seq_list":
                    d.init_seq_order(epoch=1, seq_list=[tags[i] for i in order])
                else:
                    d.init_seq_order(epoch=1, seq_order=order)
                h.cover(kind)
            h.check(d.num_seqs == len(order), "num seqs")
            h.check(d.get_total_num_seqs() == N, "total num seqs")
            h.check(list(d.get_all_tags()) == tags, "all tags")
            h.check(sorted(d.get_data_keys()) == sorted(keys), "data keys %s" % d.get_data_keys())
            for k in keys:
                h.check(d.get_data_dim(k) == _DIM[k], "dim of %s" % k)
                h.check(d.is_data_sparse(k) == (k != "data"), "sparse %s" % k)
            d.load_seqs(0, d.num_seqs)
            for pos, idx in enumerate(order):
                fi, i = where[idx]
                h.cover("second_file", fi > 0)
                h.check(d.get_tag(pos) == tags[idx], "tag")
                h.check(d.get_corpus_seq_idx(pos) == idx, "corpus seq idx")
                ln = d.get_seq_length(pos)
                cs = d.get_corpus_seq(idx)
                h.check(cs.seq_tag == tags[idx], "tag of corpus seq")
                for k in keys:
                    h.cover("empty_seq", lens[idx, k] == 0)
                    h.check(ln[k] == lens[idx, k], "length of %s" % k)
                    start = sum(lens[j, k] for j in range(idx) if where[j][0] == fi)
                    for what, x in [
                        ("get_data", d.get_data(pos, k)),
                        ("get_data_by_seq_tag", d.get_data_by_seq_tag(tags[idx], k)),
                        ("get_corpus_seq", cs.features[k]),
                    ]:
                        if isinstance(x, fakeh5.SymSlice):
                            h.check(x.ds.name == ("/inputs" if k == "data" else "/targets/data/" + k), "%s: wrong data" % what)
                            h.check(s_and(x.start == start, x.stop == start + lens[idx, k]), "%s: wrong part of the data of %s" % (what, k))
                        else:
                            exp = numpy.array([_value(k, fi, start + j) for j in range(lens[idx, k])], dtype="int32")
                            if k == "data":
                                exp = numpy.stack([exp, exp + 1], axis=1)
                            h.check(x.shape == exp.shape and bool((x == exp).all()), "%s: wrong part of the data of %s" % (what, k))
                            h.check(str(x.dtype) == ("float32" if k == "data" else "int32"), "dtype")
        h.cover("by_tag")
        h.cover("no_inputs", not inputs)
        h.cover("no_targets", not targets)
        h.cover("end")


def _read_all(h, files, expect, **kwargs):
    """check the whole content"""
    d = hdf.HDFDataset(files, **kwargs)
    d.initialize()
    d.init_seq_order(epoch=1)
    h.check(d.num_seqs == len(expect), "num seqs %i, expected %i" % (d.num_seqs, len(expect)))
    d.load_seqs(0, d.num_seqs)
    for i, (tag, data) in enumerate(expect):
        h.check(d.get_tag(i) == tag, "tag %r, expected %r" % (d.get_tag(i), tag))
        h.check(set(d.get_data_keys()) == set(data), "data keys %s" % sorted(d.get_data_keys()))
        ln = d.get_seq_length(i)
        for k, v in data.items():
            x = d.get_data(i, k)
            h.check(ln[k] == v.shape[0], "seq %i, %s: length %s, expected %s" % (i, k, ln[k], v.shape[0]))
            h.check(x.shape == v.shape, "seq %i, %s: shape %s, expected %s" % (i, k, x.shape, v.shape))
            h.check(bool((x == v).all()), "seq %i, %s: %s, expected %s" % (i, k, x.tolist(), v.tolist()))
            h.check(x.dtype == v.dtype, "seq %i, %s: dtype %s, expected %s" % (i, k, x.dtype, v.dtype))
    return d


def h_write(h, kind, extra, extend):
    """SimpleHDFWriter"""
    with _env(h) as root:
        fn = root + "/x.hdf"
        splits = h.choice("split", [[3], [1, 2], [1, 1, 1]] if not extend else [[1, 2], [2, 1]])
        expect = []
        dim, ndim = {"dense": (2, None), "sparse": (5, 1), "two": (None, 2), "plain": (None, None)}[kind]
        labels = ["l%i" % i for i in range(5)] if kind == "sparse" and h.choice("labels", [False, True]) else None

        def _writer(**kw):
            if extra == "given":
                kw["extra_type"] = {"zz": (4, 1, "int32"), "b": (2, 2, "float32")}
            return hdf.SimpleHDFWriter(fn, dim=dim, ndim=ndim, labels=labels, **kw)

        w = _writer()
        n = 0
        val = 1
        order = h.choice("extra_order", [["zz", "b"], ["b", "zz"]]) if extra in ("two", "given") else ["b"]
        for bi, nb in enumerate(splits):
            if bi and extend:
                w.close()
                w = _writer(extend_existing_file=True)
                h.cover("extended")
            tags = ["seq-%i" % (n + i) for i in range(nb)]
            lens = [int(h.int("len%i" % (n + i), 0 if n + i < 2 else 1, 2)) for i in range(nb)]
            lens2 = [int(h.int("size%i" % (n + i), 0 if n + i == 1 else 1, 2)) for i in range(nb)] if kind == "two" else None
            h.cover("empty_seq", min(lens) == 0)
            h.cover("padded", min(lens) < max(lens))
            shape = [nb, max(lens)] + ([max(lens2)] if lens2 else []) + ([2] if kind == "dense" else [])
            x = numpy.arange(val, val + int(numpy.prod(shape))).reshape(shape).astype("float32" if kind == "dense" else "int32")
            val += int(numpy.prod(shape))
            seq_len = lens if not lens2 else {0: lens, 1: numpy.array(lens2)}
            ex = {}
            for k in order if extra else []:
                ek = int(h.choice("elen_%s_%i" % (k, bi), [1, 3])) if bi < 2 and kind != "two" else 1 + bi + (k == "b")
                sh = [nb, ek] + ([2] if k == "b" else [])
                ex[k] = numpy.arange(val, val + int(numpy.prod(sh))).reshape(sh).astype("float32" if k == "b" else "int32")
                val += int(numpy.prod(sh))
                h.cover("extra")
            if extra == "scalar":
                ex = {"s": numpy.arange(val, val + nb).astype("int32")}
                val += nb
            w.insert_batch(x, seq_len, tags, extra=ex or None)
            for i in range(nb):
                v = x[i, : lens[i]] if not lens2 else x[i, : lens[i], : lens2[i]].reshape(-1)
                data = {"data": v}
                if lens2:
                    data["sizes"] = numpy.array([lens[i], lens2[i]], dtype="int32")
                    h.cover("two_axes")
                for k, e in ex.items():
                    data[k] = e[i] if k != "s" else e[i : i + 1]
                expect.append((tags[i], data))
            n += nb
        h.check(not os.path.exists(fn) or extend, "file visible before it is complete")
        w.close()
        h.check(os.listdir(root) == ["x.hdf"], "files left: %s" % os.listdir(root))
        h.observe([n])
        d = _read_all(h, [fn], expect)
        if kind in ("dense", "sparse"):
            h.check(d.get_data_dim("data") == dim, "dim")
        if kind != "dense":
            h.check(d.is_data_sparse("data"), "sparse")
        if labels:
            h.check(d.labels.get("data") == labels, "labels %s" % d.labels)
        if extra in ("two", "given"):
            h.check(d.get_data_dim("b") == 2, "dim of extra data")
        h.cover("end")


class _Ds(CachedDataset2):
    """dataset to be dumped"""

    def __init__(self, seqs, keys, target_list, known):
        super().__init__()
        self.seqs, self.keys, self.target_list, self.known = seqs, keys, target_list, known
        self.num_outputs = {k: (_DIM[k], 2 if k in ("data", "c") and k not in target_list else 1) for k in keys}
        self.num_inputs = 2
        self.labels = {k: ["%s%i" % (k, i) for i in range(_DIM[k])] for k in target_list if k == "b"}

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        """init"""
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        self._num_seqs = len(self.seqs) if self.known else None
        return True

    def get_data_keys(self):
        """keys"""
        return list(self.keys)

    def get_target_list(self):
        """targets"""
        return list(self.target_list)

    def get_data_dtype(self, key):
        """dtype"""
        return "float32" if self.num_outputs[key][1] == 2 else "int32"

    def _collect_single_seq(self, seq_idx):
        if seq_idx >= len(self.seqs):
            return None
        return DatasetSeq(seq_idx, seq_tag=self.seqs[seq_idx][0], features=dict(self.seqs[seq_idx][1]))


def h_dump(h):
    """HDFDatasetWriter: copy of any dataset"""
    with _env(h) as root:
        fn = root + "/x.hdf"
        keys, targets = h.choice(
            "keys",
            [
                (["data"], []),
                (["data", "classes"], ["classes"]),
                (["data", "classes", "b"], ["classes", "b"]),
                (["data", "b", "classes"], ["b"]),
                (["c", "data"], ["data"]),
                (["c", "data", "b"], ["b", "data"]),
                (["data", "b"], ["data", "b"]),
                (["c", "cz", "data"], ["cz", "data"]),
            ],
        )
        inp = [k for k in sorted(keys) if k not in targets]
        inp = ("data" if "data" in inp else inp[0]) if inp else None
        mapped = {k: "data" if k == inp else "classes" if k == "data" else k for k in keys}
        h.cover("data_as_target", inp != "data")
        n = 3
        seqs = []
        val = 1
        ds = _Ds(None, keys, targets, h.choice("known", [True, False]))
        for i in range(n):
            data = {}
            for j, k in enumerate(keys):
                ln = int(h.int("len%i_%s" % (i, k), 0, 2 - i)) if i < 2 else 1 + j
                sh = [ln] + ([_DIM[k]] if ds.num_outputs[k][1] == 2 else [])
                data[k] = numpy.arange(val, val + int(numpy.prod(sh))).reshape(sh).astype(ds.get_data_dtype(k))
                val += int(numpy.prod(sh))
                h.cover("empty_seq", ln == 0)
            seqs.append(("long-tag/" * (i % 2) + "s%i" % i, data))
        ds.seqs = seqs
        ds.initialize()
        start = h.choice("start", [0, 1])
        h.cover("part", start > 0)
        w = hdf.HDFDatasetWriter(fn)
        w.dump_from_dataset(ds, epoch=1, start_seq=start, use_progress_bar=False)
        w.close()
        d = _read_all(h, [fn], [(t, {mapped[k]: v for k, v in x.items()}) for t, x in seqs[start:]])
        for k in keys:
            h.check(d.get_data_dim(mapped[k]) == _DIM[k], "dim of %s" % k)
            if k == "b" and k in targets:
                h.check(d.labels["b"] == ds.labels["b"], "labels")
        h.observe([d.num_seqs])
        h.cover("dumped")


def h_cached(h, n, size, orders):
    """with cache: same data as without, for any sequence of load ranges and epochs"""
    with _env(h) as root:
        fn = root + "/x.hdf"
        f = _h5().File(fn, "w")
        lens = numpy.array([[int(h.int("len%i_%i" % (i, j), 1, 2)) for j in range(2)] for i in range(n)], dtype="int32")
        f.attrs["inputPattSize"] = 2
        f.create_dataset("seqTags", data=numpy.array([b"s%i" % i for i in range(n)], dtype="S5"))
        f.create_dataset("seqLengths", data=lens)
        tot = lens.sum(axis=0)
        f.create_dataset("inputs", data=numpy.arange(1, 1 + tot[0] * 2).reshape(-1, 2).astype("float32"))
        f.create_dataset("targets/data/classes", data=numpy.arange(1000, 1000 + tot[1]).astype("int32"))
        f.create_group("targets/size").attrs["classes"] = [2000, 1]
        f.create_group("targets/labels")
        f.close()
        offs = numpy.concatenate([numpy.zeros((1, 2), "int32"), numpy.cumsum(lens, axis=0)])

        class _Thread:
            def __init__(self, target, args=(), daemon=None):
                self.target, self.args = target, args

            def start(self):
                """run now"""
                self.target(*self.args)

        def _sleep(_secs):
            raise Exception("waits for ever for the data")

        with patched((cached.threading, "Thread", _Thread), (cached.time, "sleep", _sleep), (cached.gc, "collect", lambda: None)):
            d = hdf.HDFDataset([fn], cache_byte_size=size)
            d.initialize()
            for ep in range(orders):
                order = list(range(n))
                if ep:
                    order = h.choice("order%i" % ep, [[2, 0, 1], [1, 2], [0, 1, 2]]) if n == 3 else h.choice("order%i" % ep, [[3, 1, 0, 2], [1, 0]])
                    h.cover("reordered")
                d.init_seq_order(epoch=ep + 1, seq_order=order)
                h.check(d.num_seqs == len(order), "num seqs")
                pos = 0
                while pos < len(order):
                    end = pos + int(h.int("num%i_%i" % (ep, pos), 1, len(order) - pos))
                    d.load_seqs(pos, end)
                    for i in range(pos, end):
                        j = order[i]
                        h.check(d.get_tag(i) == "s%i" % j, "tag")
                        x = d.get_data(i, "data")
                        exp = numpy.arange(1, 1 + tot[0] * 2).reshape(-1, 2)[offs[j, 0] : offs[j + 1, 0]]
                        h.check(x.shape == exp.shape and bool((x == exp).all()), "epoch %i, seq %i: data %s, expected %s" % (ep, i, x.tolist(), exp.tolist()))
                        x = d.get_data(i, "classes")
                        exp = numpy.arange(1000, 1000 + tot[1])[offs[j, 1] : offs[j + 1, 1]]
                        h.check(x.shape == exp.shape and bool((x == exp).all()), "epoch %i, seq %i: classes %s, expected %s" % (ep, i, x.tolist(), exp.tolist()))
                    pos = end
                h.cover("cached", d.num_seqs_cached_at_start == d.num_seqs)
                h.cover("cached_partly", 0 < d.num_seqs_cached_at_start < d.num_seqs)
        h.observe([int(d.num_seqs_cached_at_start)])


def h_nextgen(h):
    """NextGenHDFDataset"""
    with _env(h) as root:
        files, expect = [], []
        val = 1
        for fi in range(2):
            fn = root + "/f%i.hdf" % fi
            files.append(fn)
            f = _h5().File(fn, "w")
            names = ["a/s%i" % (2 * fi + i) for i in range(2)]
            f.create_dataset("seq_names", (2,), dtype=_h5().special_dtype(vlen=str))[...] = names
            g = f.create_group("streams")
            for s, parser in [("feat", "feature_sequence"), ("lab", "sparse"), ("ali", "segment_alignment")]:
                g.create_group(s + "/data")
                g[s].attrs["parser"] = parser
                if s != "feat":
                    g[s].create_dataset("feature_names", (5,), dtype="S5")
            for i, name in enumerate(names):
                nf, nl = int(h.int("nf%i_%i" % (fi, i), 1, 2)), (int(h.int("nl%i_%i" % (fi, i), 1, 2)) if fi == 0 else 1 + i)
                feat = numpy.arange(val, val + 2 * nf).reshape(nf, 2).astype("float32")
                val += 2 * nf
                lab = numpy.arange(val, val + nl).astype("int32")
                val += nl
                segs = [(1 + j, int(h.int("seg%i_%i_%i" % (fi, i, j), 1, 2)) if fi == 1 else 1 + i) for j in range(2 if i else 1)]
                key = name.replace("/", "\\")
                g["feat/data"].create_dataset(key, data=feat)
                g["lab/data"].create_dataset(key, data=lab)
                g["ali/data"].create_dataset(key, data=numpy.array(segs, dtype="int32"))
                ali = []
                for c, m in segs:
                    for j in range(m):
                        ali += [c, int(j == m - 1)]
                expect.append((name, {"data": feat, "feat": feat, "lab": lab, "ali": numpy.array(ali)}))
            f.close()
        with patched((hdf.NextGenHDFDataset, "_normalize_seq_name", staticmethod(lambda s: (s.decode() if isinstance(s, bytes) else s).replace("/", "\\")))):
            d = hdf.NextGenHDFDataset("feat", files=files)
            d.initialize()
            order = h.choice("order", [[0, 1, 2, 3], [2, 0], [3, 1, 2]])
            d.init_seq_order(epoch=1, seq_order=order if len(order) < 4 else None)
            d.load_seqs(0, len(order))
            for i, j in enumerate(order):
                tag, data = expect[j]
                t = d.get_tag(i)
                h.check((t.decode() if isinstance(t, bytes) else t) == tag, "tag")
                for k, v in data.items():
                    x = d.get_data(i, k)
                    h.check(x.shape == v.shape and bool((x == v).all()), "%s: %s, expected %s" % (k, x.tolist(), v.tolist()))
            h.check(not d.is_less_than_num_seqs(len(order)), "more seqs")
        h.cover("nextgen")
        h.cover("segments")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def _add(name, f, b, **kw):
        res.append(Case(name, f, kw, bounds=b, validate=6))

    for name, inputs, targets in [("in", True, []), ("in_t1", True, ["classes"]), ("in_t2", True, ["classes", "b"]), ("t1", False, ["classes"]), ("t2", False, ["classes", "b"])]:
        for sizes in [[3], [2, 2]] + ([] if q else [[3, 1, 2]]):
            _add("read/%s/%s" % (name, "_".join(map(str, sizes))), h_read, "%s sequences per file, lengths 0..40, 2 in any order" % sizes, inputs=inputs, targets=targets, sizes=sizes)
    for kind in ("dense", "sparse", "plain", "two"):
        for extra in (None, "one", "two", "given", "scalar"):
            if kind in ("plain", "two") and extra in ("given", "scalar"):
                continue
            for extend in (False, True):
                _add("write/%s/%s%s" % (kind, extra, "/extend" if extend else ""), h_write, "3 sequences, lengths 0..2", kind=kind, extra=extra, extend=extend)
    _add("dump", h_dump, "3 sequences, lengths 0..3, up to 3 data keys")
    for size in [8, 40, 90, 130, 400, -1] if q else [8, 30, 40, 60, 90, 110, 130, 200, 400, -1]:
        _add("cached/%i" % size, h_cached, "3 sequences, lengths 1..2, 2 epochs, any ranges", n=3, size=size, orders=2 if q else 3)
    if not q:
        _add("cached4/130", h_cached, "4 sequences", n=4, size=130, orders=2)
    _add("nextgen", h_nextgen, "2 files with 2 sequences, lengths 1..2")
    return res
