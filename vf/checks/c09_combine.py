"""
C09: combined datasets: MetaDataset, CombinedDataset, ConcatDataset, ConcatSeqsDataset, VariableDataset, MultiEpochDataset.
"""

import os
import tempfile
import numpy
from vf.harness import *

import returnn.datasets.meta as meta
import returnn.datasets.basic as dsb
from returnn.datasets.basic import init_dataset, DatasetSeq
from returnn.datasets.cached2 import CachedDataset2
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])

PROPERTY = "C09"
ASSUMPTIONS = [
    "the wrapped datasets are stand-ins (real CachedDataset2 subclass) with arbitrary order and lengths",
    "random draws are an arbitrary function of (seed, draw index)",
    "sequences are read in increasing order; an epoch is not read twice without finish_epoch in between (except MetaDataset)",
]
COVERS = [
    "end", "control", "own_order", "tags_differ", "again", "seq_list", "shard", "part", "combined_end", "sampling", "random_dataset", "unknown",
    "sorted", "concat", "concatseqs", "removed", "repeated", "narrowed", "padded", "variable", "multi", "multi_list", "mean_len",
]


class _Corpus(CachedDataset2):
    """wrapped dataset"""

    def __init__(self, n, prefix="tag-", base=0, known=True, lens=None, estimated=None, full_without_epoch=False, **kwargs):
        super().__init__(**kwargs)
        self.full_without_epoch = full_without_epoch
        self.n = n
        self.prefix = prefix
        self.base = base
        self.known = known
        self.lens = lens  # seq idx -> len, maybe symbolic
        self.num_inputs = 2
        self.num_outputs = {"data": (2, 2), "classes": (100, 1)}
        self.labels = {"classes": [prefix]}
        self.order = None
        self._estimated_num_seqs = n if estimated is None else estimated

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        """init"""
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        if epoch is None and seq_list is None and seq_order is None:
            self.order = list(range(self.n)) if self.full_without_epoch else []
        elif seq_order is not None:
            self.order = [int(i) for i in seq_order]
        elif seq_list is not None:
            all_tags = self.get_all_tags()
            self.order = [all_tags.index(t) for t in seq_list]
        else:
            self.order = [int(i) for i in self.get_seq_order_for_epoch(epoch=epoch, num_seqs=self.n, get_seq_len=lambda i: self.lens[i])]
        self._num_seqs = len(self.order) if self.known else None
        return True

    def supports_sharding(self):
        """yes"""
        return True

    def supports_seq_order_sorting(self):
        """yes"""
        return True

    def get_current_seq_order(self):
        """order"""
        return self.order

    def have_corpus_seq_idx(self):
        """yes"""
        return True

    def get_corpus_seq_idx(self, seq_idx):
        """idx"""
        return self.order[seq_idx]

    def get_estimated_seq_length(self, seq_idx):
        """len"""
        return self.lens[self.order[seq_idx]]

    def get_total_num_seqs(self, *, fast=False):
        """n"""
        return self.n

    def get_all_tags(self):
        """tags"""
        return ["%s%i" % (self.prefix, i) for i in range(self.n)]

    def get_data_keys(self):
        """keys"""
        return ["data", "classes"]

    def get_data_dtype(self, key):
        """dtype"""
        return {"data": "float32", "classes": "int32"}[key]

    def get_data_shape(self, key):
        """shape"""
        return {"data": [2], "classes": []}[key]

    def seq(self, i, epoch):
        """tag, features"""
        return (
            "%s%i" % (self.prefix, i),
            {
                "data": numpy.full((i % 3 + 1, 2), self.base + epoch * 100 + i, dtype="float32"),
                "classes": numpy.full((i % 2 + 1,), self.base + i, dtype="int32"),
            },
        )

    def _collect_single_seq(self, seq_idx):
        if seq_idx >= len(self.order):
            return None
        tag, features = self.seq(self.order[seq_idx], self.epoch)
        return DatasetSeq(seq_idx=seq_idx, seq_tag=tag, features=features)


def _rnd_patches(rnd):
    return patched((dsb, "RandomState", rnd.RandomState), (numpy.random, "RandomState", rnd.RandomState), (meta, "Random", rnd.RandomState))


def _read(ds, keys, stop=10**6, ahead=1):
    res = []
    i = 0
    while i < stop and ds.is_less_than_num_seqs(i):
        if i % ahead == 0:
            ds.load_seqs(i, i + ahead)
        res.append((ds.get_tag(i), {k: ds.get_data(i, k).tolist() for k in keys}))
        lens = ds.get_seq_length(i)
        assert all(lens[k] == len(res[-1][1][k]) for k in keys), "seq length %s but data %s" % (lens, res[-1])
        i += 1
    return res


def _tags(res):
    return [t for t, _ in res]


def h_meta(h, n, ordering, opt):
    """MetaDataset: several datasets with the same sequences"""
    tags_differ = "tags_differ" in opt
    extra = int(h.int("extra", 0, 1)) if not tags_differ and "extra" in opt else 0
    part = int(h.int("partition_epoch", 1, 2)) if "part" in opt else 1
    lens = [h.int("len%i" % i, 1, 9) for i in range(n)] if ordering not in ("default", "random", "reverse") else [1] * n
    a = {"class": _Corpus, "n": n, "prefix": "a-" if tags_differ else "tag-", "lens": lens}
    b = {"class": _Corpus, "n": n + extra, "prefix": "b-" if tags_differ else "tag-", "base": 5000}
    kw = {}
    shards = si = None
    if "shard" in opt:
        shards = int(h.int("num_shards", 1, 2))
        si = int(h.int("shard_index", 0, 1))
        h.assume(si < shards)
        kw.update(_num_shards=shards, _shard_index=si)
        h.cover("shard", shards > 1)
    order_opts = {"seq_ordering": ordering, "partition_epoch": part}
    if "control" in opt:
        a.update(order_opts)
        kw["seq_order_control_dataset"] = "A"
        h.cover("control")
    else:
        kw.update(order_opts)
        h.cover("own_order")
    h.cover("part", part > 1)
    rnd = RandomStub(h)
    perm = list(range(n))
    with tempfile.TemporaryDirectory(prefix="vf-c09-") as d, _rnd_patches(rnd):
        if tags_differ:
            perm = list(h.permutation("perm", n))  # a-i belongs to b-perm[i]
            for key, p in [("A", list(range(n))), ("B", perm)]:
                with open("%s/%s.txt" % (d, key), "w") as f:
                    f.write("".join("%s-%i\n" % (key.lower(), i) for i in p))
            kw["seq_list_file"] = {"A": d + "/A.txt", "B": d + "/B.txt"}
            h.cover("tags_differ")
        if "seq_lens" in opt:
            import json

            lens2 = [int(x) for x in lens]
            with open(d + "/lens.json", "w") as f:
                json.dump({a["prefix"] + str(i): {"data": lens2[i]} for i in range(n)}, f)
            kw["seq_lens_file"] = d + "/lens.json"
        ds = init_dataset(
            {
                "class": "MetaDataset",
                "datasets": {"A": a, "B": b},
                "data_map": {"data": ("A", "data"), "x": ("B", "data"), "classes": ("B", "classes"), "y": ("A", "classes")},
                **kw,
            }
        )
        ref_ds = _Corpus(n=n, lens=lens, prefix=a["prefix"], **order_opts, **{k: v for k, v in kw.items() if k.startswith("_")})
        A = _Corpus(**{k: v for k, v in a.items() if k != "class"})
        B = _Corpus(**{k: v for k, v in b.items() if k != "class"})
        h.check(ds.get_total_num_seqs() == n and ds.get_all_tags() == A.get_all_tags(), "total num seqs, all tags")
        h.check(sorted(ds.get_data_keys()) == ["classes", "data", "x", "y"], "data keys")
        hist = [int(h.int("epoch", 1, 2))]
        if "history" in opt:
            hist = [hist[0], int(h.int("epoch2", 1, 2))]
        for j, ep in enumerate(hist):
            okw = {}
            if "seq_list" in opt and j == 0:
                sel = [i for i in reversed(range(n)) if bool(h.bool("sel%i" % i))]
                if bool(h.bool("as_seq_order")):
                    okw["seq_order"] = sel
                else:
                    okw["seq_list"] = [A.get_all_tags()[i] for i in sel]
                h.cover("seq_list")
                order = sel
            else:
                ref_ds.init_seq_order(epoch=ep)
                order = ref_ds.order
            h.cover("again", j == 1 and ep == hist[0])
            ds.init_seq_order(epoch=ep, **okw)
            h.check(ds.num_seqs == len(order), "num_seqs %s instead of %s" % (ds.num_seqs, order))
            stop = int(h.int("stop", 0, n)) if j == 0 and "history" in opt else 10**6
            keys = ["data", "x", "classes", "y"]
            if "seq_lens" in opt:
                got = []
                for i in range(ds.num_seqs):
                    ds.load_seqs(i, i + 1)
                    got.append((ds.get_tag(i), {k: ds.get_data(i, k).tolist() for k in keys}))
            else:
                got = _read(ds, keys, stop)
            h.observe(_tags(got))
            want = []
            for i in order[:stop]:
                tag, fa = A.seq(i, ep)
                _, fb = B.seq(perm[i], ep)
                want.append((tag, {"data": fa["data"].tolist(), "y": fa["classes"].tolist(), "x": fb["data"].tolist(), "classes": fb["classes"].tolist()}))
            h.check(got == want, "epoch %i: sequences %s, expected %s%s" % (ep, _tags(got), _tags(want), "" if _tags(got) != _tags(want) else ", data differs"))
            h.check(list(ds.get_current_seq_order()) == list(order), "current seq order")
            if got and stop > n:
                h.check(ds.get_complete_frac(len(got) - 1) == 1, "complete frac at the end")
            if j == 0 and "history" in opt and bool(h.bool("finish")):
                ds.finish_epoch(free_resources=bool(h.bool("free")))
        h.cover("end")


def h_combined(h, na, nb, ordering, opt):
    """CombinedDataset: the sequences of all datasets"""
    part = int(h.int("partition_epoch", 1, 3)) if "part" in opt else 1
    known = "unknown" not in opt
    rep = int(h.int("repeat_epoch", 1, 2)) if "repeat" in opt else 1
    lens_a = [h.int("len_a%i" % i, 1, 9) for i in range(na)]
    lens_b = [h.int("len_b%i" % i, 1, 9) for i in range(nb)]
    est = {}
    if not known:
        est = {"estimated": int(h.int("estimated", 0, 3))} if ordering == "random_dataset" else {}
    a = {"class": _Corpus, "n": na, "prefix": "a-", "lens": lens_a, "known": known, "seq_ordering": "random" if "sub_random" in opt else "default", **est}
    b = {"class": _Corpus, "n": nb, "prefix": "b-", "base": 5000, "lens": lens_b, "known": known, **est}
    kw = {}
    sizes = None
    if "sampling" in opt:
        sizes = {"A": int(h.int("size_a", 0, na + 1)), "B": int(h.int("size_b", 1, nb + 1))}
        kw["sampling_sizes"] = sizes
        a["full_without_epoch"] = b["full_without_epoch"] = True  # as e.g. HDFDataset
        h.cover("sampling")
    rnd = RandomStub(h)
    if rep > 1:
        kw["repeat_epoch"] = rep

    def _choice(x, p=None):
        x = list(range(x)) if isinstance(x, int) else list(x)
        if p is not None:
            assert abs(sum(p) - 1) < 1e-6 and all(q >= 0 for q in p), p
            x = [y for y, q in zip(x, p) if q > 0]
        _choice.n += 1
        return x[int(h.int("choice%i" % _choice.n, 0, len(x) - 1))] if len(x) > 1 else x[0]

    _choice.n = 0
    with _rnd_patches(rnd), patched((numpy.random, "choice", _choice)):
        ds = init_dataset(
            {
                "class": "CombinedDataset",
                "datasets": {"A": a, "B": b},
                "data_map": {("A", "data"): "data", ("A", "classes"): "cls_a", ("B", "data"): "data", ("B", "classes"): "cls_b"},
                "seq_ordering": ordering,
                "partition_epoch": part,
                **kw,
            }
        )
        A = _Corpus(**{k: v for k, v in a.items() if k != "class"})
        B = _Corpus(**{k: v for k, v in b.items() if k != "class"})
        seen = []
        sub_orders = {}
        full = int(h.int("full_epoch", 0, 1))
        ahead = int(h.int("ahead", 1, 3)) if "ahead" in opt else 1
        got_first = None
        for p in range(part if sizes is None else 2):
            ep = full * part + p + 1 if sizes is None else full + p + 1
            ds.init_seq_order(epoch=ep)
            got = _read(ds, ["data", "cls_a", "cls_b"], ahead=ahead)
            if p == 0:
                got_first = got
            h.observe(_tags(got))
            for tag, f in got:
                c, i = (A if tag.startswith("a-") else B), int(tag[2:])
                _, fs = c.seq(i, ep)
                want = {"data": fs["data"].tolist(), "cls_a": fs["classes"].tolist() if c is A else [], "cls_b": fs["classes"].tolist() if c is B else []}
                h.check(f == want, "data of %s: %s instead of %s" % (tag, f, want))
            if known:
                h.check(ds.num_seqs == len(got), "num_seqs %s, but %i sequences" % (ds.num_seqs, len(got)))
            if p == 0 and "history" in opt:
                ds.finish_epoch()
                ds.init_seq_order(epoch=ep)
                got2 = _read(ds, ["data", "cls_a", "cls_b"])
                h.check(got == got2, "epoch %i again: sequences %s, before %s" % (ep, _tags(got2), _tags(got)))
            tags = _tags(got)
            A.init_seq_order(epoch=ep)
            a_tags = ["a-%i" % i for i in A.order]
            b_tags = ["b-%i" % i for i in range(nb)]
            if sizes is not None:
                want = []
                for key, x in [("A", a_tags), ("B", b_tags)]:
                    m = sizes[key]
                    want += [x[(((ep - 1) * m) + i) % len(x)] for i in range(m)]
                h.check(sorted(tags) == sorted(want), "sampled %s, expected %s" % (tags, want))
                if ordering == "default":
                    h.check(tags == want, "sampled %s, expected the order %s" % (tags, want))
            else:
                seen += tags
                sub_orders[p] = tags
            if ordering == "sorted":
                ls = [(lens_a if t.startswith("a-") else lens_b)[int(t[2:])] for t in tags]
                for x, y in zip(ls, ls[1:]):
                    h.check(x <= y, "not sorted")
                h.cover("sorted")
            if ordering == "random_dataset" and rep == 1:
                for pre, x in [("a-", a_tags), ("b-", b_tags)]:
                    mine = [t for t in tags if t.startswith(pre)]
                    pos = [x.index(t) for t in mine]
                    h.check(pos == sorted(pos), "order in the dataset not kept: %s" % tags)
                h.cover("random_dataset")
        if "history" in opt:
            ep = full * part + 1
            if part == 1:
                ds.finish_epoch()
            ds.init_seq_order(epoch=ep)
            got2 = _read(ds, ["data", "cls_a", "cls_b"])
            h.check(got2 == got_first, "epoch %i again, later: sequences %s, before %s" % (ep, _tags(got2), _tags(got_first)))
        if sizes is None:
            h.check(sorted(seen) == sorted(["a-%i" % i for i in range(na)] * rep + ["b-%i" % i for i in range(nb)] * rep), "sequences over the full epoch: %s" % seen)
            if ordering == "default" and rep == 1:
                A.init_seq_order(epoch=full * part + 1)
                h.check(seen == ["a-%i" % i for i in A.order] + ["b-%i" % i for i in range(nb)], "default order: %s" % seen)
            elif ordering == "reverse" and rep == 1:
                h.check(seen == list(reversed(["a-%i" % i for i in range(na)] + ["b-%i" % i for i in range(nb)])), "reverse order: %s" % seen)
        h.cover("unknown", not known)
        h.cover("combined_end")


def h_concat(h, max_n, num, opt):
    """ConcatDataset"""
    ns = [int(h.int("n%i" % i, 1, max_n)) for i in range(num)]
    h.assume(sum(ns) > 0)
    subs = [{"class": _Corpus, "n": n, "prefix": "%s-" % "abc"[i], "base": 1000 * i} for i, n in enumerate(ns)]
    ds = init_dataset({"class": "ConcatDataset", "datasets": subs})
    refs = [_Corpus(**{k: v for k, v in s.items() if k != "class"}) for s in subs]
    ahead = int(h.int("ahead", 1, 3))
    for ep in [1, 2]:
        ds.init_seq_order(epoch=ep)
        h.check(ds.num_seqs == sum(ns), "num_seqs")
        got = []
        i = 0
        while ds.is_less_than_num_seqs(i):
            end = min(i + ahead, sum(ns)) if "clip" in opt else i + ahead
            ds.load_seqs(i, min(end, sum(ns)))
            got.append((ds.get_tag(i), {k: ds.get_data(i, k).tolist() for k in ["data", "classes"]}))
            i += 1
            if ep == 1 and "early" in opt and bool(h.bool("stop%i" % i)):
                break
        h.observe(_tags(got))
        want = []
        for r in refs:
            for k in range(r.n):
                tag, f = r.seq(k, ep)
                want.append((tag, {kk: v.tolist() for kk, v in f.items()}))
        if ep == 1 and "early" in opt:
            want = want[: len(got)]
        h.check(got == want, "epoch %i: %s, expected %s" % (ep, _tags(got), _tags(want)))
    h.cover("concat")


class _FramesDs(_Corpus):
    """distinguishable frames"""

    sizes = None

    def seq(self, i, epoch):
        """seq"""
        nd, nc = _FramesDs.sizes[i]
        return (
            "%s%i" % (self.prefix, i),
            {
                "data": numpy.array([[i * 100 + t, epoch] for t in range(nd)], dtype="float32").reshape(nd, 2),
                "classes": numpy.array([i * 100 + t + 1 for t in range(nc - 1)] + [0], dtype="int32"),
            },
        )


def h_concat_seqs(h, kind, opt):
    """ConcatSeqsDataset"""
    n = 4
    max_l = 3
    _FramesDs.sizes = [(int(h.int("len%i" % i, 1, max_l)), int(h.int("tgt%i" % i, 1, 2)) if kind != "plain" else 1) for i in (range(n) if "all" in opt else range(3))]
    if len(_FramesDs.sizes) < n:
        _FramesDs.sizes.append((2, 1))
    groups = [[2, 0], [3, 3], [1, 3, 2]] if "all" not in opt else [[1, 0, 2, 3]]
    kw = {}
    mult = 2
    if kind == "remove":
        kw["remove_in_between_postfix"] = {"classes": 0}
    elif kind == "repeat":
        kw["repeat_in_between_last_frame_up_to_multiple_of"] = {"data": mult}
    elif kind == "pad":
        kw["pad_narrow_data_to_multiple_of_target_len"] = {"data": ("classes", mult)}
    with tempfile.TemporaryDirectory(prefix="vf-c09-") as d:
        tags = [";".join("s%i" % i for i in g) for g in groups]
        with open(d + "/list", "w") as f:
            f.write("".join(t + "\n" for t in tags))
        with open(d + "/lens", "w") as f:
            f.write(repr({"s%i" % i: _FramesDs.sizes[i][0] for i in range(n)}))
        if kind == "sorted":
            kw["seq_ordering"] = "sorted"
        ds = init_dataset({"class": "ConcatSeqsDataset", "dataset": {"class": _FramesDs, "n": n, "prefix": "s"}, "seq_list_file": d + "/list", "seq_len_file": d + "/lens", **kw})
        ref = _FramesDs(n=n, prefix="s")
        for ep in [1, 2]:
            ds.init_seq_order(epoch=ep)
            got = _read(ds, ["data", "classes"])
            h.observe(_tags(got))
            order = list(range(len(groups)))
            if kind == "sorted":
                total = [sum(_FramesDs.sizes[i][0] for i in g) for g in groups]
                gt = [total[tags.index(t)] for t in _tags(got)]
                h.check(gt == sorted(total), "order %s" % _tags(got))
                order = [tags.index(t) for t in _tags(got)]
            want = []
            for g in [groups[k] for k in order]:
                data, cls = [], []
                for pos, i in enumerate(g):
                    _, f = ref.seq(i, ep)
                    x, c = f["data"].tolist(), f["classes"].tolist()
                    last = pos == len(g) - 1
                    if not last and kind == "remove":
                        h.cover("removed")
                        c2 = c[:-1]
                    else:
                        c2 = c
                    if not last and kind == "repeat":
                        h.cover("repeated", len(x) % mult != 0)
                        while len(x) % mult:
                            x.append(x[-1])
                    if not last and kind == "pad":
                        h.cover("narrowed", len(x) > len(c) * mult)
                        h.cover("padded", len(x) < len(c) * mult)
                        while len(x) < len(c) * mult:
                            x.append(x[-1])
                        x = x[: len(c) * mult]
                    data += x
                    cls += c2
                want.append((";".join("s%i" % i for i in g), {"data": data, "classes": cls}))
            h.check(got == want, "sequences %s, expected %s" % (got, want))
            h.check(ds.num_seqs == len(groups), "num_seqs")
    h.cover("concatseqs")


def h_filter(h, n):
    """EpochWiseFilter"""
    lens = [int(h.int("len%i" % i, 1, 4)) for i in range(n)]
    max_mean = int(h.int("max_mean_len", 1, 4))
    if n >= 3:
        start = end = ep = 2
    else:
        start, end = int(h.int("start", 1, 2)), int(h.int("end", 2, 3))
        ep = int(h.int("epoch", 1, 4))
    order = list(h.permutation("order", n))
    f = meta.EpochWiseFilter({(start, end): {"max_mean_len": max_mean}})
    res = list(f.filter(epoch=ep, seq_order=order, get_seq_len=lambda i: lens[i]))
    h.observe(res)
    if not (start <= ep <= end):
        h.check(res == order, "filtered in epoch %i" % ep)
        h.stop()
    h.cover("mean_len")
    h.check([i for i in order if i in res] == res and len(set(res)) == len(res), "order changed")
    if res and len(res) < n:
        longest = max(lens[i] for i in res)
        h.check(all(lens[i] >= longest for i in order if i not in res), "not the longest sequences removed: %s" % res)
    h.check(res, "nothing left")
    if sum(lens) <= max_mean * n:
        pass  # nothing to do; may still be cut at an exact match
    if min(lens) <= max_mean:
        # up to one sequence more than what keeps the mean
        s = sorted(lens)
        h.check(sum(s[: len(res) - 1]) <= max_mean * max(len(res) - 1, 0), "mean length of all but one sequence above the limit: %s" % res)


def h_variable(h, opt):
    """VariableDataset"""
    made = []
    ns = [int(h.int("n%i" % i, 1, 2)) for i in range(3)]

    def get_dataset(*, epoch, **_kw):
        """get"""
        made.append(epoch)
        return {"class": _Corpus, "n": ns[epoch - 1], "prefix": "e%i-" % (epoch if "own" in opt else 0), "base": 1000 * (epoch if "own" in opt else 0)}

    ds = init_dataset({"class": "VariableDataset", "get_dataset": get_dataset, "dataset_lru_cache_size": int(h.int("cache", 1, 2))})
    hist = [int(h.int("epoch%i" % i, 1, 3)) for i in range(2 if "short" in opt else 3)]
    for j, ep in enumerate(hist):
        okw = {}
        sel = list(range(ns[ep - 1]))
        if "seq_list" in opt and bool(h.bool("list%i" % j)):
            sel = list(reversed(sel))
            okw["seq_order"] = sel
        ds.init_seq_order(epoch=ep, **okw)
        r = _Corpus(**{k: v for k, v in get_dataset(epoch=ep).items() if k != "class"})
        h.check(ds.num_seqs == r.n, "num_seqs")
        stop = int(h.int("stop%i" % j, 0, 2)) if j == 0 else 2
        got = _read(ds, ["data", "classes"], stop)
        h.observe(_tags(got))
        want = [(t, {k: v.tolist() for k, v in f.items()}) for t, f in [r.seq(i, ep) for i in sel]]
        h.check(got == want[:stop], "epoch %i: %s, expected %s" % (ep, got, want[:stop]))
        if j == 0 and bool(h.bool("finish%i" % j)):
            ds.finish_epoch()
    h.cover("variable")


def h_multi(h, n, opt):
    """MultiEpochDataset"""
    multi = int(h.int("multi_epoch", 1, 3))
    part = int(h.int("partition_epoch", 1, 3))
    h.assume(n >= part)
    inner = {"class": _Corpus, "n": n, "partition_epoch": part, "seq_ordering": "random" if "random" in opt else "default", "known": "unknown" not in opt}
    rnd = RandomStub(h)
    with _rnd_patches(rnd):
        ds = init_dataset({"class": "MultiEpochDataset", "dataset": inner, "multi_epoch": multi})
        ref = _Corpus(**{k: v for k, v in inner.items() if k != "class"})
        hist = [int(h.int("epoch", 1, 2)), int(h.int("epoch2", 1, 2))]
        for j, ep in enumerate(hist):
            okw = {}
            if "seq_list" in opt and j == 0:
                sel = [i for i in reversed(range(n)) if bool(h.bool("sel%i" % i))]
                if not sel:
                    h.stop()
                okw["seq_list"] = ["tag-%i" % i for i in sel]
                h.cover("multi_list")
                want = [ref.seq(i, (ep - 1) * multi + 1) for i in sel]
            else:
                want = []
                for e in range((ep - 1) * multi + 1, ep * multi + 1):
                    ref.init_seq_order(epoch=e)
                    want += [ref.seq(i, e) for i in ref.order]
            want = [(t, {k: v.tolist() for k, v in f.items()}) for t, f in want]
            ds.init_seq_order(epoch=ep, **okw)
            stop = int(h.int("stop", 0, len(want) + 1)) if j == 0 else 10**6
            got = _read(ds, ["data", "classes"], stop)
            h.observe(_tags(got))
            h.check(got == want[:stop], "epoch %i: %s, expected %s" % (ep, _tags(got), _tags(want[:stop])))
            if j == 0 and bool(h.bool("finish")):
                ds.finish_epoch()
        h.cover("multi")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def _add(name, f, b, **kw):
        res.append(Case(name, f, kw, bounds=b, validate=4))

    N = 3 if q else 4
    mb = "2 datasets with %i sequences, epochs 1..2, any read position" % N
    for c in [(), ("control",)]:
        _add("meta/default/%s" % "+".join(c), h_meta, mb, n=N, ordering="default", opt=c + ("part", "extra", "history"))
        _add("meta/reverse/%s" % "+".join(c), h_meta, mb, n=N, ordering="reverse", opt=c + ("part", "shard"))
        _add("meta/random/%s" % "+".join(c), h_meta, mb, n=3, ordering="random", opt=c + ("part", "shard", "history") if not q else c + ("part", "history"))
        _add("meta/tags/%s" % "+".join(c), h_meta, mb, n=3, ordering="reverse", opt=c + ("part", "tags_differ"))
        _add("meta/seq_list/%s" % "+".join(c), h_meta, mb, n=3, ordering="default", opt=c + ("seq_list", "history"))
        _add("meta/seq_list_tags/%s" % "+".join(c), h_meta, mb, n=2, ordering="default", opt=c + ("seq_list", "history", "tags_differ"))
    _add("meta/sorted", h_meta, mb, n=3, ordering="sorted", opt=("control",))
    _add("meta/sorted_lens", h_meta, mb, n=3, ordering="sorted", opt=("seq_lens",))
    cb = "2 datasets, partition_epoch<=3, all full epochs of the first two"
    for na, nb in [(1, 1), (2, 1), (2, 3)] if q else [(1, 1), (2, 1), (1, 3), (2, 3), (3, 3)]:
        for o in ["default", "reverse", "random_dataset"]:
            _add("combined/%s/%i_%i" % (o, na, nb), h_combined, cb, na=na, nb=nb, ordering=o, opt=("part",))
    _add("combined/again", h_combined, cb, na=2, nb=2, ordering="default", opt=("part", "history"))
    _add("combined/repeat", h_combined, cb, na=2, nb=1, ordering="default", opt=("repeat",))
    _add("combined/repeat_rd", h_combined, cb, na=1, nb=2, ordering="random_dataset", opt=("repeat",))
    _add("combined/ahead", h_combined, cb, na=2, nb=2, ordering="reverse", opt=("part", "ahead"))
    _add("combined/ahead_random", h_combined, cb, na=2, nb=2, ordering="random", opt=("ahead",))
    _add("combined/random", h_combined, cb, na=2, nb=1, ordering="random", opt=("part",))
    _add("combined/sub_random", h_combined, cb, na=2, nb=2, ordering="default", opt=("part", "sub_random"))
    _add("combined/sorted", h_combined, cb, na=2, nb=1 if q else 2, ordering="sorted", opt=())
    _add("combined/sampling", h_combined, cb, na=2, nb=2, ordering="default", opt=("sampling",))
    _add("combined/sampling_sorted", h_combined, cb, na=2, nb=1, ordering="sorted", opt=("sampling",))
    _add("combined/unknown", h_combined, cb, na=2, nb=2, ordering="default", opt=("unknown",))
    _add("combined/unknown_random", h_combined, cb, na=2, nb=1, ordering="random_dataset", opt=("unknown",))
    _add("concat/2", h_concat, "2 datasets of 1..3 sequences", max_n=3, num=2, opt=())
    _add("concat/3", h_concat, "3 datasets of 1..2 sequences", max_n=2, num=3, opt=())
    _add("concat/early", h_concat, "2 datasets of 1..2 sequences, stopped early", max_n=2, num=2, opt=("early",))
    for kind in ["plain", "remove", "repeat", "pad", "sorted"]:
        _add("concat_seqs/" + kind, h_concat_seqs, "groups of up to 3 of 4 sequences, lengths 1..3", kind=kind, opt=())
    _add("concat_seqs/pad_all", h_concat_seqs, "one group of 4 sequences, lengths 1..3", kind="pad" if not q else "repeat", opt=("all",))
    for n in [1, 2, 3]:
        _add("filter/n%i" % n, h_filter, "%i sequences of length 1..4" % n, n=n)
    _add("variable/same", h_variable, "epochs in any order", opt=("seq_list", "short"))
    _add("variable/own", h_variable, "epochs in any order", opt=("own",))
    for n in [1, 2, 3]:
        _add("multi/n%i" % n, h_multi, "%i sequences" % n, n=n, opt=("unknown",) if n == 2 else ())
    _add("multi/random", h_multi, "3 sequences, any permutation", n=3 if not q else 2, opt=("random",))
    _add("multi/seq_list", h_multi, "3 sequences", n=3, opt=("seq_list",))
    return res
