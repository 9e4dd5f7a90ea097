"""
C06: forward: each sequence gets its own outputs, exactly once.
"""

from vf.engh import *
from returnn.forward_iface import ForwardCallbackIface
from returnn.torch.data import extern_data as extern_data_mod
from returnn.tensor import TensorDict

PROPERTY = "C06"
ASSUMPTIONS = [
    "data values are exact reals; sequence lengths, batch sizes, dim orders are split into all combinations",
    "PyTorch engine on CPU, data loader without worker processes; one model step function which covers the kinds of outputs",
    "out-of-memory is simulated: the model step raises it for batches above a size",
]
COVERS = ["end"]


class _Model(torch.nn.Module):
    def __init__(self, **_kwargs):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))


class _Cb(ForwardCallbackIface):
    def __init__(self):
        self.res = []

    def init(self, *, model):
        """init"""
        self.res.append("init")

    def process_seq(self, *, seq_tag, outputs):
        """seq"""
        self.res.append((seq_tag, dict(outputs.data)))

    def finish(self):
        """finish"""
        self.res.append("finish")


def _np_len(dim):
    return dim.get_dim_value() if dim.dimension is None else dim.dimension


def h_forward(h, n, T, outs, labels=False, oom=False, order=None, lim=None, lo=1, perm=True):
    """forward"""
    lens = [int(x) for x in h.ints("len", n, lo, T)]
    lab_lens = [int(x) for x in h.ints("lab_len", n, 0, 2)] if labels else None
    lab = [[(3 * i + j) % 10 for j in range(lab_lens[i])] for i in range(n)] if labels else None
    data = Data(h, lens, feat=2, labels=lab)
    ms = h.choice("max_seqs", list(range(1, n + 1)))
    bd, beam, feat, lab_dim = Dim(None, name="batch"), Dim(2, name="beam"), Dim(2, name="feat"), Dim(10, name="labels")
    td = Dim(Tensor("time_len", [bd], dtype="int32"), name="time")
    ld = Dim(Tensor("lab_len", [bd], dtype="int32"), name="lab-time")
    extern_data = {"data": {"dims": [bd, td, feat], "dtype": "float32"}}
    if labels:
        extern_data["classes"] = {"dims": [bd, ld], "dtype": "int32", "sparse_dim": lab_dim}
    oom_limit = h.choice("oom_limit", list(range(1, n + 1))) if oom else n
    batches = []

    def _forward_step(*, model, extern_data, **_kwargs):
        x = extern_data["data"]
        size = int(bd.get_dim_value())
        if size > oom_limit:
            raise torch.cuda.OutOfMemoryError("simulated")
        batches.append(size)
        ctx = rf.get_run_ctx()
        if "y" in outs:
            ctx.mark_as_output((x * 2.0).copy_transpose([[bd, td, feat], [td, bd, feat], [feat, td, bd]][perm]), "y", dims=[[bd, td, feat], [td, bd, feat], [feat, td, bd]][perm])
        if "s" in outs:
            ctx.mark_as_output(rf.reduce_sum(x, axis=td), "s", dims=[bd, feat])
            ctx.mark_as_output(rf.reduce_sum(x, axis=[td, feat]), "scalar")
        if "down" in outs:
            d = td // 2
            ctx.mark_as_output(rf.gather(x, indices=rf.range_over_dim(d), axis=td), "down", dims=[bd, d, feat])
        if "two" in outs:
            x2, t2 = rf.replace_dim(x, in_dim=td)
            dims = [[bd, td, t2, feat], [t2, bd, feat, td]][perm % 2]
            ctx.mark_as_output(x + x2 * 10.0, "two", dims=dims)
        if "beam" in outs:
            sz = rf.copy_to_device(td.get_size_tensor()) - rf.cast(rf.range_over_dim(beam), "int32")
            t2 = Dim(rf.maximum(sz, 0), name="beam_time")
            y = rf.gather(x, indices=rf.range_over_dim(t2), axis=td) + rf.cast(rf.range_over_dim(beam), "float32") * 100.0
            ctx.mark_as_output(y, "beam", dims=[[bd, beam, t2, feat], [t2, feat, beam, bd]][perm % 2])
        if "lab" in outs:
            ctx.mark_as_output(extern_data["classes"], "lab", dims=[bd, ld])
            ctx.mark_as_output(ld.get_size_tensor(), "lab_len")
        if "expect" in outs:
            ctx.expected_outputs["e"].dims[1].dyn_size_ext.raw_tensor = td.get_size_tensor().copy_compatible_to_dims_raw([bd])
            ctx.mark_as_output(x.raw_tensor * 3.0, "e")

    perm = h.choice("perm", [0, 1, 2]) if perm else 0
    kw = {}
    if "expect" in outs:
        ed = Dim(Tensor("e_len", [bd], dtype="int32"), name="e-time")
        kw["model_outputs"] = {"e": {"dims": [bd, ed, feat], "dtype": "float32"}}
    if lim:
        kw[lim[0]] = lim[1]
    config = make_config(
        dict(
            task="forward",
            extern_data=extern_data,
            get_model=_Model,
            forward_step=_forward_step,
            batch_size=T * n,
            max_seqs=ms,
            forward_auto_split_batch_on_oom=oom,
            **kw,
        )
    )
    cb = _Cb()
    with global_config_ctx(config), symbolic_engine(h, data):
        engine = Engine(config=config)
        engine.init_network_from_config()
        dataset = data.dataset(**(order or {}))
        engine.forward_with_callback(dataset=dataset, callback=cb, **({"allow_skipping_seqs": True} if lim else {}))
    res = cb.res
    keep = list(range(n))
    if lim:
        keep = [i for i in keep if (lens[i] <= lim[1] if lim[0].startswith("max") else lens[i] >= lim[1])]
    h.check(res[0] == "init" and res[-1] == "finish", "callback init / finish")
    tags = [r[0] for r in res[1:-1]]
    h.check(sorted(tags) == ["seq-%i" % i for i in keep], "each seq exactly once, got %s" % tags)
    if order and order.get("seq_ordering", "") == "default" and not oom:
        h.check(tags == ["seq-%i" % i for i in keep], "order")
    if oom:
        h.check(all(b <= oom_limit for b in batches) and sum(batches) == n, "split batches")
    h.observe(tags)
    feats = range(2)
    for tag, o in res[1:-1]:
        i = int(tag[4:])
        n_t = lens[i]
        conds = []

        def _get(name, dims, shape):
            """array with dims in the given order"""
            t = o[name]
            h.check(len(t.dims) == len(dims), "%s: dims %s" % (name, t.dims))
            h.check(isinstance(t.raw_tensor, np.ndarray), "%s: numpy array" % name)
            axes = []
            for d in dims:
                if isinstance(d, str):
                    ax = [j for j, d_ in enumerate(t.dims) if d_.name and d_.dimension is None and d in (d_.name or "")]
                else:
                    ax = [j for j, d_ in enumerate(t.dims) if d_ == d]
                axes.append(ax[0] if len(ax) == 1 else None)
            dyn = [j for j, d_ in enumerate(t.dims) if d_.dimension is None]
            if None in axes:
                rest = [j for j in dyn if j not in axes]
                axes = [rest.pop(0) if a is None else a for a in axes]
            for j, (a, s) in enumerate(zip(axes, shape)):
                h.check(_np_len(t.dims[a]) == s, "%s: size of dim %s" % (name, t.dims[a]))
            a = t.raw_tensor.transpose(axes) if axes else t.raw_tensor
            h.check(tuple(a.shape) == tuple(shape), "%s: shape %s, expected %s" % (name, a.shape, shape))
            return a

        if "y" in outs:
            y = _get("y", ["time", feat], [n_t, 2])
            conds += [close(h, y[t, f], v_mul(data.value(i, t, f), Fraction(2))) for t in range(n_t) for f in feats]
        if "s" in outs:
            y = _get("s", [feat], [2])
            conds += [close(h, y[f], lsum([data.value(i, t, f) for t in range(n_t)])) for f in feats]
            y = _get("scalar", [], [])
            conds += [close(h, y[()], lsum([data.value(i, t, f) for t in range(n_t) for f in feats]))]
        if "down" in outs:
            t_ = o["down"]
            dyn = [j for j, d_ in enumerate(t_.dims) if d_.dimension is None]
            h.check(len(dyn) == 1 and t_.raw_tensor.shape[dyn[0]] == n_t // 2, "down: length")
            a = np.moveaxis(t_.raw_tensor, dyn[0], 0)
            conds += [close(h, a[t, f], data.value(i, t, f)) for t in range(n_t // 2) for f in feats]
        if "two" in outs:
            t_ = o["two"]
            order_ = [0, 1, 2] if perm % 2 == 0 else [2, 0, 1]  # [t, t2, f] or [t2, f, t]
            a = t_.raw_tensor.transpose(order_)
            h.check(tuple(a.shape) == (n_t, n_t, 2), "two: shape")
            conds += [close(h, a[t, u, f], v_add(data.value(i, t, f), v_mul(data.value(i, u, f), Fraction(10)))) for t in range(n_t) for u in range(n_t) for f in feats]
        if "beam" in outs:
            t_ = o["beam"]
            order_ = [0, 1, 2] if perm % 2 == 0 else [2, 0, 1]  # [beam, t2, f] or [t2, f, beam]
            a = t_.raw_tensor.transpose(order_)
            t2 = t_.dims[order_[1]]
            h.check(tuple(a.shape) == (2, n_t, 2), "beam: shape %s" % (a.shape,))
            sizes = t2.dyn_size_ext
            h.check([d for d in sizes.dims] == [beam], "beam: dims of the lengths")
            for k in range(2):
                ln = max(n_t - k, 0)
                conds.append(sizes.raw_tensor[k] == ln)
                conds += [close(h, a[k, t, f], v_add(data.value(i, t, f), Fraction(100 * k))) for t in range(ln) for f in feats]
        if "lab" in outs:
            y = _get("lab", ["lab"], [lab_lens[i]])
            h.check([int(v) for v in y] == lab[i], "labels")
            h.check(int(o["lab_len"].raw_tensor) == lab_lens[i], "label length")
        if "expect" in outs:
            a = o["e"].raw_tensor
            h.check(tuple(a.shape) == (n_t, 2), "expected output: shape")
            conds += [close(h, a[t, f], v_mul(data.value(i, t, f), Fraction(3))) for t in range(n_t) for f in feats]
        h.check_all(conds, "outputs of seq %s" % tag)
    h.cover("end")


def h_collate(h, n, T, dtypes):
    """collate, extern data, split of batch"""
    lens = [int(x) for x in h.ints("len", n, 0, T)]
    lens2 = [int(x) for x in h.ints("lenb", n, 0, 2)]
    dt = h.choice("dtype", dtypes)
    data = Data(h, lens, feat=2)
    base = {"int32": 2**31 - 50, "uint8": 200, "uint16": 65000, "uint32": 2**32 - 50, "int64": 2**62}[dt]
    batch = []
    for i in range(n):
        batch.append(
            {
                "data": data.ids[i],
                "classes": (np.arange(lens2[i]) + 7 * i + base).astype(dt),
                "vec": np.array(i + 5, dtype="int32"),
                "seq_tag": np.array("tag-%i" % i),
                "seq_idx": np.array(i),
                "num_seqs": np.array(10),
                "epoch": np.array(3),
                "complete_frac": np.array((i + 1) / 4, dtype="float32"),
            }
        )
    bd, feat = Dim(None, name="batch"), Dim(2, name="feat")
    td, ld = [Dim(Tensor(n_ + "_len", [bd], dtype="int32"), name=n_) for n_ in ("time", "lab")]
    template = TensorDict()
    template.update(
        {
            "data": {"dims": [bd, td, feat], "dtype": "float32"},
            "classes": {"dims": [bd, ld], "dtype": "int32"},
            "vec": {"dims": [bd], "dtype": "int32"},
            "seq_tag": {"dims": [bd], "dtype": "string"},
        },
        auto_convert=True,
    )
    with symbolic_engine(h, data):
        raw = pipeline_mod.collate_batch(batch)
        cuts = None
        parts = [raw]
        if n > 1:
            mode = h.choice("split", ["none", "num", "sizes"])
            if mode == "num":
                k = h.choice("num_splits", list(range(1, n + 1)))
                can = extern_data_mod.raw_dict_can_split_batch(raw, num_splits=k)
                h.check(can, "can split")
                try:
                    parts = extern_data_mod.raw_dict_split_batch(raw, splits=k)
                except AssertionError:
                    # sizes by ceildiv cannot be made for all numbers
                    if n % k == 0 or k == 2:
                        raise
                    parts = [raw]
                    k = 1
                h.check(len(parts) == k, "number of splits")
            elif mode == "sizes":
                c = h.choice("cut", list(range(1, n)))
                parts = extern_data_mod.raw_dict_split_batch(raw, splits=[c, n - c])
                h.check(len(parts) == 2 and parts[0]["vec"].shape[0] == c, "split sizes")
        pos = 0
        for part in parts:
            ed = extern_data_mod.raw_dict_to_extern_data(part, extern_data_template=template, device="cpu")
            m = int(bd.get_dim_value())
            h.check(m > 0, "not empty")
            h.check(int(part["num_seqs"]) == 10 and int(part["epoch"]) == 3, "num_seqs, epoch")
            h.check(float(part["complete_frac"]) >= (pos + m) / 4 - 1e-5 and float(part["complete_frac"]) <= n / 4 + 1e-5, "complete_frac")
            conds = []
            t_lens = st.values(td.get_size_tensor().raw_tensor)
            l_lens = st.values(ld.get_size_tensor().raw_tensor)
            x = st.values(ed["data"].raw_tensor)
            c = st.values(ed["classes"].raw_tensor)
            h.check(x.shape == (m, max(lens[pos : pos + m]), 2), "data shape %s" % (x.shape,))
            h.check(c.shape == (m, max(lens2[pos : pos + m])), "classes shape %s" % (c.shape,))
            h.check(set(ed["data"].dims) == {bd, td, feat}, "dims")
            for j in range(m):
                i = pos + j
                h.check(int(t_lens[j]) == lens[i] and int(l_lens[j]) == lens2[i], "seq lens")
                conds += [close(h, x[j, t, f], data.value(i, t, f)) for t in range(lens[i]) for f in range(2)]
                h.check([int(v) for v in c[j, : lens2[i]]] == [t + 7 * i + base for t in range(lens2[i])], "classes")
                h.check(int(ed["vec"].raw_tensor[j]) == i + 5, "scalar data")
                h.check(str(ed["seq_tag"].raw_tensor[j]) == "tag-%i" % i, "tag")
                if "seq_idx" in part:
                    h.check(int(part["seq_idx"][j]) == i, "seq_idx")
            h.check_all(conds, "batch content")
            pos += m
        h.check(pos == n, "all sequences")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds=" ".join("%s=%s" % (k, v) for k, v in kw.items()), validate=4, real_rounding=True))

    n, T = (3, 2) if q else (3, 3)
    dtypes = ["int32", "uint8", "uint16", "uint32", "int64"]
    add("collate", h_collate, n=2 if q else 3, T=3 if q else 2, dtypes=dtypes if not q else ["int32", "uint16", "uint32"])
    add("split", h_collate, n=3 if q else 4, T=1, dtypes=["int32"])
    add("forward/basic", h_forward, n=n, T=T, outs=["y", "s"])
    add("forward/two", h_forward, n=2, T=3, outs=["two", "down"])
    add("forward/beam", h_forward, n=2 if q else 3, T=3, outs=["beam"])
    add("forward/labels", h_forward, n=2, T=2, outs=["y", "lab"], labels=True, perm=False)
    add("forward/expected", h_forward, n=3, T=2, outs=["expect"])
    add("forward/oom", h_forward, n=3 if q else 4, T=2, outs=["y", "s"], oom=True)
    add("forward/oom_labels", h_forward, n=3, T=1, perm=False, outs=["lab"], labels=True, oom=True)
    add("forward/sorted", h_forward, n=3, T=2, outs=["y"], order={"seq_ordering": "sorted"})
    add("forward/max_len", h_forward, n=3, T=2, outs=["y"], lim=["max_seq_length", 1])
    add("forward/min_len", h_forward, n=3, T=2, outs=["y"], lim=["min_seq_length", 2])
    return res
