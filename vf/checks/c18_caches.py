"""
C18: caches: a bounded map in least-recently-used order, a result only for an equal key,
also when values and keys die in between (weakrefs, finalizers).
"""

import gc
from vf.rfh import *
from returnn.util.lru_cache import lru_cache
from returnn.frontend._cache import Cache

PROPERTY = "C18"
ASSUMPTIONS = [
    "lru_cache: keys are compared by symbolic equality (constant hash); up to 4-5 operations, max size 0-3 (also changed in between); no threads",
    "finalizers run when the last reference is dropped (reference counting), and remove one arbitrary key; not the one which is just being inserted",
    "frontend cache: keys of one or two dims/tensors/raw values, up to 3 operations",
]
COVERS = ["end"]


class _Key:
    """symbolic key"""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return isinstance(other, _Key) and bool(self.v == other.v)


class _Model:
    """reference: list in order of usage"""

    def __init__(self, maxsize):
        self.items = []
        self.maxsize = maxsize
        self.hits = self.misses = 0

    def find(self, k):
        """:return: index"""
        for i, (k2, _) in enumerate(self.items):
            if bool(k.v == k2.v):
                return i
        return None

    def insert(self, k, v):
        """:return: evicted value"""
        i = self.find(k)
        assert i is None
        old = None
        if self.maxsize == 0:
            return None
        if len(self.items) >= self.maxsize:
            old = self.items.pop(0)[1]
        self.items.append((k, v))
        return old


class _Val:
    """value. calls the hook when dropped"""

    def __init__(self, name, hook=None):
        self.name = name
        self.hook = hook

    def __del__(self):
        if self.hook:
            self.hook()


OPS = ["call", "set", "peek", "pop", "pop_oldest", "maxsize", "clear"]


def h_lru(h, n_ops, n_keys, max_size, drop, ops=None):
    """op sequence"""
    n_calls = [0]

    def _user(k, *, flag=None):
        n_calls[0] += 1
        return n_calls[0], flag

    maxsize = int(h.int("maxsize", 0, max_size))
    f = lru_cache(maxsize)(_user)
    m = _Model(maxsize)
    errors = []
    dropped = []

    def _mk(i):
        """value of op i, and its finalizer"""
        if not drop or not bool(h.bool("drop%i" % i)):
            return _Val(i), None
        dk = _key("dropkey%i" % i)

        def _hook():
            dropped.append(i)
            try:
                f.cache_pop(dk, fallback=None)
            except BaseException as exc:
                errors.append(exc)

        return _Val(i, _hook), dk

    drops = {}
    all_keys = []

    def _key(name):
        """keys can be renamed, so only the first occurrences in order"""
        if len(all_keys) == 0:
            v_ = 0
        else:
            v_ = h.int(name, 0, min(n_keys - 1, len(all_keys)))
            h.assume(v_ <= s_max(*all_keys) + 1 if len(all_keys) > 1 else v_ <= all_keys[0] + 1)
        all_keys.append(v_)
        return _Key(v_)

    def _model_drop(i):
        """value i was dropped in the model"""
        while i is not None:
            dk = drops.get(i)
            if dk is None:
                return
            j = m.find(dk)
            i = m.items.pop(j)[1] if j is not None else None

    def _ret(v):
        return v.name if isinstance(v, _Val) else v

    def _raise():
        for exc in errors:
            if not isinstance(exc, Exception):
                raise exc
        h.check(not errors, "finalizer failed: %s" % [repr(e) for e in errors])

    for n in range(n_ops):
        op = h.choice("op%i" % n, ops or OPS)
        k = _key("key%i" % n) if op in ("call", "set", "peek", "pop") else None
        if op == "call":
            i = m.find(k)
            if i is not None:
                m.hits += 1
                m.items.append(m.items.pop(i))
                want = m.items[-1][1]
                got = f(k)
                h.check(_ret(got) == want, "call: cached result")
                got = None
            else:
                m.misses += 1
                cnt = n_calls[0]
                old = m.insert(k, (cnt + 1, None))
                got = f(k)
                h.check(n_calls[0] == cnt + 1 and got == (cnt + 1, None), "call: function result on a miss")
                _model_drop(old if isinstance(old, int) else None)
        elif op == "set":
            v, dk = _mk(n)
            if dk is not None:
                h.assume(dk.v != k.v)
            drops[n] = dk
            i = m.find(k)
            old = m.items.pop(i)[1] if i is not None else None
            if isinstance(old, int):
                # finalizer in between
                od = drops.get(old)
                if od is not None:
                    h.assume(od.v != k.v)
                    for x in drops.values():
                        if x is not None:
                            h.assume(x.v != k.v)
            old2 = None
            if m.maxsize == 0:
                old2 = n
            else:
                if i is None:
                    old2 = m.insert(k, n)
                    for x in drops.values():
                        if x is not None:
                            h.assume(x.v != k.v)
                else:
                    m.items.append((k, n))
            f.cache_set(k, result=v)
            v = None
            for o in (old, old2):
                if isinstance(o, int):
                    _model_drop(o)
        elif op == "peek":
            i = m.find(k)
            got = f.cache_peek(k, fallback="none")
            if i is None:
                m.misses += 1
                h.check(got == "none", "peek: fallback")
            else:
                m.hits += 1
                h.check(_ret(got) == m.items[i][1], "peek: value")
            got = None
        elif op == "pop":
            i = m.find(k)
            if i is None:
                try:
                    f.cache_pop(k)
                    h.check(False, "pop: KeyError expected")
                except KeyError:
                    pass
            else:
                want = m.items.pop(i)[1]
                got = f.cache_pop(k)
                h.check(_ret(got) == want, "pop: value")
                got = None
                _model_drop(want if isinstance(want, int) else None)
        elif op == "pop_oldest":
            if not m.items:
                h.check(f.cache_pop_oldest(fallback="none") == "none", "pop_oldest: fallback")
            else:
                want = m.items.pop(0)[1]
                got = f.cache_pop_oldest()
                h.check(_ret(got) == want, "pop_oldest: value")
                got = None
                _model_drop(want if isinstance(want, int) else None)
        elif op == "maxsize":
            m.maxsize = int(h.int("maxsize_%i" % n, 0, max_size))
            f.cache_set_maxsize(m.maxsize)
            while len(m.items) > m.maxsize:
                o = m.items.pop(0)[1]
                _model_drop(o if isinstance(o, int) else None)
        elif op == "clear":
            for o in [o for _, o in m.items]:
                drops.pop(o, None)
            m.items.clear()
            m.hits = m.misses = 0
            f.cache_clear()
        _raise()
        info = f.cache_info()
        h.check(f.cache_len() == len(m.items) == info.currsize, "number of entries")
        h.check(len(m.items) <= m.maxsize == info.maxsize, "max size")
        h.check((info.hits, info.misses) == (m.hits, m.misses), "statistics")
        for k2, v2 in m.items:
            h.check(_ret(f.cache_peek(k2, update_statistics=False, fallback="none")) == v2, "cached value")
    # usage order of what is left
    drops.clear()
    left = [v for _, v in m.items]
    keep = []  # no finalizers now
    while f.cache_len():
        keep.append(f.cache_pop_oldest())
    h.check([_ret(v) for v in keep] == left, "order of usage")
    _raise()
    for v in keep:
        if isinstance(v, _Val):
            v.hook = None
    h.cover("end")


def h_typed(h):
    """keys of args"""
    calls = []
    typed = h.choice("typed", [False, True])

    def _user(*args, **kw):
        calls.append((args, tuple(kw.items())))
        return len(calls)

    f = lru_cache(4, typed)(_user)
    opts = [((1,), {}), ((1.0,), {}), ((True,), {}), (("1",), {}), ((1, 2), {}), (((1, 2),), {}), ((), {"a": 1}), ((1,), {"a": 1}), ((("a", 1),), {}), ((), {}), ((None,), {}), (("a", 1), {}), ((), {"a": 1.0})]
    a = h.choice("a", list(range(len(opts))))
    b = h.choice("b", list(range(len(opts))))
    (a1, k1), (a2, k2) = opts[a], opts[b]
    r1 = f(*a1, **k1)
    r2 = f(*a2, **k2)
    same = a1 == a2 and k1 == k2
    if typed:
        same = same and [type(x) for x in a1] == [type(x) for x in a2] and [type(x) for x in k1.values()] == [type(x) for x in k2.values()]
    if a == b:
        h.check(r1 == r2, "same args: cached")
    elif not same:
        h.check(r1 != r2, "different args: not the same entry")
    h.cover("end")


def h_rf_cache(h, n_ops, group):
    """frontend cache"""
    gc.freeze()  # only for speed
    r = R(h)
    b = r.sdim(2, "b")
    sizes = [2] + [int(x) for x in h.ints("size", 2, 2, 3)]
    lens = [1, 1]
    objs = {
        "s0": Dim(sizes[0], name="s0"),
        "s1": Dim(sizes[1], name="s1"),
        "t0": Dim(Tensor("t0", [b], dtype="int32", raw_tensor=torch.tensor([2, lens[0]], dtype=torch.int32)), name="t0"),
        "t1": Dim(Tensor("t1", [b], dtype="int32", raw_tensor=torch.tensor([2, lens[1]], dtype=torch.int32)), name="t1"),
        "e0": Dim(Tensor("e0", [], dtype="int32", raw_tensor=torch.tensor(sizes[2], dtype=torch.int32)), name="e0"),
        "x0": Tensor("x0", [b], dtype="float32", raw_tensor=torch.zeros(2)),
        "x1": Tensor("x1", [b], dtype="float32", raw_tensor=torch.zeros(2)),
        1: 1,
        2: 2,
    }
    values = {"s0": sizes[0], "s1": sizes[1], "e0": sizes[2]}

    def _id(k):
        return ("size", values[k]) if k in values else k

    keys = {
        "static": [("s0",), ("s1",), ("e0",), ("s0", 1), ("s0", 2), ("s0", "s1"), ("s1", "s0")],
        "dyn": [("t0",), ("t1",), ("x0",), ("x1",), ("s0", "x0"), ("s0",), ("t0", "s1")],
    }[group]
    cache = Cache(2)

    def _alive():
        """entries with dead objects are gone. a value itself can keep the object alive"""
        res = model
        for name_ in ("t0", "x0"):
            if name_ not in objs and not any(name_ in m_[2] for m_ in res):
                res = [m_ for m_ in res if name_ not in m_[1]]
        return res

    model = []  # (key ids, names, name of value dims, raw)
    for n in range(n_ops):
        op = h.choice("op%i" % n, ["set", "get", "del"] if n else ["set"])
        if op == "del":
            name = h.choice("obj%i" % n, ["s0", "t0", "x0"] if group == "dyn" else ["s0"])
            if name not in objs:
                h.stop()
            del objs[name]
            gc.collect()
            continue
        key = h.choice("key%i" % n, keys)
        if not all(k in objs for k in key):
            h.stop()
        ids = tuple(_id(k) for k in key)
        model = _alive()
        have = [m for m in model if m[0] == ids]
        k_objs = tuple(objs[k] for k in key)
        if op == "set":
            if have:
                h.stop()
            with_dims = h.choice("dims%i" % n, [0, 1])
            vdims = [k for k in key if isinstance(objs[k], Dim)] if with_dims else []
            raw = torch.zeros([r.size(objs[k]) for k in vdims])
            v = Tensor("v%i" % n, [objs[k] for k in vdims], dtype="float32", raw_tensor=raw)
            cache.set(k_objs, (v, n))
            v = None
            model.append((ids, key, vdims, raw, n))
            model = model[-2:]
        else:
            got = cache.get(k_objs, default="none")
            if not have:
                h.check(got == "none", "get: default")
            else:
                _, okey, vdims, raw, num = have[0]
                h.check(got != "none" and got[1] == num, "get: value")
                h.check(got[0].raw_tensor is raw, "get: tensor")
                want = [k_objs[okey.index(d)] for d in vdims]
                h.check(list(got[0].dims) == want and all(x is y for x, y in zip(got[0].dims, want)), "get: dims of the new key")
            got = None
        k_objs = None
    model = _alive()
    h.check(cache._lru_cache.cache_len() == len(model), "number of entries")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    return [
        Case("lru", h_lru, dict(n_ops=4 if q else 5, n_keys=3, max_size=2 if q else 3, drop=False), bounds="4-5 ops, 3 keys, max size 0-3"),
        Case("lru_order", h_lru, dict(n_ops=5 if q else 6, n_keys=3, max_size=3, drop=False, ops=["call", "peek", "pop"]), bounds="5-6 ops, 3 keys, max size 0-3"),
        Case("lru_finalizer", h_lru, dict(n_ops=3 if q else 4, n_keys=4, max_size=2, drop=True, ops=["set", "call", "pop_oldest", "maxsize"]), bounds="3-4 ops, 4 keys, max size 0-2"),
        Case("lru_finalizer_set", h_lru, dict(n_ops=4, n_keys=4, max_size=2 if q else 3, drop=True, ops=["set"]), bounds="4 sets, 4 keys, max size 0-3"),
        Case("typed", h_typed, {}, bounds="13 x 13 argument combinations"),
        Case("rf_cache/static", h_rf_cache, dict(n_ops=3, group="static"), bounds="3 ops, sizes 2-3"),
        Case("rf_cache/dyn", h_rf_cache, dict(n_ops=3, group="dyn"), bounds="3 ops, sizes 2-3"),
    ]
