"""Registrations of fields for IO: builder, contents, file walkers shared by the I checks."""
import gc
import itertools

import numpy as np

NP = {"float64": np.float64, "float32": np.float32}


def pool(T):
    """Values whose bits a careless copy would not preserve (no signalling NaNs)."""
    f = np.finfo(T)
    vals = [0.0, -0.0, 1.5, -2.25, np.inf, -np.inf, f.max, f.min, f.tiny, -f.tiny, f.eps,
            1 / 3, -np.pi, 1e-3, 12345.678]
    a = np.array(vals, dtype=T)
    if T is np.float64:
        b = np.array([0x7FF8000000000000, 0x7FF8000000012345, 0xFFF8000000000001, 1,
                      0x000FFFFFFFFFFFFF, 0x8000000000000003], dtype=np.uint64).view(T)
    else:
        b = np.array([0x7FC00000, 0x7FC12345, 0xFFC00001, 1, 0x007FFFFF, 0x80000003],
                     dtype=np.uint32).view(T)
    return np.concatenate([a, b])


_POOLS = {}


def content(shape, T, seed):
    """Array of distinct counter values mixed with special ones, by seed."""
    if T not in _POOLS:
        _POOLS[T] = pool(T)
    p = _POOLS[T]
    n = int(np.prod(shape))
    i = np.arange(n)
    a = ((seed * 4099 + i) / 8.0).astype(T)
    sel = (i + seed) % 3 == 2
    a[sel] = p[(i[sel] * 5 + seed) % len(p)]
    return a.reshape(shape)


def alloc(shape, T, layout):
    """Array of the given shape in the given memory layout."""
    if layout == "C":
        return np.zeros(shape, T)
    if layout == "F":
        return np.zeros(shape, T, order="F")
    if layout == "strided":
        return np.zeros(tuple(2 * n + 1 for n in shape), T)[tuple(slice(1, 2 * n + 1, 2) for n in shape)]
    if layout == "reversed":
        return np.zeros(shape, T)[tuple(slice(None, None, -1) for _ in shape)]
    if layout == "window":
        return np.zeros(tuple(n + 3 for n in shape), T)[tuple(slice(1, 1 + n) for n in shape)]
    raise ValueError(layout)


LAYOUTS = ("C", "F", "strided", "reversed", "window")


class Reg:
    """An IO object with everything registered by the calls of a spec, and its arrays.

    spec: dict(dim, real, calls); calls are
      ["grid", size, origin, dx], ["eul", {name: kind}],
      ["lag", slot, grid name or None, nodes, connect, {name: kind}]
    """

    def __init__(self, spec, layout="C", field_dtype=None):
        from sopht.utils.IO import IO

        self.spec = spec
        self.dim = dim = spec["dim"]
        self.T = NP[spec["real"]]
        self.FT = NP[field_dtype] if field_dtype else self.T
        # (single precision is not the default, and time 0.0 is the default of save)
        self.io = IO(dim=dim) if self.T is np.float64 else IO(dim=dim, real_dtype=self.T)
        self.eul, self.lag = {}, {}
        self.size = None
        for c in spec["calls"]:
            if c[0] == "grid":
                self.size = tuple(c[1])
                self.origin = np.array(c[2], dtype=self.T)
                self.dx = np.array(c[3], dtype=self.T)
                self.io.define_eulerian_grid(
                    origin=self.origin.copy(), dx=self.dx.copy(), grid_size=np.array(self.size))
            elif c[0] == "eul":
                kw = {}
                for name, kind in c[1].items():
                    shape = self.size if kind == "s" else (dim,) + self.size
                    kw[name] = alloc(shape, self.FT, layout)
                    self.eul[name] = (kind, kw[name])
                self.io.add_as_eulerian_fields_for_io(**kw)
            else:
                _, slot, gname, n, connect, fields = c
                if slot not in self.lag:
                    self.lag[slot] = dict(arr=alloc((dim, n), self.FT, layout), name=gname, n=n,
                                          connect=False, fields={})
                g = self.lag[slot]
                g["connect"] = g["connect"] or bool(connect)
                kw = {}
                for name, kind in fields.items():
                    kw[name] = alloc((n,) if kind == "s" else (dim, n), self.FT, layout)
                    g["fields"][name] = (kind, kw[name])
                args = dict(lagrangian_grid=g["arr"])
                if gname is not None:
                    args["lagrangian_grid_name"] = gname
                if connect:
                    args["lagrangian_grid_connect"] = True
                self.io.add_as_lagrangian_fields_for_io(**args, **kw)

    def rebind(self, what):
        """Register fresh arrays under the names already registered (named grids only)."""
        old = []
        if what == "eul":
            kw = {}
            for name, (kind, a) in self.eul.items():
                old.append(a)
                kw[name] = np.full(a.shape, 0.5, a.dtype)
                self.eul[name] = (kind, kw[name])
            self.io.add_as_eulerian_fields_for_io(**kw)
        else:
            for g in self.lag.values():
                assert g["name"] is not None
                kw = {}
                for name, (kind, a) in g["fields"].items():
                    old.append(a)
                    kw[name] = np.full(a.shape, 0.5, a.dtype)
                    g["fields"][name] = (kind, kw[name])
                old.append(g["arr"])
                g["arr"] = np.full(g["arr"].shape, 0.5, g["arr"].dtype)
                self.io.add_as_lagrangian_fields_for_io(
                    lagrangian_grid=g["arr"], lagrangian_grid_name=g["name"],
                    lagrangian_grid_connect=g["connect"], **kw)
        return old

    def save(self, path, time=0.0):
        tick()
        if time_bits(time) == time_bits(0.0):
            self.io.save(h5_file_name=path)
        else:
            self.io.save(h5_file_name=path, time=time)

    def load(self, path):
        tick()
        return self.io.load(h5_file_name=path)

    def arrays(self):
        for name, (_, a) in self.eul.items():
            yield ("E", name), a
        for slot, g in self.lag.items():
            yield ("G", slot), g["arr"]
            for name, (_, a) in g["fields"].items():
                yield ("L", slot, name), a

    def fill(self, version):
        for i, (_, a) in enumerate(self.arrays()):
            a[...] = content(a.shape, a.dtype.type, version * 37 + i)

    def blank(self):
        for _, a in self.arrays():
            a[...] = -7.0

    def snap(self):
        return {k: np.ascontiguousarray(a).tobytes() for k, a in self.arrays()}


_ops = [0]


def tick():
    """After each file operation: h5py scans all uncollected objects when a file closes."""
    _ops[0] += 1
    if _ops[0] % 12 == 0:
        gc.collect()


def time_bits(t):
    return np.float64(t).tobytes()


def walk(path):
    """Everything stored in a data file: name -> (dtype, shape, bytes)."""
    import h5py

    tick()
    out = {}

    def attrs(prefix, obj):
        for k, v in obj.attrs.items():
            v = np.asarray(v)
            out[f"{prefix}@{k}"] = (str(v.dtype), v.shape, v.tobytes())

    with h5py.File(path, "r") as f:
        attrs("/", f)

        def visit(name, obj):
            attrs(name, obj)
            if isinstance(obj, h5py.Dataset):
                v = np.asarray(obj[...])
                out[name] = (str(v.dtype), v.shape, v.tobytes())
            else:
                out[name] = "group"

        f.visititems(visit)
    return out


def differing(a, b):
    return sorted(str(k) for k in set(a) | set(b) if a.get(k) != b.get(k))


# -- registrations ---------------------------------------------------------------------------
FIELD_SETS = ({}, {"a": "s"}, {"a": "v"}, {"a": "s", "b": "v"})


def eul_options(dim, size=None):
    size = size or ((3, 4) if dim == 2 else (2, 3, 4))
    origin = [0.25, -1.5, 3.0][:dim]
    dx = [0.1, 0.2, 0.05][:dim]
    grid = ["grid", list(size), origin, dx]
    return {
        "none": [],
        "grid only": [grid],
        "s": [grid, ["eul", {"a": "s"}]],
        "v": [grid, ["eul", {"a": "v"}]],
        "s+v": [grid, ["eul", {"a": "s", "b": "v"}]],
        "s then v": [grid, ["eul", {"a": "s"}], ["eul", {"b": "v"}]],
        "s then same v": [grid, ["eul", {"a": "s"}], ["eul", {"a": "v"}]],
        "v and its component names": [grid, ["eul", {"a": "v", "a_0": "s", "a_1": "v"}]],
    }


def single_lag(dim):
    ns = sorted({1, 2, 3, 5})
    for name, n, connect, fs in itertools.product((None, "g"), ns, (False, True), FIELD_SETS):
        yield [["lag", 0, name, n, connect, fs]]


def double_lag(dim, full):
    ns = (1, dim, 5)
    names = [(None, None), ("g", "h"), (None, "g"), ("g", None), ("Lagrangian_grid_1", None)]
    for i, ((n1, n2), (f1, f2), (g1, g2), (c1, c2)) in enumerate(itertools.product(
            itertools.product(ns, ns), itertools.product(FIELD_SETS, FIELD_SETS), names,
            ((False, False), (True, False), (False, True)))):
        if not full and (i + i // 3) % 3:
            continue  # one connection pattern each
        yield [["lag", 0, g1, n1, c1, f1], ["lag", 1, g2, n2, c2, f2]]


def again_lag(dim):
    """Fields added to one named grid by two calls."""
    ns = (1, dim, 5)
    sets = FIELD_SETS + ({"c": "v"},)
    for n, f1, f2, c1, c2 in itertools.product(ns, sets, sets, (False, True), (False, True)):
        yield [["lag", 0, "g", n, c1, f1], ["lag", 0, "g", n, c2, f2]]


def triple_lag(dim):
    names = [(None, None, None), ("g", None, None), (None, "Lagrangian_grid_1", None),
             ("g", "h", "g2"), (None, "Lagrangian_grid_2", None), ("Lagrangian_grid_0", None, "x")]
    for nm, fs, n in itertools.product(names, itertools.product(FIELD_SETS[1:], repeat=3), (dim, 4)):
        yield [["lag", i, nm[i], n + (i == 2), i == 1, fs[i]] for i in range(3)]
    # one grid registered again with another in between
    for fs in itertools.product(FIELD_SETS, repeat=3):
        yield [["lag", 0, "g", dim, True, fs[0]], ["lag", 1, None, 4, False, fs[1]],
               ["lag", 0, "g", dim, False, {k + "2": v for k, v in fs[2].items()}]]


def registrations(tier):
    """All specs enumerated for the save/load round trip."""
    full = tier == "thorough"
    for dim in (2, 3):
        eo = eul_options(dim)
        lags = [[]] + list(single_lag(dim))
        for e in eo.values():
            for l in (lags if full or e in (eo["none"], eo["s+v"]) else lags[::5]):
                for real in ("float64", "float32"):
                    yield dict(dim=dim, real=real, calls=e + l)
        for i, l in enumerate(double_lag(dim, full)):
            if full:
                yield dict(dim=dim, real="float64", calls=l)
                yield dict(dim=dim, real="float32", calls=eo["s+v"] + l)
            elif l[0][5] and l[1][5]:
                yield dict(dim=dim, real=("float64", "float32")[i % 2],
                           calls=(eo["s+v"] if i % 3 == 0 else []) + l)
        for l in again_lag(dim):
            yield dict(dim=dim, real="float64", calls=l)
        for l in triple_lag(dim):
            yield dict(dim=dim, real="float64", calls=l)
            # Eulerian calls in the middle of the Lagrangian ones
            if full:
                yield dict(dim=dim, real="float32", calls=l[:1] + eo["s then v"] + l[1:])
        # Eulerian shapes, single-cell and equal to the dimension included
        ext = (1, 2, 3, 4) if dim == 2 else (1, 2, 3)
        for size in itertools.product(ext, repeat=dim):
            for opt in ("s", "v", "s+v"):
                yield dict(dim=dim, real="float64", calls=eul_options(dim, size)[opt])


def parts(items, k, n):
    return [x for i, x in enumerate(items) if i % n == k]
