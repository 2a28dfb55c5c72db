"""Deterministic array contents and memory layouts (every array sits between canaries)."""
import numpy as np

EPS = {"float32": float(np.finfo(np.float32).eps), "float64": float(np.finfo(np.float64).eps)}
NP = {"float32": np.float32, "float64": np.float64}
CANARY = {"float32": -1.2345679e20, "float64": -1.234567890123e200,
          "complex64": -1.2345679e20 - 7e19j, "complex128": -1.23456e200 - 7e199j}


def pattern(shape, tag, lo=-31, hi=31, den=16, nonzero=False):
    """Fixed generic content: dyadic values k/den, k in [lo, hi], from a fixed hash of (index, tag).

    Exactly representable in single precision with few bits, so that sums and small products are
    exact in both precisions; no two tags give the same field.
    """
    n = int(np.prod(shape))
    idx = np.arange(n, dtype=np.uint64)
    with np.errstate(over="ignore"):
        x = (idx + np.uint64(1)) * np.uint64(0x9E3779B97F4A7C15) + np.uint64(
            (tag * 0xD1B54A32D192ED03 + 0x2545F4914F6CDD1D) % 2**64
        )
        x ^= x >> np.uint64(31)
        x *= np.uint64(0xBF58476D1CE4E5B9)
        x ^= x >> np.uint64(29)
    k = (x % np.uint64(hi - lo + 1)).astype(np.int64) + lo
    if nonzero:
        k[k == 0] = hi
    return (k / den).reshape(shape)


def rough(shape, tag):
    """Fixed content of many magnitudes (1e-3 .. 2) whose values use all bits of the precision."""
    a = pattern(shape, tag, den=16)
    b = pattern(shape, tag + 7919, lo=0, hi=9, den=1)
    return (a + np.sqrt(2) / 23) * 0.5 ** b


class Placed:
    """An array handed to the code, inside a larger allocation filled with canary values."""

    def __init__(self, content, dtype, layout="contig", skip_dims=0):
        content = np.asarray(content)
        self.dtype = np.dtype(dtype)
        shape = content.shape
        can = CANARY[self.dtype.name]
        if layout == "contig":
            n = content.size
            self.big = np.full(n + 64, can, dtype=self.dtype)
            self.view = self.big[32 : 32 + n].reshape(shape)
            self.index = None
        elif layout in ("window", "wide"):
            m = 1 if layout == "window" else 2
            pads = tuple((0, 0) if d < skip_dims else (m, m + (d + 1) % 2)
                         for d in range(len(shape)))
            bigshape = tuple(s + a + b for s, (a, b) in zip(shape, pads))
            self.big = np.full(bigshape, can, dtype=self.dtype)
            self.index = tuple(slice(a, a + s) for s, (a, b) in zip(shape, pads))
            self.view = self.big[self.index]
        elif layout == "strided":
            bigshape = tuple(s if d < skip_dims else 2 * s + 1 for d, s in enumerate(shape))
            self.big = np.full(bigshape, can, dtype=self.dtype)
            self.index = tuple(slice(None) if d < skip_dims else slice(1, 2 * s + 1, 2)
                               for d, s in enumerate(shape))
            self.view = self.big[self.index]
        elif layout == "fortran":
            self.big = np.full(tuple(s + 2 for s in shape), can, dtype=self.dtype, order="F")
            self.index = tuple(slice(1, s + 1) for s in shape)
            self.view = self.big[self.index]
        else:
            raise ValueError(layout)
        assert self.view.shape == shape
        self.view[...] = content

    def canaries_intact(self):
        can = self.big.dtype.type(CANARY[self.dtype.name])
        if self.index is None:
            n = self.big.size - 64
            return bool((self.big[:32] == can).all() and (self.big[32 + n:] == can).all())
        mask = np.ones(self.big.shape, dtype=bool)
        mask[self.index] = False
        return bool((self.big[mask] == can).all())


def bits(a):
    return np.ascontiguousarray(a).tobytes()


def worst(got, exp):
    """Index and size of the largest difference (non-finite counts as infinite)."""
    d = np.abs(np.asarray(got, dtype=complex if np.iscomplexobj(got) else float) - exp)
    d = np.where(np.isfinite(d), d, np.inf)
    if d.size == 0:
        return None, 0.0
    i = int(np.argmax(d))
    return tuple(int(k) for k in np.unravel_index(i, d.shape)), float(d.flat[i])


def close(got, exp, tol):
    d = np.abs(got - exp)
    return bool((d <= tol).all())  # NaN compares false


def shapes(dim, lo, hi):
    """All shapes with every extent in [lo, hi]."""
    import itertools

    return list(itertools.product(range(lo, hi + 1), repeat=dim))
