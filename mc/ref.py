"""Reference models: the documented definition of every Eulerian operator, in plain NumPy.

All models work in double precision (or exactly, on dyadic data) on copies; `axis` counts from the
last dimension being x, second-last y, third-last z.
"""
import numpy as np

X, Y, Z = -1, -2, -3


def interior(a, g=1):
    return a[(Ellipsis,) + (slice(g, -g),) * a.ndim]


def core(nd, g=1):
    return (slice(g, -g),) * nd


def shift(a, axis, o, g=1):
    """Interior (g cells from all faces) of a, displaced by o cells along axis."""
    nd = a.ndim
    sl = [slice(g, n - g) for n in a.shape]
    n = a.shape[axis]
    sl[axis] = slice(g + o, n - g + o)
    return a[tuple(sl)]


def dc(a, axis):
    """Centred difference without the 1/(2 dx): a[+1] - a[-1], on the interior."""
    return shift(a, axis, 1) - shift(a, axis, -1)


def put(prev, val, g=1, ring=None):
    out = np.array(prev, dtype=float)
    if ring is not None:
        out[...] = ring
    out[core(out.ndim, g)] = val
    return out


def laplacian(a):
    r = 0
    for ax in range(1, a.ndim + 1):
        r = r + shift(a, -ax, 1) + shift(a, -ax, -1) - 2 * shift(a, -ax, 0)
    return r


def curl3(f):
    fx, fy, fz = f
    return [dc(fz, Y) - dc(fy, Z), dc(fx, Z) - dc(fz, X), dc(fy, X) - dc(fx, Y)]


def curl2(f):
    return dc(f[1], X) - dc(f[0], Y)


def ring_zone(shape, w):
    m = np.zeros(shape, dtype=bool)
    for ax in range(len(shape)):
        n = shape[ax]
        sl = [slice(None)] * len(shape)
        for s in (slice(0, w), slice(max(n - w, 0), n)):
            sl[ax] = s
            m[tuple(sl)] = True
    return m


def face_flux(q, u, axis):
    """ENO3 face fluxes F[i+1/2] for i = 1 .. n-3 along axis (array of n-3 faces)."""
    q = np.moveaxis(q, axis, 0)
    u = np.moveaxis(u, axis, 0)
    n = q.shape[0]
    i = np.arange(1, n - 2)
    left = q[i + 1] / 3 + q[i] * 5 / 6 - q[i - 1] / 6
    right = q[i] / 3 + q[i + 1] * 5 / 6 - q[i + 2] / 6
    f = np.where(u[i] + u[i + 1] > 0, left, right)
    return np.moveaxis(f, 0, axis)


def eno3_divergence(field, velocity):
    """Sum over directions of F[i+1/2] - F[i-1/2] on the interior two cells from the faces."""
    nd = field.ndim
    out = np.zeros(tuple(n - 4 for n in field.shape))
    for d in range(nd):
        axis = nd - 1 - d
        u = velocity[d]
        F = face_flux(field * u, u, axis)
        m = F.shape[axis]
        hi = [slice(2, -2)] * nd
        lo = [slice(2, -2)] * nd
        hi[axis] = slice(1, m)
        lo[axis] = slice(0, m - 1)
        out += F[tuple(hi)] - F[tuple(lo)]
    return out


def stretching(w, u):
    return [w[0][core(3)] * dc(u[c], X) + w[1][core(3)] * dc(u[c], Y) + w[2][core(3)] * dc(u[c], Z)
            for c in range(3)]


def heaviside(phi, bw):
    phi = np.asarray(phi, dtype=float)
    mid = 0.5 * (1 + phi / bw + np.sin(np.pi * phi / bw) / np.pi)
    return np.where(phi > bw, 1.0, np.where(phi < -bw, 0.0, mid))


def damping(a, axis):
    """Quarter second difference along axis, zero on the boundary ring."""
    r = np.zeros_like(a)
    r[core(a.ndim)] = 0.25 * (2 * shift(a, axis, 0) - shift(a, axis, 1) - shift(a, axis, -1))
    return r


def laplacian_filter(field, order, filter_type):
    f = np.array(field, dtype=float)
    if filter_type == "multiplicative":
        d = f
        for _ in range(order):
            for ax in (X, Y, Z):
                d = damping(d, ax)
        return f - d if order else f
    for ax in (X, Y, Z):
        d = f
        for _ in range(order):
            d = damping(d, ax)
        if order:
            f = f - d
    return f


def penalise_boundary(field, width, dx, grids):
    """Quarter-sine zones along x, then y (, then z); grids = coordinate fields (x, y, z)."""
    f = np.array(field, dtype=float)
    if width == 0:
        return f
    for d, g in enumerate(grids):
        axis = f.ndim - 1 - d
        a = np.moveaxis(f, axis, 0)  # views
        c = np.moveaxis(np.asarray(g, dtype=float), axis, 0)
        n = a.shape[0]
        start, end = c[0].flat[0], c[-1].flat[0]
        k = np.pi / 2 / (width * dx)
        front = a[width - 1].copy()
        for i in range(width):
            a[i] = front * np.sin(k * (c[i] - start))
        back = a[n - width].copy()
        for i in range(n - width, n):
            a[i] = back * np.sin(k * (end - c[i]))
    return f
