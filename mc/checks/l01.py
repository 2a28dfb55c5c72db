"""L01 interpolation support and weights."""
import itertools

import numpy as np

from arrays import EPS, NP, bits

BOUNDS = {
    "quick": "2D/3D, both kernels, both precisions, 6 spacings x 5 coordinate shifts, node sets: "
             "2D 33x33 and 3D 11x11x11 sub-cell lattices (grid points, cell centres, points 2^-20 "
             "of a cell from grid lines) and every node count 1..8; stale buffers; caller arrays "
             "distinct or rewritten in place; two communicators interleaved",
    "thorough": "as quick with 2D 65x65 and 3D 17x17x17 lattices",
}
EXPLANATION = ("The real support and weight kernels are run on every node position of a sub-cell "
               "lattice and compared with the one-dimensional kernel functions and with the "
               "partition-of-unity and moment identities.")
ASSUMPTIONS = ["numba is not installed here: its decorators are stubbed, the Python bodies run",
               "interpolation width 2 (the only one the kernels accept)"]
SPACINGS = [0.0625, 0.1, 1.0, 1 / 3, 2.5, 0.007]


def units(tier):
    us = []
    for dim in (2, 3):
        for kern in ("cosine", "peskin"):
            for dt in ("float64", "float32"):
                for i, dx in enumerate(SPACINGS):
                    us.append(dict(name=f"{kern} {dim}d {dt} dx {dx:.4g}", cost=1 + dim,
                                   params=dict(dim=dim, kern=kern, dtype=dt, dx=dx)))
        us.append(dict(name=f"neighbouring options {dim}d", cost=2, params=dict(kind="mixed", dim=dim)))
    return us


def mixed(ctx, dim):
    """Communicators that differ in one option only, created together, used in turn."""
    base = dict(dx=0.1, shift=0.05, n=4, dt="float64", kern="cosine")
    var = [base] + [dict(base, **d) for d in (
        dict(dx=0.125), dict(shift=0.025), dict(n=5), dict(dt="float32"), dict(kern="peskin"),
        dict(dx=0.125, kern="peskin"), dict(dt="float32", kern="peskin"))]
    for order in (var, var[::-1]):
        coms = [communicator(dim, v["dx"], NP[v["dt"]](v["shift"]), v["n"], v["dt"], v["kern"])
                for v in order]
        for rnd in range(3):
            for v, com in zip(order, coms):
                T = NP[v["dt"]]
                cells = np.array([[3 + (k * (a + 2) + rnd) % 3 + 0.17 * ((k + a + rnd) % 6)
                                   for k in range(v["n"])] for a in range(dim)])
                ctx.history = dict(v, dim=dim, round=rnd)
                ctx.state((dim, str(v), rnd, order is var))
                run_pair(ctx, com, (cells * v["dx"] + v["shift"]).astype(T), v["dx"],
                         T(v["shift"]), dim, v["dt"], v["kern"], False)


def phi(kern, r):
    """One-dimensional kernel times the spacing."""
    r = np.abs(r)
    if kern == "cosine":
        return np.where(r < 2, 0.25 * (1 + np.cos(np.pi * r / 2)), 0.0)
    a = (3 - 2 * r + np.sqrt(np.maximum(1 + 4 * r - 4 * r * r, 0))) / 8
    b = (5 - 2 * r - np.sqrt(np.maximum(-7 + 12 * r - 4 * r * r, 0))) / 8
    return np.where(r < 1, a, np.where(r < 2, b, 0.0))


def communicator(dim, dx, shift, n, dt, kern, ncomp=1):
    from sopht.numeric.immersed_boundary_ops import (EulerianLagrangianGridCommunicator2D,
                                                     EulerianLagrangianGridCommunicator3D)

    cls = EulerianLagrangianGridCommunicator2D if dim == 2 else EulerianLagrangianGridCommunicator3D
    kw = dict(n_components=ncomp, interp_kernel_type=kern)
    if n % 2:  # arguments that equal the documented defaults are left out
        kw = {k: v for k, v in kw.items() if v != dict(n_components=1, interp_kernel_type="cosine")[k]}
    return cls(dx=dx, eul_grid_coord_shift=shift, num_lag_nodes=n, interp_kernel_width=2,
               real_t=NP[dt], **kw)


def run_pair(ctx, com, pos, dx, shift, dim, dt, kern, exact, held=None):
    """Support then weights, from stale buffers; pos: (dim, n) of the working precision.

    held: arrays the caller keeps and rewrites between the calls."""
    T = NP[dt]
    eps = EPS[dt]
    n = pos.shape[1]
    if held:
        held["pos"][...] = pos
        pos, idx, sup, w = (held[k] for k in ("pos", "idx", "sup", "w"))
    else:
        idx = np.full((dim, n), 12345, dtype=int)
        sup = np.full((dim,) + (4,) * dim + (n,), 3.5e3, dtype=T)
        w = np.full((4,) * dim + (n,), -8.25, dtype=T)
    keep = pos.copy()
    com.local_eulerian_grid_support_of_lagrangian_grid_kernel(
        local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=idx,
        lag_positions=pos)
    dist = sup.astype(float)
    ctx.transitions(2)
    ctx.traces(n)
    com.interpolation_weights_kernel(interp_weights=w, local_eul_grid_support_of_lag_grid=sup)
    if bits(pos) != bits(keep):
        ctx.fail("node positions were modified", ctx.history)
    P = pos.astype(float)
    S = float(shift)
    cell = (P - S) / dx
    slack = 0.0 if exact else 8 * eps * (np.abs(P) + abs(S)).max() / dx + 4 * eps
    bad = ~((cell - idx >= -slack) & (cell - idx < 1 + slack))
    if exact:
        bad |= idx != np.floor(cell)
    if bad.any():
        a, i = np.argwhere(bad)[0]
        ctx.fail(f"node at {P[:, i]}: nearest lower index along axis {a} is {idx[a, i]}, position "
                 f"in cells {cell[a, i]}", ctx.history)
    # distances to grid points idx-1 .. idx+2, components ordered x, y(, z); array axes z, y, x
    tol = 8 * eps * (np.abs(P) + abs(S) + 4 * dx).max()
    offs = np.arange(-1, 3)
    W = np.ones((4,) * dim + (n,))
    for a in range(dim):
        d1 = (idx[a][None, :] + offs[:, None]) * dx + S - P[a][None, :]  # (4, n)
        shape = [1] * dim + [n]
        shape[dim - 1 - a] = 4
        d = np.broadcast_to(d1.reshape(shape), (4,) * dim + (n,))
        bad = ~(np.abs(dist[a] - d) <= tol)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            ctx.fail(f"support distance along axis {a} at {i}: {dist[a][i]!r}, expected {d[i]!r}",
                     ctx.history)
        W = W * phi(kern, dist[a] / dx)
    wd = w.astype(float) * dx**dim
    rtol = 40 * eps + 12 * tol / dx if not exact else 40 * eps
    bad = ~(np.abs(wd - W) <= rtol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail(f"{kern} weight at {i} for node at {P[:, i[-1]]}: {wd[i]!r} (times cell volume), "
                 f"tensor product {W[i]!r}", ctx.history)
    if (wd < -4 * eps).any():
        ctx.fail(f"negative weight {wd.min()}", ctx.history)
    tot = wd.reshape(-1, n).sum(axis=0)
    wtol = 4**dim * 4 * eps + 8 * tol / dx
    if (np.abs(tot - 1) > wtol).any():
        i = int(np.argmax(np.abs(tot - 1)))
        ctx.fail(f"weights of node at {P[:, i]} sum to {tot[i]!r}", ctx.history)
    if kern == "peskin":
        for a in range(dim):
            m = (wd * dist[a] / dx).reshape(-1, n).sum(axis=0)
            if (np.abs(m) > 8 * wtol).any():
                i = int(np.argmax(np.abs(m)))
                ctx.fail(f"first moment along axis {a} of node at {P[:, i]} is {m[i]!r}",
                         ctx.history)


def run_unit(ctx, p):
    if p.get("kind") == "mixed":
        return mixed(ctx, p["dim"])
    dim, kern, dt, dx = p["dim"], p["kern"], p["dtype"], p["dx"]
    T = NP[dt]
    deep = ctx.tier == "thorough"
    m = ({2: 64, 3: 16} if deep else {2: 32, 3: 10})[dim]
    line = [k / m for k in range(m + 1)]
    tiny = 2.0**-20 if dt == "float64" else 2.0**-14
    line += [tiny, 1 - tiny] if dim == 2 else [tiny]
    dyadic = dx in (0.0625, 1.0, 2.5) and (m & (m - 1)) == 0
    combos = list(itertools.product(line, repeat=dim))
    cells = np.array(combos).T  # (dim, n)
    base = np.array([3, 5, 2])[:dim]
    for shift in (0.0, dx / 2, -0.25 * dx, 3 * dx, 1.75):
        pos = ((cells + base[:, None]) * dx + shift).astype(T)
        n = pos.shape[1]
        exact = dyadic and dt == "float64"
        ctx.history = dict(dim=dim, kernel=kern, dtype=dt, dx=dx, shift=shift, nodes=n)
        com = communicator(dim, dx, T(shift), n, dt, kern)
        for c in combos:
            ctx.state((dim, kern, dt, dx, shift, c))
        run_pair(ctx, com, pos, dx, T(shift), dim, dt, kern, exact)
        # the same communicator on other positions: reversed order, other cells, negative cells
        run_pair(ctx, com, np.ascontiguousarray(pos[:, ::-1]), dx, T(shift), dim, dt, kern, exact)
        for away in (40, 700):
            far = ((cells + base[:, None] + away) * dx + shift).astype(T)
            run_pair(ctx, com, far, dx, T(shift), dim, dt, kern, exact)
        # small node counts, spread over the lattice; another communicator used in between
        for cnt in range(1, 9):
            sel = np.linspace(0, n - 1, cnt + 2).astype(int)[1:-1] if cnt > 1 else [n // 3]
            com1 = communicator(dim, dx, T(shift), cnt, dt, kern)
            other = communicator(dim, 2 * dx, T(shift), cnt, dt,
                                 "peskin" if kern == "cosine" else "cosine")
            held = dict(pos=np.zeros((dim, cnt), T), idx=np.full((dim, cnt), 777),
                        sup=np.ones((dim,) + (4,) * dim + (cnt,), T),
                        w=np.ones((4,) * dim + (cnt,), T))
            for k in range(5):
                q = np.ascontiguousarray(pos[:, (np.array(sel) + 17 * k) % n])
                run_pair(ctx, com1, q, dx, T(shift), dim, dt, kern, exact,
                         held=held if cnt % 2 == (dim == 2) else None)
                run_pair(ctx, other, q, 2 * dx, T(shift), dim, dt,
                         "peskin" if kern == "cosine" else "cosine", False)
    ctx.sample(dict(kernel=kern, dim=dim, dx=dx, positions_in_cells=[list(c) for c in combos[:3]]))
