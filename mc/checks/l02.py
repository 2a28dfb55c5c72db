"""L02 interpolation and spreading."""
import itertools

import numpy as np

from arrays import EPS, NP, Placed, bits, pattern, rough
from checks.l01 import communicator

BOUNDS = {
    "quick": "2D grids 7x9, 8x6 (every node cell; every pair of node cells on 8x6), 3D grids 6x7x8 "
             "(every node cell), 5x6x5 (every pair); scalar and vector; weights of both kernels at "
             "9 sub-cell positions and arbitrary weights; every unit impulse of the grid field; "
             "1..6 coinciding nodes; up to 1030 nodes; histories of depth 3 of spreads and interpolations on "
             "accumulating grids, arrays distinct or rewritten in place",
    "thorough": "as quick, plus all pairs on the larger grids and all triples of node cells on a 6x6 grid",
}
EXPLANATION = ("The real interpolation and spreading kernels are run for every placement of nodes "
               "and every grid impulse, compared with the weighted sums and with each other as "
               "adjoints.")
ASSUMPTIONS = ["numba is not installed here: its decorators are stubbed, the Python bodies run",
               "nodes at least two cells inside the grid"]


def units(tier):
    us = []
    for dim in (2, 3):
        us.append(dict(name=f"neighbouring options {dim}d", cost=2, params=dict(kind="mixed", dim=dim)))
        for nc in (1, dim):
            for dt in ("float64", "float32"):
                for kind in ("single", "pairs", "many", "histories") + (
                        ("triples",) if tier == "thorough" and dim == 2 else ()):
                    us.append(dict(name=f"{kind} {dim}d {nc} components {dt}",
                                   cost=dim * {"pairs": 3, "triples": 10}.get(kind, 1),
                                   params=dict(kind=kind, dim=dim, nc=nc, dtype=dt)))
    return us


def cells(grid):
    """All nearest indices (x first) of nodes two cells inside the grid (z, y, x sizes)."""
    return list(itertools.product(*[range(1, n - 2) for n in grid[::-1]]))


def block(grid, idx):
    return tuple(slice(i - 1, i + 3) for i in idx[::-1])


def ref_interp(field, w, idx, vol):
    return np.array([(field[(Ellipsis,) + block(None, i)] * w[..., k])
                     .reshape(field.shape[:-w.ndim + 1] + (-1,)).sum(axis=-1) * vol
                     for k, i in enumerate(idx)]).T


def ref_spread(grid_field, lag, w, idx):
    out = grid_field.copy()
    for k, i in enumerate(idx):
        b = (Ellipsis,) + block(None, i)
        if lag.ndim == 1:
            out[b] += lag[k] * w[..., k]
        else:
            out[b] += lag[:, k].reshape((-1,) + (1,) * (w.ndim - 1)) * w[..., k]
    return out


def weights(dim, n, dx, dt, how):
    if how == "arbitrary":
        return pattern((4,) * dim + (n,), 5 + n).astype(NP[dt])
    kern, sub = how
    com = communicator(dim, dx, 0.0, n, dt, kern)
    pos = np.array([[(3 + sub[(a + k) % len(sub)]) * dx for k in range(n)]
                    for a in range(dim)], dtype=NP[dt])
    idx = np.zeros((dim, n), int)
    sup = np.zeros((dim,) + (4,) * dim + (n,), NP[dt])
    w = np.zeros((4,) * dim + (n,), NP[dt])
    com.local_eulerian_grid_support_of_lagrangian_grid_kernel(sup, idx, pos)
    com.interpolation_weights_kernel(w, sup)
    return w


def trial(ctx, com, grid, idx, w, dx, dt, nc, tag, adjoint=True, fields=None, layout="contig",
          scale=1.0):
    dim = len(grid)
    T, eps = NP[dt], EPS[dt]
    n = len(idx)
    vol = dx**dim
    idxarr = np.array(idx, dtype=int).T.copy()
    gshape = grid if nc == 1 else (nc,) + grid
    lshape = (n,) if nc == 1 else (nc, n)
    skip = 0 if nc == 1 else 1
    E = Placed((pattern(gshape, tag) if fields is None else fields) * scale, T, layout,
               skip_dims=skip)
    L = Placed((rough if tag % 2 else pattern)(lshape, tag + 1) * scale, T)
    out = Placed(np.full(lshape, 9.5), T)
    acc = Placed(pattern(gshape, tag + 2) * scale, T, layout, skip_dims=skip)
    e0, l0, a0 = (x.view.astype(float) for x in (E, L, acc))
    W = w.astype(float)
    wkeep, ikeep = bits(w), bits(idxarr)
    ctx.history = dict(grid=grid, node_cells=idx, components=nc, dtype=dt, dx=dx)
    com.eulerian_to_lagrangian_grid_interpolation_kernel(
        lag_grid_field=out.view, eul_grid_field=E.view, interp_weights=w,
        nearest_eul_grid_index_to_lag_grid=idxarr)
    com.lagrangian_to_eulerian_grid_interpolation_kernel(
        eul_grid_field=acc.view, lag_grid_field=L.view, interp_weights=w,
        nearest_eul_grid_index_to_lag_grid=idxarr)
    ctx.transitions(2)
    ctx.traces()
    ctx.state((grid, tuple(idx), nc, dt, dx, tag, layout))
    wm = float(np.abs(W).max()) + 1e-37
    em = float(np.abs(e0).max()) + 1e-37
    lm = float(np.abs(l0).max()) + 1e-37
    exp = ref_interp(e0, W, idx, vol)
    tol = 4**dim * 4 * eps * wm * em * vol
    if not (np.abs(out.view - exp) <= tol).all():
        ctx.fail(f"interpolation on {grid} at node cells {idx}: {out.view!r}, weighted sum {exp!r}",
                 ctx.history)
    exp = ref_spread(a0, l0, W, idx)
    tol = 8 * eps * (n + 1) * (wm * lm + float(np.abs(a0).max()))
    if not (np.abs(acc.view - exp) <= tol).all():
        i = tuple(np.argwhere(~(np.abs(acc.view - exp) <= tol))[0])
        ctx.fail(f"spreading on {grid} from node cells {idx}: grid point {i} is {acc.view[i]!r}, "
                 f"expected {exp[i]!r}", ctx.history)
    untouched = np.ones(grid, bool)
    for i in idx:
        untouched[block(None, i)] = False
    if not np.array_equal(acc.view[..., untouched], a0.astype(T)[..., untouched]):
        ctx.fail("spreading changed grid points outside the support", ctx.history)
    if adjoint:
        # <spread(L), E> * vol == <L, interp(E)>
        s = Placed(np.zeros(gshape), T)
        com.lagrangian_to_eulerian_grid_interpolation_kernel(
            eul_grid_field=s.view, lag_grid_field=L.view, interp_weights=w,
            nearest_eul_grid_index_to_lag_grid=idxarr)
        lhs = float((s.view.astype(float) * e0).sum()) * vol
        rhs = float((out.view.astype(float) * l0).sum())
        if abs(lhs - rhs) > 4**dim * 16 * eps * n * wm * em * lm * vol * nc:
            ctx.fail(f"not adjoint: {lhs} against {rhs}", ctx.history)
    if (bits(E.view.astype(float)) != bits(e0) or bits(L.view.astype(float)) != bits(l0)
            or bits(w) != wkeep or bits(idxarr) != ikeep):
        ctx.fail("an input was modified", ctx.history)
    if not all(x.canaries_intact() for x in (E, L, out, acc)):
        ctx.fail("memory outside the arrays was written", ctx.history)


GRIDS = {2: [(7, 9), (8, 6)], 3: [(6, 7, 8), (5, 6, 5)]}
SUBS = [(0.0, 0.0, 0.0), (0.5, 0.25, 0.75), (0.1, 0.9, 0.3)]


def comm(dim, dx, n, dt, nc):
    return communicator(dim, dx, 0.0, n, dt, "cosine", ncomp=nc)


def mixed(ctx, dim):
    """Communicators that differ in one option only, created together, used in turn."""
    base = dict(dx=0.5, n=3, dt="float64", nc=1, kern="cosine")
    var = [base] + [dict(base, **d) for d in (
        dict(dx=0.25), dict(n=4), dict(dt="float32"), dict(nc=dim), dict(kern="peskin"),
        dict(dt="float32", nc=dim))]
    for order in (var, var[::-1]):
        coms = [communicator(dim, v["dx"], 0.0, v["n"], v["dt"], v["kern"], ncomp=v["nc"])
                for v in order]
        for rnd in range(3):
            for v, com in zip(order, coms):
                for grid in GRIDS[dim]:
                    cs = cells(grid)
                    w = weights(dim, v["n"], v["dx"], v["dt"], (v["kern"], SUBS[rnd]))
                    trial(ctx, com, grid, [cs[(5 * k + rnd) % len(cs)] for k in range(v["n"])], w,
                          v["dx"], v["dt"], v["nc"], 30 + rnd)


def run_unit(ctx, p):
    if p["kind"] == "mixed":
        return mixed(ctx, p["dim"])
    dim, nc, dt, kind = p["dim"], p["nc"], p["dtype"], p["kind"]
    T = NP[dt]
    hows = ["arbitrary"] + [(k, s) for k in ("cosine", "peskin") for s in SUBS]
    if kind == "single":
        for dx in (0.25, 1.3):
            for how in hows:
                for grid in GRIDS[dim]:
                    com = comm(dim, dx, 1, dt, nc)
                    w = weights(dim, 1, dx, dt, how)
                    for i in cells(grid):
                        trial(ctx, com, grid, [i], w, dx, dt, nc, 3,
                              layout="contig" if sum(i) % 2 else "window")
            grid = GRIDS[dim][1]
            com = comm(dim, dx, 1, dt, nc)
            w = weights(dim, 1, dx, dt, ("peskin", SUBS[1]))
            gshape = grid if nc == 1 else (nc,) + grid
            node = cells(grid)[len(cells(grid)) // 2]
            for c in range(int(np.prod(gshape))):  # unit impulses
                f = np.zeros(gshape)
                f.reshape(-1)[c] = 1.0
                trial(ctx, com, grid, [node], w, dx, dt, nc, 100 + c, fields=f)
            # exact for constants, and totals are conserved
            for how in hows[1:]:
                w = weights(dim, 1, dx, dt, how)
                idx = np.array([node]).T.copy()
                E = np.full(gshape, 2.5, T)
                out = np.zeros((1,) if nc == 1 else (nc, 1), T)
                com.eulerian_to_lagrangian_grid_interpolation_kernel(out, E, w, idx)
                if (np.abs(out - 2.5) > 2.5 * 4**dim * 4 * EPS[dt] * 4).any():
                    ctx.fail(f"constant field interpolates to {out!r}", ctx.history)
                G = np.zeros(gshape, T)
                com.lagrangian_to_eulerian_grid_interpolation_kernel(
                    G, np.full_like(out, 1.5), w, idx)
                tot = G.astype(float).reshape(nc if nc > 1 else 1, -1).sum(axis=1) * dx**dim
                ctx.transitions(2)
                if (np.abs(tot - 1.5) > 4**dim * 16 * EPS[dt]).any():
                    ctx.fail(f"spreading 1.5 gives totals {tot}", ctx.history)
    elif kind == "pairs":
        grids = GRIDS[dim] if ctx.tier == "thorough" else GRIDS[dim][1:]
        for grid in grids:
            com = comm(dim, 0.5, 2, dt, nc)
            w = weights(dim, 2, 0.5, dt, ("cosine", SUBS[1]))
            for pair in itertools.product(cells(grid), repeat=2):
                trial(ctx, com, grid, list(pair), w, 0.5, dt, nc, 7, adjoint=False)
    elif kind == "triples":
        grid = (6, 6)
        com = comm(dim, 0.5, 3, dt, nc)
        w = weights(dim, 3, 0.5, dt, ("peskin", SUBS[2]))
        for t in itertools.product(cells(grid), repeat=3):
            trial(ctx, com, grid, list(t), w, 0.5, dt, nc, 8, adjoint=False)
    elif kind == "many":
        grid = GRIDS[dim][0]
        all_cells = cells(grid)
        for n in (1, 2, 3, 4, 5, 6, len(all_cells)):
            for how in hows:
                com = comm(dim, 0.75, n, dt, nc)
                w = weights(dim, n, 0.75, dt, how)
                for base in range(0, len(all_cells), max(1, len(all_cells) // 4)):
                    same = [all_cells[base]] * n  # coinciding nodes
                    trial(ctx, com, grid, same, w, 0.75, dt, nc, 9)
                    run = [all_cells[(base + k) % len(all_cells)] for k in range(n)]
                    trial(ctx, com, grid, run, w, 0.75, dt, nc, 10)
                    trial(ctx, com, grid, run, w, 0.75, dt, nc, 13,
                          scale=2.0 ** ((n + base) % 2 * 80 - 50))
                    trial(ctx, com, grid, run[::-1], w, 0.75, dt, nc, 11)
        for n in (33, 64, 129, 300, 1030):
            com = comm(dim, 0.75, n, dt, nc)
            w = weights(dim, n, 0.75, dt, hows[n % 7])
            for step in (1, 3, 0):
                run = [all_cells[(k * step + k // 7) % len(all_cells)] for k in range(n)]
                trial(ctx, com, grid, run, w, 0.75, dt, nc, 12 + step)
    else:  # histories: spreads accumulate, two communicators of different node counts interleave
        grid = GRIDS[dim][1]
        all_cells = cells(grid)
        coms, ws, sets, lags = [], [], [], []
        for j, n in enumerate((2, 3)):
            coms.append(comm(dim, 0.5, n, dt, nc))
            ws.append([weights(dim, n, 0.5, dt, (k, SUBS[j])) for k in ("cosine", "peskin")])
            sets.append([[all_cells[(3 * k + q) % len(all_cells)] for k in range(n)]
                         for q in (0, 4)])
            lags.append(pattern((n,) if nc == 1 else (nc, n), 40 + j).astype(T))
        gshape = grid if nc == 1 else (nc,) + grid
        n = 3 if dt == "float64" else 2
        held = [np.zeros((dim, n), int), np.zeros((4,) * dim + (n,), T)]
        outs = [np.zeros_like(x) for x in lags]
        fix = pattern(gshape, 51).astype(T)
        interp = {(j, k, q): ref_interp(fix.astype(float), ws[j][k].astype(float), sets[j][q],
                                        0.5**dim)
                  for j in range(2) for k in range(2) for q in range(2)}
        alphabet = list(itertools.product(range(2), range(2), range(2)))
        for hist in itertools.product(alphabet, repeat=3):
            G = pattern(gshape, 50).astype(T)
            exp = G.astype(float)
            ctx.history = dict(grid=grid, history=hist, dtype=dt)
            for j, k, q in hist:
                idx, w = np.array(sets[j][q], int).T.copy(), ws[j][k]
                if j == (dt == "float64"):  # arrays the caller keeps and rewrites
                    held[0][...], held[1][...] = idx, w
                    idx, w = held
                coms[j].lagrangian_to_eulerian_grid_interpolation_kernel(
                    eul_grid_field=G, lag_grid_field=lags[j], interp_weights=w,
                    nearest_eul_grid_index_to_lag_grid=idx)
                coms[j].eulerian_to_lagrangian_grid_interpolation_kernel(
                    lag_grid_field=outs[j], eul_grid_field=fix, interp_weights=w,
                    nearest_eul_grid_index_to_lag_grid=idx)
                want = interp[j, k, q]
                if not (np.abs(outs[j] - want) <= 400 * EPS[dt] * (1 + np.abs(want).max())).all():
                    ctx.fail(f"history {hist}: interpolation is {outs[j]!r}, expected {want!r}",
                             ctx.history)
                exp = ref_spread(exp, lags[j].astype(float), ws[j][k].astype(float), sets[j][q])
                ctx.transitions()
            ctx.traces()
            ctx.state((dim, nc, dt, hist))
            if not (np.abs(G - exp) <= 200 * EPS[dt] * (1 + np.abs(exp).max())).all():
                ctx.fail(f"history {hist}: accumulated spreading is wrong", ctx.history)
