"""P02 fast-diagonalisation Poisson solvers."""
import itertools

import numpy as np

from arrays import EPS, NP, Placed, bits, pattern, rough, worst

BOUNDS = {
    "quick": "2D: all shapes 2..7 x 2..7 and 8 larger up to 100x37 and 64x128; 3D: all shapes 2..5 cubed and 5 "
             "larger; every unit impulse of every small shape, constants, generic fields, five "
             "of seven spacings from 1e-4 to 2000, both precisions; all solve histories of depth 4, two solvers interleaved",
    "thorough": "as quick with 2D shapes up to 10 x 10, 3D up to 6 cubed, histories of depth 5",
}
EXPLANATION = ("The real solvers are run on every basis right-hand side and all bounded solve "
               "histories; residual of the discrete Neumann Laplacian and mean are checked.")
ASSUMPTIONS = ["at least two points per direction; contiguous solution arrays of the solver's "
               "precision (what the 2D solver accepts)"]


def units(tier):
    us = []
    hi = {("quick", 2): 7, ("quick", 3): 5, ("thorough", 2): 10, ("thorough", 3): 6}
    big = {2: [(16, 9), (9, 16), (40, 33), (12, 12), (2, 30), (31, 3), (100, 37), (64, 128)],
           3: [(7, 9, 8), (12, 5, 3), (3, 4, 15), (10, 11, 9), (20, 33, 24)]}
    for d in (2, 3):
        sh = list(itertools.product(range(2, hi[tier, d] + 1), repeat=d))
        for dt in ("float64", "float32"):
            for i in range(6):
                us.append(dict(name=f"impulses {d}d {dt} part {i}", cost=5,
                               params=dict(kind="shapes", dim=d, dtype=dt, shapes=sh[i::6])))
            for s in big[d]:
                us.append(dict(name=f"larger {d}d {dt} {s}", cost=4,
                               params=dict(kind="shapes", dim=d, dtype=dt, shapes=[s])))
            if dt == "float64":
                us.append(dict(name=f"both precisions {d}d", cost=4, params=dict(kind="mixed", dim=d)))
            us.append(dict(name=f"histories {d}d {dt}", cost=6,
                           params=dict(kind="hist", dim=d, dtype=dt)))
    return us


def spacings(shape):
    """Three ordinary spacings for all shapes, extreme ones for every other shape."""
    return (1.0, 0.03, 7.5) + ((1e-4, 2000.0) if sum(shape) % 2 else (150.0, 1e-2))


def make(shape, dx, dt, **kw):
    from sopht.numeric.eulerian_grid_ops import FastDiagPoissonSolver2D, FastDiagPoissonSolver3D

    sizes = dict(zip(("grid_size_x", "grid_size_y", "grid_size_z"), shape[::-1]))
    if dt != "float64" or sum(shape) % 2:  # the default is left out on every second shape
        kw["real_t"] = NP[dt]
    return (FastDiagPoissonSolver2D if len(shape) == 2 else FastDiagPoissonSolver3D)(
        **sizes, dx=dx, **kw)


def neg_laplacian(u, dx):
    """Homogeneous Neumann (mirror) negative Laplacian."""
    r = np.zeros_like(u)
    for ax in range(u.ndim):
        p = np.pad(u, [(1, 1) if a == ax else (0, 0) for a in range(u.ndim)], mode="edge")
        n = u.shape[ax]
        hi = [slice(None)] * u.ndim
        lo = [slice(None)] * u.ndim
        hi[ax], lo[ax] = slice(2, n + 2), slice(0, n)
        r += 2 * u - p[tuple(hi)] - p[tuple(lo)]
    return r / dx / dx


def verify(ctx, sol, rhs, dx, dt, what):
    u, r = sol.astype(float), rhs.astype(float)
    n = max(sol.shape)
    m = float(np.abs(r).max()) or 1.0  # rounding of a zero right-hand side: that of O(1) ones
    eps = EPS[dt]
    res = neg_laplacian(u, dx) - (r - r.mean())
    tol = 60 * eps * n**2 * m * sol.ndim
    idx, d = worst(res, np.zeros_like(res))
    if d > tol:
        ctx.fail(f"{what}: residual {d:.3g} at {idx} exceeds {tol:.3g}", ctx.history)
    # solution size is at most m dx^2 / smallest eigenvalue
    size = m * dx * dx / (2 - 2 * np.cos(np.pi / n))
    if not abs(u.mean()) <= 60 * eps * n * size:
        ctx.fail(f"{what}: mean of the solution is {u.mean():.3g}", ctx.history)


def run_unit(ctx, p):
    if p["kind"] == "hist":
        return histories(ctx, p)
    if p["kind"] == "mixed":  # solvers that differ in one option only, one after the other
        shps = [(4, 5), (5, 4), (4, 4)] if p["dim"] == 2 else [(3, 2, 4), (2, 3, 4), (4, 3, 2)]
        for dt in ("float64", "float32", "float64"):
            run_unit(ctx, dict(kind="shapes", dim=p["dim"], dtype=dt, shapes=shps))
        return
    dim, dt = p["dim"], p["dtype"]
    T = NP[dt]
    for shape in map(tuple, p["shapes"]):
        for dx in spacings(shape):
            ctx.history = dict(shape=shape, dx=dx, dtype=dt)
            s = make(shape, dx, dt)
            n = int(np.prod(shape))
            sol = Placed(pattern(shape, 1) * 1e3, T)
            cells = range(n) if n <= 130 else [0, 1, n // 2, n - 1, shape[-1] - 1, n // 3]
            cases = [("impulse", c) for c in cells] + [("constant", 1.5), ("constant", -300.0),
                                                       ("zero", 0.0)]
            cases += [("generic", t) for t in range(3)]
            for kind, c in cases:
                r = np.zeros(shape)
                if kind == "impulse":
                    r.reshape(-1)[c] = 1.0
                elif kind == "generic":
                    r = (rough if c == 0 else pattern)(shape, c + 3) * (2.0**-60, 1.0, 2.0**40)[c]
                else:
                    r[...] = c
                rhs = Placed(r, T)
                b = bits(rhs.view)
                s.solve(solution_field=sol.view, rhs_field=rhs.view)
                ctx.transitions()
                ctx.traces()
                ctx.state((shape, dx, dt, kind, c))
                verify(ctx, sol.view, rhs.view, dx, dt,
                       f"{dim}D {shape} dx {dx} {dt} {kind} {c}")
                if kind == "constant":
                    size = abs(c) * dx * dx / (2 - 2 * np.cos(np.pi / max(shape)))
                    # rounding of the eigenvectors grows with the inverse eigenvalue gap
                    n_ = max(shape)
                    if not float(np.abs(sol.view).max()) <= 60 * EPS[dt] * max(
                            n_, n_**3 / 50) * size:
                        ctx.fail(f"constant right-hand side gives {np.abs(sol.view).max()}",
                                 ctx.history)
                if bits(rhs.view) != b:
                    ctx.fail("right-hand side modified", ctx.history)
                if not (sol.canaries_intact() and rhs.canaries_intact()):
                    ctx.fail("memory outside the arrays written", ctx.history)
            if dim == 3:
                sol3 = pattern((3,) + shape, 6).astype(T)
                for case in (None, 0, 1, 2, "equal", "all zero"):
                    rhs = rough((3,) + shape, 5).astype(T)
                    rhs[1] *= 0.25
                    if case == "equal":
                        rhs[1:] = rhs[0]
                    elif case == "all zero":
                        rhs[...] = 0
                    elif case is not None:
                        rhs[case] = 0
                    keep = rhs.copy()
                    s.vector_field_solve(solution_vector_field=sol3, rhs_vector_field=rhs)
                    ctx.transitions()
                    ctx.traces()
                    ctx.state((shape, dx, dt, "vector", case))
                    for c in range(3):
                        verify(ctx, sol3[c], keep[c], dx, dt, f"vector component {c} on {shape} "
                                                              f"(zero component: {case})")
                    if not np.array_equal(rhs, keep):
                        ctx.fail("right-hand side modified", ctx.history)


def histories(ctx, p):
    dim, dt = p["dim"], p["dtype"]
    T = NP[dt]
    shape = (4, 5) if dim == 2 else (3, 2, 4)
    depth = 5 if ctx.tier == "thorough" else 4
    dxs = (1.0, 0.25)
    solvers = [make(shape, dx, dt) for dx in dxs]
    a, b = pattern(shape, 1).astype(T), pattern(shape, 2).astype(T)
    rhss = [a, b, np.full(shape, 2.0, T), (T(16) * a + b).astype(T)]
    keep = [r.copy() for r in rhss]
    # reference: dense pseudo-inverse
    n = int(np.prod(shape))
    exps, tols = [], []
    for dx in dxs:
        A = np.stack([neg_laplacian(np.eye(n)[i].reshape(shape), dx).reshape(-1)
                      for i in range(n)], axis=1)
        P = np.linalg.pinv(A)
        exps.append([(P @ (r.astype(float).reshape(-1))).reshape(shape) for r in rhss])
        tols.append([600 * EPS[dt] * float(np.abs(P).sum(axis=1).max()) *
                     float(np.abs(r).max()) for r in rhss])
    alphabet = [(s, r) for s in range(2) for r in range(4)]
    slot = np.zeros(shape, T)  # one solver reads one array that the caller rewrites
    for hist in itertools.product(alphabet, repeat=depth):
        sol = np.full(shape, 77.0, T)
        ctx.history = dict(shape=shape, dtype=dt, history=hist)
        for s, r in hist:
            rhs = rhss[r]
            if (s + dim) % 2 == (dt == "float32"):
                slot[...] = rhs
                rhs = slot
            solvers[s].solve(solution_field=sol, rhs_field=rhs)
            ctx.transitions()
            if not np.array_equal(rhs, rhss[r]):
                ctx.fail("right-hand side modified", ctx.history)
            if not (np.abs(sol - exps[s][r]) <= tols[s][r]).all():
                idx, d = worst(sol, exps[s][r])
                ctx.fail(f"history {hist} (solver, rhs): solution{list(idx)} = {sol[idx]!r}, "
                         f"expected {exps[s][r][idx]!r}", ctx.history)
        ctx.traces()
        ctx.state((dim, dt, hist))
    sol = np.full(shape, 77.0, T)
    for step in range(1040 if ctx.tier == "thorough" else 300):
        s, r = (step // 5) % 2, (step * step + step // 7) % 4
        ctx.history = dict(shape=shape, dtype=dt, call=step, solver=s, rhs=r)
        solvers[s].solve(solution_field=sol, rhs_field=rhss[r])
        ctx.transitions()
        if not (np.abs(sol - exps[s][r]) <= tols[s][r]).all():
            idx, d = worst(sol, exps[s][r])
            ctx.fail(f"long history, call {step}: solution{list(idx)} = {sol[idx]!r}, "
                     f"expected {exps[s][r][idx]!r}", ctx.history)
    ctx.traces()
    for r, k in zip(rhss, keep):
        if not np.array_equal(r, k):
            ctx.fail("right-hand side modified", ctx.history)
