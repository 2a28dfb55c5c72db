"""P01 unbounded Poisson solvers."""
import itertools

import numpy as np

from arrays import EPS, NP, Placed, bits, pattern, rough, worst

BOUNDS = {
    "quick": "2D: all shapes 2..6 x 2..6 and (1,5),(4,9),(13,7),(16,16),(24,31); 3D: all shapes "
             "2..4 cubed and (5,6,3),(9,4,7),(8,8,8); every unit impulse of every small shape, "
             "generic fields, three domain lengths; larger shapes up to 150x151 and 32 cubed by "
             "impulses and generic fields; both precisions, threads 1,2,4,8, defaults left out on every second shape; all solve "
             "histories of depth 4 over {4 right-hand sides} and of two solvers interleaved",
    "thorough": "as quick with 2D shapes up to 9 x 9, 3D shapes up to 5 cubed and histories of "
                "depth 5",
}
EXPLANATION = ("The real FFT solvers are run on every basis right-hand side (the operator is linear, "
               "so this is every right-hand side up to rounding) and on all bounded solve "
               "histories, against direct summation of the free-space Green's function.")
ASSUMPTIONS = ["linearity is itself checked on generic fields"]


BIG = {2: [(100, 37), (37, 100), (64, 128), (128, 64), (150, 151)],
       3: [(20, 33, 24), (33, 24, 20), (32, 32, 32), (9, 16, 40)]}
BIGGER = {2: [(256, 256), (300, 20), (20, 301), (257, 512)], 3: [(48, 64, 40), (5, 7, 120)]}


def small(dim, tier):
    hi = {("quick", 2): 6, ("quick", 3): 4, ("thorough", 2): 9, ("thorough", 3): 5}[tier, dim]
    return list(itertools.product(range(2, hi + 1), repeat=dim))


def units(tier):
    us = []
    big = {2: [(1, 5), (5, 1), (4, 9), (13, 7), (16, 16), (24, 31)],
           3: [(5, 6, 3), (9, 4, 7), (8, 8, 8), (1, 4, 3)]}
    for d in (2, 3):
        for dt in ("float64", "float32"):
            sh = small(d, tier)
            n = 8
            for i in range(n):
                us.append(dict(name=f"impulses {d}d {dt} part {i}", cost=5,
                               params=dict(kind="shapes", dim=d, dtype=dt, shapes=sh[i::n],
                                           part=i)))
            for s in big[d]:
                us.append(dict(name=f"larger {d}d {dt} {s}", cost=4,
                               params=dict(kind="shapes", dim=d, dtype=dt, shapes=[s], part=1)))
            for i, s in enumerate(BIG[d] + (BIGGER[d] if tier == "thorough" else [])):
                us.append(dict(name=f"large {d}d {dt} {s}", cost=6,
                               params=dict(kind="big", dim=d, dtype=dt, shape=s,
                                           threads=1 + i % 2)))
            if dt == "float64":
                us.append(dict(name=f"both precisions {d}d", cost=4, params=dict(kind="mixed", dim=d)))
            for th in (1, 2):
                us.append(dict(name=f"histories {d}d {dt} threads {th}", cost=8,
                               params=dict(kind="hist", dim=d, dtype=dt, threads=th)))
    return us


def make(dim, shape, x_range, dt, threads):
    from sopht.numeric.eulerian_grid_ops import (UnboundedPoissonSolverPYFFTW2D,
                                                 UnboundedPoissonSolverPYFFTW3D)

    kw = dict(zip(("grid_size_x", "grid_size_y", "grid_size_z"), shape[::-1]))
    opts = dict(x_range=x_range, num_threads=threads, real_t=NP[dt])
    if sum(shape) % 2:  # arguments that equal the documented defaults are left out
        defaults = dict(x_range=1.0, num_threads=1, real_t=np.float64)
        opts = {k: v for k, v in opts.items() if v != defaults[k]}
    cls = UnboundedPoissonSolverPYFFTW2D if dim == 2 else UnboundedPoissonSolverPYFFTW3D
    return cls(**kw, **opts)


def green_table(shape, x_range):
    """G times the cell volume, for all index offsets 0..n-1 per direction."""
    dim = len(shape)
    dx = x_range / shape[-1]
    idx = np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")
    r = dx * np.sqrt(sum(i.astype(float) ** 2 for i in idx))
    r[(0,) * dim] = 1.0
    if dim == 2:
        g = -np.log(r) / (2 * np.pi)
        g[0, 0] = -(2 * np.log(dx / np.sqrt(np.pi)) - 1) / (4 * np.pi)
    else:
        g = 1 / (4 * np.pi * r)
        g[0, 0, 0] = 1 / (4 * np.pi * dx)
    return g * dx**dim


def green_matrix(shape, x_range):
    g = green_table(shape, x_range)
    idx = [i.reshape(-1) for i in np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")]
    return g[tuple(np.abs(i[:, None] - i[None, :]) for i in idx)]


def tol_for(dt, G, rhs):
    bound = float((np.abs(G) @ np.abs(rhs.reshape(-1))).max()) if rhs.size else 0.0
    gmax = float(np.abs(G).max()) * float(np.abs(rhs).sum()) * 0.05
    return 150 * EPS[dt] * max(bound, gmax, 1e-30)


def check(ctx, got, exp, tol, what, detail):
    idx, d = worst(got, exp)
    if d > tol:
        ctx.fail(f"{what}: solution{list(idx)} = {got[idx]!r}, Green's function convolution gives "
                 f"{exp[idx]!r} (difference {d:.3g} > {tol:.3g})", detail)


def run_unit(ctx, p):
    if p["kind"] == "hist":
        return histories(ctx, p)
    if p["kind"] == "big":
        return big(ctx, p)
    if p["kind"] == "mixed":  # solvers that differ in one option only, one after the other
        shps = [(4, 5), (5, 4), (4, 4)] if p["dim"] == 2 else [(3, 2, 4), (2, 3, 4), (4, 3, 2)]
        for dt in ("float64", "float32", "float64"):
            run_unit(ctx, dict(kind="shapes", dim=p["dim"], dtype=dt, shapes=shps, part=0))
        return
    dim, dt = p["dim"], p["dtype"]
    T = NP[dt]
    for si, shape in enumerate(map(tuple, p["shapes"])):
        ranges = (1.0, 0.37, 12.0) if (si + p["part"]) % 2 else (1.0, 3.5, (1e-3, 800.0)[si % 2])
        for x_range in ranges:
            threads = (1, 1, 2, 1, 8, 4)[si % 6]
            ctx.history = dict(shape=shape, x_range=x_range, dtype=dt, threads=threads)
            s = make(dim, shape, x_range, dt, threads)
            G = green_matrix(shape, x_range)
            n = int(np.prod(shape))
            sol = Placed(pattern(shape, 1) * 1e3, T)
            cells = range(n) if n <= 130 else [0, 1, n // 2, n - 1, shape[-1] - 1, n // 3]
            for c in cells:
                rhs = Placed(np.zeros(shape), T)
                rhs.view.reshape(-1)[c] = 1.0
                b = bits(rhs.view)
                s.solve(solution_field=sol.view, rhs_field=rhs.view)
                ctx.transitions()
                ctx.traces()
                ctx.state((dim, dt, shape, x_range, c))
                exp = G[:, c].reshape(shape)
                check(ctx, sol.view, exp, tol_for(dt, G, rhs.view.astype(float)),
                      f"{dim}D unit impulse in cell {c} of {shape}, x_range {x_range}, {dt}",
                      ctx.history)
                if bits(rhs.view) != b:
                    ctx.fail("right-hand side modified", ctx.history)
                if not (sol.canaries_intact() and rhs.canaries_intact()):
                    ctx.fail("memory outside the arrays written", ctx.history)
            for tag, scale in ((2, 1.0), (3, 2.0**-60), (4, 2.0**40)):
                for layout in ("contig", "window", "strided"):
                    rhs = Placed((rough if tag == 3 else pattern)(shape, tag) * scale, T, layout)
                    sol2 = Placed(pattern(shape, 9), T, layout)
                    b = bits(rhs.view)
                    s.solve(solution_field=sol2.view, rhs_field=rhs.view)
                    ctx.transitions()
                    ctx.traces()
                    ctx.state((dim, dt, shape, x_range, tag, layout))
                    r = rhs.view.astype(float)
                    check(ctx, sol2.view, (G @ r.reshape(-1)).reshape(shape), tol_for(dt, G, r),
                          f"{dim}D generic field on {shape}, x_range {x_range}, {dt}, {layout}",
                          ctx.history)
                    if bits(rhs.view) != b:
                        ctx.fail("right-hand side modified", ctx.history)
                    if not (sol2.canaries_intact() and rhs.canaries_intact()):
                        ctx.fail("memory outside the arrays written", ctx.history)
            if dim == 3:
                sol3 = pattern((3,) + shape, 6).astype(T)
                for case in (None, 0, 1, 2, "equal", "all zero"):
                    rhs = rough((3,) + shape, 5).astype(T)
                    rhs[1] *= 0.25
                    if case == "equal":
                        rhs[1:] = rhs[0]
                    elif case == "all zero":
                        rhs[...] = 0
                    elif case is not None:  # planar right-hand sides
                        rhs[case] = 0
                    keep = rhs.copy()
                    s.vector_field_solve(solution_vector_field=sol3, rhs_vector_field=rhs)
                    ctx.transitions()
                    ctx.traces()
                    ctx.state((dim, dt, shape, x_range, "vector", case))
                    for c in range(3):
                        r = keep[c].astype(float)
                        check(ctx, sol3[c], (G @ r.reshape(-1)).reshape(shape),
                              tol_for(dt, G, r),
                              f"vector solve component {c} on {shape} (zero component: {case})",
                              ctx.history)
                    if not np.array_equal(rhs, keep):
                        ctx.fail("right-hand side modified", ctx.history)


def big(ctx, p):
    """Larger grids: impulses against slices of the table, fields against linear convolution."""
    from scipy.signal import fftconvolve

    shape, dim, dt = tuple(p["shape"]), p["dim"], p["dtype"]
    T = NP[dt]
    n = int(np.prod(shape))
    for x_range in (1.0, 0.05, 40.0):
        ctx.history = dict(shape=shape, x_range=x_range, dtype=dt, threads=p["threads"])
        s = make(dim, shape, x_range, dt, p["threads"])
        g = green_table(shape, x_range)
        sym = g
        for ax in range(dim):
            tail = [slice(None)] * dim
            tail[ax] = slice(None, 0, -1)
            sym = np.concatenate([sym[tuple(tail)], sym], axis=ax)
        cells = [0, n - 1, n // 2, shape[-1] - 1, n // 3, (5 * n) // 7]
        for case in cells + ["generic 1", "generic 2", "zero"]:
            r = np.zeros(shape)
            if isinstance(case, int):
                r.reshape(-1)[case] = 1.0
                c = np.unravel_index(case, shape)
                exp = g[np.ix_(*[np.abs(np.arange(m) - i) for m, i in zip(shape, c)])]
                tol = 150 * EPS[dt] * float(np.abs(g).max())
            elif case != "zero":
                r = (pattern if case.endswith("1") else rough)(shape, 60).astype(T).astype(float)
                exp = fftconvolve(r, sym, mode="full")[tuple(
                    slice(m - 1, 2 * m - 1) for m in shape)]
                bound = np.abs(fftconvolve(np.abs(r), np.abs(sym), mode="same")).max()
                tol = 150 * EPS[dt] * max(float(bound), float(np.abs(g).max() * np.abs(r).sum()) * 0.05)
            else:
                exp, tol = r.copy(), 1e-300
            rhs, sol = Placed(r, T), Placed(pattern(shape, 1) * 1e3, T)
            b = bits(rhs.view)
            s.solve(solution_field=sol.view, rhs_field=rhs.view)
            ctx.transitions()
            ctx.traces()
            ctx.state((dim, dt, shape, x_range, case))
            check(ctx, sol.view, exp, tol, f"{dim}D {case} on {shape}, x_range {x_range}, {dt}",
                  ctx.history)
            if bits(rhs.view) != b:
                ctx.fail("right-hand side modified", ctx.history)
            if not (sol.canaries_intact() and rhs.canaries_intact()):
                ctx.fail("memory outside the arrays written", ctx.history)


def histories(ctx, p):
    """All sequences of solves on two solvers (same shape, different lengths), every solve into
    the array the previous solves left their solution in."""
    dim, dt = p["dim"], p["dtype"]
    T = NP[dt]
    shape = (4, 5) if dim == 2 else (3, 2, 4)
    depth = 5 if ctx.tier == "thorough" else 4
    lengths = (1.0, 2.5)
    solvers = [make(dim, shape, L, dt, p["threads"]) for L in lengths]
    G = [green_matrix(shape, L) for L in lengths]
    a, b = pattern(shape, 1).astype(T), pattern(shape, 2).astype(T)
    rhss = [a, b, np.zeros(shape, T), (T(1024) * a + b).astype(T)]
    exps = [[(M @ r.astype(float).reshape(-1)).reshape(shape) for r in rhss] for M in G]
    tols = [[tol_for(dt, M, r.astype(float)) for r in rhss] for M in G]
    alphabet = [(s, r) for s in range(2) for r in range(4)]
    slot = np.zeros(shape, T)  # one solver reads one array that the caller rewrites
    for hist in itertools.product(alphabet, repeat=depth):
        sol = np.full(shape, 77.0, T)
        ctx.history = dict(shape=shape, dtype=dt, history=hist)
        for s, r in hist:
            rhs = rhss[r]
            if (s + p["threads"]) % 2:
                slot[...] = rhs
                rhs = slot
            solvers[s].solve(solution_field=sol, rhs_field=rhs)
            ctx.transitions()
            if not np.array_equal(rhs, rhss[r]):
                ctx.fail("right-hand side modified", ctx.history)
            tol = tols[s][r]
            if not (np.abs(sol - exps[s][r]) <= tol + 1e-30).all():
                check(ctx, sol, exps[s][r], tol + 1e-30, f"history {hist} (solver, rhs)",
                      ctx.history)
        ctx.traces()
        ctx.state((dim, dt, p["threads"], hist))
    long_history(ctx, p, shape, solvers, rhss, exps, tols)
    if not (np.array_equal(rhss[0], pattern(shape, 1).astype(T))
            and np.array_equal(rhss[1], pattern(shape, 2).astype(T))):
        ctx.fail("right-hand side modified", ctx.history)


def long_history(ctx, p, shape, solvers, rhss, exps, tols):
    sol = np.full(shape, 77.0, NP[p["dtype"]])
    for step in range(1040 if ctx.tier == "thorough" else 300):
        s, r = (step // 5) % 2, (step * step + step // 7) % 4
        ctx.history = dict(shape=shape, dtype=p["dtype"], call=step, solver=s, rhs=r)
        solvers[s].solve(solution_field=sol, rhs_field=rhss[r])
        ctx.transitions()
        check(ctx, sol, exps[s][r], tols[s][r] + 1e-30, f"long history, call {step}", ctx.history)
    ctx.traces()
