"""S02 threaded kernels are race-free and cover every point once, for every schedule."""
import itertools

import numpy as np

import mcrt
import opsreg
from arrays import EPS, Placed, bits, pattern, shapes, worst
from opsreg import OPS, Kernel, generic_contents, place

BOUNDS = {
    "quick": "every kernel generator and option (about 110 operations), both precisions: team sizes 1..9 and one "
             "above the largest extent, all shapes of a small box (3..6 squared, 3..5 cubed; ENO3 from "
             "5) plus one larger shape; free and fixed sizes (with fewer rows than threads as well), "
             "requested counts True, 2, 3, 8; every order of the threads of a team of up to 4, forward "
             "and backward order otherwise; every pair of threads of every team checked for conflicting "
             "accesses between barriers; interpolation, spreading, boundary forcing: every iteration order if parallel",
    "thorough": "as quick with larger boxes, all teams up to 12, every order up to 5 threads",
}
EXPLANATION = (
    "The generated C++ kernels run on a controlled OpenMP runtime that records every load and store "
    "of every thread. No address is written by one thread and touched by another between two "
    "barriers, so all interleavings of a team are Mazurkiewicz-equivalent to the one executed and one "
    "execution per team decides them all; the orders executed besides are checked for bitwise equal "
    "results. Write counts per element equal those of a team of one.")
ASSUMPTIONS = ["kernels compiled with access instrumentation at -O1 instead of -Ofast",
               "work sharing as the compiler lowers it (static) or handed out in turns (dynamic)"]


def prepare(scratch):
    return mcrt.prepare(scratch)


def units(tier):
    us = []
    for key, op in OPS.items():
        heavy = 4 if "adv" in key else (2 if op.dim == 3 else 1)
        for dt in ("float64", "float32"):
            us.append(dict(name=f"{key} {dt}", cost=heavy, params=dict(op=key, dtype=dt)))
    for dim in (2, 3):
        us.append(dict(name=f"immersed boundary {dim}d", cost=3, params=dict(op=None, dim=dim)))
        us.append(dict(name=f"boundary forcing {dim}d", cost=3,
                       params=dict(op=None, dim=dim, forcing=True)))
    return us


class Run:
    """One kernel on monitored arrays."""

    def __init__(self, k, grid, contents, layout):
        self.k, self.op = k, k.op
        self.contents = contents
        self.P = place(k.op, grid, k.dtype, contents, layout)
        alloc = {n: p.big for n, p in self.P.items()}
        self.extra0 = {n: a.copy() for n, a in k.extra.items()}
        alloc.update({n: a for n, a in k.extra.items()})
        self.mon = mcrt.Monitor(alloc)

    def __call__(self, params, team=0, default=1, order=None):
        for a in self.op.args:
            self.P[a.name].view[...] = self.contents[a.name]
        for n, a in self.k.extra.items():
            a[...] = self.extra0[n]
        self.mon.start(team, default, order)
        self.k.call(**{n: p.view for n, p in self.P.items()}, **params)
        return self.mon.stats()

    def result(self):
        return {n: bits(p.big) for n, p in self.P.items()}

    def values(self):
        return {a.name: self.P[a.name].view.copy() for a in self.op.args if a.kind != "in"}


def outputs(op):
    return [a.name for a in op.args if a.kind in ("out", "inout")]


def explore(ctx, k, serial, grid, layout, teams, orders_upto, tag):
    op = k.op
    C = generic_contents(op, grid, tag=tag)
    run = Run(k, grid, C, layout)
    what = dict(operation=op.gen, options={a: b for a, b in k.genkw.items() if a != "_grids"},
                dtype=k.dtype, num_threads=k.threads, fixed_grid_size=k.fixed, grid=grid,
                layout=layout)
    ctx.history = what
    base = run(op.params, team=1)
    want, cover, vals = run.result(), run.mon.writes(), run.values()
    ctx.transitions()
    for n in outputs(op):
        ref = serial[n]
        idx, d = worst(vals[n], ref.astype(complex if np.iscomplexobj(ref) else float))
        tol = 64 * EPS[k.dtype] * opsreg.magnitude(op, C, op.params)
        if d > tol:
            ctx.fail(f"{op.gen}: kernel for threads differs from the serial one at {n}{list(idx)}", what)
    for team in teams:
        if team <= orders_upto:
            orders = list(itertools.permutations(range(team)))
        else:
            orders = [tuple(range(team)), tuple(range(team))[::-1]]
        for order in orders:
            ctx.history = dict(what, team=team, order=order)
            st = run(op.params, team=team, default=team, order=order)
            ctx.transitions(max(1, st["switches"]))
            ctx.count("schedules")
            ctx.count("accesses", st["accesses"])
            ctx.count("parallel regions", st["regions"])
            ctx.state((op.key, k.dtype, str(k.threads), k.fixed, grid, layout, team, order))
            if st["conflicts"]:
                a, n, w, r, region, phase = st["first"]
                ctx.fail(f"{op.gen}, team of {team}: {run.mon.where(a)} is written by threads "
                         f"{[t for t in range(64) if w >> t & 1]} and touched by "
                         f"{[t for t in range(64) if (r | w) >> t & 1]} in one parallel region",
                         ctx.history)
            got = run.mon.writes()
            for n in cover:
                if not np.array_equal(got[n], cover[n]):
                    i = np.argwhere(got[n] != cover[n])[0].tolist()
                    ctx.fail(f"{op.gen}, team of {team}: {n}{i} written {got[n][tuple(i)]} times, "
                             f"{cover[n][tuple(i)]} by one thread", ctx.history)
            res = run.result()
            for n in res:
                if res[n] != want[n]:
                    ctx.fail(f"{op.gen}, team of {team} in order {order}: {n} differs from one thread",
                             ctx.history)
    ctx.traces()


def serial_values(op, dtype, grid, tag, cache):
    """Results of the serial kernel."""
    key = (grid if op.gen_arrays else None)
    if key not in cache:
        cache[key] = Kernel(op, dtype, False, None, grid=grid)
    run = Run(cache[key], grid, generic_contents(op, grid, tag=tag), "contig")
    st = run(op.params)
    return run.values()


def run_unit(ctx, p):
    if p.get("forcing"):
        return forcing(ctx, p["dim"])
    if p["op"] is None:
        return immersed(ctx, p["dim"])
    op, dt = OPS[p["op"]], p["dtype"]
    deep = ctx.tier == "thorough"
    d, n = op.dim, op.minn
    cache = {}
    ctx.sample(dict(operation=op.gen, options=op.genkw, dtype=dt))
    top = 12 if deep else 9
    small_top = (n + 3 + deep) if d == 2 else (n + 2)
    lo = n
    box = [s for s in shapes(d, lo, max(small_top, lo + 1))]
    big = [(17, 6 + n)] if d == 2 else [(11, n + 1, n + 2)]
    big = [tuple(max(x, n) for x in s) for s in big]
    per_grid = op.gen_arrays is not None
    if per_grid or (dt == "float32" and not deep):
        box = [box[0], box[-1], box[len(box) // 2], box[len(box) // 3]]
    k = None if per_grid else Kernel(op, dt, True)
    for i, g in enumerate(box + big):
        kk = Kernel(op, dt, True, None, grid=g) if per_grid else k
        teams = list(range(2, min(top, max(g) + 1) + 1))
        if i and not deep and len(box) > 20 and i < len(box):
            teams = teams[i % 2::2]
        serial = serial_values(op, dt, g, 5 + i, cache)
        explore(ctx, kk, serial, g, "window" if i % 2 else "contig", teams,
                (5 if deep else 4) if g in big or i == 0 else 0, 5 + i)
    # requested counts, fixed sizes with fewer rows than threads
    wide = tuple([n] + [n + 4] * (d - 1))
    cube = (n + 3,) * d
    for th in ((2, 3, 8) if deep else (3, 8)):
        for fixed in ((None, wide, cube) if op.fixed else (None,)):
            if dt == "float32" and not deep and (fixed is not wide or th != 8) and op.fixed:
                continue
            g = fixed or cube
            kk = Kernel(op, dt, th, fixed, grid=g)
            teams = sorted({2, min(3, th), th})
            explore(ctx, kk, serial_values(op, dt, g, 3, cache), g, "contig", teams, 3, 3)
    if op.fixed:
        kk = Kernel(op, dt, True, wide, grid=wide)
        explore(ctx, kk, serial_values(op, dt, wide, 4, cache), wide, "contig", [2, 5, max(wide) + 1], 0, 4)


def immersed(ctx, dim):
    """Interpolation, spreading, supports and weights: numba's parallel loops in every order."""
    import numba
    from checks.l01 import communicator
    from checks.l02 import cells, weights

    grid = (7, 8) if dim == 2 else (6, 7, 8)
    n = 4
    every = [o for o in itertools.permutations(range(n))]
    for dt in ("float64", "float32"):
        T = np.dtype(dt).type
        dx = 0.25
        for nc, kern in itertools.product((1, dim), ("cosine", "peskin")):
            com = communicator(dim, dx, 0.0, n, dt, kern, nc)
            cc = cells(grid)
            # coinciding, overlapping and separate supports
            for placed in ([cc[0]] * n, cc[:n], [cc[0], cc[1], cc[0], cc[-1]], cc[:: len(cc) // 3]):
                placed = (list(placed) * n)[:n]
                results = []
                for order in every:
                    def permute(m, order=order):
                        if m == n:
                            return order
                        return range(m) if order[0] < order[-1] else range(m)[::-1]

                    idx = np.array(placed).T.copy()
                    w = weights(dim, n, dx, dt, "arbitrary")
                    f = pattern(grid if nc == 1 else (dim,) + grid, 3, nonzero=True).astype(T)
                    lag = pattern((n,) if nc == 1 else (dim, n), 4, nonzero=True).astype(T)
                    keep = f.copy()
                    l2 = np.zeros_like(lag)
                    pos = ((idx + 0.375) * dx).astype(T)
                    idx2 = np.zeros_like(idx)
                    sup = np.zeros((dim,) + (4,) * dim + (n,), T)
                    w2 = np.zeros_like(w)
                    bad = []
                    calls = [
                        lambda: com.lagrangian_to_eulerian_grid_interpolation_kernel(
                            eul_grid_field=f, lag_grid_field=lag, interp_weights=w,
                            nearest_eul_grid_index_to_lag_grid=idx),
                        lambda: com.eulerian_to_lagrangian_grid_interpolation_kernel(
                            lag_grid_field=l2, eul_grid_field=keep, interp_weights=w,
                            nearest_eul_grid_index_to_lag_grid=idx),
                        lambda: com.local_eulerian_grid_support_of_lagrangian_grid_kernel(
                            local_eul_grid_support_of_lag_grid=sup,
                            nearest_eul_grid_index_to_lag_grid=idx2, lag_positions=pos),
                        lambda: com.interpolation_weights_kernel(
                            interp_weights=w2, local_eul_grid_support_of_lag_grid=sup),
                    ]
                    loops = 0
                    for call in calls:
                        numba.set_order(permute)
                        try:
                            call()
                            bad += numba.races()
                            loops += numba.parallel_loops()
                        finally:
                            numba.set_order(None)
                        ctx.transitions()
                    ctx.state(("ib", dim, dt, nc, kern, tuple(placed), order))
                    ctx.count("schedules")
                    if bad:
                        ctx.fail("iterations of a parallel loop change the same elements: " + bad[0],
                                 dict(dim=dim, components=nc, node_cells=placed, order=order))
                    results.append((f, l2, idx2, sup, w2))
                    if not loops and len(results) == 2:
                        break  # nothing parallel: one order is all there is
                for res in results[1:]:
                    for a, b in zip(res, results[0]):
                        if np.abs(a - b).max() > 64 * EPS[dt] * 200:
                            ctx.fail("the order of parallel iterations changes the result",
                                     dict(dim=dim, components=nc, node_cells=placed))
                ctx.traces()


def forcing(ctx, dim):
    """The boundary forcing objects, numba's parallel loops in every order of the nodes."""
    import numba
    from checks import l03, l04

    n = 3
    both = [("both", 0, 0), ("step", 0, 0.25), ("body", 0, 1), ("both", 0, 1), ("step", 0, 0.5),
            ("both", 0, 0)]
    pen = [(0, 0, 0.25), (0, 1, 0.01), (0, 0, 0.25)]
    for module, spec, hist in ((l03, dict(k=-3.0, c=-0.5, n=n, dx=0.25), both),
                               (l04, dict(lam=6.0, n=n, dx=0.25, shift=0.125), pen)):
        name = module.__name__.split(".")[-1]
        for dt, reset in itertools.product(("float64", "float32"), (True, False)):
            cache = {}
            for order in itertools.permutations(range(n)):
                def permute(m, order=order):
                    if m == n:
                        return order
                    return range(m) if order[0] < order[-1] else range(m)[::-1]

                w = module.World(dim, dt, reset, [spec], cache)
                loops = 0
                for step, op in enumerate(hist):
                    ctx.history = dict(forcing=name, dim=dim, dtype=dt, reset=reset, order=order,
                                       history=hist, step=step, dt_min=0.01)
                    numba.set_order(permute)
                    try:
                        w.do(op)
                        bad, loops = numba.races(), loops + numba.parallel_loops()
                    finally:
                        numba.set_order(None)
                    ctx.transitions()
                    if bad:
                        ctx.fail("iterations of a parallel loop change the same elements: " + bad[0],
                                 ctx.history)
                    w.compare(ctx, f"{hist[: step + 1]}, nodes in the order {order}")
                ctx.traces()
                ctx.count("schedules")
                ctx.state((name, dim, dt, reset, order))
                if not loops and order != tuple(range(n)):
                    break  # nothing parallel: one order is all there is
