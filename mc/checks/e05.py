"""E05 boundary-zone operations."""
import itertools

import numpy as np

import explore
import ref
from arrays import EPS, NP, Placed, pattern, shapes, worst
from opsreg import OPS, Kernel, coordinate_grids

BOUNDS = {t: v + "; set-at-boundaries: widths 1..8, 12 (2D) / 1..5, 7 (3D) with every extent in "
          "w+1..2w+2 (larger widths: 2w-2..2w+2); "
          "penalisation: widths 0..6, 9, 14 (2D) / 0..4, 6 (3D) x shapes, origins and spacings"
          for t, v in explore.BOUNDS.items()}
EXPLANATION = ("Every boundary-zone kernel of the real code is executed for every width, shape, "
               "origin and spacing in the bounds and compared with the zone definition.")
ASSUMPTIONS = ["penalisation: zones of opposite faces do not overlap (2*width <= extent)"]


def units(tier):
    us = explore.units_for([o for o in OPS.values() if o.group in ("boundary", "penalise")], tier)
    for dt in ("float64", "float32"):
        for d, ws in ((2, (1, 2, 3, 4, 5, 6, 7, 8, 12)), (3, (1, 2, 3, 4, 5, 7))):
            for w in ws:
                us.append(dict(name=f"set width {w} {d}d {dt}", cost=4,
                               params=dict(kind="set", dim=d, width=w, dtype=dt)))
        for d, ws in ((2, (0, 1, 2, 3, 4, 5, 6, 9, 14)), (3, (0, 1, 2, 3, 4, 6))):
            for w in ws:
                us.append(dict(name=f"penalise width {w} {d}d {dt}", cost=8 + 4 * (d == 3),
                               params=dict(kind="pen", dim=d, width=w, dtype=dt)))
    return us


def run_unit(ctx, p):
    if p["kind"] == "set":
        return set_zone(ctx, p)
    if p["kind"] == "pen":
        return penalise(ctx, p)
    return explore.run(ctx, p)


def set_zone(ctx, p):
    d, w, dt = p["dim"], p["width"], p["dtype"]
    T = NP[dt]
    for ft in "sv":
        for th in (False, 2):
            op = OPS[f"setb{d}{ft}_w1"]
            k = Kernel(op, dt, th, genkw=dict(width=w))
            n = op.args[0].comps
            lo = w + 1 if w < (9, 4)[d - 2] else 2 * w - 2 + (w > 5)  # zones of opposite faces may overlap
            for grid in shapes(d, max(lo, 2), 2 * w + 2):
                for vals in ([0.0, 0.0, 0.0], [1.1, -0.3, 2.7], [-5e4, 3e-6, 0.0]):
                    shape = op.args[0].shape(grid)
                    for layout in ("contig", "window"):
                        P = Placed(pattern(shape, 3 + w), T, layout, skip_dims=1 if n else 0)
                        exp = P.view.copy()
                        zone = ref.ring_zone(grid, w)
                        if n:
                            for c in range(n):
                                exp[c][zone] = T(vals[c])
                        else:
                            exp[zone] = T(vals[0])
                        ctx.history = dict(op=op.gen, width=w, grid=grid, values=vals, dtype=dt)
                        ctx.state((ft, th, w, grid, str(vals), layout, dt))
                        k.call(**{op.args[0].name: P.view},
                               **(dict(fixed_vals=vals[:n]) if n else dict(fixed_val=vals[0])))
                        ctx.transitions()
                        ctx.traces()
                        if not np.array_equal(P.view, exp):
                            idx = tuple(int(i) for i in np.argwhere(P.view != exp)[0])
                            ctx.fail(f"{op.gen} width {w} on {grid}: point {idx} is "
                                     f"{P.view[idx]!r}, expected {exp[idx]!r}", ctx.history)
                        if not P.canaries_intact():
                            ctx.fail("memory outside the view was written", ctx.history)


def penalise(ctx, p):
    d, w, dt = p["dim"], p["width"], p["dtype"]
    T = NP[dt]
    lo = max(2 * w, 2)
    grids = ([(lo, lo + 3), (lo + 2, lo), (lo + 1, lo + 1), (lo, lo)] if d == 2 else
             [(lo, lo + 1, lo + 2), (lo + 2, lo, lo + 1), (lo + 1, lo + 2, lo), (lo, lo, lo)])
    combos = [([0.0, 0.0, 0.0], 1.0), ([0.5, 0.5, 0.5], 1.0), ([-1.0, 2.0, 0.25], 0.03125),
              ([10.0, -3.0, 7.0], 0.3)]
    full = list(itertools.product(grids, combos)) if ctx.tier == "thorough" else [
        (g, c) for i, g in enumerate(grids) for j, c in enumerate(combos) if (i + j) % 2 == 0]
    for grid, (org, dx) in full:
        for ft in ("s", "v") if d == 3 else ("s",):
            op = OPS[f"pen{d}{ft}_w1"]
            kw = dict(width=w, dx=dx)
            extra = coordinate_grids(op, grid, T, dict(dx=dx), origin=org[:d])
            k = Kernel(op, dt, False, None, grid=grid, genkw=kw, extra=extra)
            for layout in ("contig", "window"):
                for tag in (1, 2, 3):
                    shape = op.args[0].shape(grid)
                    P = Placed(pattern(shape, tag * 7 + w), T, layout,
                               skip_dims=1 if op.args[0].comps else 0)
                    # the coordinates exactly as handed over, in double
                    a = {op.args[0].name: P.view.astype(float)}
                    exp = k.model(a, {})[op.args[0].name]
                    ctx.history = dict(op=op.gen, width=w, dx=dx, origin=org, grid=grid, dtype=dt)
                    ctx.state((ft, w, grid, str(org), dx, layout, tag, dt))
                    k.call(**{op.args[0].name: P.view})
                    ctx.transitions()
                    ctx.traces()
                    idx, diff = worst(P.view, exp)
                    tol = (60 if dt == "float64" else 30) * EPS[dt] * max(
                        2.0, max(abs(o) for o in org) / dx)
                    if diff > tol:
                        ctx.fail(f"{op.gen} ({dt}) width {w} dx {dx} origin {org} on {grid}: point "
                                 f"{idx} is {P.view[idx]!r}, definition gives {exp[idx]!r}",
                                 ctx.history)
                    if not P.canaries_intact():
                        ctx.fail("memory outside the view was written", ctx.history)
