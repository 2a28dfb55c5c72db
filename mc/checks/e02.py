"""E02 ENO3 advection flux."""
import itertools

import numpy as np

import explore
import ref
from arrays import EPS, NP, Placed, pattern, worst
from opsreg import OPS, Kernel

BOUNDS = {t: v + "; all velocity patterns of 5 cells over {-2..2} and {-1,-2^-40,0,2^-40,1} per "
          "axis x all field impulses; all placements of a compact blob for conservation"
          for t, v in explore.BOUNDS.items()}
EXPLANATION = ("Every ENO3 flux kernel of the real code is executed on every state of the bounded "
               "input space and compared with an independent face-flux reference; every sign "
               "pattern of the stencil is enumerated.")
ASSUMPTIONS = ["finite inputs without denormals (the code is compiled with -Ofast)"]


def units(tier):
    us = explore.units_for([o for o in OPS.values() if o.group == "advflux"], tier)
    for d in (2, 3):
        for dt in ("float64", "float32"):
            for axis in range(d):
                us.append(dict(name=f"velocity signs {d}d axis {axis} {dt}", cost=4,
                               params=dict(kind="signs", dim=d, dtype=dt, axis=axis)))
            us.append(dict(name=f"conservation {d}d {dt}", cost=4,
                           params=dict(kind="conservation", dim=d, dtype=dt)))
    return us


def run_unit(ctx, p):
    if p["kind"] in ("full", "configs"):
        return explore.run(ctx, p)
    op = OPS[f"adv{p['dim']}"]
    k = Kernel(op, p["dtype"])
    {"signs": signs, "conservation": conservation}[p["kind"]](ctx, k, p)


def signs(ctx, k, p):
    d, axis, dt = p["dim"], p["axis"], p["dtype"]
    eps = EPS[dt]
    for alphabet in ([-2.0, -1.0, 0.0, 1.0, 2.0], [-1.0, -(2.0**-40), 0.0, 2.0**-40, 1.0]):
        pats = np.array(list(itertools.product(alphabet, repeat=5)))  # (3125, 5)
        # lines run along `axis` (0 = x); one pattern per line, 3125 = 625 * 5 lines in 3D
        if d == 2:
            u = pats if axis == 0 else pats.T  # (3125, 5) or (5, 3125)
        else:
            # only lines away from the other faces are updated: pad the cross-section by 2
            m = np.zeros((129, 33, 5))
            m[2:127, 2:27] = pats.reshape(125, 25, 5)
            m = m[:, :29]
            u = {0: m, 1: np.moveaxis(m, 2, 1), 2: np.moveaxis(m, 2, 0)}[axis]
        if d == 2:  # pad the cross direction so that every line is updated
            u = np.pad(u, ((2, 2), (0, 0)) if axis == 0 else ((0, 0), (2, 2)))
        u = np.ascontiguousarray(u)
        grid = u.shape
        vel = np.zeros((d,) + grid)
        vel[axis] = u
        line = d - 1 - axis
        for j in list(range(5)) + ["generic", "constant"]:
            if j == "generic":
                f = pattern(grid, 41 + axis)
            elif j == "constant":
                f = np.full(grid, 1.5)
            else:
                f = np.zeros(grid)
                sl = [slice(None)] * d
                sl[line] = j
                f[tuple(sl)] = 1.0
            flux0 = pattern(grid, 43)
            F, V, Q = (Placed(flux0, NP[dt]), Placed(vel, NP[dt], skip_dims=1), Placed(f, NP[dt]))
            v64, f64 = V.view.astype(float), Q.view.astype(float)
            ctx.history = dict(velocity_patterns=alphabet, axis=axis, field=j, grid=grid)
            ctx.state((d, axis, dt, str(alphabet), j))
            ctx.count("stencil_states", int(pats.shape[0]))
            k.call(advection_flux=F.view, field=Q.view, velocity=V.view, inv_dx=1.0)
            ctx.transitions()
            ctx.traces(int(pats.shape[0]))
            exp = ref.put(flux0, flux0[ref.core(d, 2)] + ref.eno3_divergence(f64, v64), g=2)
            idx, diff = worst(F.view, exp)
            if diff > 100 * eps:
                ctx.fail(f"ENO3 flux at {idx}: {F.view[idx]!r}, reference {exp[idx]!r} "
                         f"(velocity line {u.take(range(5), axis=line)[tuple(0 if a == line else i for a, i in enumerate(idx))]!r})",
                         ctx.history)
            if not (F.canaries_intact() and V.canaries_intact() and Q.canaries_intact()):
                ctx.fail("memory outside the views was written", ctx.history)


def conservation(ctx, k, p):
    """A compactly supported field: the total of the flux over the grid telescopes to zero, and
    the flux of one shared face enters the two cells with opposite sign."""
    d, dt = p["dim"], p["dtype"]
    n = 10 if d == 2 else 9
    grid = (n, n + 1) if d == 2 else (n, n + 1, n)
    tol = 400 * EPS[dt]
    for tag in range(4):
        vel = pattern((d,) + grid, 50 + tag, lo=-2 - tag, hi=2, den=1 + tag)
        # two-cell blob at every interior position
        for pos in itertools.product(*(range(4, m - 4) for m in grid)):
            f = np.zeros(grid)
            f[pos] = 1.75
            flux = np.zeros(grid, dtype=NP[dt])
            ctx.state((d, dt, tag, pos))
            ctx.history = dict(grid=grid, velocity_tag=tag, blob_at=pos)
            k.call(advection_flux=flux, field=f.astype(NP[dt]), velocity=vel.astype(NP[dt]),
                   inv_dx=1.0)
            ctx.transitions()
            ctx.traces()
            total = float(np.sum(flux.astype(float)))
            if abs(total) > tol:
                ctx.fail(f"flux of a field with support at {pos} does not telescope: {total}",
                         ctx.history)
        # velocity zero except at one cell pair: one face only carries flux between two cells
        f = pattern(grid, 60 + tag, lo=1, hi=16)
        for ax in range(d):
            for pos in itertools.product(*(range(3, m - 4) for m in grid)):
                q = np.zeros(grid)
                q[pos] = 1.0
                v = np.zeros((d,) + grid)
                v[ax] = pattern(grid, 70 + tag + ax, lo=1, hi=9, den=8) * (1 if tag % 2 else -1)
                flux = np.zeros(grid, dtype=NP[dt])
                k.call(advection_flux=flux, field=q.astype(NP[dt]), velocity=v.astype(NP[dt]),
                       inv_dx=1.0)
                ctx.transitions()
                ctx.traces()
                ctx.state((d, dt, tag, ax, pos))
                line = d - 1 - ax
                sl = list(pos)
                sl[line] = slice(None)
                tot = float(np.sum(flux[tuple(sl)].astype(float)))
                full = float(np.sum(np.abs(flux.astype(float))))
                online = float(np.sum(np.abs(flux[tuple(sl)].astype(float))))
                inside = 4 <= pos[line] < grid[line] - 4
                if inside and abs(tot) > tol:
                    ctx.fail(f"line total along axis {ax} is {tot}, not zero", ctx.history)
                if abs(full - online) > tol:
                    ctx.fail(f"velocity along axis {ax} moves content across lines", ctx.history)
