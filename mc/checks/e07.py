"""E07 vorticity updates."""
import itertools

import numpy as np

import explore
import ref
from arrays import EPS, NP, pattern, shapes
from opsreg import OPS, Kernel

BOUNDS = {t: v + "; agreement of both updates, zero change for equal velocities and zero discrete "
          "divergence for all shapes and impulses" for t, v in explore.BOUNDS.items()}
EXPLANATION = ("The vorticity-update kernels of the real code are executed on every state of the "
               "bounded input space, compared with the reference curl and with each other.")
ASSUMPTIONS = ["finite inputs without denormals (the code is compiled with -Ofast)"]


def units(tier):
    us = explore.units_for([o for o in OPS.values() if o.group == "vortupd"], tier)
    for d in (2, 3):
        for dt in ("float64", "float32"):
            for th in (False, 2):
                us.append(dict(name=f"relations {d}d {dt} threads {th}", cost=6,
                               params=dict(kind="rel", dim=d, dtype=dt, threads=th)))
    return us


def run_unit(ctx, p):
    if p["kind"] != "rel":
        return explore.run(ctx, p)
    d, dt, th = p["dim"], p["dtype"], p["threads"]
    T, eps = NP[dt], EPS[dt]
    kf = Kernel(OPS[f"upd{d}f"], dt, th)
    kp = Kernel(OPS[f"upd{d}p"], dt, th)
    hi = (8 if d == 2 else 6) + (ctx.tier == "thorough")
    for grid in shapes(d, 3, hi):
        wshape = grid if d == 2 else (3,) + grid
        for tag, pref in itertools.product((1, 2), (0.75, -3.0, 0.0)):
            w = pattern(wshape, tag).astype(T)
            u = pattern((d,) + grid, tag + 10).astype(T)
            du = pattern((d,) + grid, tag + 20).astype(T)
            ctx.history = dict(dim=d, grid=grid, tag=tag, prefactor=pref, dtype=dt)
            ctx.state((d, dt, th, grid, tag, pref))
            w1, w2, w3 = w.copy(), w.copy(), w.copy()
            kf.call(vorticity_field=w1, velocity_forcing_field=du, prefactor=pref)
            kp.call(vorticity_field=w2, penalised_velocity_field=u + du, velocity_field=u,
                    prefactor=pref)
            kp.call(vorticity_field=w3, penalised_velocity_field=u, velocity_field=u.copy(),
                    prefactor=pref)
            ctx.transitions(3)
            ctx.traces(3)
            if (np.abs(w1 - w2) > 2e3 * eps).any():
                ctx.fail(f"forcing and penalised-velocity updates differ on {grid}", ctx.history)
            if (np.abs(w3 - w) > 100 * eps).any():
                ctx.fail(f"equal velocities change the vorticity on {grid}", ctx.history)
            if d == 3 and all(n >= 5 for n in grid):
                add = w1.astype(float) - w.astype(float)
                div = ref.interior(ref.dc(add[0], -1) + ref.dc(add[1], -2) + ref.dc(add[2], -3))
                if (np.abs(div) > 5e3 * eps).any():
                    ctx.fail(f"added vorticity has discrete divergence {np.abs(div).max()}",
                             ctx.history)
