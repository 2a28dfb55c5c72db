"""E08 Laplacian filter."""
import itertools

import numpy as np

import explore
import ref
from arrays import EPS, NP, Placed, pattern, worst
from opsreg import OPS, Kernel

HIST = {"quick": "all histories of 2 calls over 6 filters x 2 fields x {left-over, poisoned} work buffers",
        "thorough": "all histories of 3 calls over 4 filters x 2 fields"}
BOUNDS = {t: v + "; orders 0..6, 9, 12 and 24; filters (types, orders, scalar / vector) sharing the two work "
          "buffers: " + HIST[t] for t, v in explore.BOUNDS.items()}
EXPLANATION = ("The Laplacian filters of the real code are executed on the bounded input space and "
               "on all histories of filters sharing work buffers, against the reference filter.")
ASSUMPTIONS = ["finite inputs without denormals (the code is compiled with -Ofast)"]


def units(tier):
    us = explore.units_for([o for o in OPS.values() if o.group == "filter"], tier)
    for dt in ("float64", "float32"):
        for th in (False, 2):
            for grid in ((4, 6, 5), (3, 3, 3), (7, 4, 9)):
                us.append(dict(name=f"shared buffers {grid} {dt} threads {th}", cost=20,
                               params=dict(kind="hist", dtype=dt, threads=th, grid=grid)))
        for order in (4, 5, 6, 9, 12, 24):
            for t in ("multiplicative", "convolution"):
                us.append(dict(name=f"order {order} {t} {dt}", cost=5,
                               params=dict(kind="order", dtype=dt, order=order, type=t)))
    return us


def run_unit(ctx, p):
    if p["kind"] == "hist":
        return histories(ctx, p)
    if p["kind"] == "order":
        return orders(ctx, p)
    return explore.run(ctx, p)


def orders(ctx, p):
    dt = p["dtype"]
    T = NP[dt]
    for grid in ((5, 9, 7), (3, 4, 12), (14, 13, 15)):
        for ft in "sv":
            op = OPS[f"filt_m1{ft}"]
            k = Kernel(op, dt, False, None, grid=grid,
                       genkw=dict(filter_order=p["order"], filter_type=p["type"]))
            a = op.args[0]
            for tag in range(4):
                P = Placed(pattern(a.shape(grid), tag), T, skip_dims=1 if a.comps else 0)
                one(ctx, k, P, grid, f"order {p['order']}")
            P = Placed(np.full(a.shape(grid), 2.5), T, skip_dims=1 if a.comps else 0)
            one(ctx, k, P, grid, "constant")
            if (np.abs(P.view - 2.5) > 20 * EPS[dt]).any():
                ctx.fail("constant field changed", ctx.history)


def one(ctx, k, P, grid, note):
    a = k.op.args[0]
    vals = {a.name: P.view.astype(float)}
    exp = k.model(vals, {})[a.name]
    ring = ref.ring_zone(grid, 1)
    before = P.view[..., ring].copy()
    ctx.history = dict(op=k.op.gen, options=k.genkw, grid=grid, dtype=k.dtype, note=note)
    ctx.state((str(k.genkw), k.dtype, str(k.threads), grid, hash(vals[a.name].tobytes()), note))
    k.call(**{a.name: P.view})
    ctx.transitions()
    ctx.traces()
    idx, d = worst(P.view, exp)
    if d > 100 * EPS[k.dtype] * max(1.0, float(np.abs(vals[a.name]).max())):
        ctx.fail(f"{k.op.gen} {k.genkw} on {grid} ({k.dtype}, {note}): {a.name}{list(idx)} = "
                 f"{P.view[idx]!r}, definition gives {exp[idx]!r}", ctx.history)
    if not np.array_equal(P.view[..., ring], before):
        ctx.fail(f"{k.op.gen}: boundary ring modified ({note})", ctx.history)
    if not P.canaries_intact():
        ctx.fail("memory outside the view was written", ctx.history)


def histories(ctx, p):
    grid, dt = tuple(p["grid"]), p["dtype"]
    T = NP[dt]
    bufs = {n: np.zeros(grid, T) for n in ("filter_flux_buffer", "field_buffer")}
    specs = [("m", 2, "s"), ("c", 1, "v"), ("m", 0, "v"), ("c", 3, "s"), ("c", 0, "s"),
             ("m", 1, "v")]
    ks = [Kernel(OPS[f"filt_{t}{o}{f}"], dt, p["threads"], None, grid=grid, extra=bufs)
          for t, o, f in specs]
    fields = {"s": [Placed(np.zeros(grid), T) for _ in range(2)],
              "v": [Placed(np.zeros((3,) + grid), T, skip_dims=1) for _ in range(2)]}
    big = 1e10 if dt == "float32" else 1e30
    depth = 3 if ctx.tier == "quick" else 4
    nf = 6 if depth == 3 else 4
    alphabet = [(f, x, po) for f in range(nf) for x in range(2) for po in
                ((False, True) if depth == 3 else (False,))]
    for hist in itertools.product(alphabet, repeat=2 if depth == 3 else 3):
        for ft, ps in fields.items():
            for i, P in enumerate(ps):
                P.view[...] = pattern(P.view.shape, 30 + i, den=32)
        for step, (f, x, po) in enumerate(hist):
            if po:
                for i, b in enumerate(bufs.values()):
                    b[...] = pattern(grid, 60 + i + step, nonzero=True) * big
            one(ctx, ks[f], fields[specs[f][2]][x], grid,
                f"history {[(specs[a], b, c) for a, b, c in hist]} step {step}")
