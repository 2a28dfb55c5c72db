"""E03 timesteppers."""
import itertools

import numpy as np

import explore
from arrays import EPS, NP, Placed, bits, pattern, worst
from opsreg import OPS, Kernel, as_double

BOUNDS = {t: v + "; all histories of 3 (thorough: 4) steps over prefactors x velocities x scratch "
          "contents (left over, two poisons) for two kernels sharing scratch"
          for t, v in explore.BOUNDS.items()}
EXPLANATION = ("Explicit-state exploration of step histories of the real timesteppers against the "
               "reference integrator, scratch arrays being part of the state.")
ASSUMPTIONS = ["finite inputs without denormals (the code is compiled with -Ofast)"]


def ops():
    return [o for o in OPS.values() if o.group == "timestep"]


def units(tier):
    us = explore.units_for(ops(), tier)
    for o in ops():
        for dt in ("float64", "float32"):
            for th in (False, 2):
                us.append(dict(name=f"histories {o.key} {dt} threads {th}",
                               cost=8 + 4 * (o.dim == 3),
                               params=dict(kind="hist", op=o.key, dtype=dt, threads=th)))
    return us


def run_unit(ctx, p):
    if p["kind"] != "hist":
        return explore.run(ctx, p)
    op, dt = OPS[p["op"]], p["dtype"]
    n = op.minn
    grid = (n + 1, n + 2) if op.dim == 2 else (n + 1, n, n + 2)
    k = Kernel(op, dt, p["threads"], grid=grid)
    k2 = Kernel(op, dt, p["threads"], grid=grid, extra=k.extra if op.gen_arrays else None)
    depth = 4 if ctx.tier == "thorough" else 3
    adv = op.args[0].name
    pname = next(iter(op.params))
    vel = [a for a in op.args if a.kind == "in"]
    scratch = [a for a in op.args if a.kind == "scratch"]
    big = 1e12 if dt == "float32" else 1e100
    field0 = pattern(op.args[0].shape(grid), 5, den=64)
    vels = {a.name: [pattern(a.shape(grid), 6, den=64), pattern(a.shape(grid), 7, den=64)]
            for a in vel}
    prefs = [0.125, -0.0625] if depth == 4 else [0.125, -0.0625, 0.0]
    vchoice = range(2 if vel else 1)
    poison = [None, 0, 1]
    alphabet = list(itertools.product(prefs, vchoice, poison))
    memo = {}

    def model(seq):
        """reference field after the (prefactor, velocity) steps seq"""
        if not seq:
            return field0.astype(NP[dt]).astype(float)
        if seq not in memo:
            prev = model(seq[:-1])
            pf, v = seq[-1]
            a = {adv: prev}
            a.update({x.name: vels[x.name][v].astype(NP[dt]).astype(float) for x in vel})
            res = op.model(a, {pname: pf}, k.genkw)[adv]
            alt = None
            if getattr(op, "known", None):
                alt = op.known[1](a, {pname: pf}, k.genkw)[adv]
            memo[seq] = res, alt
        return memo[seq][0] if not known else memo[seq][1]

    known = False
    if getattr(op, "known", None):
        # decide once whether the code shows the recorded finding; if so the histories are
        # explored against what it computes then, so that anything else is still reported
        first = (0.125, 0)
        F = Placed(field0, NP[dt])
        V = {x.name: vels[x.name][0].astype(NP[dt]) for x in vel}
        S = {x.name: np.zeros(x.shape(grid), NP[dt]) for x in scratch}
        k.call(**{adv: F.view}, **V, **S, **{pname: 0.125})
        e1 = model((first,))
        alt = memo[(first,)][1]
        if worst(F.view, e1)[1] > 1e4 * EPS[dt]:
            if worst(F.view, alt)[1] <= 1e4 * EPS[dt]:
                ctx.finding(op.known[0], op.known[2])
                known = True
        memo.clear()

    P = {a.name: Placed(np.zeros(a.shape(grid)), NP[dt]) for a in op.args}
    mid = list(k.extra.values())

    def poisonise(which):
        if which is None:
            return
        for i, a in enumerate(scratch):
            P[a.name].view[...] = pattern(a.shape(grid), 90 + which + i, nonzero=True) * big
        for m in mid:
            m[...] = pattern(m.shape, 95 + which, nonzero=True) * big

    for hist in itertools.product(alphabet, repeat=depth):
        P[adv].view[...] = field0
        seq = ()
        for step, (pf, v, po) in enumerate(hist):
            for a in vel:
                P[a.name].view[...] = vels[a.name][v]
            poisonise(po)
            before = {a.name: bits(P[a.name].view) for a in vel}
            kern = k if step % 2 == 0 else k2
            ctx.history = dict(operation=op.gen, dtype=dt, grid=grid, history=hist, step=step)
            kern.call(**{m: x.view for m, x in P.items()}, **{pname: pf})
            ctx.transitions()
            seq += ((pf, v),)
            for a in vel:
                if bits(P[a.name].view) != before[a.name]:
                    ctx.fail(f"{op.gen}: {a.name} was modified", ctx.history)
        ctx.traces()
        ctx.state((op.key, dt, hist))
        exp = model(seq)
        m = max(1.0, float(np.max(np.abs(exp))))
        idx, d = worst(P[adv].view, exp)
        if d > 2000 * EPS[dt] * m:
            ctx.fail(f"{op.gen} ({dt}): after the steps {hist} (prefactor, velocity, scratch "
                     f"content) {adv}{list(idx)} = {P[adv].view[idx]!r}, reference {exp[idx]!r}",
                     ctx.history)
        if not all(x.canaries_intact() for x in P.values()):
            ctx.fail(f"{op.gen}: memory outside the views was written", ctx.history)
    ctx.sample(dict(operation=op.gen, history=[list(map(str, h)) for h in hist]))
