"""E06 Brinkmann penalisation and characteristic function."""
import itertools

import numpy as np

import explore
import ref
from arrays import EPS, NP, pattern
from opsreg import OPS, Kernel
from checks.e04 import fill, grid_for

BOUNDS = {t: v + "; all (field, target, char) tuples over 9x9x7 values x 7 factors; level sets on "
          "a lattice of 6000 points per blend width plus the neighbours of both blend ends"
          for t, v in explore.BOUNDS.items()}
EXPLANATION = ("The penalisation and Heaviside kernels of the real code are executed on all tuples "
               "of a value lattice and compared with the implicit blend / sine Heaviside.")
ASSUMPTIONS = ["finite inputs without denormals (the code is compiled with -Ofast)"]
FIELD = [0.0, 1.0, -1.0, 0.1, -2 / 3, 250.0, -1e-4, 3.0, 1e3]
CHAR = [0.0, 1.0, 0.5, 0.1, 1e-5, 0.999, 0.75]
FACTOR = [0.0, 1.0, 0.3, 1e-6, 1e3, 1e6, 17.0]
WIDTHS = [0.1, 0.5, 1.0, 1.75, 1e-3, 100.0, 0.0625, 3e-7, 4e5]


def units(tier):
    us = explore.units_for([o for o in OPS.values() if o.group in ("brinkmann", "charfunc")], tier)
    for dt in ("float64", "float32"):
        for o in OPS.values():
            if o.group == "brinkmann":
                us.append(dict(name=f"values {o.key} {dt}", cost=2,
                               params=dict(kind="blend", op=o.key, dtype=dt)))
        for d in (2, 3):
            for bw in WIDTHS:
                us.append(dict(name=f"heaviside {d}d blend {bw} {dt}", cost=2,
                               params=dict(kind="char", dim=d, bw=bw, dtype=dt)))
    return us


def run_unit(ctx, p):
    if p["kind"] == "blend":
        return blend(ctx, p)
    if p["kind"] == "char":
        return char(ctx, p)
    return explore.run(ctx, p)


def blend(ctx, p):
    op, dt = OPS[p["op"]], p["dtype"]
    T, eps = NP[dt], EPS[dt]
    out = op.args[0]
    n = out.comps
    fixed_val = op.key.startswith("brinkfix")
    fname = op.args[-1].name
    for th in (False, 3):
        k = Kernel(op, dt, th)
        tvals = FIELD if fixed_val else [None]
        q = np.array(list(itertools.product(FIELD, CHAR) if fixed_val else
                          itertools.product(FIELD, CHAR, FIELD)))
        g = grid_for(len(q), op.dim)
        f1 = fill(g, q[:, 0]).astype(T)
        chi = fill(g, q[:, 1]).astype(T)
        t1 = None if fixed_val else fill(g, q[:, 2]).astype(T)
        for lam in FACTOR:
            for tv in tvals:
                roll = range(n) if n else [0]
                f = np.stack([np.roll(f1, 3 * i) for i in roll]) if n else f1
                if fixed_val:
                    pv = [tv, -0.5 * tv + 1][:n] if n else tv
                    t = np.stack([np.full(g, x) for x in pv]).astype(T) if n else np.full(g, T(tv))
                else:
                    t = np.stack([np.roll(t1, 5 * i) for i in roll]) if n else t1
                arrays = {out.name: pattern(f.shape, 9).astype(T), "char_field": chi.copy(),
                          fname: f.copy()}
                prm = dict(penalty_factor=lam)
                if fixed_val:
                    prm["penalty_val"] = pv
                else:
                    arrays[op.args[2].name] = t.copy()
                ctx.history = dict(op=op.gen, options=op.genkw, dtype=dt, params=prm)
                ctx.state((op.key, dt, th, lam, tv))
                k.call(**arrays, **prm)
                ctx.transitions()
                ctx.traces()
                ctx.count("points_compared", f.size)
                F, C, R = f.astype(float), chi.astype(float), t.astype(float)
                L = float(T(lam))
                got = arrays[out.name].astype(float)
                exp = (F + L * C * R) / (1 + L * C)
                lo, hi = np.minimum(F, R), np.maximum(F, R)
                tol = 12 * eps * (np.abs(F) + np.abs(R)) + 1e-30
                for name, bad in (("implicit blend", ~(np.abs(got - exp) <= tol)),
                                  ("between field and target",
                                   ~((got >= lo - tol) & (got <= hi + tol))),
                                  ("field where factor*char is zero",
                                   (np.broadcast_to(L * C == 0, F.shape))
                                   & ~(np.abs(got - F) <= 4 * eps * np.abs(F)))):
                    if bad.any():
                        i = tuple(int(x) for x in np.argwhere(bad)[0])
                        c = chi[i[-op.dim:]]
                        ctx.fail(f"{op.gen} ({dt}): not the {name}: field {f[i]!r}, target "
                                 f"{t[i]!r}, char {c!r}, factor {lam!r} gives {got[i]!r}",
                                 ctx.history)
                same = (np.array_equal(arrays[fname], f) and np.array_equal(arrays["char_field"],
                                                                            chi)
                        and (fixed_val or np.array_equal(arrays[op.args[2].name], t)))
                if not same:
                    ctx.fail(f"{op.gen}: an input was modified", ctx.history)


def char(ctx, p):
    d, bw, dt = p["dim"], p["bw"], p["dtype"]
    T, eps = NP[dt], EPS[dt]
    op = OPS[f"char{d}_b0.5"]
    m = 24000 if ctx.tier == "thorough" else 6000
    for th in (False, 2):
        k = Kernel(op, dt, th, genkw=dict(blend_width=bw))
        b = T(bw)
        pts = set(np.linspace(-3 * bw, 3 * bw, m).astype(T).tolist())
        for c in (b, -b, T(0)):
            up, dn = c, c
            pts.add(float(c))
            for _ in range(6):
                up, dn = np.nextafter(up, T(np.inf)), np.nextafter(dn, T(-np.inf))
                if c != 0:
                    pts.update([float(up), float(dn)])
        pts.update([1e6, -1e6, 1e-20, -1e-20, float(2 * b), float(-2 * b)])
        pts |= {-x for x in pts}
        x = np.array(sorted(pts), dtype=T)
        g = grid_for(len(x), d)
        phi = fill(g, x)
        out = pattern(g, 5).astype(T)
        ctx.history = dict(op=op.gen, blend_width=bw, dtype=dt)
        ctx.count("points_compared", len(x))
        keep = phi.copy()
        k.call(char_func_field=out, level_set_field=phi)
        ctx.transitions()
        ctx.traces()
        for v in x:
            ctx.state((d, bw, dt, th, float(v)))
        if not np.array_equal(phi, keep):
            ctx.fail("level set was modified", ctx.history)
        h = out.reshape(-1)[: len(x)].astype(float)
        X = x.astype(float)
        exp = ref.heaviside(X, float(b))
        tol = 16 * eps
        bad = ~(np.abs(h - exp) <= tol)
        # outside the blend the value is exact
        bad |= (X > float(b) * (1 + 2 * eps)) & (h != 1.0)
        bad |= (X < -float(b) * (1 + 2 * eps)) & (h != 0.0)
        if bad.any():
            i = int(np.argwhere(bad)[0][0])
            ctx.fail(f"{op.gen} ({dt}) blend {bw}: level set {X[i]!r} gives {h[i]!r}, definition "
                     f"{exp[i]!r}", ctx.history)
        if (np.diff(h) < -tol).any():
            i = int(np.argwhere(np.diff(h) < -tol)[0][0])
            ctx.fail(f"{op.gen}: decreases between {X[i]} and {X[i + 1]}", ctx.history)
        if (np.abs(h + h[::-1] - 1) > tol).any():
            ctx.fail(f"{op.gen}: not complementary under sign change", ctx.history)
        # every grid point, also the repeated ones, sees its own value only
        if not np.array_equal(out, fill(g, out.reshape(-1)[: len(x)])):
            e2 = ref.heaviside(phi.astype(float), float(b))
            if (np.abs(out - e2) > tol).any():
                ctx.fail(f"{op.gen}: value depends on the position in the grid", ctx.history)
