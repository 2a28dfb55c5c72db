"""E04 elementwise operations."""
import itertools

import numpy as np

import explore
from arrays import EPS, NP, Placed, bits, pattern, worst
from opsreg import OPS, Kernel

BOUNDS = {t: v + "; all operand tuples over a 17-value alphabet (complex: 7^4, cross product: 4^6 "
          "tuples), all in-place aliasings" for t, v in explore.BOUNDS.items()}
EXPLANATION = ("Every elementwise kernel of the real code is executed on all tuples of an operand "
               "alphabet at all grid points and compared bit for bit (or within rounding) with "
               "the pointwise operation.")
ASSUMPTIONS = ["finite inputs without denormals (the code is compiled with -Ofast)"]

VALUES = [0.0, 1.0, -1.0, 0.1, -0.1, 1 / 3, -2 / 3, 2.0**-20, -(2.0**-24) * 3, 1e5, -123456.789,
          3.5e-7, 16777217.0, 0.5, -1e-3, 7.25, 1e8]


def ops():
    return [o for o in OPS.values() if o.group == "elementwise"]


def units(tier):
    us = explore.units_for(ops(), tier)
    for o in ops():
        for dt in ("float64", "float32"):
            us.append(dict(name=f"values {o.key} {dt}", cost=2,
                           params=dict(kind="values", op=o.key, dtype=dt)))
    return us


def grid_for(n, dim):
    """A grid with at least n points."""
    if dim == 2:
        a = int(np.ceil(np.sqrt(n)))
        return (a, int(np.ceil(n / a)))
    a = int(np.ceil(n ** (1 / 3)))
    return (a, a, int(np.ceil(n / a / a)))


def fill(grid, values):
    out = np.zeros(int(np.prod(grid)), dtype=np.asarray(values).dtype)
    reps = int(np.ceil(out.size / len(values)))
    out[...] = np.tile(values, reps)[: out.size]
    return out.reshape(grid)


def run_unit(ctx, p):
    if p["kind"] != "values":
        return explore.run(ctx, p)
    op, dt = OPS[p["op"]], p["dtype"]
    T = NP[dt]
    eps = EPS[dt]
    key = op.key
    for th in (False, 2):
        k = Kernel(op, dt, th)
        if key.startswith("copy"):
            g = grid_for(len(VALUES), op.dim)
            x = fill(g, VALUES).astype(T)
            check(ctx, k, dict(field=pattern(g, 1).astype(T), rhs_field=x), {}, "field", x)
        elif key.startswith("set"):
            shape = op.args[0].shape(grid_for(30, op.dim))
            n = op.args[0].comps
            combos = itertools.product(VALUES, repeat=n) if n == 2 else (
                ((a, b, c) for a in VALUES for b in VALUES[::2] for c in VALUES[1::4]) if n == 3
                else ((v,) for v in VALUES))
            for c in combos:
                exp = np.empty(shape, T)
                for i in range(n):
                    exp[i] = T(c[i])
                if not n:
                    exp[...] = T(c[0])
                name = op.args[0].name
                check(ctx, k, {name: pattern(shape, 3).astype(T)},
                      dict(fixed_vals=list(c)) if n else dict(fixed_val=c[0]), name, exp)
        elif key.startswith("add"):
            n = op.args[0].comps
            g = grid_for(len(VALUES), op.dim)
            x1 = fill(g, VALUES).astype(T)
            iname = op.args[1].name
            for c in ([(v,) for v in VALUES] if not n else
                      [tuple(VALUES[(i * 5 + s) % 17] for s in range(n)) for i in range(17)]
                      + [tuple(VALUES[(i + 3 * s) % 17] for s in range(n)) for i in range(17)]):
                if n:
                    x = np.stack([np.roll(x1, i) for i in range(n)])
                    exp = np.stack([x[i] + T(c[i]) for i in range(n)])
                    prm = dict(fixed_vals=list(c))
                else:
                    x, exp, prm = x1, x1 + T(c[0]), dict(fixed_val=c[0])
                check(ctx, k, {"sum_field": pattern(x.shape, 4).astype(T), iname: x.copy()}, prm,
                      "sum_field", exp)
                check(ctx, k, {iname: x.copy()}, prm, "sum_field", exp, alias={"sum_field": iname})
        elif key.startswith(("sum", "saxpby")):
            n = op.args[0].comps
            pairs = np.array(list(itertools.product(VALUES, repeat=2)))
            g = grid_for(len(pairs), op.dim)
            a = fill(g, pairs[:, 0]).astype(T)
            b = fill(g, pairs[:, 1]).astype(T)
            if n:
                a = np.stack([np.roll(a, i) for i in range(n)])
                b = np.stack([np.roll(b, i * 2) for i in range(n)])
            if key.startswith("sum"):
                cases = [({}, a + b, a + a, 0.0)]
            else:
                cases = []
                for s, t in itertools.product(VALUES, repeat=2):
                    S, U = float(T(s)), float(T(t))
                    A, B = a.astype(float), b.astype(float)
                    cases.append((dict(field_1_prefac=s, field_2_prefac=t), S * A + U * B,
                                  S * A + U * A,
                                  6 * eps * (np.abs(S * A) + np.abs(U * B) + np.abs(U * A))
                                  + (1e-30 if dt == "float32" else 1e-250)))
            for prm, exp, exp_same, tol in cases:
                z = pattern(a.shape, 5).astype(T)
                check(ctx, k, dict(sum_field=z, field_1=a.copy(), field_2=b.copy()), prm,
                      "sum_field", exp, tol)
                for inp in ("field_1", "field_2"):
                    check(ctx, k, dict(field_1=a.copy(), field_2=b.copy()), prm, "sum_field", exp,
                          tol, alias={"sum_field": inp})
                check(ctx, k, dict(field_1=a.copy()), prm, "sum_field", exp_same, tol,
                      alias={"sum_field": "field_1", "field_2": "field_1"})
        elif key.startswith("cprod"):
            V = [0.0, 1.0, -1.0, 0.1, -2 / 3, 123.456, -(2.0**-10)]
            q = np.array(list(itertools.product(V, repeat=4)))
            g = grid_for(len(q), op.dim)
            C = np.complex64 if dt == "float32" else np.complex128
            a = fill(g, q[:, 0] + 1j * q[:, 1]).astype(C)
            b = fill(g, q[:, 2] + 1j * q[:, 3]).astype(C)
            A, B = a.astype(complex), b.astype(complex)
            tol = 8 * eps * (np.abs(A) * np.abs(B)) + 1e-30
            check(ctx, k, dict(product_field=np.full(g, 3 - 2j, C), field_1=a, field_2=b), {},
                  "product_field", A * B, tol)
        elif key.startswith("cross"):
            V = [0.0, 1.0, -2 / 3, 10.5]
            q = np.array(list(itertools.product(V, repeat=6)))
            g = grid_for(len(q), 3)
            a = np.stack([fill(g, q[:, i]) for i in range(3)]).astype(T)
            b = np.stack([fill(g, q[:, 3 + i]) for i in range(3)]).astype(T)
            A, B = a.astype(float), b.astype(float)
            check(ctx, k, dict(result_field=np.full(a.shape, 9.5, T), field_1=a, field_2=b), {},
                  "result_field", np.cross(A, B, axis=0), 4000 * eps)
        else:
            raise AssertionError(key)


def check(ctx, k, arrays, prm, out, exp, tol=0.0, alias=None):
    full = dict(arrays)
    for x, y in (alias or {}).items():
        full[x] = full[y]
    before = {n: bits(v) for n, v in full.items() if n != out and v is not full[out]}
    ctx.history = dict(operation=k.op.gen, options=k.genkw, dtype=k.dtype, threads=k.threads,
                       params=prm, alias=alias)
    k.call(**full, **prm)
    ctx.transitions()
    ctx.count("points_compared", int(np.size(exp)))
    ctx.traces()
    ctx.state((k.op.key, k.dtype, k.threads, str(prm), str(alias)))
    got = full[out]
    bad = ~(np.abs(got - exp) <= tol)
    if bad.any():
        idx = tuple(int(i) for i in np.argwhere(bad)[0])
        ctx.fail(f"{k.op.gen} ({k.dtype}, {prm}, in place: {alias}): {out}{list(idx)} = "
                 f"{got[idx]!r}, pointwise operation gives {exp[idx]!r}", ctx.history)
    for n, b in before.items():
        if bits(full[n]) != b:
            ctx.fail(f"{k.op.gen}: input {n} was modified", ctx.history)
