"""Bounded-exhaustive exploration of one generated Eulerian kernel against its reference model.

Explored per kernel configuration (all of it, no sampling):
 sweep    every grid shape in a box of small shapes, x memory layouts x array reuse,
 large    a fixed list of mid-size shapes (vector loops, thread chunks, remainders),
 params   every scalar parameter value of an alphabet,
 impulse  every unit impulse of every input component on a small grid,
 scale    every power-of-two rescaling of every argument group the operation is linear in,
 history  every sequence of calls (depth 3) over {arrays} x {parameters} with reused arrays.
Every execution is compared point by point (outputs, untouched inputs, bytes around the views).
"""
import itertools

import numpy as np

import opsreg
from arrays import EPS, NP, Placed, bits, pattern, shapes, worst
from opsreg import OPS, Kernel, as_double, generic_contents, place

LARGE = {2: [(7, 33), (18, 9), (41, 70), (130, 67), (3, 300), (260, 5), (64, 64)],
         3: [(7, 9, 17), (12, 5, 33), (20, 34, 10), (5, 6, 140), (70, 5, 6), (16, 32, 16)]}
HUGE = {2: [(258, 515), (9, 2100), (2100, 9), (256, 512)],
        3: [(66, 65, 67), (64, 64, 64), (6, 7, 1030), (7, 1030, 6), (1030, 6, 7)]}


def fits(op, shape):
    return all(n >= op.minn for n in shape)


def tolerance(op, dtype, vals, params):
    return 64 * EPS[dtype] * opsreg.magnitude(op, vals, params)


def hashable(contents):
    return tuple((n, hash(bits(v))) for n, v in contents.items())


def describe(k, grid, params, layout, note):
    return dict(operation=k.op.gen, options={a: b for a, b in k.genkw.items() if a != "_grids"},
                dtype=k.dtype, num_threads=k.threads, fixed_grid_size=k.fixed, grid=grid,
                params=params, layout=layout, case=note)


def run_case(ctx, k, P, params, layout, note, exact=False, alias=None):
    """One execution on the arrays P, compared with the model; returns the outputs."""
    op = k.op
    grid = P[op.args[0].name].view.shape
    vals = as_double(P)
    ctx.history = describe(k, grid, params, layout, note)
    exp = k.model(vals, params)
    inputs = {a.name: bits(P[a.name].view) for a in op.args if a.kind == "in"}
    ctx.state((k.op.key, k.dtype, str(k.threads), k.fixed, layout, str(params),
               tuple(hash(bits(v)) for v in vals.values())))
    k.call(**{n: p.view for n, p in P.items()}, **params)
    ctx.transitions()
    ctx.traces()
    tol = 0.0 if exact else tolerance(op, k.dtype, vals, params)
    for n, e in exp.items():
        idx, d = worst(P[n].view, e)
        if d > tol:
            if getattr(op, "known", None):
                key, alt, text = op.known
                if worst(P[n].view, alt(vals, params, k.genkw)[n])[1] <= tol:
                    ctx.finding(key, text)
                    continue
            ctx.fail(f"{op.gen} ({k.dtype}, {note}): {n}{list(idx)} = {P[n].view[idx]!r}, "
                     f"reference {e[idx]!r} (difference {d:.3g}, tolerance {tol:.3g})",
                     dict(ctx.history, index=idx, got=P[n].view[idx], expected=e[idx],
                          inputs={a: b for a, b in vals.items()}))
    for n, b in inputs.items():
        if bits(P[n].view) != b:
            ctx.fail(f"{op.gen} ({note}): input {n} was modified", ctx.history)
    for n, p in P.items():
        if not p.canaries_intact():
            ctx.fail(f"{op.gen} ({note}): memory outside the view {n} was written", ctx.history)
    return {n: P[n].view.copy() for n in exp}


def refill(op, P, contents):
    for a in op.args:
        P[a.name].view[...] = contents[a.name]


def kernel_for(op, dtype, threads, fixed, grid):
    return Kernel(op, dtype, threads, fixed, grid=grid)


PARAM_ALPHABET = {
    "prefactor": [0.0, 1.0, -1.0, 0.3, -2.5, 1e-7, -3e-11, 1e5],
    "inv_dx": [1.0, 0.3, 2.5, 1e-3, 2e-9, 1e4, 3e8, 128.0],
    "dt_by_dx": [0.0, 1.0, 0.3, -0.25, 1e-6, 3e-11],
    "nu_dt_by_dx2": [0.0, 1.0, 0.3, -0.25, 1e-6, 3e-11, 20.0],
    "dt_by_2_dx": [0.0, 0.5, 0.3, -0.25, 1e-6, 3e-11],
    "fixed_val": [0.0, 1.0, -1.0, 0.1, -2.5e-7, 3e6],
    "penalty_factor": [0.0, 1.0, 0.3, 1e-5, 3e-11, 1e5, 3e8],
    "field_1_prefac": [0.0, 1.0, -1.0, 0.3, -2e-5, 3e-11, 1e5],
    "field_2_prefac": [0.0, 1.0, -1.0, 0.7, 3e-5, -2e-11, -1e5],
}


def param_values(op, name):
    if name in ("fixed_vals", "penalty_val") and isinstance(op.params[name], list):
        n = len(op.params[name])
        base = [0.0, 1.0, -0.375, 2.5]
        return [list(c) for c in itertools.product(base, repeat=n)]
    if name == "penalty_val":
        return [0.0, 1.0, -0.375, 1e4]
    return PARAM_ALPHABET[name]


def param_sets(op):
    names = list(op.params)
    if not names:
        return [{}]
    return [dict(zip(names, v)) for v in itertools.product(*(param_values(op, n) for n in names))]


def linear_groups(op):
    """[(argument names, output scaling power)]: scaling those by 2^s scales the outputs by 2^s."""
    every = [a.name for a in op.args if a.name != "char_field"]
    key = op.key
    if op.group == "charfunc" or key.startswith(("set", "add", "brinkfix")):
        return []
    if key.startswith(("cprod", "cross")):
        return [["field_1"], ["field_2"]]
    if key == "stretch3":
        return [["vorticity_stretching_flux_field", "vorticity_field"],
                ["vorticity_stretching_flux_field", "velocity_field"]]
    if op.group == "advflux":
        return [["advection_flux", "field"], ["advection_flux", "velocity"]]
    if op.group == "timestep":
        return [[a.name for a in op.args if not a.name.startswith("velocity")]]
    return [every]


def sweep(ctx, k, shps, layouts, note="shape sweep"):
    """All shapes x layouts; on each, the same arrays are reused for a second content."""
    op = k.op
    for si, shape in enumerate(shps):
        if not fits(op, shape):
            continue
        for layout in layouts:
            P = place(op, shape, k.dtype, generic_contents(op, shape, tag=3 + si), layout)
            run_case(ctx, k, P, op.params, layout, note)
            refill(op, P, generic_contents(op, shape, tag=1000 + si, full=True))
            run_case(ctx, k, P, op.params, layout, note + ", arrays reused")


def params_pass(ctx, k, shape):
    op = k.op
    C = generic_contents(op, shape, tag=7)
    P = place(op, shape, k.dtype, C)
    for ps in param_sets(op):
        refill(op, P, C)
        run_case(ctx, k, P, ps, "contig", "parameter sweep")
        if k.dtype == "float32":  # numpy scalars of the working precision
            refill(op, P, C)
            ps2 = {n: (np.float32(v) if not isinstance(v, list) else np.array(v, np.float32))
                   for n, v in ps.items()}
            run_case(ctx, k, P, ps2, "contig", "parameter sweep (numpy scalars)")
        if all(not isinstance(v, list) and float(v).is_integer() for v in ps.values()):
            refill(op, P, C)
            run_case(ctx, k, P, {n: int(v) for n, v in ps.items()}, "contig",
                     "parameter sweep (Python integers)")


def impulse_pass(ctx, k, shape):
    """Unit impulses of every component of every input, other inputs generic or zero."""
    op = k.op
    base = generic_contents(op, shape, tag=11)
    zero = {n: np.zeros_like(v) for n, v in base.items()}
    for a in op.args:
        if a.kind == "scratch" or a.name == "char_field":
            continue
        others = base if op.degree > 1 else zero
        for i in range(int(np.prod(a.shape(shape)))):
            C = dict(others)
            e = np.zeros(a.shape(shape), dtype=base[a.name].dtype)
            e.flat[i] = 1.0 if i % 2 else -1.0
            C[a.name] = e
            P = place(op, shape, k.dtype, C)
            run_case(ctx, k, P, op.params, "contig", f"impulse {a.name}[{i}]")


def scratch_pass(ctx, k, shape):
    """Scratch arguments and work buffers that hold other content in one single cell."""
    op = k.op
    C = generic_contents(op, shape, tag=12)
    big = 2.0**40
    for a in op.args:
        if a.kind != "scratch":
            continue
        for i in range(int(np.prod(a.shape(shape)))):
            e = np.zeros(a.shape(shape), dtype=C[a.name].dtype)
            e.flat[i] = big
            P = place(op, shape, k.dtype, dict(C, **{a.name: e}))
            run_case(ctx, k, P, op.params, "contig", f"scratch {a.name}: only cell {i} non-zero")
    for n, buf in k.extra.items():
        if n.endswith("grid_field"):
            continue
        for i in range(buf.size):
            for other in k.extra.values():
                other[...] = 0
            buf.flat[i] = big
            P = place(op, shape, k.dtype, C)
            run_case(ctx, k, P, op.params, "contig", f"buffer {n}: only cell {i} non-zero")


def scale_pass(ctx, k, shape):
    op = k.op
    C = generic_contents(op, shape, tag=13)
    powers = (-60, -30, -14, 14, 30, 60) if k.dtype == "float64" else (-30, -14, 14, 30)
    for names in linear_groups(op):
        P = place(op, shape, k.dtype, C)
        base = run_case(ctx, k, P, op.params, "contig", "scale sweep, base")
        tol = tolerance(op, k.dtype, as_double(place(op, shape, k.dtype, C)), op.params)
        for s in powers:
            D = {n: (v * 2.0**s if n in names else v) for n, v in C.items()}
            P = place(op, shape, k.dtype, D)
            ctx.history = describe(k, shape, op.params, "contig", f"{names} scaled by 2^{s}")
            k.call(**{n: p.view for n, p in P.items()}, **op.params)
            ctx.transitions()
            ctx.traces()
            for n, b in base.items():
                idx, d = worst(P[n].view.astype(complex if np.iscomplexobj(b) else float)
                               / 2.0**s, b.astype(complex if np.iscomplexobj(b) else float))
                if d > tol:
                    ctx.fail(f"{op.gen}: scaling {names} by 2^{s} does not scale {n}{list(idx)}",
                             dict(ctx.history, got=P[n].view[idx] / 2.0**s, expected=b[idx]))


def special_pass(ctx, k, shape):
    """Zero, constant and equal operands (also single components), outputs holding other content."""
    op = k.op
    base = generic_contents(op, shape, tag=41)
    ins = [a for a in op.args if a.kind != "scratch" and a.name != "char_field"]
    cases = [("zero", [a.name for a in ins if a.kind == "in"], None)]
    for a in ins:
        cases += [("zero", [a.name], None), ("one", [a.name], None)]
        nc = len(a.shape(shape)) - op.dim
        if nc:
            cases += [("zero", [a.name], c) for c in range(a.shape(shape)[0])]
    for x, y in itertools.combinations(ins, 2):
        if x.shape(shape) == y.shape(shape):
            cases.append(("equal", [x.name, y.name], None))
    psets = param_sets(op)
    for what, names, comp in cases:
        C = {n: v.copy() for n, v in base.items()}
        for n in names:
            v = C[n] if comp is None else C[n][comp]
            v[...] = {"zero": 0, "one": 1}.get(what, C[names[0]] if comp is None else 0)
        for ps in ([op.params] if len(psets) < 2 else [op.params, psets[0]]):
            P = place(op, shape, k.dtype, C)
            run_case(ctx, k, P, ps, "contig", f"special operands {what} {names} {comp}")


def history_pass(ctx, k, shape, depth=3):
    """All call sequences over {two array sets} x {two parameter sets}: content, scratch and
    outputs left as the previous calls left them, inputs overwritten every second call."""
    op = k.op
    psets = param_sets(op)
    if len(psets) < 2:
        psets = [op.params]
    else:
        psets = [op.params, {n: param_values(op, n)[3] for n in op.params}]
    contents = [generic_contents(op, shape, tag=t, den=64) for t in (21, 22, 23)]
    alphabet = [(s, pi) for s in range(2) for pi in range(len(psets))]
    for hist in itertools.product(alphabet, repeat=depth):
        sets = [place(op, shape, k.dtype, contents[0]),
                place(op, shape, k.dtype, contents[1], "window" if k.fixed is None else "contig")]
        for step, (s, pi) in enumerate(hist):
            run_case(ctx, k, sets[s], psets[pi], "contig/window", f"history {hist} step {step}")
            a = next((a for a in op.args if a.kind == "in"), None)
            if a is not None and step == 0:  # new data in the same array object
                sets[s][a.name].view[...] = contents[2][a.name]
            # outputs grow with repeated steps: bring them back to a moderate size
            for a in op.args:
                v = sets[s][a.name].view
                if a.kind in ("inout", "scratch") and np.max(np.abs(v)) > 64:
                    v[...] = contents[s][a.name]


def long_pass(ctx, k, shape, calls):
    """One long call sequence on one kernel: two array sets, all parameter sets in turn."""
    op = k.op
    psets = param_sets(op)
    contents = [generic_contents(op, shape, tag=t) for t in (31, 32)]
    sets = [place(op, shape, k.dtype, c) for c in contents]
    for step in range(calls):
        s = (step // 3) % 2
        run_case(ctx, k, sets[s], psets[step % len(psets)], "contig", f"long history, call {step}")
        for a in op.args:
            v = sets[s][a.name].view
            if a.kind in ("inout", "scratch") and np.max(np.abs(v)) > 64:
                v[...] = contents[s][a.name]


def full(ctx, op, dtype, tier, lo=None, hi=None, layouts=("contig", "window")):
    """Deep exploration of the default configuration (serial, any size)."""
    d = op.dim
    per_grid = op.gen_arrays is not None
    lo = lo or op.minn
    deep = tier == "thorough"
    if hi is None:
        hi = (8 if deep else 7) if d == 2 else (6 if deep else 5)
        if op.minn >= 5:
            hi = op.minn + (3 if deep else 2) + (1 if d == 2 else 0)
    small = [s for s in shapes(d, lo, max(hi, lo + 1))]
    big = LARGE[d] if d == 2 or not deep else LARGE[d] + [(33, 34, 35)]
    n = op.minn
    par = (n + 2, n + 1) if d == 2 else (n + 1, n + 2, n)
    imp = (n + 1, n) if d == 2 else (n, n + 1, n)
    imp = tuple(min(max(x, 3), 6) for x in imp) if op.minn < 5 else imp
    if per_grid:
        cache = {}

        def K(shape):
            if shape not in cache:
                cache[shape] = Kernel(op, dtype, False, None, grid=shape)
            return cache[shape]

        base = [tuple(x + n for x in s) for s in
                ([(0, 1), (2, 0), (1, 1), (3, 5)] if d == 2 else
                 [(0, 1, 2), (2, 0, 1), (1, 2, 0), (1, 1, 1)])]
        todo = base + ([(18, 9)] if d == 2 else [(12, 9, 17)])
        if deep:
            todo = small[:: max(1, len(small) // 12)] + todo
        for s in todo:
            if fits(op, s):
                sweep(ctx, K(s), [s], layouts)
        params_pass(ctx, K(base[0]), base[0])
        impulse_pass(ctx, K(base[0]), base[0])
        scratch_pass(ctx, K(base[0]), base[0])
        scale_pass(ctx, K(base[1]), base[1])
        special_pass(ctx, K(base[1]), base[1])
        history_pass(ctx, K(base[1]), base[1])
        long_pass(ctx, K(base[1]), base[1], 1040 if deep else 140)
        return
    k = Kernel(op, dtype)
    sweep(ctx, k, small, layouts)
    sweep(ctx, k, big, ("contig", "wide"), note="mid-size shapes")
    sweep(ctx, k, HUGE[d], ("contig",), note="large shapes")
    params_pass(ctx, k, par)
    impulse_pass(ctx, k, imp)
    scratch_pass(ctx, k, imp)
    scale_pass(ctx, k, par)
    special_pass(ctx, k, par)
    history_pass(ctx, k, par)
    long_pass(ctx, k, par, 1040 if deep else 270)


def configs(ctx, op, dtype, tier, threads=(False, 1, 2, 3, 8)):
    """Every thread count x {any size, four fixed sizes}, on shapes that split unevenly."""
    d, n = op.dim, op.minn
    fixed = [None]
    if d == 2:
        shps = [(n + 2, n + 4), (n + 5, n + 5), (n + 12, n), (64, 32)]
    else:
        shps = [(n + 1, n + 2, n + 3), (n + 2, n + 2, n + 2), (n + 6, n, n + 1), (16, 8, 32)]
    for th in threads:
        if op.gen_arrays:
            if th is False:
                continue
            for s in shps[:2]:
                k = Kernel(op, dtype, th, None, grid=s)
                sweep(ctx, k, [s], ("contig",), note="thread counts")
            if op.fixed:
                for s in shps[:2]:
                    k = Kernel(op, dtype, th, s, grid=s)
                    sweep(ctx, k, [s], ("contig",), note="fixed sizes")
            continue
        if th is not False:
            k = Kernel(op, dtype, th)
            sweep(ctx, k, shps + LARGE[d][:3], ("contig", "window"), note="thread counts")
        if op.fixed and th in (False, 2) or (op.fixed and tier == "thorough"):
            for s in shps:
                k = Kernel(op, dtype, th, s)
                sweep(ctx, k, [s], ("contig",), note="fixed sizes")
                if s is not shps[-1]:
                    params_pass(ctx, k, s)


def units_for(ops, tier, threads=None):
    res = []
    for op in ops:
        heavy = 4 if "adv" in op.key else (2 if op.dim == 3 else 1)
        for dt in ("float64", "float32"):
            res.append(dict(name=f"{op.key} {dt} inputs", cost=3 * heavy,
                            params=dict(kind="full", op=op.key, dtype=dt)))
            res.append(dict(name=f"{op.key} {dt} configurations", cost=3.5 * heavy,
                            params=dict(kind="configs", op=op.key, dtype=dt)))
    return res


def run(ctx, params):
    op = OPS[params["op"]]
    ctx.sample(dict(operation=op.gen, options=op.genkw, dtype=params["dtype"],
                    kind=params["kind"]))
    if params["kind"] == "full":
        full(ctx, op, params["dtype"], ctx.tier)
    elif params["kind"] == "configs":
        configs(ctx, op, params["dtype"], ctx.tier)
    else:
        raise ValueError(params["kind"])


BOUNDS = {
    "quick": "per operation and precision: all grid shapes up to 7x7 / 5x5x5 (ENO3: 8x8 / 7x7x7) "
             "in two layouts with array reuse, 5-6 mid-size shapes, 3-4 large ones, all parameter alphabets, all "
             "impulses (also of scratch arrays and work buffers) on one small grid, power-of-two rescaling 2^-60..2^60, zero / constant / equal operands, all call histories "
             "of depth 3 and one of 270 calls; thread counts False,1,2,3,8 and four fixed sizes",
    "thorough": "as quick with grid shapes up to 8x8 / 6x6x6, a history of 1040 calls and the full product of thread "
                "counts and fixed sizes",
}
