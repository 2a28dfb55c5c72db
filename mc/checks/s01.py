"""S01 every kernel option computes the same operator; kernels coexist."""
import itertools
import os

import numpy as np

import fastcc
import opsreg
from arrays import EPS, NP, Placed, bits, worst
from opsreg import OPS, Kernel, as_double, generic_contents, place

BOUNDS = {
    "quick": "every operation and option (about 110): baseline (double, serial, any size, contiguous) "
             "against 6 configurations covering every value of precision, thread count (False, True, 1, "
             "2, 3, 8), free / three fixed sizes; contiguous, window, strided and Fortran-order views; "
             "every scalar form against each component of its vector form; per generator: all options "
             "x precisions x sizes x threads alive together, generated in 3 orders, all call sequences "
             "of depth 3 over 4 of them; all kernels of one dimension alive together",
    "thorough": "as quick with the full product of precision x thread counts x sizes",
}
EXPLANATION = (
    "The configuration space is enumerated on the real generators: every configuration is executed "
    "and compared with the baseline configuration, and the histories of generate and call actions are "
    "explored with all kernels of a generator alive.")
ASSUMPTIONS = ["results agree up to the rounding of the precision (the code is compiled with -Ofast)"]


def pairs():
    """(scalar op, vector op) of one operator with otherwise equal options."""
    res = []
    for a in OPS.values():
        for b in OPS.values():
            ka, kb = dict(a.genkw), dict(b.genkw)
            if a.gen == b.gen and ka.pop("field_type", None) == "scalar" and \
                    kb.pop("field_type", None) == "vector" and ka == kb:
                res.append((a.key, b.key))
    return res


def units(tier):
    us = []
    for key, op in OPS.items():
        heavy = 5 if "adv" in key else (2 if op.dim == 3 else 1)
        us.append(dict(name=f"configurations {key}", cost=heavy, params=dict(kind="conf", op=key)))
    for a, b in pairs():
        us.append(dict(name=f"forms {a} {b}", cost=5 if "adv" in a else 2,
                       params=dict(kind="forms", a=a, b=b)))
    for gen in sorted({o.gen for o in OPS.values()}):
        n = sum(o.gen == gen for o in OPS.values())
        us.append(dict(name=f"coexistence {gen}", cost=2 + n, params=dict(kind="gen", gen=gen)))
    for dim in (2, 3):
        for dt in ("float64", "float32") if tier == "thorough" else (("float32", "float64")[dim - 2],):
            us.append(dict(name=f"all kernels together {dim}d {dt}", cost=15,
                           params=dict(kind="all", dim=dim, dtype=dt)))
    return us


def run_unit(ctx, p):
    {"conf": configurations, "forms": forms, "gen": coexist, "all": together}[p["kind"]](ctx, p)


def grids(op):
    n = op.minn
    if op.dim == 2:
        return [(n + 2, n + 5), (n + 4, n + 4), (n, n + 9)]
    return [(n + 1, n + 2, n + 4), (n + 2,) * 3, (n, n + 3, n + 5)]


def evaluate(k, grid, contents, layout="contig", params=None):
    """One execution on fresh arrays; values of the outputs in double."""
    op = k.op
    P = place(op, grid, k.dtype, contents, layout)
    k.call(**{n: x.view for n, x in P.items()}, **(params or op.params))
    return {a.name: P[a.name].view.astype(complex if a.cplx else float)
            for a in op.args if a.kind in ("out", "inout")}


def tol(op, dtype, contents):
    return 64 * EPS[dtype] * opsreg.magnitude(op, contents, op.params)


def configurations(ctx, p):
    op = OPS[p["op"]]
    A, B, C = grids(op)
    base = {}
    contents = {g: generic_contents(op, g, tag=17 + i) for i, g in enumerate((A, B, C))}
    k0 = None if op.gen_arrays else Kernel(op)
    for g in (A, B, C):
        base[g] = evaluate(k0 or Kernel(op, grid=g), g, contents[g])
    threads = (False, True, 1, 2, 3, 8)
    if ctx.tier == "thorough":
        confs = [c for c in itertools.product(("float64", "float32"), threads, (None, A, B, C))
                 if c[2] is None or op.fixed]
    elif op.fixed:
        confs = [("float32", False, None), ("float64", True, B), ("float64", False, A),
                 ("float32", 3, C), ("float64", 8, None), ("float32", 2, A), ("float64", 1, C)]
    else:
        confs = [("float32", False, None), ("float64", True, None), ("float32", 3, None),
                 ("float64", 8, None), ("float32", 2, None), ("float64", 1, None)]
    if ctx.tier != "thorough" and "adv" in op.key:
        confs = [("float32", 3, C), ("float64", 8, None), ("float64", True, B), ("float32", False, None)]
    per_grid = op.gen_arrays is not None
    for n, (dt, th, fixed) in enumerate(confs):
        gs = [fixed] if fixed else ([(A, B, C)[n % 3]] if per_grid else [A, B, C])
        k = Kernel(op, dt, th, fixed, grid=gs[0])
        for g in gs:
            for layout in (["contig"] if fixed else ["contig", "window", "strided", "fortran"]):
                if layout == "fortran" and any(a.comps for a in op.args):
                    continue
                ctx.history = dict(operation=op.gen, options=op.genkw, dtype=dt, num_threads=th,
                                   fixed_grid_size=fixed, grid=g, layout=layout)
                ctx.state((op.key, dt, str(th), fixed, g, layout))
                got = evaluate(k, g, contents[g], layout)
                ctx.transitions()
                ctx.traces()
                t = tol(op, dt, contents[g])
                for name, e in base[g].items():
                    idx, d = worst(got[name], e)
                    if d > t:
                        ctx.fail(f"{op.gen} {op.genkw} with {dt}, num_threads={th}, fixed_grid_size="
                                 f"{fixed}, {layout}: {name}{list(idx)} = {got[name][idx]!r}, "
                                 f"baseline kernel {e[idx]!r}", ctx.history)
    ctx.sample(ctx.history)


def forms(ctx, p):
    a, b = OPS[p["a"]], OPS[p["b"]]
    A, B, C = grids(a)
    confs = [("float64", False, None, A), ("float32", 2, B if a.fixed else None, B)]
    if ctx.tier == "thorough":
        confs += [("float32", False, None, C), ("float64", 3, C if a.fixed else None, C)]
    for dt, th, fixed, g in confs:
        # work buffers shared by both forms, as a simulation does
        ka = Kernel(a, dt, th, fixed, grid=g)
        kb = Kernel(b, dt, th, fixed, grid=g, extra=ka.extra if a.gen_arrays else None)
        content = generic_contents(b, g, tag=29)
        ctx.history = dict(scalar=a.key, vector=b.key, dtype=dt, num_threads=th,
                           fixed_grid_size=fixed, grid=g)
        vec = evaluate(kb, g, content)
        for c in range(b.dim):
            one = {x.name: (content[y.name][c] if y.comps and not x.comps else content[y.name])
                   for x, y in zip(a.args, b.args)}
            params = {}
            for (x, v), (y, w) in zip(a.params.items(), b.params.items()):
                params[x] = w[c] if isinstance(w, list) and not isinstance(v, list) else w
            res = evaluate(ka, g, one, params=params)
            ctx.transitions(2)
            ctx.traces()
            ctx.state((a.key, dt, str(th), g, c))
            for x, y in zip(a.args, b.args):
                if x.name not in res:
                    continue
                idx, d = worst(vec[y.name][c], res[x.name])
                if d > tol(b, dt, content):
                    ctx.fail(f"{a.gen} ({dt}, num_threads={th}): component {c} of the vector form at "
                             f"{list(idx)} = {vec[y.name][c][idx]!r}, scalar form "
                             f"{res[x.name][idx]!r}", ctx.history)


def quick_compiler(scratch):
    """Coexistence is not about code generation flags: compile without vectorisation."""
    from pystencils.cpu import cpujit

    flags = cpujit._config["compiler"]["flags"]
    cache = os.path.join(scratch, "cache-O1")
    os.makedirs(cache, exist_ok=True)
    cpujit._config["compiler"]["flags"] = "-O1 -DNDEBUG -fPIC -fopenmp -std=c++11"
    old = cpujit._config["cache"]["object_cache"]
    cpujit._config["cache"]["object_cache"] = cache

    def restore():
        cpujit._config["compiler"]["flags"] = flags
        cpujit._config["cache"]["object_cache"] = old

    return restore


NEAR_WIDTHS = (1e-3, 1.0002e-3, 1e-7, 3e-7, 1000.0, 1000.25)


class Live:
    """A kernel that is alive, with its arguments and what it computed right after generation."""

    def __init__(self, ctx, op, dt, th, fixed, grid, tag, buffers, variant=0):
        self.args = (op, dt, th, fixed, grid)
        self.op, self.grid = op, grid
        self.name = f"{op.gen} {op.genkw} {dt} threads {th} fixed {fixed} grid {grid}"
        genkw = None
        self.contents = generic_contents(op, grid, tag=tag)
        # kernels generated for the same work buffers, as a simulation does
        extra = None
        if op.gen_arrays and op.group in ("filter", "timestep"):
            key = (op.group, dt, grid)
            extra = buffers.setdefault(key, op.gen_arrays(op, grid, NP[dt], op.genkw))
        elif op.group == "penalise" and variant:  # another spacing, another origin
            genkw = dict(dx=(0.25, 0.5, 0.25)[variant])
            extra = op.gen_arrays(op, grid, NP[dt], genkw,
                                  origin=([0.125, -1.5, 3.0], [4.0, 0.0, 2.5])[variant // 2][: op.dim])
            self.name += f" coordinates {variant}"
        elif op.group == "charfunc" and variant:  # neighbouring, tiny and large blend widths
            width = NEAR_WIDTHS[variant - 1]
            genkw = dict(blend_width=width)
            n = self.contents["level_set_field"]
            n[...] = np.linspace(-1.4, 1.4, n.size).reshape(n.shape) * width
            self.name += f" width {width}"
        self.k = Kernel(op, dt, th, fixed, grid=grid, extra=extra, genkw=genkw)
        self.alone = None
        ctx.transitions()
        ctx.state(("generated", self.name))

    def call(self, ctx, history):
        op, dt = self.op, self.k.dtype
        P = place(op, self.grid, dt, self.contents)
        ctx.history = history
        self.k.call(**{n: x.view for n, x in P.items()}, **op.params)
        ctx.transitions()
        res = {a.name: bits(P[a.name].view) for a in op.args if a.kind != "scratch"}
        if self.alone is None:
            self.alone = res
            vals = {n: as_double({n: x})[n] for n, x in
                    place(op, self.grid, dt, self.contents).items()}
            exp = self.k.model(vals, op.params)
            for n, e in exp.items():
                idx, d = worst(P[n].view, e)
                if d > tol(op, dt, vals):
                    if getattr(op, "known", None) and \
                            worst(P[n].view, op.known[1](vals, op.params, self.k.genkw)[n])[1] \
                            <= tol(op, dt, vals):
                        continue
                    ctx.fail(f"{self.name}: generated after other kernels it gives {n}{list(idx)} = "
                             f"{P[n].view[idx]!r}, the operator {e[idx]!r}", history)
        elif res != self.alone:
            bad = [n for n in res if res[n] != self.alone[n]]
            ctx.fail(f"{self.name}: {bad} changed after other kernels were generated or called",
                     history)


def coexist(ctx, p):
    restore = quick_compiler(ctx.scratch)
    try:
        ops = [o for o in OPS.values() if o.gen == p["gen"]]
        minn = max(o.minn for o in ops)
        d = ops[0].dim
        A = (minn + 2, minn + 4) if d == 2 else (minn + 1, minn + 2, minn + 3)
        B = (minn + 1, minn + 1) if d == 2 else (minn + 1,) * 3
        confs = [("float64", False, None, A), ("float32", False, None, A)]
        if ops[0].fixed:
            confs += [("float64", False, A, A), ("float64", 2, B, B), ("float32", 3, A, A)]
        else:
            confs += [("float64", 2, None, B)]
        if ctx.tier != "thorough" and (ops[0].group == "filter" or len(ops) > 4):
            confs = confs[:2] + confs[3:4]
        pool = [(o,) + c + (0,) for o in ops for c in confs]
        if ops[0].fixed:  # shapes with equal numbers of points, equal extents in other places
            R = A[1:] + A[:1]
            Q = (A[0], A[1] + 1) + A[2:]
            some = ops if len(ops) <= 2 or ctx.tier == "thorough" else [ops[0], ops[-1]]
            for o in some:
                pool += [(o, "float64", False, g, g, 0) for g in ((A, R, Q) if len(confs) < 5 else (R, Q))]
        if ops[0].group == "charfunc":
            pool += [(ops[0], "float64", False, f, A, v) for f in (None, A)
                     for v in range(1, len(NEAR_WIDTHS) + 1)]
        if ops[0].group == "penalise":
            pool += [(o, "float64", False, f, A, v) for o in ops for v in (1, 2) for f in (None, A)
                     if o.genkw["width"] == 2]
        alone = {}
        orders = [pool, pool[::-1], pool[1::2] + pool[::2]]
        for oi, order in enumerate(orders):
            buffers = {}
            live = []
            for i, (o, dt, th, fixed, g, va) in enumerate(order):
                x = Live(ctx, o, dt, th, fixed, g, 40 + pool.index((o, dt, th, fixed, g, va)), buffers,
                         va)
                live.append(x)
                x.call(ctx, dict(order=oi, generated=[y.name for y in live], called=x.name))
                if x.name in alone and alone[x.name] != x.alone:
                    ctx.fail(f"{x.name}: result depends on the order kernels were generated in",
                             ctx.history)
                alone[x.name] = x.alone
                # every kernel generated before still computes the same
                for y in live[-4:]:
                    y.call(ctx, dict(order=oi, generated=[z.name for z in live], called=y.name))
            for y in live + live[::-1]:
                y.call(ctx, dict(order=oi, generated="all", called=y.name))
            few = live[:: max(1, len(live) // 4)][:4]
            for seq in itertools.product(range(len(few)), repeat=3):
                for s in seq:
                    few[s].call(ctx, dict(order=oi, sequence=[few[q].name for q in seq]))
                ctx.traces()
                ctx.state((p["gen"], oi, seq))
        ctx.sample(dict(generator=p["gen"], kernels=len(pool)))
    finally:
        restore()


def together(ctx, p):
    restore = quick_compiler(ctx.scratch)
    try:
        ops = [o for o in OPS.values() if o.dim == p["dim"]]
        g = (9, 8) if p["dim"] == 2 else (8, 7, 9)
        buffers = {}
        live = []
        for i, o in enumerate(ops):
            x = Live(ctx, o, p["dtype"], False, None, g, 60 + i, buffers)
            live.append(x)
            x.call(ctx, dict(generated=[y.name for y in live[-5:]], called=x.name))
        # every kernel after every other one (all ordered pairs are adjacent at least once)
        for stride in range(1, len(live)):
            i = 0
            for _ in range(len(live)):
                i = (i + stride) % len(live)
                live[i].call(ctx, dict(called=live[i].name, stride=stride))
            if stride > (len(live) if ctx.tier == "thorough" else 12):
                break
        ctx.traces(len(live))
    finally:
        restore()
