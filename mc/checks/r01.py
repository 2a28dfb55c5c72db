"""R01 unsupported options are rejected, supported ones keep their precision."""
import itertools

import numpy as np

from arrays import EPS, NP, bits, pattern
from opsreg import OPS, Kernel, generic_contents, sopht

BOUNDS = {
    "quick": "every generator and constructor x menus of valid and invalid option values, one option at a "
             "time and all pairs; every generator (one per field form) x both precisions x free and fixed "
             "size x every argument position x 3 wrong precisions and 6 wrong extents",
    "thorough": "as quick with thread counts False, 2 and every option of every generator",
}
EXPLANATION = ("The finite product of options and menus is enumerated on the real generators and "
               "constructors; every call must raise exactly when a value lies outside the documented "
               "set, and every kernel must raise for arrays it was not generated for.")
ASSUMPTIONS = ["arrays have the right number of dimensions and components (the kernels see one component at a "
               "time and pystencils does not check the number of dimensions)",
               "numba is not installed here: its decorators are stubbed"]

FIELD_TYPES = (["scalar", "vector"],
               ["Scalar", "VECTOR", "", "tensor", None, 0, "scalarfield", b"scalar", " vector",
                "vect", "s", True, ("scalar",)])
REALS = ([np.float32, np.float64],
         [np.float16, np.int32, np.int64, np.complex64, np.complex128, "single", "double", None,
          np.uint8, bool, 32])
FILTER_TYPES = (["multiplicative", "convolution"],
                ["Multiplicative", "conv", "", None, "convolutional", 0, "multiplicative "])
ORDERS = ([0, 1, 2, 3, 4, 7], [-1, -2, 1.0, 2.5, "1", None, np.float64(2), (1,)])
SET_WIDTHS = ([1, 2, 3, 4], [0, -1, -3, 1.0, 2.5, "1", None, np.float64(2), (1,)])
PEN_WIDTHS = ([0, 1, 2, 3, 4], [-1, -3, 1.0, 2.5, "1", None, np.float64(2), (1,)])


def units(tier):
    us = [dict(name=f"options {g}", cost=2 + 3 * ("advection" in g), params=dict(kind="gen", gen=g))
          for g in sorted({o.gen for o in OPS.values()})]
    seen = set()
    for key, op in OPS.items():
        t = (op.gen, op.genkw.get("field_type"), op.genkw.get("filter_type"))
        if op.key.startswith("pen") and op.key.endswith("w0"):
            continue
        if tier != "thorough" and t in seen:
            continue
        seen.add(t)
        us.append(dict(name=f"arrays {key}", cost=3 + 6 * ("adv" in key),
                       params=dict(kind="arrays", op=key)))
    for dim in (2, 3):
        us.append(dict(name=f"immersed boundary {dim}d", cost=2, params=dict(kind="ib", dim=dim)))
        us.append(dict(name=f"solvers {dim}d", cost=2, params=dict(kind="solvers", dim=dim)))
    us.append(dict(name="precision", cost=1, params=dict(kind="precision")))
    us.append(dict(name="io", cost=1, params=dict(kind="io")))
    return us


def run_unit(ctx, p):
    dict(gen=generator_options, arrays=arrays, ib=immersed, solvers=solvers, precision=precision,
         io=io)[p["kind"]](ctx, p)


def raises(f, *a, **k):
    try:
        return False, f(*a, **k)
    except Exception as e:  # noqa: any exception is a rejection
        return True, e


def expect(ctx, valid, what, f, *a, **k):
    """f must succeed when valid and raise otherwise."""
    ctx.history = what
    bad, res = raises(f, *a, **k)
    ctx.transitions()
    ctx.state(str(what))
    ctx.count("accepted" if valid else "rejected")
    if valid and bad:
        ctx.fail(f"supported value rejected: {what}: {type(res).__name__}: {res}", what)
    if not valid and not bad:
        ctx.fail(f"unsupported value accepted: {what}", what)
    return res


def menu(op):
    """Option name -> (valid values, invalid values) for a generator."""
    m = {}
    if "field_type" in op.genkw:
        m["field_type"] = FIELD_TYPES
    if "width" in op.genkw:
        m["width"] = SET_WIDTHS if op.group == "boundary" else PEN_WIDTHS
    if "filter_order" in op.genkw:
        m["filter_order"] = ORDERS
        m["filter_type"] = FILTER_TYPES
    # the ENO3 flux generators configure pystencils themselves
    if not op.gen.startswith("gen_advection_flux"):
        m["real_t"] = REALS
    return m


def generator_options(ctx, p):
    op = next(o for o in OPS.values() if o.gen == p["gen"])
    gen = getattr(sopht(), op.gen)
    grid = (8, 9) if op.dim == 2 else (8, 9, 10)
    m = menu(op)

    def build(**over):
        kw = dict(op.genkw, real_t=np.float64)
        if op.gen_arrays:
            r = over.get("real_t", np.float64)
            r = r if r in (np.float32, np.float64) else np.float64
            kw.update(op.gen_arrays(op, grid, r, op.genkw))
        kw.update(over)
        return gen(**kw)

    names = list(m)
    # valid combinations (all of them for the cheap generators)
    good = list(itertools.product(*(m[n][0] for n in names)))
    limit = 40 if ctx.tier == "thorough" else 12
    if len(good) > limit:
        good = good[:: -(-len(good) // limit)] + good[-1:]
    if "advection" in op.gen and ctx.tier != "thorough":
        good = good[:1]
    for vals in good:
        over = dict(zip(names, vals))
        k = expect(ctx, True, dict(generator=op.gen, options={n: str(v) for n, v in over.items()}),
                   build, **over)
        if not callable(k) and not (over.get("width") == 0 and k is None):
            ctx.fail(f"{op.gen}: generator returned {k!r}", ctx.history)
    # a kernel for a zone of width zero has no precision at all: it does nothing
    live = {n: [v for v in m[n][0] if not (n == "width" and v == 0)] for n in names}
    # one invalid value at a time, with two valid values of every other option
    for n in names:
        for bad in m[n][1]:
            others = [x for x in names if x != n]
            sets = list(itertools.product(*(live[x][:2] for x in others)))
            for vals in sets:
                over = dict(zip(others, vals))
                over[n] = bad
                expect(ctx, False, dict(generator=op.gen,
                                        options={a: repr(v) for a, v in over.items()}),
                       build, **over)
    # two invalid values
    for a, b in itertools.combinations(names, 2):
        for x, y in itertools.product(m[a][1][:4], m[b][1][:4]):
            expect(ctx, False, dict(generator=op.gen, options={a: repr(x), b: repr(y)}), build,
                   **{a: x, b: y})
    ctx.traces()
    ctx.sample(dict(generator=op.gen, menus={n: [str(v) for v in m[n][1]] for n in m}))


WRONG_TYPES = {False: {"float64": (np.float32, np.int64, np.complex128),
                       "float32": (np.float64, np.int32, np.complex64)},
               True: {"float64": (np.complex64, np.float64), "float32": (np.complex128, np.float32)}}


def arrays(ctx, p):
    op = OPS[p["op"]]
    n = op.minn
    grid = (n + 2, n + 4) if op.dim == 2 else (n + 1, n + 2, n + 3)
    deep = ctx.tier == "thorough"
    for dt in ("float64", "float32"):
        for fixed in (None, grid) if op.fixed else (None,):
            if not deep and dt == "float32" and fixed and "adv" in op.key:
                continue
            for th in (False, 2) if deep else (False,):
                k = Kernel(op, dt, th, fixed, grid=grid)
                C = generic_contents(op, grid, tag=3)

                def fresh():
                    return {a.name: np.array(C[a.name], dtype=a.dtype(dt)) for a in op.args}

                base = fresh()
                expect(ctx, True, dict(kernel=op.key, dtype=dt, fixed=fixed), k.call, **base,
                       **op.params)
                for a in op.args:
                    h = 1 if a.comps else 0
                    shape = a.shape(grid)
                    cases = [(f"precision {np.dtype(t).name}", shape, t)
                             for t in WRONG_TYPES[a.cplx][dt]]
                    if len(op.args) > 1 or fixed or op.gen_arrays:
                        for ax, d in itertools.product(range(op.dim), (1, -1)):
                            s = list(shape)
                            s[h + ax] += d
                            cases.append((f"extent {s[h:]} instead of {list(grid)}", tuple(s),
                                          a.dtype(dt)))
                        s = shape[:h] + shape[h:][::-1]
                        cases.append((f"extent {list(s[h:])} instead of {list(grid)}", s,
                                      a.dtype(dt)))
                    for what, s, t in cases:
                        args = fresh()
                        v = pattern(s, 5, nonzero=True)
                        args[a.name] = (v * 16).astype(t) if np.issubdtype(t, np.integer) \
                            else v.astype(t)
                        expect(ctx, False, dict(kernel=op.gen, options=str(op.genkw), dtype=dt,
                                                fixed_grid_size=fixed, num_threads=th,
                                                argument=a.name, given=what), k.call, **args,
                               **op.params)
                        ctx.traces()


def immersed(ctx, p):
    import sopht.numeric.immersed_boundary_ops as ib
    from sopht.numeric.immersed_boundary_ops.experimental.BrinkmannBoundaryForcing import (
        BrinkmannBoundaryForcing)

    dim = p["dim"]
    cls = getattr(ib, f"EulerianLagrangianGridCommunicator{dim}D")
    kern = (["cosine", "peskin"], ["Cosine", "gauss", "", None, "peskins", "PESKIN", 0])
    width = ([2], [0, 1, 3, 4, -2, None, "2", 1.5])
    comps = ([1, dim], [0, -1, 5 - dim, dim + 2, None, "1", 1.5])
    axes = dict(interp_kernel_type=kern, interp_kernel_width=width, n_components=comps)
    names = list(axes)
    for dt in ("float32", "float64"):
        base = dict(dx=0.25, eul_grid_coord_shift=0.125, num_lag_nodes=3, real_t=NP[dt])
        for flags in itertools.product((True, False), repeat=3):
            for vals in itertools.product(*(axes[n][0 if f else 1] for n, f in zip(names, flags))):
                kw = dict(base, **dict(zip(names, vals)))
                expect(ctx, all(flags), dict(cls=cls.__name__, options={
                    n: repr(kw[n]) for n in names}, dtype=dt), cls, **kw)
        dims = ([2, 3], [0, 1, 4, -2, "2", None, 2.5, (2,)])
        for ok, menu_ in ((True, dims[0]), (False, dims[1])):
            for d in menu_:
                for reset in (True, False):
                    expect(ctx, ok, dict(cls="VirtualBoundaryForcing", grid_dim=repr(d), dtype=dt),
                           ib.VirtualBoundaryForcing, virtual_boundary_stiffness_coeff=-1.0,
                           virtual_boundary_damping_coeff=-1.0, grid_dim=d, dx=0.25,
                           num_lag_nodes=3, real_t=NP[dt], enable_eul_grid_forcing_reset=reset)
                    expect(ctx, ok, dict(cls="BrinkmannBoundaryForcing", grid_dim=repr(d), dtype=dt),
                           BrinkmannBoundaryForcing, brinkmann_coeff=1.0, grid_dim=d, dx=0.25,
                           eul_grid_coord_shift=0.125, num_lag_nodes=3, interp_kernel_width=2,
                           real_t=NP[dt], enable_eul_grid_flux_reset=reset)
        for w in width[1]:
            expect(ctx, False, dict(cls="VirtualBoundaryForcing", interp_kernel_width=repr(w)),
                   ib.VirtualBoundaryForcing, virtual_boundary_stiffness_coeff=-1.0,
                   virtual_boundary_damping_coeff=-1.0, grid_dim=dim, dx=0.25, num_lag_nodes=3,
                   real_t=NP[dt], interp_kernel_width=w) if w is not None else None
            expect(ctx, False, dict(cls="BrinkmannBoundaryForcing", interp_kernel_width=repr(w)),
                   BrinkmannBoundaryForcing, brinkmann_coeff=1.0, grid_dim=dim, dx=0.25,
                   eul_grid_coord_shift=0.125, num_lag_nodes=3, interp_kernel_width=w,
                   real_t=NP[dt])
        # precision of what they hold
        f = ib.VirtualBoundaryForcing(
            virtual_boundary_stiffness_coeff=-1.0, virtual_boundary_damping_coeff=-1.0,
            grid_dim=dim, dx=0.25, num_lag_nodes=3, real_t=NP[dt])
        g = BrinkmannBoundaryForcing(brinkmann_coeff=1.0, grid_dim=dim, dx=0.25,
                                     eul_grid_coord_shift=0.125, num_lag_nodes=3,
                                     interp_kernel_width=2, real_t=NP[dt])
        for o, n in ((f, "lag_grid_forcing_field"), (f, "lag_grid_position_mismatch_field"),
                     (f, "lag_grid_velocity_mismatch_field"), (g, "lag_grid_penalisation_forcing")):
            a = getattr(o, n)
            ctx.transitions()
            if a.dtype != NP[dt]:
                ctx.fail(f"{type(o).__name__}.{n} has precision {a.dtype}, asked for {dt}",
                         dict(dtype=dt, dim=dim))
    ctx.traces()


def solvers(ctx, p):
    from checks import p01, p02

    m = sopht()
    dim = p["dim"]
    cls = getattr(m, f"UnboundedPoissonSolverPYFFTW{dim}D")
    sizes = dict(zip(("grid_size_z", "grid_size_y", "grid_size_x")[3 - dim:], (4, 5, 6)))
    for ok, reals in ((True, REALS[0]), (False, REALS[1])):
        for r in reals:
            expect(ctx, ok, dict(cls=cls.__name__, real_t=str(r)), cls, x_range=1.0, real_t=r,
                   num_threads=1, **sizes)
    for dt in ("float32", "float64"):
        shape = (4, 5, 6)[:dim]
        s = p01.make(dim, shape, 1.0, dt, 1)
        sol, rhs = np.zeros(shape, NP[dt]), pattern(shape, 1).astype(NP[dt])
        expect(ctx, True, dict(cls=cls.__name__, dtype=dt), s.solve, solution_field=sol,
               rhs_field=rhs)
        other = NP["float32" if dt == "float64" else "float64"]
        for name, kw in (("rhs", dict(solution_field=sol, rhs_field=rhs.astype(other))),
                         ("solution", dict(solution_field=sol.astype(other), rhs_field=rhs))):
            ctx.history = dict(cls=cls.__name__, dtype=dt, wrong=name)
            ctx.transitions()
            bad, res = raises(s.solve, **kw)
            del bad, res  # either converts or rejects: the next solve must be unaffected
            keep = sol.copy()
            s.solve(solution_field=sol, rhs_field=rhs)
            if not np.allclose(sol, keep, rtol=0, atol=1e3 * EPS[dt] * (1 + np.abs(keep).max())):
                ctx.fail(f"{cls.__name__}: a refused call changes later solves", ctx.history)
        f = p02.make(shape, 0.5, dt)
        f.solve(solution_field=sol, rhs_field=rhs)
        ctx.transitions()
    ctx.traces()


def precision(ctx, p):
    from sopht.utils.precision import get_real_t, get_test_tol
    from sopht.utils.pyst_kernel_config import get_pyst_dtype, get_pyst_kernel_config

    names = {"single": np.float32, "double": np.float64}
    for n, t in names.items():
        got = expect(ctx, True, dict(precision=n), get_real_t, n)
        if np.dtype(got) != np.dtype(t):
            ctx.fail(f"get_real_t({n!r}) is {got}, expected {t}", dict(precision=n))
        if np.dtype(get_real_t(precision=n)).itemsize * 8 != (32 if n == "single" else 64):
            ctx.fail(f"get_real_t({n!r}) has the wrong size", dict(precision=n))
    if np.dtype(get_real_t()) != np.float32:
        ctx.fail("the default precision is not single", {})
    tols = {n: expect(ctx, True, dict(tolerance=n), get_test_tol, n) for n in names}
    for n, t in names.items():
        if np.asarray(tols[n]).dtype != np.dtype(t):
            ctx.fail(f"get_test_tol({n!r}) has precision {np.asarray(tols[n]).dtype}", dict(precision=n))
        ratio = float(tols[n]) / float(np.finfo(t).eps)
        if not 1 <= ratio <= 1e5:
            ctx.fail(f"get_test_tol({n!r}) is {ratio} machine epsilons", dict(precision=n))
    ratios = [float(tols[n]) / float(np.finfo(t).eps) for n, t in names.items()]
    if abs(ratios[0] / ratios[1] - 1) > 1e-5:
        ctx.fail(f"tolerances do not scale with machine epsilon: {ratios}", {})
    if float(get_test_tol()) != float(tols["single"]):
        ctx.fail("the default tolerance is not the single precision one", {})
    for bad in ("Single", "DOUBLE", "half", "", "float32", "float64", None, 1, 32, " single",
                "singles", "quad", b"single", np.float32, True):
        expect(ctx, False, dict(precision=repr(bad)), get_real_t, bad)
        expect(ctx, False, dict(tolerance=repr(bad)), get_test_tol, bad)
    for t in REALS[0]:
        for spec in (t, np.dtype(t)):
            name = expect(ctx, True, dict(real_t=str(spec)), get_pyst_dtype, spec)
            if name != np.dtype(t).name:
                ctx.fail(f"get_pyst_dtype({spec}) is {name!r}", dict(real_t=str(spec)))
        for th in (False, True, 1, 2, 8):
            expect(ctx, True, dict(config=str(t), threads=str(th)), get_pyst_kernel_config, t, th)
    for bad in REALS[1]:
        expect(ctx, False, dict(real_t=repr(bad)), get_pyst_dtype, bad)
        for th in (False, 2):
            expect(ctx, False, dict(config=repr(bad)), get_pyst_kernel_config, bad, th)
    ctx.traces()


def io(ctx, p):
    from sopht.utils.IO import IO

    for ok, dims in ((True, [2, 3]), (False, [0, 1, 4, -2, None, "2", 2.5])):
        for d in dims:
            for t in (np.float32, np.float64):
                expect(ctx, ok, dict(cls="IO", dim=repr(d)), IO, dim=d, real_dtype=t)
    for dim in (2, 3):
        grid = (3, 4, 5)[:dim]
        good = [grid, (dim,) + grid]
        bad = [grid[::-1], grid[:-1], (dim + 1,) + grid, (1,) + grid, (dim, dim) + grid,
               tuple(n + 1 for n in grid), (dim,) + grid[::-1], grid + (1,), ()]
        for ok, shapes_ in ((True, good), (False, bad)):
            for s in shapes_:
                def add(s=s):
                    o = IO(dim=dim, real_dtype=np.float64)
                    o.define_eulerian_grid(origin=np.zeros(dim), dx=np.ones(dim),
                                           grid_size=np.array(grid))
                    o.add_as_eulerian_fields_for_io(field=np.zeros(s))

                expect(ctx, ok, dict(io="eulerian", dim=dim, shape=s), add)

        def no_grid():
            IO(dim=dim, real_dtype=np.float64).add_as_eulerian_fields_for_io(field=np.zeros(grid))

        expect(ctx, False, dict(io="no grid defined", dim=dim), no_grid)
        n = 6
        for ok, shapes_ in ((True, [(n,), (dim, n)]),
                            (False, [(n + 1,), (dim, n + 1), (dim + 1, n), (n, dim), (1, n),
                                     (dim, dim, n)])):
            for s in shapes_:
                def add(s=s):
                    o = IO(dim=dim, real_dtype=np.float64)
                    o.add_as_lagrangian_fields_for_io(lagrangian_grid=np.zeros((dim, n)),
                                                      lagrangian_grid_name="g", field=np.zeros(s))

                expect(ctx, ok, dict(io="lagrangian", dim=dim, shape=s), add)
        for s in ((n,), (dim + 1, n), (5 - dim, n), (dim, n, 1), (1, dim, n)):
            def grid_of(s=s):
                IO(dim=dim, real_dtype=np.float64).add_as_lagrangian_fields_for_io(
                    lagrangian_grid=np.zeros(s), lagrangian_grid_name="g")

            expect(ctx, False, dict(io="lagrangian grid", dim=dim, shape=s), grid_of)
    ctx.traces()
