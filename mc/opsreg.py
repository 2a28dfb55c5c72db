"""Registry of all public Eulerian grid operations: how to generate, call and model each of them."""
import functools
import itertools

import numpy as np

import ref
from arrays import NP, Placed, bits, pattern, rough


class Arg:
    """A field argument: comps = 0 for a scalar field, otherwise the number of components."""

    def __init__(self, name, comps, kind, cplx=False):
        self.name, self.comps, self.kind, self.cplx = name, comps, kind, cplx

    def shape(self, grid):
        return ((self.comps,) if self.comps else ()) + tuple(grid)

    def dtype(self, dtype):
        if not self.cplx:
            return NP[dtype]
        return np.complex64 if dtype == "float32" else np.complex128


class Op:
    def __init__(self, key, dim, gen, args, params, model, genkw=None, fixed=True, minn=3,
                 gen_arrays=None, group="", degree=1, inplace=()):
        self.key, self.dim, self.gen, self.args = key, dim, gen, args
        self.params = params  # name -> default value
        self.model, self.genkw, self.fixed, self.minn = model, genkw or {}, fixed, minn
        self.gen_arrays = gen_arrays
        self.group = group
        self.degree = degree
        self.inplace = inplace  # [(output arg, input arg)] pairs that may be the same array

    def arg(self, name):
        return next(a for a in self.args if a.name == name)


OPS = {}


def add(op):
    assert op.key not in OPS, op.key
    OPS[op.key] = op
    return op


def A(spec):
    """'out sum_field, in field_1:v' -> Args (':N' N components, ':c' complex)."""
    res = []
    for part in spec.split(","):
        kind, name = part.split()
        comps, cplx = 0, False
        if ":" in name:
            name, c = name.split(":")
            if c == "c":
                cplx = True
            else:
                comps = int(c)
        res.append(Arg(name, comps, kind, cplx))
    return res


def percomp(f, n):
    return np.stack([f(c) for c in range(n)])


def build_registry():
    for d in (2, 3):
        s = f"pyst_kernel_{d}d"
        # --- elementwise -------------------------------------------------------------------
        for ft, v in (("scalar", 0), ("vector", d)):
            kw = dict(field_type=ft)
            c = f":{v}" if v else ""
            t = ft[0]
            add(Op(f"sum{d}{t}", d, f"gen_elementwise_sum_{s}",
                   A(f"out sum_field{c}, in field_1{c}, in field_2{c}"), {},
                   lambda a, p, g: {"sum_field": a["field_1"] + a["field_2"]}, kw, minn=1,
                   group="elementwise",
                   inplace=[("sum_field", "field_1"), ("sum_field", "field_2")]))
            add(Op(f"saxpby{d}{t}", d, f"gen_elementwise_saxpby_{s}",
                   A(f"out sum_field{c}, in field_1{c}, in field_2{c}"),
                   dict(field_1_prefac=0.75, field_2_prefac=-1.5),
                   lambda a, p, g: {"sum_field": p["field_1_prefac"] * a["field_1"]
                                    + p["field_2_prefac"] * a["field_2"]}, kw, minn=1,
                   group="elementwise",
                   inplace=[("sum_field", "field_1"), ("sum_field", "field_2")]))
            if v:
                vals = [0.5, -1.25, 3.0][:d]
                add(Op(f"set{d}v", d, f"gen_set_fixed_val_{s}", A(f"out vector_field:{d}"),
                       dict(fixed_vals=vals),
                       lambda a, p, g: {"vector_field": percomp(
                           lambda c: np.full(a["vector_field"].shape[1:], float(p["fixed_vals"][c])),
                           len(a["vector_field"]))}, kw, minn=1, group="elementwise"))
                add(Op(f"add{d}v", d, f"gen_add_fixed_val_{s}",
                       A(f"out sum_field:{d}, in vector_field:{d}"), dict(fixed_vals=vals),
                       lambda a, p, g: {"sum_field": percomp(
                           lambda c: a["vector_field"][c] + p["fixed_vals"][c],
                           len(a["vector_field"]))}, kw, minn=1, group="elementwise",
                       inplace=[("sum_field", "vector_field")]))
            else:
                add(Op(f"set{d}s", d, f"gen_set_fixed_val_{s}", A("out field"),
                       dict(fixed_val=1.25),
                       lambda a, p, g: {"field": np.full(a["field"].shape, float(p["fixed_val"]))},
                       kw, minn=1, group="elementwise"))
                add(Op(f"add{d}s", d, f"gen_add_fixed_val_{s}", A("out sum_field, in field"),
                       dict(fixed_val=1.25),
                       lambda a, p, g: {"sum_field": a["field"] + p["fixed_val"]}, kw, minn=1,
                       group="elementwise", inplace=[("sum_field", "field")]))
            for w in (1, 2, 3):
                kww = dict(kw, width=w)
                if v:
                    add(Op(f"setb{d}v_w{w}", d, f"gen_set_fixed_val_at_boundaries_{s}",
                           A(f"out vector_field:{d}"), dict(fixed_vals=vals),
                           lambda a, p, g: {"vector_field": percomp(
                               lambda c: np.where(
                                   ref.ring_zone(a["vector_field"].shape[1:], g["width"]),
                                   p["fixed_vals"][c], a["vector_field"][c]),
                               len(a["vector_field"]))}, kww, fixed=False, minn=2 * w,
                           group="boundary"))
                else:
                    add(Op(f"setb{d}s_w{w}", d, f"gen_set_fixed_val_at_boundaries_{s}",
                           A("out field"), dict(fixed_val=1.25),
                           lambda a, p, g: {"field": np.where(
                               ref.ring_zone(a["field"].shape, g["width"]), p["fixed_val"],
                               a["field"])}, kww, fixed=False, minn=2 * w, group="boundary"))
        add(Op(f"copy{d}", d, f"gen_elementwise_copy_{s}", A("out field, in rhs_field"), {},
               lambda a, p, g: {"field": a["rhs_field"] + 0.0}, minn=1, group="elementwise"))
        add(Op(f"cprod{d}", d, f"gen_elementwise_complex_product_{s}",
               A("out product_field:c, in field_1:c, in field_2:c"), {},
               lambda a, p, g: {"product_field": a["field_1"] * a["field_2"]}, fixed=False, minn=1,
               group="elementwise", degree=2))
        # --- boundary penalisation -----------------------------------------------------------
        for ft in ("scalar", "vector") if d == 3 else ("scalar",):
            for w in (0, 1, 2, 3):
                kw = dict(width=w, dx=0.25)
                if d == 3:
                    kw["field_type"] = ft
                v = ft == "vector"
                add(Op(f"pen{d}{ft[0]}_w{w}", d, f"gen_penalise_field_boundary_{s}",
                       A(f"inout vector_field:{d}") if v else A("inout field"), {},
                       (lambda a, p, g: {"vector_field": percomp(
                           lambda c: ref.penalise_boundary(a["vector_field"][c], g["width"],
                                                           g["dx"], g["_grids"]), 3)}) if v else
                       (lambda a, p, g: {"field": ref.penalise_boundary(
                           a["field"], g["width"], g["dx"], g["_grids"])}),
                       kw, minn=max(2 * w, 2), gen_arrays=coordinate_grids, group="penalise"))
        # --- Brinkmann, characteristic function ----------------------------------------------
        def blend(f, lam, chi, tgt):
            return (f + lam * chi * tgt) / (1 + lam * chi)

        for ft in ("scalar", "vector"):
            v = ft == "vector"
            c = f":{d}" if v else ""
            pre = "vector_" if v else ""
            add(Op(f"brink{d}{ft[0]}", d, f"gen_brinkmann_penalise_{s}",
                   A(f"out penalised_{pre}field{c}, in char_field, in penalty_{pre}field{c}, "
                     f"in {pre}field{c}"), dict(penalty_factor=2.0),
                   functools.partial(lambda pre, a, p, g: {f"penalised_{pre}field": blend(
                       a[f"{pre}field"], p["penalty_factor"], a["char_field"],
                       a[f"penalty_{pre}field"])}, pre),
                   dict(field_type=ft), minn=1, group="brinkmann"))
            if d == 2:
                add(Op(f"brinkfix2{ft[0]}", d, f"gen_brinkmann_penalise_vs_fixed_val_{s}",
                       A(f"out penalised_{pre}field{c}, in char_field, in {pre}field{c}"),
                       dict(penalty_factor=2.0, penalty_val=[0.5, -1.25] if v else 0.5),
                       functools.partial(lambda pre, a, p, g: {f"penalised_{pre}field": blend(
                           a[f"{pre}field"], p["penalty_factor"], a["char_field"],
                           np.reshape(p["penalty_val"],
                                      (-1, 1, 1) if pre else ()))}, pre),
                       dict(field_type=ft), minn=1, group="brinkmann"))
        for bw in (0.5, 1.75):
            add(Op(f"char{d}_b{bw}", d, f"gen_char_func_from_level_set_via_sine_heaviside_{s}",
                   A("out char_func_field, in level_set_field"), {},
                   lambda a, p, g: {"char_func_field": ref.heaviside(a["level_set_field"],
                                                                     g["blend_width"])},
                   dict(blend_width=bw), minn=1, group="charfunc"))
        # --- differential operators ------------------------------------------------------------
        for reset in (True, False):
            r = "r" if reset else "k"
            kw = dict(reset_ghost_zone=reset)
            ring = 0.0 if reset else None
            kws = dict(kw, field_type="scalar") if d == 3 else kw
            add(Op(f"diff{d}s_{r}", d, f"gen_diffusion_flux_{s}",
                   A("out diffusion_flux, in field"), dict(prefactor=0.75),
                   functools.partial(lambda ring, a, p, g: {"diffusion_flux": ref.put(
                       a["diffusion_flux"], p["prefactor"] * ref.laplacian(a["field"]),
                       ring=ring)}, ring), kws, group="diffop"))
            if d == 3:
                add(Op(f"diff3v_{r}", d, f"gen_diffusion_flux_{s}",
                       A("out vector_field_diffusion_flux:3, in vector_field:3"),
                       dict(prefactor=0.75),
                       functools.partial(lambda ring, a, p, g: {
                           "vector_field_diffusion_flux": percomp(lambda c: ref.put(
                               a["vector_field_diffusion_flux"][c],
                               p["prefactor"] * ref.laplacian(a["vector_field"][c]), ring=ring),
                               3)}, ring), dict(kw, field_type="vector"), group="diffop"))
                add(Op(f"curl3_{r}", d, f"gen_curl_{s}", A("out curl:3, in field:3"),
                       dict(prefactor=0.75),
                       functools.partial(lambda ring, a, p, g: {"curl": percomp(lambda c: ref.put(
                           a["curl"][c], p["prefactor"] * ref.curl3(a["field"])[c], ring=ring),
                           3)}, ring), kw, group="diffop"))
                add(Op(f"div3_{r}", d, f"gen_divergence_{s}", A("out divergence, in field:3"),
                       dict(inv_dx=1.5),
                       functools.partial(lambda ring, a, p, g: {"divergence": ref.put(
                           a["divergence"], 0.5 * p["inv_dx"] * (
                               ref.dc(a["field"][0], -1) + ref.dc(a["field"][1], -2)
                               + ref.dc(a["field"][2], -3)), ring=ring)}, ring), kw,
                       group="diffop"))
            else:
                add(Op(f"ocurl2_{r}", d, f"gen_outplane_field_curl_{s}",
                       A("out curl:2, in field"), dict(prefactor=0.75),
                       functools.partial(lambda ring, a, p, g: {"curl": np.stack([
                           ref.put(a["curl"][0], p["prefactor"] * ref.dc(a["field"], -2),
                                   ring=ring),
                           ref.put(a["curl"][1], -p["prefactor"] * ref.dc(a["field"], -1),
                                   ring=ring)])}, ring), kw, group="diffop"))
        if d == 2:
            add(Op("icurl2", d, f"gen_inplane_field_curl_{s}", A("out curl, in field:2"),
                   dict(prefactor=0.75),
                   lambda a, p, g: {"curl": ref.put(a["curl"],
                                                    p["prefactor"] * ref.curl2(a["field"]))},
                   group="diffop"))
        else:
            add(Op("stretch3", d, f"gen_vorticity_stretching_flux_{s}",
                   A("out vorticity_stretching_flux_field:3, in vorticity_field:3, "
                     "in velocity_field:3"), dict(prefactor=0.75),
                   lambda a, p, g: {"vorticity_stretching_flux_field": percomp(
                       lambda c: ref.put(a["vorticity_stretching_flux_field"][c],
                                         p["prefactor"] * ref.stretching(
                                             a["vorticity_field"], a["velocity_field"])[c],
                                         ring=0.0), 3)}, group="diffop", degree=2))
            add(Op("cross3", d, f"gen_elementwise_cross_product_{s}",
                   A("out result_field:3, in field_1:3, in field_2:3"), {},
                   lambda a, p, g: {"result_field": np.cross(a["field_1"], a["field_2"], axis=0)},
                   minn=1, group="elementwise", degree=2))
        # --- advection ---------------------------------------------------------------------------
        add(Op(f"adv{d}", d, f"gen_advection_flux_conservative_eno3_{s}",
               A(f"inout advection_flux, in field, in velocity:{d}"), dict(inv_dx=1.5),
               lambda a, p, g: {"advection_flux": ref.put(
                   a["advection_flux"], a["advection_flux"][ref.core(a["field"].ndim, 2)]
                   + p["inv_dx"] * ref.eno3_divergence(a["field"], a["velocity"]), g=2)},
               minn=5, group="advflux", degree=2))

        def euler_adv(f, u, k):
            return ref.put(f, f[ref.core(f.ndim, 2)] - k * ref.eno3_divergence(f, u), g=2)

        def euler_diff(f, k):
            return ref.put(f, f[ref.core(f.ndim)] + k * ref.laplacian(f))

        g_adv = f"gen_advection_timestep_euler_forward_conservative_eno3_{s}"
        g_dif = f"gen_diffusion_timestep_euler_forward_{s}"
        skw = dict(field_type="scalar") if d == 3 else {}
        add(Op(f"advstep{d}s", d, g_adv,
               A(f"inout field, scratch advection_flux, in velocity:{d}"), dict(dt_by_dx=0.125),
               lambda a, p, g: {"field": euler_adv(a["field"], a["velocity"], p["dt_by_dx"])},
               skw, minn=5, group="timestep", degree=2))
        add(Op(f"diffstep{d}s", d, g_dif, A("inout field, scratch diffusion_flux"),
               dict(nu_dt_by_dx2=0.125),
               lambda a, p, g: {"field": euler_diff(a["field"], p["nu_dt_by_dx2"])}, skw,
               group="timestep"))
        if d == 3:
            vkw = dict(field_type="vector")
            add(Op("advstep3v", d, g_adv,
                   A("inout vector_field:3, scratch advection_flux, in velocity:3"),
                   dict(dt_by_dx=0.125),
                   lambda a, p, g: {"vector_field": percomp(
                       lambda c: euler_adv(a["vector_field"][c], a["velocity"], p["dt_by_dx"]), 3)},
                   vkw, minn=5, group="timestep", degree=2))
            add(Op("diffstep3v", d, g_dif, A("inout vector_field:3, scratch diffusion_flux"),
                   dict(nu_dt_by_dx2=0.125),
                   lambda a, p, g: {"vector_field": percomp(
                       lambda c: euler_diff(a["vector_field"][c], p["nu_dt_by_dx2"]), 3)}, vkw,
                   group="timestep"))
            stargs = ("inout vorticity_field:3, in velocity_field:3, "
                      "scratch vorticity_stretching_flux_field:3")
            add(Op("strstep3", d, f"gen_vorticity_stretching_timestep_euler_forward_{s}",
                   A(stargs), dict(dt_by_2_dx=0.125),
                   lambda a, p, g: {"vorticity_field": euler_stretch(
                       a["vorticity_field"], a["velocity_field"], p["dt_by_2_dx"])},
                   group="timestep", degree=2))
            add(Op("strrk3", d, f"gen_vorticity_stretching_timestep_ssprk3_{s}", A(stargs),
                   dict(dt_by_2_dx=0.125),
                   lambda a, p, g: {"vorticity_field": ssprk3(
                       a["vorticity_field"], a["velocity_field"], p["dt_by_2_dx"])},
                   gen_arrays=midstep_buffer, group="timestep", degree=4))
        # --- vorticity updates ---------------------------------------------------------------------
        u = ":2" if d == 2 else ":3"
        w = "" if d == 2 else ":3"

        def vort_update(w0, du, k, d=d):
            if d == 2:
                return ref.put(w0, w0[ref.core(2)] + k * ref.curl2(du))
            cu = ref.curl3(du)
            return percomp(lambda c: ref.put(w0[c], w0[c][ref.core(3)] + k * cu[c]), 3)

        add(Op(f"upd{d}f", d, f"gen_update_vorticity_from_velocity_forcing_{s}",
               A(f"inout vorticity_field{w}, in velocity_forcing_field{u}"), dict(prefactor=0.75),
               functools.partial(lambda vu, a, p, g: {"vorticity_field": vu(
                   a["vorticity_field"], a["velocity_forcing_field"], p["prefactor"])},
                   vort_update), group="vortupd"))
        add(Op(f"upd{d}p", d, f"gen_update_vorticity_from_penalised_velocity_{s}",
               A(f"inout vorticity_field{w}, in penalised_velocity_field{u}, "
                 f"in velocity_field{u}"), dict(prefactor=0.75),
               functools.partial(lambda vu, a, p, g: {"vorticity_field": vu(
                   a["vorticity_field"], a["penalised_velocity_field"] - a["velocity_field"],
                   p["prefactor"])}, vort_update), group="vortupd"))
    # --- Laplacian filter ------------------------------------------------------------------------
    for ftype in ("multiplicative", "convolution"):
        for order in (0, 1, 2, 3):
            for ft in ("scalar", "vector"):
                v = ft == "vector"
                add(Op(f"filt_{ftype[0]}{order}{ft[0]}", 3, "gen_laplacian_filter_kernel_3d",
                       A("inout vector_field:3") if v else A("inout scalar_field"), {},
                       (lambda a, p, g: {"vector_field": percomp(
                           lambda c: ref.laplacian_filter(a["vector_field"][c],
                                                          g["filter_order"], g["filter_type"]),
                           3)}) if v else
                       (lambda a, p, g: {"scalar_field": ref.laplacian_filter(
                           a["scalar_field"], g["filter_order"], g["filter_type"])}),
                       dict(filter_order=order, filter_type=ftype, field_type=ft),
                       gen_arrays=filter_buffers, group="filter"))


def euler_stretch(w, u, k):
    s = ref.stretching(w, u)
    return percomp(lambda c: ref.put(w[c], w[c][ref.core(3)] + k * s[c]), 3)


def ssprk3(w, u, k):
    w1 = euler_stretch(w, u, k)
    w2 = 0.75 * w + 0.25 * euler_stretch(w1, u, k)
    return w / 3.0 + 2.0 / 3.0 * euler_stretch(w2, u, k)


def ssprk3_half_last_step(w, u, k):
    """What the code does (known finding E03): the third stage advances by half a step only."""
    w1 = euler_stretch(w, u, k)
    w2 = 0.75 * w + 0.25 * euler_stretch(w1, u, k)
    return w / 3.0 + 2.0 / 3.0 * euler_stretch(w2, u, 0.5 * k)


def coordinate_grids(op, grid, dtype, genkw, origin=None):
    dx = genkw["dx"]
    origin = origin if origin is not None else [0.125, -1.5, 3.0][: op.dim]
    axes = [origin[d] + dx * np.arange(grid[op.dim - 1 - d]) for d in range(op.dim)]  # x, y(, z)
    grids = np.meshgrid(*reversed(axes), indexing="ij")[::-1]
    names = ["x_grid_field", "y_grid_field", "z_grid_field"][: op.dim]
    return {n: np.ascontiguousarray(g).astype(dtype) for n, g in zip(names, grids)}


def midstep_buffer(op, grid, dtype, genkw):
    return {"midstep_buffer_vector_field": pattern((3,) + tuple(grid), 77).astype(dtype)}


def filter_buffers(op, grid, dtype, genkw):
    return {"filter_flux_buffer": pattern(grid, 78).astype(dtype),
            "field_buffer": pattern(grid, 79).astype(dtype)}


build_registry()


def sopht():
    import sopht.numeric.eulerian_grid_ops as m

    return m


class Kernel:
    """A generated kernel with the configuration it was generated for."""

    def __init__(self, op, dtype="float64", threads=False, fixed=None, grid=None, genkw=None,
                 extra=None):
        self.op, self.dtype, self.threads, self.fixed = op, dtype, threads, fixed
        kw = dict(op.genkw)
        if genkw:
            kw.update(genkw)
        self.genkw = dict(kw)
        kw["real_t"] = NP[dtype]
        kw["num_threads"] = threads
        if fixed is not None:
            kw["fixed_grid_size"] = tuple(fixed)
        self.extra = {}
        if op.gen_arrays:
            assert grid is not None
            self.extra = extra if extra is not None else op.gen_arrays(op, grid, NP[dtype],
                                                                       self.genkw)
            kw.update(self.extra)
            if "x_grid_field" in self.extra:
                self.genkw["_grids"] = [self.extra[n] for n in
                                        ("x_grid_field", "y_grid_field", "z_grid_field")
                                        if n in self.extra]
        if dtype == "float32":  # in single precision, documented defaults are left out
            for n, v in (("num_threads", False), ("field_type", "scalar"),
                         ("reset_ghost_zone", True)):
                if n in kw and kw[n] is v or kw.get(n) == "scalar" == v:
                    del kw[n]
        self.call = getattr(sopht(), op.gen)(**kw)

    def model(self, arrays, params):
        return self.op.model(arrays, params, self.genkw)


def place(op, grid, dtype, contents, layout="contig"):
    """Place argument contents; returns name -> Placed."""
    return {a.name: Placed(contents[a.name], a.dtype(dtype), layout,
                           skip_dims=1 if a.comps else 0) for a in op.args}


def generic_contents(op, grid, tag=0, den=16, full=False):
    """Fixed contents of all arguments; full: values using every bit of the precision."""
    res = {}
    make = rough if full else functools.partial(pattern, den=den)
    for i, a in enumerate(op.args):
        shp = a.shape(grid)
        c = make(shp, tag * 31 + i)
        if a.cplx:
            c = c + 1j * make(shp, tag * 31 + i + 17)
        if a.name in ("char_field",):
            c = np.abs(c)
        res[a.name] = c
    return res


def as_double(placed):
    """Values as the code sees them (already rounded to the working precision)."""
    return {n: p.view.astype(complex if np.iscomplexobj(p.view) else float) for n, p in
            placed.items()}


def magnitude(op, vals, params):
    """A bound on intermediate values, used to scale rounding tolerances."""
    m = 1e-300
    prod = 1.0
    pm = 1.0
    for p in params.values():
        pm = max(pm, float(np.max(np.abs(p))))
    for a in op.args:
        if a.kind != "scratch":
            m = max(m, float(np.max(np.abs(vals[a.name]))) if vals[a.name].size else 0.0)
    stages = 3 if op.group == "timestep" else 1
    return max(m, pm * 8 * max(m, 1e-300) ** 1, pm ** stages * 8 * m ** op.degree
               if op.degree > 1 else 0.0)


OPS["strrk3"].known = (
    "ssprk3-last-stage",
    lambda a, p, g: {"vorticity_field": ssprk3_half_last_step(
        a["vorticity_field"], a["velocity_field"], p["dt_by_2_dx"])},
    "the third stage of gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d advances by half "
    "a step, so the step is not the three-stage SSP Runge-Kutta combination of Euler steps",
)
