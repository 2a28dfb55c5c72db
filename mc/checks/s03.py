"""S03 operations write only their outputs, inside the views; instances share no hidden state."""
import itertools

import numpy as np

import mcrt
from arrays import EPS, NP, Placed, bits, pattern, rough, shapes
from opsreg import OPS, Kernel, generic_contents, place

BOUNDS = {
    "quick": "every kernel generator and option: every load and store of the generated code, all "
             "shapes minn..minn+2 per direction, contiguous / window / strided / Fortran views, one "
             "thread and a team of 3, free and fixed sizes; Poisson solvers: all shapes 2..5 squared, "
             "2..4 cubed in windows; all interleavings (create and 2-3 calls each) of two instances "
             "for 16 kinds of objects x 3 pairs of configurations",
    "thorough": "as quick with shapes up to minn+4 / minn+3, single precision too, 3 calls for every kind",
}
EXPLANATION = (
    "The generated kernels are compiled with an access monitor, so every address they read or write "
    "is known; it must lie in the view it is allowed in. Two-instance systems are explored over all "
    "interleavings of their actions and compared with each instance running alone.")
ASSUMPTIONS = ["kernels compiled with access instrumentation at -O1 instead of -Ofast",
               "numba is not installed here: its decorators are stubbed",
               "inverse FFT plans may destroy their spectrum argument (documented by FFTW)"]

# generator arguments the kernels may write (documented work buffers); others are inputs
SCRATCH = {"filter_flux_buffer", "field_buffer", "midstep_buffer_vector_field"}


def prepare(scratch):
    return mcrt.prepare(scratch)


def units(tier):
    us = []
    for key, op in OPS.items():
        heavy = 4 if "adv" in key else (2 if op.dim == 3 else 1)
        for dt in ("float64", "float32") if tier == "thorough" else (
                ("float64",) if len(key) % 2 else ("float32",)):
            us.append(dict(name=f"accesses {key} {dt}", cost=heavy,
                           params=dict(kind="access", op=key, dtype=dt)))
    for dim in (2, 3):
        for dt in ("float64", "float32"):
            for s in ("unbounded", "fastdiag", "fft"):
                us.append(dict(name=f"{s} {dim}d {dt} views", cost=4,
                               params=dict(kind="solver", solver=s, dim=dim, dtype=dt)))
    for name in SUBJECTS:
        for pair in range(3):
            us.append(dict(name=f"interleavings {name} pair {pair}", cost=8,
                           params=dict(kind="inter", subject=name, pair=pair)))
    return us


def run_unit(ctx, p):
    {"access": accesses, "solver": solver_views, "inter": interleavings}[p["kind"]](ctx, p)


# --- accesses ------------------------------------------------------------------------------------
def view_mask(placed):
    m = np.zeros(placed.big.shape, bool)
    if placed.index is None:
        m[32: placed.big.size - 32] = True
    else:
        m[placed.index] = True
    return m


def watch(ctx, k, grid, layout, team, tag):
    op = k.op
    P = place(op, grid, k.dtype, generic_contents(op, grid, tag=tag, full=tag % 2 == 1), layout)
    what = dict(operation=op.gen, options={a: b for a, b in k.genkw.items() if a != "_grids"},
                dtype=k.dtype, num_threads=k.threads, fixed_grid_size=k.fixed, grid=grid,
                layout=layout, team=team)
    ctx.history = what
    alloc = {n: p.big for n, p in P.items()}
    alloc.update(k.extra)
    mon = mcrt.Monitor(alloc)
    before = {a.name: bits(P[a.name].big) for a in op.args if a.kind == "in"}
    before.update({n: bits(a) for n, a in k.extra.items() if n not in SCRATCH})
    mon.start(team, team)
    k.call(**{n: p.view for n, p in P.items()}, **op.params)
    st = mon.stats()
    ctx.transitions()
    ctx.traces()
    ctx.count("accesses", st["accesses"])
    ctx.state((op.key, k.dtype, str(k.threads), k.fixed, grid, layout, team))
    for a in op.args:
        p = P[a.name]
        inside = view_mask(p)
        w = mon.shadow[a.name].writes.any(axis=-1)
        r = mon.shadow[a.name].reads.any(axis=-1)
        for name, hit in (("written", w & ~inside), ("read", r & ~inside)):
            if hit.any():
                i = np.argwhere(hit)[0].tolist()
                ctx.fail(f"{op.gen} ({layout}): memory outside the view {a.name} is {name} (element "
                         f"{i} of the enclosing array, view at {p.index})", what)
        if a.kind == "in" and w.any():
            ctx.fail(f"{op.gen}: writes to its input {a.name} at "
                     f"{np.argwhere(w)[0].tolist()}", what)
        if not p.canaries_intact():
            ctx.fail(f"{op.gen}: memory outside the view {a.name} was changed", what)
    for n in k.extra:
        if n not in SCRATCH and mon.shadow[n].writes.any():
            ctx.fail(f"{op.gen}: writes to the array {n} it was generated for", what)
    for n, b in before.items():
        now = bits(P[n].big) if n in P else bits(k.extra[n])
        if now != b:
            ctx.fail(f"{op.gen}: input {n} was modified", what)


def accesses(ctx, p):
    op, dt = OPS[p["op"]], p["dtype"]
    deep = ctx.tier == "thorough"
    n, d = op.minn, op.dim
    up = (4 if d == 2 else 3) if deep else 2
    box = shapes(d, n, n + up)
    per_grid = op.gen_arrays is not None
    if per_grid and not deep:
        box = [box[0], box[-1], box[len(box) // 3], box[2 * len(box) // 3 - 1]]
    vec = any(a.comps for a in op.args)
    layouts = ["contig", "window", "strided"] + ([] if vec else ["fortran"])
    serial = None if per_grid else Kernel(op, dt, False)
    threaded = None if per_grid else Kernel(op, dt, True)
    for i, g in enumerate(box):
        ks = serial or Kernel(op, dt, False, None, grid=g)
        for layout in layouts if deep or d == 2 else [layouts[i % len(layouts)], "window"]:
            watch(ctx, ks, g, layout, 1, 3 + i)
        if per_grid and i % 2:
            continue
        kt = threaded or Kernel(op, dt, True, None, grid=g)
        watch(ctx, kt, g, layouts[(i + 1) % len(layouts)], 3, 3 + i)
    if op.fixed:
        g = (n + 1, n + 3) if d == 2 else (n + 1, n, n + 2)
        kf = Kernel(op, dt, 8, g, grid=g)
        watch(ctx, kf, g, "contig", 0, 5)
    # many steps, so that every work buffer and branch is exercised from different contents
    g = (n + 3, n + 2) if d == 2 else (n + 1, n + 2, n)
    k = serial or Kernel(op, dt, False, None, grid=g)
    for tag in range(8):
        watch(ctx, k, g, "window", 1, 100 + tag)
    ctx.sample(ctx.history)


# --- solvers ---------------------------------------------------------------------------------------
def solver_views(ctx, p):
    from checks import p01, p02, p03

    dim, dt, which = p["dim"], p["dtype"], p["solver"]
    T = NP[dt]
    hi = {2: 5, 3: 4}[dim] + (2 if ctx.tier == "thorough" else 0)
    for si, shape in enumerate(itertools.product(range(2, hi + 1), repeat=dim)):
        ctx.history = dict(solver=which, shape=shape, dtype=dt)
        if which == "unbounded":
            s = p01.make(dim, shape, 1.5, dt, 1 + si % 2)
            layouts = ("contig", "window", "strided", "fortran")
        elif which == "fastdiag":
            s = p02.make(shape, 0.5, dt)
            layouts = ("contig",)
        else:
            s = p03.construct(shape, dt, 1 + si % 2)
            layouts = ("contig",)
        results = []
        for layout in layouts:
            for tag in (1, 2):
                r = Placed((pattern if tag == 1 else rough)(shape, tag), T, layout)
                o = Placed(pattern(shape, 7), T, layout)
                keep = bits(r.big)
                ctx.history = dict(solver=which, shape=shape, dtype=dt, layout=layout)
                if which == "fft":
                    f = Placed(pattern(p03.cshape(shape), 3) + 0j,
                               np.complex64 if dt == "float32" else np.complex128, layout)
                    s.fft_ifft_plan_kernel(fourier_field=f.view, inv_fourier_field=o.view,
                                           field=r.view)
                    p03.scipy_helper(dim)(fourier_field=f.view, inv_fourier_field=o.view,
                                          field=r.view)
                    if not f.canaries_intact():
                        ctx.fail(f"{which}: memory outside the spectrum was written", ctx.history)
                else:
                    s.solve(solution_field=o.view, rhs_field=r.view)
                ctx.transitions()
                ctx.traces()
                ctx.state((which, shape, dt, layout, tag))
                if bits(r.big) != keep:
                    ctx.fail(f"{which} {dim}D ({layout}) on {shape}: its input array changed",
                             ctx.history)
                if not o.canaries_intact():
                    ctx.fail(f"{which} {dim}D ({layout}) on {shape}: memory outside the solution "
                             "was written", ctx.history)
                results.append((tag, o.view.astype(float)))
        if dim == 3 and which != "fft":
            for layout in layouts:
                r = Placed(rough((3,) + shape, 1), T, layout, skip_dims=1)
                o = Placed(pattern((3,) + shape, 7), T, layout, skip_dims=1)
                keep = bits(r.big)
                s.vector_field_solve(solution_vector_field=o.view, rhs_vector_field=r.view)
                ctx.transitions()
                if bits(r.big) != keep or not o.canaries_intact():
                    ctx.fail(f"{which} vector solve ({layout}) on {shape}: input or memory outside "
                             "the solution changed", ctx.history)
        for tag, v in results:
            first = next(x for t, x in results if t == tag)
            if not np.abs(v - first).max() <= 1e4 * EPS[dt] * (1 + np.abs(first).max()):
                ctx.fail(f"{which} on {shape}: the result depends on the layout of the arrays",
                         ctx.history)


# --- two instances ---------------------------------------------------------------------------------
class Subject:
    """One instance with arrays of its own: create(), then calls numbered 0, 1, 2..."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.outs = []


class KernelSubject(Subject):
    def create(self):
        key, dt, th, grid, genkw = self.cfg
        self.op = OPS[key]
        self.k = Kernel(self.op, dt, th, None, grid=grid, genkw=genkw)
        self.P = place(self.op, grid, dt, generic_contents(self.op, grid, tag=5))

    def call(self, i):
        if i:  # new input data in the same arrays
            C = generic_contents(self.op, self.cfg[3], tag=5 + i)
            for a in self.op.args:
                if a.kind == "in":
                    self.P[a.name].view[...] = C[a.name]
        self.k.call(**{n: x.view for n, x in self.P.items()}, **self.op.params)
        return [self.P[a.name].view.copy() for a in self.op.args
                if a.kind in ("out", "inout")], [x for x in self.P.values()]


class PoissonSubject(Subject):
    def create(self):
        from checks import p01, p02

        kind, shape, dt, length, th = self.cfg
        if kind == "unbounded":
            self.s = p01.make(len(shape), shape, length, dt, th)
        else:
            self.s = p02.make(shape, length, dt)
        self.sol = Placed(pattern(shape, 9), NP[dt])
        self.vec = Placed(pattern((3,) + shape, 10), NP[dt])

    def call(self, i):
        kind, shape, dt, length, th = self.cfg
        if i % 2 and len(shape) == 3:
            r = Placed(pattern((3,) + shape, 20 + i), NP[dt])
            self.s.vector_field_solve(solution_vector_field=self.vec.view, rhs_vector_field=r.view)
            return [self.vec.view.copy()], [self.vec, r]
        r = Placed(pattern(shape, 20 + i), NP[dt])
        self.s.solve(solution_field=self.sol.view, rhs_field=r.view)
        return [self.sol.view.copy()], [self.sol, r]


class FFTSubject(Subject):
    def create(self):
        from checks import p03

        shape, dt, th = self.cfg
        self.s = p03.construct(shape, dt, th)
        self.X, self.F, self.Y = (p03.empty(shape, dt), p03.empty(p03.cshape(shape), dt, True),
                                  p03.empty(shape, dt))

    def call(self, i):
        shape, dt, th = self.cfg
        if i % 2:
            a, b = self.s.field_pyfftw_buffer, self.s.fourier_field_pyfftw_buffer
        else:
            a, b = self.X, self.F
        a[...] = pattern(shape, 30 + i)
        self.s.fft_plan(input_array=a, output_array=b)
        out = [b.copy()]
        if i == 2:
            self.s.ifft_plan(input_array=b, output_array=self.Y)
            out.append(self.Y.copy())
        return out, []


class CommunicatorSubject(Subject):
    def create(self):
        from checks.l01 import communicator

        dim, dx, shift, n, dt, kern, nc = self.cfg
        self.com = communicator(dim, dx, shift, n, dt, kern, nc)
        T = NP[dt]
        self.idx = np.zeros((dim, n), int)
        self.sup = np.zeros((dim,) + (4,) * dim + (n,), T)
        self.w = np.zeros((4,) * dim + (n,), T)

    def call(self, i):
        dim, dx, shift, n, dt, kern, nc = self.cfg
        T = NP[dt]
        grid = (8, 7, 9)[:dim]
        g = grid if nc == 1 else (nc,) + grid
        pos = np.array([[(2 + (k + a + i) % 2 + 0.125 * ((3 * k + a + i) % 8)) * dx + shift
                         for k in range(n)] for a in range(dim)], dtype=T)
        self.com.local_eulerian_grid_support_of_lagrangian_grid_kernel(
            local_eul_grid_support_of_lag_grid=self.sup,
            nearest_eul_grid_index_to_lag_grid=self.idx, lag_positions=pos)
        self.com.interpolation_weights_kernel(interp_weights=self.w,
                                              local_eul_grid_support_of_lag_grid=self.sup)
        E = Placed(pattern(g, 4 + i), T)
        A = Placed(pattern(g, 5 + i), T)
        lag = np.zeros((n,) if nc == 1 else (nc, n), T)
        kw = dict(interp_weights=self.w, nearest_eul_grid_index_to_lag_grid=self.idx)
        self.com.eulerian_to_lagrangian_grid_interpolation_kernel(
            lag_grid_field=lag, eul_grid_field=E.view, **kw)
        self.com.lagrangian_to_eulerian_grid_interpolation_kernel(
            eul_grid_field=A.view, lag_grid_field=lag, **kw)
        return [self.idx.copy(), self.sup.copy(), self.w.copy(), lag, A.view.copy()], [E, A]


class ForcingSubject(Subject):
    def create(self):
        kind, dim, dt, reset, spec = self.cfg
        if kind == "virtual":
            from checks.l03 import World
        else:
            from checks.l04 import World
        self.w = World(dim, dt, reset, [dict(spec)])

    def call(self, i):
        kind = self.cfg[0]
        o = self.w.objs[0]
        if kind == "virtual":
            self.w.do([("both", 0, 0), ("step", 0, 0.25), ("both", 0, 1)][i])
            out = [o.lag_grid_forcing_field.copy(), o.lag_grid_position_mismatch_field.copy(),
                   np.array([o.time])]
        else:
            self.w.do([(0, 0, 0.25), (0, 1, 0.125), (0, 1, 0.5)][i])
            out = [o.lag_grid_penalisation_forcing.copy()]
        return out + [self.w.eul.view.copy()], self.w.inputs + [self.w.eul]


def k(key, **genkw):
    d = OPS[key].dim
    g1, g2 = ((6, 7), (8, 6)) if d == 2 else ((6, 7, 5), (5, 6, 8))
    return KernelSubject, [((key, "float64", False, g1, genkw), (key, "float64", False, g1, genkw)),
                           ((key, "float64", 2, g1, genkw), (key, "float64", False, g2, genkw)),
                           ((key, "float32", False, g1, genkw), (key, "float64", False, g1, genkw))]


def poisson(kind, d):
    g1, g2 = ((4, 6), (5, 3)) if d == 2 else ((3, 4, 5), (4, 2, 3))
    return PoissonSubject, [((kind, g1, "float64", 1.0, 1), (kind, g1, "float64", 1.0, 1)),
                            ((kind, g1, "float64", 1.0, 2), (kind, g2, "float64", 1.0, 1)),
                            ((kind, g1, "float64", 1.0, 1), (kind, g1, "float32", 2.5, 1))]


def fft(d):
    g1, g2 = ((4, 6), (5, 3)) if d == 2 else ((3, 4, 5), (4, 2, 3))
    return FFTSubject, [((g1, "float64", 1), (g1, "float64", 1)),
                        ((g1, "float64", 2), (g2, "float64", 1)),
                        ((g1, "float64", 1), (g1, "float32", 1))]


def comm(d):
    return CommunicatorSubject, [
        ((d, 0.25, 0.0, 3, "float64", "cosine", 1), (d, 0.25, 0.0, 3, "float64", "cosine", 1)),
        ((d, 0.25, 0.0, 3, "float64", "cosine", d), (d, 0.5, 0.25, 4, "float64", "peskin", d)),
        ((d, 0.25, 0.125, 2, "float32", "peskin", 1), (d, 0.25, 0.0, 2, "float64", "cosine", d))]


def forcing(kind, d):
    a = dict(k=-3.0, c=-0.5, lam=6.0, n=3, dx=0.25, shift=0.125)
    b = dict(k=2.0, c=0.25, lam=40.0, n=2, dx=0.5, shift=0.25)
    return ForcingSubject, [((kind, d, "float64", True, a), (kind, d, "float64", True, a)),
                            ((kind, d, "float64", False, a), (kind, d, "float64", True, b)),
                            ((kind, d, "float32", False, a), (kind, d, "float64", False, a))]


SUBJECTS = {
    "filter multiplicative": k("filt_m2s"), "filter convolution": k("filt_c3v"),
    "stretching ssprk3": k("strrk3"), "penalise 2d": k("pen2s_w2"), "penalise 3d": k("pen3v_w2"),
    "diffusion step 2d": k("diffstep2s"), "diffusion step 3d": k("diffstep3v"),
    "advection step 2d": k("advstep2s"), "brinkmann 2d": k("brink2v"),
    "set boundary 3d": k("setb3v_w2"), "vorticity update 3d": k("upd3p"),
    "unbounded 2d": poisson("unbounded", 2), "unbounded 3d": poisson("unbounded", 3),
    "fastdiag 2d": poisson("fastdiag", 2), "fastdiag 3d": poisson("fastdiag", 3),
    "fft 2d": fft(2), "fft 3d": fft(3),
    "communicator 2d": comm(2), "communicator 3d": comm(3),
    "virtual forcing 2d": forcing("virtual", 2), "virtual forcing 3d": forcing("virtual", 3),
    "brinkmann forcing 2d": forcing("brinkmann", 2), "brinkmann forcing 3d": forcing("brinkmann", 3),
}
LIGHT = (CommunicatorSubject, ForcingSubject, FFTSubject)


def merge(a, b):
    """All interleavings of a actions of instance 0 with b actions of instance 1."""
    n = a + b
    for pos in itertools.combinations(range(n), a):
        yield tuple(0 if i in pos else 1 for i in range(n))


def interleavings(ctx, p):
    cls, cfgs = SUBJECTS[p["subject"]]
    pair = cfgs[p["pair"]]
    calls = 3 if cls in LIGHT or ctx.tier == "thorough" else 2
    alone = []
    for cfg in pair:
        s = cls(cfg)
        s.create()
        alone.append([s.call(i)[0] for i in range(calls)])
    for order in merge(1 + calls, 1 + calls):
        inst = [cls(cfg) for cfg in pair]
        done = [0, 0]
        for j in order:
            ctx.history = dict(kind=p["subject"], configurations=pair, schedule=order)
            ctx.transitions()
            if not done[j]:
                inst[j].create()
            else:
                out, arrays = inst[j].call(done[j] - 1)
                for a, b in zip(out, alone[j][done[j] - 1]):
                    dt = "float32" if a.dtype in (np.float32, np.complex64) else "float64"
                    scale = 1 + float(np.abs(b).max())
                    if not (np.abs(a - b) <= 2000 * EPS[dt] * scale).all():
                        ctx.fail(f"{p['subject']}: call {done[j]} of instance {j} gives something else "
                                 f"than alone when the two are used in the order {order}",
                                 ctx.history)
                if not all(x.canaries_intact() for x in arrays):
                    ctx.fail(f"{p['subject']}: memory outside the arrays was written", ctx.history)
            done[j] += 1
        ctx.traces()
        ctx.state((p["subject"], p["pair"], order))
        ctx.count("interleavings")
    ctx.sample(ctx.history)
