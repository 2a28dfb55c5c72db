"""L04 Brinkmann boundary forcing."""
import itertools

import numpy as np

from arrays import EPS, NP, Placed, bits, pattern, rough
from ibref import Stencil

BOUNDS = {
    "quick": "2D and 3D, both precisions, reset on/off: all histories of depth 4 (2D) / 3 (3D) over 6 interaction "
             "calls (2 flows/bodies x 2 time steps, and a second object on the same arrays); option "
             "sweep (coefficients, spacings, shifts, node counts 1..6, 17, 40, 64, 129, 300, time steps 1e-12..1e3, threads)",
    "thorough": "as quick with histories of depth 5 (2D) / 4 (3D)",
}
EXPLANATION = ("Explicit-state exploration of the real forcing objects against a reference state "
               "machine (blend, spread, forcing), compared after every call.")
ASSUMPTIONS = ["numba is not installed here: its decorators are stubbed, the Python bodies run",
               "nodes at least two cells inside the grid"]


def units(tier):
    us = []
    for dim in (2, 3):
        us.append(dict(name=f"neighbouring options {dim}d", cost=2,
                       params=dict(kind="mixed", dim=dim, dtype=None, reset=None)))
        for dt in ("float64", "float32"):
            for reset in (True, False):
                for i in range(2):
                    us.append(dict(name=f"histories {dim}d {dt} reset {reset} part {i}",
                                   cost=10 * dim,
                                   params=dict(kind="hist", dim=dim, dtype=dt, reset=reset,
                                               part=i, parts=2)))
                us.append(dict(name=f"options {dim}d {dt} reset {reset}", cost=5,
                               params=dict(kind="opts", dim=dim, dtype=dt, reset=reset)))
    return us


class World:
    def __init__(self, dim, dt, reset, specs, cache=None, layout="contig", inplace=False,
                 scale=1.0):
        from sopht.numeric.immersed_boundary_ops.experimental.BrinkmannBoundaryForcing import (
            BrinkmannBoundaryForcing)

        T = NP[dt]
        self.T, self.dim, self.dt, self.reset, self.scale = T, dim, dt, reset, scale
        self.grid = (8, 9) if dim == 2 else (7, 8, 9)
        self.dx = dx = specs[0]["dx"]
        self.specs = specs
        self.flows = [Placed((rough if i else pattern)((dim,) + self.grid, 3 + i) * scale, T, layout, skip_dims=1)
                      for i in range(2)]
        self.eul = Placed(pattern((dim,) + self.grid, 6) * scale, T, layout, skip_dims=1)
        self.model = self.eul.view.astype(float)
        self.eul0 = self.model.copy()
        self.objs, self.bodies, self.forcing = [], [], []
        self.caches = []
        for j, s in enumerate(specs):
            kw = dict(brinkmann_coeff=s["lam"], grid_dim=dim, dx=dx,
                      eul_grid_coord_shift=T(s["shift"]), num_lag_nodes=s["n"],
                      interp_kernel_width=2, real_t=T)
            if not (reset and s["n"] % 2):  # the default is left out for odd node counts
                kw["enable_eul_grid_flux_reset"] = reset
            if "threads" in s:
                kw["num_threads"] = s["threads"]
            self.objs.append(BrinkmannBoundaryForcing(**kw))
            bodies = []
            for b in range(2):
                cells = np.array([[2 + (k * (a + 2) + b + a + j) % 2 + (0.125 * ((3 * k + b + a) % 8))
                                   for k in range(s["n"])] for a in range(dim)])
                bodies.append((Placed((cells * dx + s["shift"]).astype(T), T),
                               Placed((rough if b else pattern)((dim, s["n"]), 20 + b + 5 * j) * scale, T)))
            self.bodies.append(bodies)
            self.forcing.append(np.zeros((dim, s["n"])))
            self.caches.append({} if cache is None else cache.setdefault(j, {}))
        self.inputs = self.flows + [x for bs in self.bodies for b in bs for x in b]
        self.input_bits = [bits(x.view) for x in self.inputs]
        # inplace: the caller keeps one array per argument and rewrites it between the calls
        self.slots = None
        if inplace:
            self.slots = (Placed(np.zeros_like(self.flows[0].view), T, layout, skip_dims=1),
                          [tuple(Placed(np.zeros_like(x.view), T) for x in b[0])
                           for b in self.bodies])
            self.inputs += [self.slots[0]] + [x for b in self.slots[1] for x in b]
            self.input_bits = [bits(x.view) for x in self.inputs]

    def fill(self, slot, src):
        slot.view[...] = src.view
        for i, x in enumerate(self.inputs):
            if x is slot:
                self.input_bits[i] = bits(src.view)
        return slot

    def do(self, op):
        j, a, h = op
        if j == "fill":  # the caller puts other content into the Eulerian array
            self.eul.view[...] = self.eul0
            self.model = self.eul0.copy()
            return
        o, s = self.objs[j], self.specs[j]
        flow = self.flows[a]
        pos, vel = self.bodies[j][a]
        if self.slots:
            flow = self.fill(self.slots[0], flow)
            pos, vel = (self.fill(x, y) for x, y in zip(self.slots[1][j], (pos, vel)))
        o.compute_interaction_forcing(
            eul_grid_penalisation_flux=self.eul.view, eul_grid_velocity_field=flow.view,
            lag_grid_position_field=pos.view, lag_grid_velocity_field=vel.view, dt=h)
        c = self.caches[j]
        if a not in c:
            st = Stencil(pos.view.astype(float), self.dx, float(self.T(s["shift"])))
            c[a] = st, st.interpolate(flow.view.astype(float))
        st, u = c[a]
        lam = s["lam"] * h
        du = (u + lam * vel.view.astype(float)) / (1 + lam) - u
        base = np.zeros_like(self.model) if self.reset else self.model
        self.model = st.spread(base, du, False)
        self.forcing[j] = self.dx**self.dim * du / h

    def compare(self, ctx, what):
        eps = EPS[self.dt]
        d = np.abs(self.eul.view - self.model)
        tol = 600 * eps * (4 * self.scale + float(np.abs(self.model).max()))
        if not (d <= tol).all():
            i = tuple(np.argwhere(~(d <= tol))[0])
            ctx.fail(f"after {what}: Eulerian penalisation flux{list(i)} is {self.eul.view[i]!r}, "
                     f"expected {self.model[i]!r}", ctx.history)
        for j, (o, f) in enumerate(zip(self.objs, self.forcing)):
            got = o.lag_grid_penalisation_forcing
            h = ctx.history.get("dt_min", 1.0)
            tol = 600 * eps * (self.dx**self.dim * 8 * self.scale / h + float(np.abs(f).max()))
            if not (np.abs(got - f) <= tol).all():
                i = tuple(np.argwhere(~(np.abs(got - f) <= tol))[0])
                ctx.fail(f"after {what}: Lagrangian forcing{list(i)} of object {j} is {got[i]!r}, "
                         f"expected {f[i]!r}", ctx.history)
        for x, b in zip(self.inputs, self.input_bits):
            if bits(x.view) != b:
                ctx.fail(f"after {what}: flow, position or body velocity input modified",
                         ctx.history)


OPS = [(0, 0, 0.25), (0, 1, 0.25), (0, 1, 0.01), (0, 0, 0.01), (1, 0, 0.125), (1, 1, 0.5), ("fill", 0, 1.0)]


def run_history(ctx, w, hist, key):
    for step, op in enumerate(hist):
        ctx.history = dict(key=key, history=hist, step=step, dt_min=min(h for _, _, h in hist))
        w.do(op)
        ctx.transitions()
        w.compare(ctx, f"{hist[max(0, step - 5): step + 1]} (object, data, dt) ({key})")
    if not all(x.canaries_intact() for x in w.inputs + [w.eul]):
        ctx.fail("memory outside the arrays was written", ctx.history)
    ctx.traces()
    ctx.state((str(key), hist))


def run_unit(ctx, p):
    dim, dt, reset = p["dim"], p["dtype"], p["reset"]
    if p["kind"] == "hist":
        depth = (5 if dim == 2 else 4) if ctx.tier == "thorough" else (4 if dim == 2 else 3)
        specs = [dict(lam=6.0, n=3, dx=0.25, shift=0.125), dict(lam=100.0, n=2 if reset else 3, dx=0.25, shift=0.125)]
        cache = {}
        for i, hist in enumerate(itertools.product(OPS, repeat=depth)):
            if i % p["parts"] != p["part"]:
                continue
            fills = [op[0] == "fill" for op in hist]
            if fills[0] or fills[-1] or sum(fills) > 1:
                continue  # without effect, or equal to a shorter history
            w = World(dim, dt, reset, specs, cache, inplace=(dt == "float64") == reset)
            run_history(ctx, w, hist, (dim, dt, reset))
        return
    if p["kind"] == "mixed":  # objects that differ in one option only, all alive, used in turn
        hist = ((0, 0, 0.25), (1, 1, 0.25), (0, 1, 0.25), (1, 0, 0.125), (0, 0, 0.125), (1, 0, 0.5))
        base = dict(lam=6.0, n=3, dx=0.25, shift=0.125)
        worlds = []
        for d in ({}, dict(lam=20.0), dict(n=4), dict(dx=0.5), dict(shift=0.0), dict(threads=2)):
            for dt in ("float64", "float32"):
                for reset in (True, False):
                    v = dict(base, **d)
                    specs = [v, dict(v, lam=v["lam"] + 1)]
                    worlds.append((World(dim, dt, reset, specs, inplace=reset), str((v, dt, reset))))
        for step, op in enumerate(hist):
            for w, key in worlds:
                ctx.history = dict(key=key, history=hist, step=step, dt_min=0.125)
                w.do(op)
                ctx.transitions()
                w.compare(ctx, f"{hist[: step + 1]} ({key})")
                ctx.state((key, hist[: step + 1]))
        ctx.traces(len(worlds))
        return
    hists = [((0, 0, 0.25),), ((0, 1, 1e-3), (0, 0, 2.0), (0, 1, 0.1)),
             tuple((0, k % 2, 0.1 * (1 + k % 3)) for k in range(10))]
    spec = dict(lam=6.0, n=4, dx=0.25, shift=0.125)
    w = World(dim, dt, reset, [spec, dict(spec, lam=20.0)], cache={})
    run_history(ctx, w, tuple(
        x for k in range(1040 if ctx.tier == "thorough" else 150)
        for x in ((k % 2, k % 3 % 2, 0.125 * (1 + k % 5)), ("fill", 0, 1.0),
                  (k % 5 % 2, k % 2, 0.25))[: 3 if k % 4 else 1]), (dim, dt, reset, "long"))
    for n in range(1, 7):
        for lam in (0.0, 1.0, 1e4, 1e-3):
            for dx, shift in ((0.25, 0.125), (0.1, 0.0), (1.0, 0.5), (0.5, -1.0)):
                spec = dict(lam=lam, n=n, dx=dx, shift=shift, threads=(False, 2)[n % 2])
                for hi, hist in enumerate(hists):
                    w = World(dim, dt, reset, [spec], layout=("contig", "window")[hi % 2],
                              inplace=bool((hi + n) // 2 % 2))
                    run_history(ctx, w, hist, (dim, dt, reset, str(spec)))
    for scale in (2.0**-50, 2.0**20):  # creeping and violent flows
        for hist in hists:
            spec = dict(lam=50.0, n=4, dx=0.25, shift=0.125)
            w = World(dim, dt, reset, [spec], scale=scale)
            run_history(ctx, w, hist, (dim, dt, reset, str(spec), scale))
    for h in (1e-12, 1e-9, 1e-7, 1e-5, 1e3):  # time steps of every size, noticeable blends
        for blend in (0.5, 3.0):
            spec = dict(lam=blend / h, n=4, dx=0.25, shift=0.125)
            w = World(dim, dt, reset, [spec], inplace=not reset)
            run_history(ctx, w, ((0, 0, h), (0, 1, 2 * h), (0, 0, h)), (dim, dt, reset, str(spec)))
    for n in (17, 40, 64, 129, 300):
        spec = dict(lam=50.0, n=n, dx=0.25, shift=0.125)
        w = World(dim, dt, reset, [spec], inplace=reset)
        run_history(ctx, w, hists[1] + hists[2][:4], (dim, dt, reset, str(spec)))
