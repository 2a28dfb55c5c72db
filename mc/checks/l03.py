"""L03 virtual boundary forcing."""
import itertools

import numpy as np

from arrays import EPS, NP, Placed, bits, pattern, rough
from ibref import Stencil

BOUNDS = {
    "quick": "2D and 3D, both precisions, reset on/off: all histories of depth 4 (2D) / 3 (3D) over 8 calls "
             "(interaction with 2 flows/bodies, force-on-body-only, 2 time steps, the same on a "
             "second object sharing arrays); option sweep (coefficients, shift, start time, node "
             "counts 1..6, threads; counts 17, 40, 64, 129, 300; steps 0, 1e-12..1e3) on a fixed set of 6 histories",
    "thorough": "as quick with histories of depth 5 (2D) / 4 (3D)",
}
EXPLANATION = ("Explicit-state exploration of the real forcing objects: every history is executed "
               "on fresh objects and compared after every call with a reference state machine.")
ASSUMPTIONS = ["numba is not installed here: its decorators are stubbed, the Python bodies run",
               "nodes at least two cells inside the grid"]


def units(tier):
    us = []
    for dim in (2, 3):
        us.append(dict(name=f"neighbouring options {dim}d", cost=2,
                       params=dict(kind="mixed", dim=dim, dtype=None, reset=None)))
        for dt in ("float64", "float32"):
            for reset in (True, False):
                parts = 4
                for i in range(parts):
                    us.append(dict(name=f"histories {dim}d {dt} reset {reset} part {i}",
                                   cost=10 * dim,
                                   params=dict(kind="hist", dim=dim, dtype=dt, reset=reset,
                                               part=i, parts=parts)))
                us.append(dict(name=f"options {dim}d {dt} reset {reset}", cost=5,
                               params=dict(kind="opts", dim=dim, dtype=dt, reset=reset)))
    return us


class Model:
    """Reference state machine of one forcing object."""

    def __init__(self, k, c, dim, dx, shift, n, reset, t0):
        self.k, self.c, self.dx, self.shift, self.reset = k, c, dx, shift, reset
        self.pm = np.zeros((dim, n))
        self.vm = np.zeros((dim, n))
        self.force = np.zeros((dim, n))
        self.time = t0
        self.cache = {}

    def stencil(self, key, pos):
        if key not in self.cache:
            self.cache[key] = Stencil(pos, self.dx, self.shift)
        return self.cache[key]

    def interact(self, key, pos, flow, vel, eul=None):
        s = self.stencil(key, pos)
        fk = ("flow",) + key
        if fk not in self.cache:
            self.cache[fk] = s.interpolate(flow)
        self.vm = self.cache[fk] - vel
        self.force = self.k * self.pm + self.c * self.vm
        if eul is not None:
            return s.spread(np.zeros_like(eul) if self.reset else eul, self.force, True)

    def step(self, dt):
        self.pm = self.pm + dt * self.vm
        self.time += dt


class World:
    """One or two real objects, the shared arrays, and the reference state of all of them."""

    def __init__(self, dim, dt, reset, specs, cache=None, layout="contig", inplace=False,
                 scale=1.0):
        from sopht.numeric.immersed_boundary_ops import VirtualBoundaryForcing

        T = NP[dt]
        self.T, self.dim, self.dt, self.scale = T, dim, dt, scale
        self.grid = (8, 9) if dim == 2 else (7, 8, 9)
        self.objs, self.models, self.bodies = [], [], []
        dx = specs[0]["dx"]
        self.flows = [Placed((rough if i else pattern)((dim,) + self.grid, 3 + i) * scale, T, layout, skip_dims=1)
                      for i in range(2)]
        self.eul = Placed(pattern((dim,) + self.grid, 6) * scale, T, layout, skip_dims=1)
        self.eul0 = self.eul.view.astype(float)
        for j, s in enumerate(specs):
            kw = dict(virtual_boundary_stiffness_coeff=s["k"], virtual_boundary_damping_coeff=s["c"],
                      grid_dim=dim, dx=dx, num_lag_nodes=s["n"], real_t=T)
            if not (reset and s["n"] % 2):  # the default is left out for odd node counts
                kw["enable_eul_grid_forcing_reset"] = reset
            shift = dx / 2
            if s.get("shift") is not None:
                kw["eul_grid_coord_shift"] = T(s["shift"])
                shift = s["shift"]
            if "t0" in s:
                kw["start_time"] = s["t0"]
            if "threads" in s:
                kw["num_threads"] = s["threads"]
            if s.get("width"):
                kw["interp_kernel_width"] = s["width"]
            self.objs.append(VirtualBoundaryForcing(**kw))
            m = Model(s["k"], s["c"], dim, dx, shift, s["n"], reset, s.get("t0", 0.0))
            if cache is not None:
                m.cache = cache.setdefault(j, {})
            self.models.append(m)
            bodies = []
            for b in range(2):
                cells = np.array([[2 + (k * (a + 2) + b + a + j) % 2 + (0.125 * ((3 * k + b + a) % 8))
                                   for k in range(s["n"])] for a in range(dim)])
                pos = (cells * dx + shift).astype(T)
                vel = ((rough if b else pattern)((dim, s["n"]), 20 + b + 5 * j) * scale).astype(T)
                bodies.append((Placed(pos, T), Placed(vel, T)))
            self.bodies.append(bodies)
        self.inputs = [f for f in self.flows] + [x for bs in self.bodies for b in bs for x in b]
        self.input_bits = [bits(x.view) for x in self.inputs]
        self.eul_model = self.eul0.copy()
        # inplace: the caller keeps one array per argument and rewrites it between the calls
        self.slots = None
        if inplace:
            self.slots = (Placed(np.zeros_like(self.flows[0].view), T, layout, skip_dims=1),
                          [tuple(Placed(np.zeros_like(x.view), T) for x in b[0])
                           for b in self.bodies])
            self.inputs += [self.slots[0]] + [x for b in self.slots[1] for x in b]
            self.input_bits = [bits(x.view) for x in self.inputs]

    def fill(self, slot, src):
        slot.view[...] = src.view
        for i, x in enumerate(self.inputs):
            if x is slot:
                self.input_bits[i] = bits(src.view)
        return slot

    def do(self, op):
        kind, j, a = op
        if kind == "fill":  # the caller puts other content into the Eulerian array
            self.eul.view[...] = self.eul0
            self.eul_model = self.eul0.copy()
            return
        o, m = self.objs[j], self.models[j]
        if kind == "step":
            o.time_step(dt=a)
            m.step(a)
            return
        flow = self.flows[a]
        pos, vel = self.bodies[j][a]
        if self.slots:
            flow = self.fill(self.slots[0], flow)
            pos, vel = (self.fill(x, y) for x, y in zip(self.slots[1][j], (pos, vel)))
        args = dict(eul_grid_velocity_field=flow.view, lag_grid_position_field=pos.view,
                    lag_grid_velocity_field=vel.view)
        f, p, v = flow.view.astype(float), pos.view.astype(float), vel.view.astype(float)
        if kind == "both":
            o.compute_interaction_forcing(eul_grid_forcing_field=self.eul.view, **args)
            self.eul_model = m.interact((a,), p, f, v, self.eul_model)
        else:
            o.compute_interaction_force_on_lag_grid(**args)
            m.interact((a,), p, f, v)

    def compare(self, ctx, what):
        eps = EPS[self.dt]
        for j, (o, m) in enumerate(zip(self.objs, self.models)):
            for name, exp in (("lag_grid_position_mismatch_field", m.pm),
                              ("lag_grid_velocity_mismatch_field", m.vm),
                              ("lag_grid_forcing_field", m.force)):
                got = getattr(o, name)
                scale = self.scale + float(np.abs(exp).max())
                if name == "lag_grid_forcing_field":
                    scale = self.scale + abs(m.k) * (self.scale + np.abs(m.pm).max()) + abs(
                        m.c) * (self.scale + np.abs(m.vm).max())
                if not (np.abs(got - exp) <= 600 * eps * scale).all():
                    i = tuple(np.argwhere(~(np.abs(got - exp) <= 600 * eps * scale))[0])
                    ctx.fail(f"after {what}: {name}{list(i)} of object {j} is {got[i]!r}, penalty "
                             f"law gives {exp[i]!r}", ctx.history)
            if abs(o.time - m.time) > 1e-12 * (1 + abs(m.time)):
                ctx.fail(f"after {what}: clock of object {j} is {o.time!r}, expected {m.time!r}",
                         ctx.history)
        scale = self.scale + float(np.abs(self.eul_model).max())
        d = np.abs(self.eul.view - self.eul_model)
        big = max([self.scale] + [abs(m.k) * (self.scale + np.abs(m.pm).max()) + abs(m.c) * (
            self.scale + np.abs(m.vm).max()) for m in self.models]) / self.models[0].dx ** self.dim
        if not (d <= 600 * eps * max(scale, 0.01 * big)).all():
            i = tuple(np.argwhere(~(d <= 600 * eps * max(scale, 0.01 * big)))[0])
            ctx.fail(f"after {what}: Eulerian forcing{list(i)} is {self.eul.view[i]!r}, spread force "
                     f"gives {self.eul_model[i]!r}", ctx.history)
        for x, b in zip(self.inputs, self.input_bits):
            if bits(x.view) != b:
                ctx.fail(f"after {what}: flow, position or body velocity input modified",
                         ctx.history)

    def canaries(self, ctx):
        if not all(x.canaries_intact() for x in self.inputs + [self.eul]):
            ctx.fail("memory outside the arrays was written", ctx.history)


OPS = [("both", 0, 0), ("both", 0, 1), ("body", 0, 1), ("step", 0, 0.25), ("step", 0, 0.0625),
       ("both", 1, 1), ("body", 1, 0), ("step", 1, 0.125), ("fill", 0, 0)]


def run_history(ctx, world, hist, key):
    for step, op in enumerate(hist):
        ctx.history = dict(key=key, history=hist, step=step)
        world.do(op)
        ctx.transitions()
        world.compare(ctx, f"{hist[max(0, step - 5): step + 1]} ({key})")
    world.canaries(ctx)
    ctx.traces()
    ctx.state((str(key), hist))


def run_unit(ctx, p):
    dim, dt, reset = p["dim"], p["dtype"], p["reset"]
    if p["kind"] == "hist":
        depth = (5 if dim == 2 else 4) if ctx.tier == "thorough" else (4 if dim == 2 else 3)
        specs = [dict(k=-3.0, c=-0.5, n=3, dx=0.25), 
                 dict(k=2.0, c=0.25, n=2 if reset else 3, dx=0.25, t0=1.5)]
        cache = {}
        for i, hist in enumerate(itertools.product(OPS, repeat=depth)):
            if i % p["parts"] != p["part"]:
                continue
            fills = [op[0] == "fill" for op in hist]
            if fills[0] or fills[-1] or sum(fills) > 1:
                continue  # without effect, or equal to a shorter history
            # half of the histories rewrite one array per argument, half pass distinct arrays
            w = World(dim, dt, reset, specs, cache, inplace=(dt == "float64") == reset)
            run_history(ctx, w, hist, (dim, dt, reset))
        return
    if p["kind"] == "mixed":  # objects that differ in one option only, all alive, used in turn
        hist = (("both", 0, 0), ("step", 0, 0.25), ("body", 1, 1), ("both", 1, 0), ("step", 1, 0.5),
                ("step", 0, 0.125), ("both", 0, 1), ("both", 1, 1), ("body", 0, 0))
        base = dict(k=-3.0, c=-0.5, n=3, dx=0.25)
        worlds = []
        for d in ({}, dict(k=1.0), dict(c=2.0), dict(n=4), dict(dx=0.5), dict(shift=0.0),
                  dict(t0=2.0), dict(threads=2)):
            for dt in ("float64", "float32"):
                for reset in (True, False):
                    v = dict(base, **d)
                    specs = [v, dict(v, k=v["k"] + 1)]
                    worlds.append((World(dim, dt, reset, specs, inplace=reset), str((v, dt, reset))))
        for step, op in enumerate(hist):
            for w, key in worlds:
                ctx.history = dict(key=key, history=hist, step=step)
                w.do(op)
                ctx.transitions()
                w.compare(ctx, f"{hist[: step + 1]} ({key})")
                ctx.state((key, hist[: step + 1]))
        ctx.traces(len(worlds))
        return
    hists = [
        (("both", 0, 0), ("step", 0, 0.25), ("both", 0, 1), ("step", 0, 0.5), ("both", 0, 0)),
        (("step", 0, 1.0), ("body", 0, 0), ("step", 0, 0.1), ("step", 0, 0.2), ("body", 0, 1),
         ("both", 0, 1)),
        (("body", 0, 1), ("body", 0, 0), ("step", 0, -0.25), ("both", 0, 0), ("both", 0, 0)),
        tuple(x for _ in range(12) for x in (("both", 0, 0), ("step", 0, 0.125))),
        tuple(x for k in range(9) for x in (("both", 0, k % 2), ("step", 0, 0.0625 * (k % 3)),
                                            ("body", 0, 1 - k % 2))),
        (("both", 0, 0),),
    ]
    spec = dict(k=-3.0, c=-0.5, n=4, dx=0.25)
    w = World(dim, dt, reset, [spec, dict(spec, k=-1.0)], cache={})
    run_history(ctx, w, tuple(
        x for k in range(1040 if ctx.tier == "thorough" else 150)
        for x in (("both", k % 2, k % 3 % 2), ("step", k % 2, 0.0078125 * (k % 3 - 1)),
                  ("fill", 0, 0), ("body", k % 5 % 2, k % 2))[: 4 if k % 4 else 3]),
        (dim, dt, reset, "long"))
    for n in range(1, 7):
        for k, c in itertools.product((0.0, -1.0, 5.0, -1e4), (0.0, -2.0, 1e3)):
            for dx, shift in ((0.25, None), (0.1, 0.0), (1.0, 0.5), (0.5, -1.0)):
                if (n + int(abs(k)) + int(abs(c)) + int(10 * dx)) % 2 and ctx.tier == "quick":
                    continue
                spec = dict(k=k, c=c, n=n, dx=dx, shift=shift, t0=0.5 * n,
                            threads=(False, 2)[n % 2], width=(None, 2)[n % 2])
                for hi, hist in enumerate(hists):
                    if ctx.tier == "quick" and (hi + n) % 3:
                        continue
                    w = World(dim, dt, reset, [spec], layout=("contig", "window")[hi % 2],
                              inplace=bool((hi + n) // 2 % 2))
                    run_history(ctx, w, hist, (dim, dt, reset, str(spec)))
    for scale in (2.0**-50, 2.0**20):  # creeping and violent flows
        for hist in hists:
            spec = dict(k=-3.0, c=-0.5, n=4, dx=0.25)
            w = World(dim, dt, reset, [spec], scale=scale)
            run_history(ctx, w, hist, (dim, dt, reset, str(spec), scale))
    for h in (0.0, 1e-12, 1e-7, 1e-4, 1e3):  # time steps of every size
        spec = dict(k=-1.0 / h if h else 1.0, c=-0.5, n=4, dx=0.25)
        w = World(dim, dt, reset, [spec], inplace=not reset)
        run_history(ctx, w, (("both", 0, 0), ("step", 0, h), ("both", 0, 1), ("step", 0, -2 * h),
                             ("body", 0, 0), ("step", 0, 3 * h), ("both", 0, 0)),
                    (dim, dt, reset, str(spec)))
    for n in (17, 40, 64, 129, 300):
        spec = dict(k=-3.0, c=-0.5, n=n, dx=0.25)
        w = World(dim, dt, reset, [spec], inplace=reset)
        run_history(ctx, w, hists[1] + hists[2], (dim, dt, reset, str(spec)))
