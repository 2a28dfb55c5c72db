"""I02 loading refuses files that do not match the registration; bad registrations are refused."""
import itertools
import os
import re
import shutil

import numpy as np

import iolib
from iolib import Reg, differing

BOUNDS = {
    "quick": "all ordered pairs (saved by A, loaded into B) of a family of registrations per precision: 2D and 3D "
             "Eulerian grids differing in origin, spacing (each component, relative 1e-4 and 0.5; domains "
             "of microscopic and of huge extent; origins next to zero) or "
             "size (each component, and to a single cell), fields present/absent/of other kind/other "
             "name, 0..2 Lagrangian grids with node counts 1, 2, 3, 5 and fields "
             "present/absent/of other kind/other name; all field shapes of 1 to 4 axes with extents "
             "1..5 at registration, on Eulerian grids of 3 sizes and Lagrangian grids of 5 sizes; all "
             "Lagrangian grid shapes of 1 to 3 axes with extents 1..5; fields before the grid; files with one object deleted, renamed or of "
             "the other kind",
    "thorough": "as quick with larger families (fields on both kinds of grid varied together)",
}
EXPLANATION = ("All pairs of stored and registered contents are executed on real files; an oracle "
               "over the two registrations says which loads have to raise.")
ASSUMPTIONS = ["relative differences of origin and spacing below 1e-4 are not claimed to be seen",
               "grid parameters are only compared when Eulerian fields are registered"]
PARTS = 12


def units(tier):
    us = [dict(name=f"pairs {real} part {k}", cost=20, params=dict(kind="pairs", real=real, part=k))
          for real in ("float64", "float32") for k in range(PARTS)]
    us.append(dict(name="registration", cost=5, params=dict(kind="shapes")))
    us.append(dict(name="incomplete files", cost=5, params=dict(kind="missing")))
    return us


def eul_family(dim):
    base = dict(size=[3, 4] if dim == 2 else [2, 3, 4], origin=[0.25, -1.5, 3.0][:dim],
                dx=[0.1, 0.2, 0.05][:dim])
    grids = [base]
    for key in ("origin", "dx"):
        for i in range(dim):
            for rel in (1e-4, 0.5):
                g = {k: list(v) for k, v in base.items()}
                g[key][i] *= 1 + rel
                grids.append(g)
    for i in range(dim):
        for n in {1, base["size"][i] + 1, base["size"][i] - 1} - {0}:
            g = {k: list(v) for k, v in base.items()}
            g["size"][i] = n
            grids.append(g)
    g = {k: list(v) for k, v in base.items()}
    g["origin"] = [0.0] * dim
    grids.append(g)
    g = {k: list(v) for k, v in base.items()}
    g["size"] = [1] * dim
    grids.append(g)
    for scale in (1e-9, 1e6):  # microscopic and huge domains, differing in one component
        for key in (None, "origin", "dx"):
            g = {k: list(v) for k, v in base.items()}
            g["origin"] = [x * scale for x in g["origin"]]
            g["dx"] = [x * scale for x in g["dx"]]
            if key:
                g[key][dim - 1] *= 1.25
            grids.append(g)
    for origin in (0.0, 1e-12):  # next to zero
        g = {k: list(v) for k, v in base.items()}
        g["origin"] = [origin] + g["origin"][1:]
        grids.append(g)
    # components exchanged
    g = {k: list(v) for k, v in base.items()}
    g["dx"] = g["dx"][::-1]
    grids.append(g)
    g = {k: list(v) for k, v in base.items()}
    g["origin"] = g["origin"][::-1]
    grids.append(g)
    return base, grids


def family(tier, real):
    """Registrations by dimension; the first ones are the richest."""
    for dim in (2, 3):
        base, grids = eul_family(dim)
        full_lag = [["lag", 0, "g", dim, True, {"a": "s", "b": "v"}]]

        def G(g):
            return ["grid", g["size"], g["origin"], g["dx"]]

        eulsets = [{"a": "s"}, {"a": "v"}, {"b": "s"}, {"a": "s", "b": "v"}, {"a": "v", "b": "s"},
                   {"a_0": "s"}]
        for g in grids:
            yield dict(dim=dim, real=real, calls=[G(g), ["eul", {"a": "s", "b": "v"}]] + full_lag)
        yield dict(dim=dim, real=real, calls=[])
        yield dict(dim=dim, real=real, calls=[G(base)])
        for s in eulsets:
            yield dict(dim=dim, real=real, calls=[G(base), ["eul", s]])
            if tier == "thorough":
                for g in grids[1:]:
                    yield dict(dim=dim, real=real, calls=[G(g), ["eul", s]])
        lagsets = [{}, {"a": "s"}, {"a": "v"}, {"b": "s"}, {"a": "s", "b": "v"}]
        for n, s in itertools.product((1, 2, 3, 5), lagsets):
            yield dict(dim=dim, real=real, calls=[["lag", 0, "g", n, n == 5, s]])
            if tier == "thorough":
                yield dict(dim=dim, real=real, calls=[G(base), ["eul", {"a": "s"}],
                                                      ["lag", 0, "g", n, n == 5, s]])
        for n, s in itertools.product((dim, 5), lagsets):
            yield dict(dim=dim, real=real, calls=[["lag", 0, "h", n, False, s]])
            yield dict(dim=dim, real=real, calls=[["lag", 0, "g", dim, True, {"a": "s"}],
                                                  ["lag", 1, "h", n, False, s]])


def content_of(spec):
    eul, lag, grid = {}, {}, None
    for c in spec["calls"]:
        if c[0] == "grid":
            grid = c[1:]
        elif c[0] == "eul":
            eul.update(c[1])
        else:
            g = lag.setdefault(c[2], dict(n=c[3], fields={}))
            g["fields"].update(c[5])
    return grid, eul, lag


def must_raise(a, b):
    """Why loading a file saved from a into b has to raise, or None."""
    ga, ea, la = content_of(a)
    gb, eb, lb = content_of(b)
    if eb:
        if ga is None:
            return "no Eulerian data in the file"
        if a["dim"] != b["dim"]:
            return "other dimension"
        for name, kind in eb.items():
            if ea.get(name) != kind:
                return f"Eulerian field {name}: {ea.get(name)} stored, {kind} registered"
        for what, x, y in zip(("size", "origin", "spacing"), ga, gb):
            if list(x) != list(y):
                return f"{what} {x} stored, {y} registered"
    for name, g in lb.items():
        if name not in la:
            return f"no grid {name} in the file"
        if a["dim"] != b["dim"]:
            return "other dimension"
        if la[name]["n"] != g["n"]:
            return f"{la[name]['n']} nodes stored, {g['n']} registered"
        for f, kind in g["fields"].items():
            if la[name]["fields"].get(f) != kind:
                return f"field {f} of {name}: {la[name]['fields'].get(f)} stored, {kind} registered"
    return None


def run_unit(ctx, p):
    if p["kind"] == "shapes":
        return shapes(ctx)
    if p["kind"] == "missing":
        return missing(ctx)
    d = os.path.join(ctx.scratch, "pairs")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    specs = list(family(ctx.tier, p["real"]))
    path = os.path.join(d, "f.h5")
    regs = []
    for s in specs:
        regs.append(Reg(s))
    for i, a in enumerate(specs):
        if i % PARTS != p["part"]:
            continue
        ctx.history = dict(saved=a)
        src = Reg(a)
        src.fill(i)
        src.save(path, 0.5)
        want = src.snap()
        for j, b in enumerate(specs):
            why = must_raise(a, b)
            ctx.history = dict(saved=a, loaded=b, expected=why or "no error claimed")
            dst = regs[j]
            dst.blank()
            ctx.transitions()
            if why is None and i != j:
                continue  # the file holds more than is registered: nothing claimed
            try:
                dst.load(path)
                raised = False
            except Exception:
                if why is None:
                    raise
                raised = True
            if why is not None and not raised:
                ctx.fail(f"load returned normally although: {why}", ctx.history)
            if why is None and dst.snap() != want:
                ctx.fail(f"not restored: {differing(dst.snap(), want)}", ctx.history)
            ctx.state((p["real"], i, j))
            ctx.traces()
            ctx.count("loads that must raise", int(why is not None))
        if why:
            ctx.sample(ctx.history)


def missing(ctx):
    """Complete files from which one object is taken away, renamed or moved to the other kind."""
    import h5py

    d = os.path.join(ctx.scratch, "missing")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    full, path = os.path.join(d, "full.h5"), os.path.join(d, "f.h5")
    for dim, real in itertools.product((2, 3), ("float64", "float32")):
        spec = dict(dim=dim, real=real, calls=[
            ["grid", [3, 4, 2][:dim], [0.25, -1.5, 3.0][:dim], [0.1, 0.2, 0.05][:dim]],
            ["eul", {"a": "s", "b": "v", "c": "s", "d": "v"}],
            ["lag", 0, "g", dim, True, {"a": "v", "b": "s", "c": "s"}],
            ["lag", 1, "h", 5, False, {"a": "s", "d": "v"}], ["lag", 2, "e", 1, False, {}]])
        src = Reg(spec)
        src.fill(3)
        src.save(full, 0.5)
        want = src.snap()
        dst = Reg(spec)
        dst.blank()
        dst.load(full)
        if dst.snap() != want:
            ctx.fail(f"not restored: {differing(dst.snap(), want)}", dict(spec=spec))
        needed = set()
        with h5py.File(full, "r") as f:
            def visit(name, obj):
                if isinstance(obj, h5py.Dataset) and re.match(r"([a-d](_\d)?|Grid)$",
                                                              name.rpartition("/")[2]):
                    while name:
                        needed.add(name)
                        name = name.rpartition("/")[0]
            f.visititems(visit)
        for name in sorted(needed):
            other = name.replace("/Scalar", "/V").replace("/Vector", "/Scalar").replace("/V", "/Vector")
            for what in ("deleted", "renamed", "moved to the other kind", "replaced by a group"):
                shutil.copy(full, path)
                with h5py.File(path, "a") as f:
                    if what == "deleted":
                        del f[name]
                    elif what == "renamed":
                        f.move(name, name + "_x")
                    elif what == "replaced by a group":
                        if not isinstance(f[name], h5py.Dataset):
                            continue
                        del f[name]
                        f.create_group(name)
                    elif other == name or other in f or other.count("/") != name.count("/"):
                        continue
                    else:
                        f.move(name, other)
                ctx.history = dict(spec=spec, file=f"{name} {what}")
                ctx.transitions()
                ctx.state((dim, real, name, what))
                ctx.count("loads that must raise")
                dst.blank()
                try:
                    dst.load(path)
                except Exception:
                    continue
                ctx.fail(f"load returned normally although {name} is {what} in the file", ctx.history)
        ctx.traces()


def shapes(ctx):
    from sopht.utils.IO import IO

    def refused(call, what):
        try:
            call()
        except Exception:
            return
        ctx.fail(f"accepted {what}", what)

    every = [s for k in range(1, 5) for s in itertools.product(range(1, 6), repeat=k)]
    store = {}

    def arr(shape, T):
        if (shape, T) not in store:
            store[shape, T] = np.zeros(shape, T)
        return store[shape, T]

    for real in iolib.NP.values():
        for dim in (2, 3):
            io = IO(dim=dim, real_dtype=real)
            size0 = (4, 5, 3)[:dim]
            refused(lambda: io.add_as_eulerian_fields_for_io(a=np.zeros(size0, real)),
                    "an Eulerian field before the grid")
            refused(lambda: io.add_as_eulerian_fields_for_io(a=np.zeros((dim,) + size0, real)),
                    "an Eulerian vector field before the grid")
            sizes = [(4, 5, 3)[:dim], (dim,) * dim, (1,) * dim]
            for size in sizes:
                for shape in every:
                    io = IO(dim=dim, real_dtype=real)
                    io.define_eulerian_grid(origin=np.zeros(dim, real), dx=np.ones(dim, real),
                                            grid_size=np.array(size))
                    ctx.history = dict(eulerian=size, field=shape)
                    good = shape in (tuple(size), (dim,) + tuple(size))

                    def call(shape=shape, io=io):
                        io.add_as_eulerian_fields_for_io(f=arr(shape, real))

                    if good:
                        call()
                    else:
                        refused(call, f"field of shape {shape} on a {size} grid")
                    ctx.state(("e", dim, size, shape))
                    ctx.transitions()
            for shape in every:
                if len(shape) > 3:
                    continue
                io = IO(dim=dim, real_dtype=real)
                ctx.history = dict(lagrangian_grid=shape, dim=dim)

                def call(shape=shape, io=io):
                    io.add_as_lagrangian_fields_for_io(lagrangian_grid=arr(shape, real),
                                                       lagrangian_grid_name="g")

                if len(shape) == 2 and shape[0] == dim:
                    call()
                else:
                    refused(call, f"Lagrangian grid of shape {shape} in {dim}D")
                ctx.state(("g", dim, shape))
                ctx.transitions()
            for n in (1, 2, 3, 4, 5):
                for shape in every:
                    io = IO(dim=dim, real_dtype=real)
                    ctx.history = dict(nodes=n, field=shape, dim=dim)

                    def call(shape=shape, io=io, n=n):
                        io.add_as_lagrangian_fields_for_io(
                            lagrangian_grid=arr((dim, n), real), lagrangian_grid_name="g",
                            f=arr(shape, real))

                    if shape in ((n,), (dim, n)):
                        call()
                    else:
                        refused(call, f"field of shape {shape} on {n} nodes in {dim}D")
                    ctx.state(("l", dim, n, shape))
                    ctx.transitions()
            for bad in (0, 1, 4):
                refused(lambda: IO(dim=bad, real_dtype=real), f"dimension {bad}")
    ctx.traces()
