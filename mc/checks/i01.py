"""I01 saving then loading restores everything bit for bit, over registrations and histories."""
import itertools
import os
import shutil

import numpy as np

import iolib
from iolib import Reg, differing, time_bits, walk

BOUNDS = {
    "quick": "registrations: 2D/3D, 8 Eulerian options, 0..3 Lagrangian grids (node counts 1, dim, 5; named/"
             "automatic/colliding names; connected or not; no/scalar/vector/both fields; fields added "
             "by a second call), Eulerian extents {1..4}^2 and {1..3}^3; 5 memory layouts, 2 field "
             "dtypes; 13 file names; 12 times; all histories of length <= 3 over 9 actions (mutate, save to "
             "2 files by 2 equal and 1 different object, load by 2 objects) for 3 registrations, of "
             "length <= 4 over 6 actions for one; all histories of length 4 over 7 actions in which arrays "
             "are registered anew; all orders of the registration calls; 13 grids, 12 fields; "
             "arrays up to 128 x 128, 32 cubed, 5000 nodes",
    "thorough": "as quick with all double registrations and histories of length <= 4 over 9 actions (3 "
                "registrations) and <= 5 over 6 actions (one)",
}
EXPLANATION = ("Every registration and every history within the bounds is executed on the real IO "
               "object and real HDF5 files; arrays are compared byte for byte with a reference store, "
               "and saving what was loaded must reproduce every dataset and attribute.")
ASSUMPTIONS = ["signalling NaNs are not among the values", "times are ordinary finite numbers"]
REG_PARTS = 24


def units(tier):
    us = [dict(name=f"registrations part {k}", cost=30, params=dict(kind="reg", part=k))
          for k in range(REG_PARTS)]
    for dim in (2, 3):
        us.append(dict(name=f"layouts {dim}d", cost=20, params=dict(kind="layout", dim=dim)))
        us.append(dict(name=f"many and large {dim}d", cost=20, params=dict(kind="many", dim=dim)))
        us.append(dict(name=f"registration order {dim}d", cost=20,
                       params=dict(kind="order", dim=dim)))
        for first in REBIND:
            us.append(dict(name=f"re-registration {dim}d {first}", cost=20,
                           params=dict(kind="rebind", dim=dim, first=first)))
    us.append(dict(name="file names", cost=20, params=dict(kind="names")))
    us.append(dict(name="times", cost=20, params=dict(kind="times")))
    for s in range(len(HIST_SPECS)):
        if tier == "quick":
            plans = [("all", ACTIONS, 3)] + [("few", FEW, 4)] * (s == 0)
        else:
            plans = [("all", ACTIONS, 4)] + [("few", FEW, 5)] * (s == 0)
        for label, actions, depth in plans:
            for first in actions:
                us.append(dict(name=f"histories {s} {label} {first}", cost=25,
                               params=dict(kind="hist", spec=s, depth=depth, actions=list(actions),
                                           prefix=[first])))
    return us


RICH = {
    dim: dict(dim=dim, real="float64",
              calls=iolib.eul_options(dim)["s+v"] + [
                  ["lag", 0, "g", dim, True, {"a": "s", "b": "v"}],
                  ["lag", 1, None, 5, False, {"a": "v"}]])
    for dim in (2, 3)
}
HIST_SPECS = [
    dict(dim=2, real="float64", calls=iolib.eul_options(2)["s+v"]
         + [["lag", 0, "g", 2, True, {"a": "v"}]]),
    dict(dim=3, real="float32", calls=iolib.eul_options(3)["v"]
         + [["lag", 0, None, 3, False, {"a": "s"}], ["lag", 1, None, 2, False, {"a": "s"}]]),
    dict(dim=3, real="float64", calls=[["lag", 0, "x", 4, True, {}]]),
]
# Z is registered differently: a save by Z replaces everything an equal object stored
OTHER = {2: dict(dim=2, real="float64", calls=[["lag", 0, "other", 3, False, {"q": "s"}]]),
         3: dict(dim=3, real="float64", calls=[["lag", 0, "other", 3, False, {"q": "s"}]])}
ACTIONS = ("change X", "X saves f1", "X saves f2", "Y saves f1", "Z saves f1", "X loads f1",
           "Y loads f1", "X loads f2", "Y loads f2")
FEW = ("change X", "X saves f1", "X saves f2", "Y saves f1", "X loads f1", "X loads f2")


def work(ctx, name):
    d = os.path.join(ctx.scratch, "io-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def roundtrip(ctx, spec, path, time=1.25, **kw):
    """Save from one object, load into an equally registered one, save again."""
    ctx.history = dict(spec=spec, file=path, time=repr(time), **kw)
    src = Reg(spec, **kw)
    dst = Reg(spec, **kw)
    src.fill(1)
    before = src.snap()
    dst.blank()
    src.save(path, time)
    ctx.transitions(3)
    if src.snap() != before:
        ctx.fail(f"saving changed {differing(before, src.snap())}", ctx.history)
    if not os.path.exists(path):
        ctx.fail("no file of the given name after the save", ctx.history)
    got = dst.load(path)
    if time_bits(got) != time_bits(time):
        ctx.fail(f"time {time!r} restored as {got!r}", ctx.history)
    after = dst.snap()
    if after != before:
        ctx.fail(f"not restored bit for bit: {differing(before, after)}", ctx.history)
    if src.snap() != before:
        ctx.fail("loading into another object changed the saved one", ctx.history)
    ctx.traces()
    ctx.state(repr((spec, time, kw, os.path.basename(path))))
    if not any(g["connect"] for g in src.lag.values()):
        return
    # what was loaded, connectivity included, is what gets saved again
    first = walk(path)
    again = os.path.join(os.path.dirname(path) or ".", "again of this.h5")
    dst.save(again, got)
    second = walk(again)
    if first != second:
        ctx.fail(f"saving what was loaded differs in {differing(first, second)}", ctx.history)
    for slot, g in src.lag.items():
        if g["name"] is not None and g["connect"]:
            n = g["n"]
            hit = [v for k, v in first.items() if k.startswith(f"Lagrangian/{g['name']}/Connection")]
            if not hit or np.frombuffer(hit[0][2], hit[0][0]).reshape(-1).tolist() != list(range(n)):
                ctx.fail("stored connectivity is not the polyline over the nodes", ctx.history)


def run_unit(ctx, p):
    kind = p["kind"]
    if kind == "reg":
        d = work(ctx, "reg")
        for i, spec in enumerate(iolib.parts(iolib.registrations(ctx.tier), p["part"], REG_PARTS)):
            roundtrip(ctx, spec, os.path.join(d, "f.h5"), time=i / 7)
            if i < 2:
                ctx.sample(spec)
    elif kind == "layout":
        d = work(ctx, "layout")
        for layout in iolib.LAYOUTS:
            for real in ("float64", "float32"):
                for fd in ("float64", "float32"):
                    spec = dict(RICH[p["dim"]], real=real)
                    roundtrip(ctx, spec, os.path.join(d, "f.h5"), layout=layout, field_dtype=fd)
    elif kind == "names":
        for dim in (2, 3):
            for name in FILE_NAMES:
                d = work(ctx, "names")
                full = os.path.join(d, name)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                roundtrip(ctx, RICH[dim], full)
                d = work(ctx, "names")
                os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
                cwd = os.getcwd()
                os.chdir(d)
                try:
                    roundtrip(ctx, RICH[dim], name)
                    roundtrip(ctx, RICH[dim], os.path.join(".", name))
                finally:
                    os.chdir(cwd)
    elif kind == "many":
        d = work(ctx, "many")
        for spec in many_specs(p["dim"]):
            roundtrip(ctx, spec, os.path.join(d, "f.h5"), time=2.0)
    elif kind == "order":
        orders(ctx, p["dim"])
    elif kind == "rebind":
        rebinding(ctx, p["dim"], p["first"])
    elif kind == "times":
        d = work(ctx, "times")
        for t in TIMES:
            roundtrip(ctx, HIST_SPECS[0], os.path.join(d, "f.h5"), time=t)
    else:
        histories(ctx, p)


def many_specs(dim):
    """More than nine grids and fields, and arrays of ordinary size."""
    fields = {f"f{i}": "sv"[i % 2] for i in range(12)}
    grid = iolib.eul_options(dim)["grid only"]
    for named in (False, True):
        yield dict(dim=dim, real="float64", calls=grid + [["eul", fields]] + [
            ["lag", i, f"body{i}" if named else None, 2 + i % 4, i % 3 == 0,
             {"a": "s", "b": "v"} if i % 4 else fields] for i in range(13)])
    for size in (((40, 50), (1, 300), (257, 3), (128, 128)) if dim == 2 else
                 ((12, 20, 17), (32, 32, 32), (2, 70, 3))):
        for real in ("float64", "float32"):
            yield dict(dim=dim, real=real, calls=iolib.eul_options(dim, size)["s+v"] + [
                ["lag", 0, "g", 1, True, {"a": "s", "b": "v"}],
                ["lag", 1, None, 300, True, {"a": "s", "b": "v"}],
                ["lag", 2, None, 5000, False, {"a": "v", "b": "s"}]])


def orders(ctx, dim):
    """The loading object registers the same things by the calls in another order."""
    d = work(ctx, "order")
    e = iolib.eul_options(dim)["s then v"]
    lags = [["lag", 0, "g", dim, True, {"a": "s", "b": "v"}], ["lag", 1, "h", 4, False, {"a": "v"}],
            ["lag", 0, "g", dim, True, {"c": "v"}]]
    calls = e[1:] + lags
    src = Reg(dict(dim=dim, real="float64", calls=e[:1] + calls))
    path = os.path.join(d, "f.h5")
    for k, perm in enumerate(itertools.permutations(calls)):
        spec = dict(dim=dim, real="float64", calls=e[:1] + list(perm))
        ctx.history = spec
        src.fill(k)
        src.save(path, float(k))
        dst = Reg(spec)
        dst.blank()
        ctx.transitions(2)
        ctx.traces()
        ctx.state(repr((dim, perm)))
        if dst.load(path) != float(k):
            ctx.fail("time not restored", spec)
        if dst.snap() != src.snap():
            ctx.fail(f"registered in another order, not restored: "
                     f"{differing(dst.snap(), src.snap())}", spec)


REBIND = ("change X", "X rebinds eul", "X rebinds lag", "X saves f1", "Y saves f1", "X loads f1",
          "Y loads f1")


def rebinding(ctx, dim, first):
    """Histories in which one object registers other arrays under its names."""
    d = work(ctx, "rebind")
    path = os.path.join(d, "f1.h5")
    spec = dict(dim=dim, real="float64", calls=iolib.eul_options(dim)["s+v"]
                + [["lag", 0, "g", dim, True, {"a": "v", "b": "s"}]])
    depth = 4 if ctx.tier == "thorough" else 3
    for tail in itertools.product(REBIND, repeat=depth):
        seq = (first,) + tail
        if not any("rebinds" in a for a in seq) or not any("saves" in a for a in seq):
            continue
        ctx.history = seq
        if os.path.exists(path):
            os.remove(path)
        objs = dict(X=Reg(spec), Y=Reg(spec))
        objs["X"].fill(1)
        objs["Y"].fill(2)
        model = {k: o.snap() for k, o in objs.items()}
        dropped, stored = [], None
        for step, a in enumerate(seq):
            ctx.transitions()
            who = "X" if a.startswith("change") else a[0]
            o = objs[who]
            if a.startswith("change"):
                o.fill(10 + step)
                model[who] = o.snap()
            elif "rebinds" in a:
                dropped += [(x, x.tobytes()) for x in o.rebind(a.split()[-1])]
                model[who] = o.snap()
            elif "saves" in a:
                o.save(path, float(step))
                stored = dict(model[who]), float(step)
            elif stored is None:
                try:
                    o.load(path)
                except Exception:
                    model[who] = o.snap()
                else:
                    ctx.fail(f"{a} returned although the file does not exist", seq)
            else:
                if o.load(path) != stored[1]:
                    ctx.fail(f"{a}: wrong time", seq)
                model[who] = dict(stored[0])
            for k, o in objs.items():
                if o.snap() != model[k]:
                    ctx.fail(f"after {a} (step {step + 1}) arrays of {k} differ: "
                             f"{differing(o.snap(), model[k])}", seq)
            if any(x.tobytes() != b for x, b in dropped):
                ctx.fail(f"after {a} (step {step + 1}) an array no longer registered changed", seq)
        ctx.traces()
        ctx.state((dim, seq))


FILE_NAMES = ("a.h5", "a", "a.hdf5", "a.h5.h5", "a.h5x", "h5", "x.xmf", "dir.h5/a", "dir.d/a.h5",
              "dir/b.c.d.h5", "with space.h5", "\u00fcn\u00ef.h5", "x&y<z>'.h5")
TIMES = (0.0, -1.5, 1 / 3, 1e300, 5e-324, 1e-9, np.float64(0.1), np.float32(0.1), np.float64(2) ** 60,
         7, np.pi * 1e5, -0.0)


def histories(ctx, p):
    spec = HIST_SPECS[p["spec"]]
    d = work(ctx, "hist")
    files = {n: os.path.join(d, n + ".h5") for n in ("f1", "f2")}
    X, Y, Z = Reg(spec), Reg(spec), Reg(OTHER[spec["dim"]])
    objs = dict(X=X, Y=Y, Z=Z)
    actions = p["actions"]
    loads = [a for a in actions if "loads" in a]
    rest = p["depth"] - len(p["prefix"]) - 1
    # a history that does not end with a load observes nothing its longest prefix that does
    # would not; those prefixes are among the shorter histories
    seqs = [list(p["prefix"]) + list(t) + [l] for n in range(rest + 1)
            for t in itertools.product(actions, repeat=n) for l in loads]
    for seq in seqs:
        if not any("saves" in s for s in seq):
            continue
        run_history(ctx, p["spec"], seq, objs, files)
    ctx.sample(dict(history=seq))


def run_history(ctx, s, seq, objs, files):
    X = objs["X"]
    ctx.history = seq
    for f in files.values():
        if os.path.exists(f):
            os.remove(f)
    for i, o in enumerate(objs.values()):
        o.fill(i + 1)
    model = {k: o.snap() for k, o in objs.items()}
    stored = {}
    version = 10
    for step, a in enumerate(seq):
        who, verb, *f = a.split() if not a.startswith("change") else ("X", "change")
        ctx.transitions()
        if verb == "change":
            version += 1
            X.fill(version)
            model["X"] = X.snap()
        elif verb == "saves":
            t = float(step) + 0.125
            objs[who].save(files[f[0]], t)
            stored[f[0]] = (who == "Z", dict(model[who]), t)
        else:
            file = stored.get(f[0])
            if file is None or file[0]:
                try:
                    objs[who].load(files[f[0]])
                except Exception:
                    # what a refused load did to the arrays is not specified
                    model[who] = objs[who].snap()
                else:
                    ctx.fail(f"{a} returned although the file "
                             + ("does not exist" if file is None else "holds other data"), seq)
            else:
                t = objs[who].load(files[f[0]])
                if time_bits(t) != time_bits(file[2]):
                    ctx.fail(f"{a}: time {file[2]} restored as {t}", seq)
                model[who] = dict(file[1])
        for k, o in objs.items():
            if o.snap() != model[k]:
                ctx.fail(f"after {a} (step {step + 1}) arrays of {k} differ: "
                         f"{differing(o.snap(), model[k])}", seq)
        ctx.state((s, tuple(sorted((k, tuple(sorted(v.items()))) for k, v in model.items())),
                   tuple(sorted((k, v[2]) for k, v in stored.items()))))
    ctx.traces()
