"""I03 XDMF descriptions: every data item exists with the stated shape, nothing is destroyed."""
import itertools
import os
import shutil
import xml.etree.ElementTree as ET

import numpy as np

import iolib
from iolib import Reg, differing, walk

BOUNDS = {
    "quick": "all registrations of I01 that carry fields (2D/3D, 0..3 Lagrangian grids, colliding and automatic "
             "names, connectivity, both precisions); origins/spacings over 8 magnitudes per component "
             "pattern; 8 settings of numpy's print options; 13 file names absolute and relative; 12 times; special characters in names; "
             "all sequences of 2 saves by 3 registrations to 10 file names (all earlier descriptions and "
             "data re-checked after every save), and of 3 saves to 3 names",
    "thorough": "as quick with all double registrations and sequences of 3 saves to 10 names",
}
EXPLANATION = ("After every save of every enumerated registration and history all description files "
               "are parsed and every item is resolved against the real data file and compared with "
               "the registered arrays, grids, origin, spacing, time and connectivity.")
ASSUMPTIONS = ["description files are recognised by content (XML with root Xdmf), next to the data file",
               "origin and spacing are written as decimal text: relative agreement 1e-6 in single and 1e-13 in "
               "double precision is required"]
REG_PARTS = 16


def units(tier):
    us = [dict(name=f"registrations part {k}", cost=30, params=dict(kind="reg", part=k))
          for k in range(REG_PARTS)]
    us.append(dict(name="grid parameters", cost=20, params=dict(kind="grid")))
    us.append(dict(name="file names", cost=20, params=dict(kind="names")))
    us.append(dict(name="times", cost=10, params=dict(kind="times")))
    us.append(dict(name="special names", cost=10, params=dict(kind="special")))
    us.append(dict(name="reserved names", cost=10, params=dict(kind="reserved")))
    for i in range(len(SAVES)):
        us.append(dict(name=f"pairs of saves {i}", cost=12, params=dict(kind="seq", first=i, n=2, set="all")))
    three = SAVES if tier == "thorough" else FEW
    for i in range(len(three)):
        us.append(dict(name=f"triples of saves {i}", cost=15 if tier == "quick" else 60,
                       params=dict(kind="seq", first=i, n=3,
                                   set="all" if tier == "thorough" else "few")))
    return us


def work(ctx, name):
    d = os.path.join(ctx.scratch, "io-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def descriptions(directory, data_files=()):
    """Parsed Xdmf files of a directory; unparsable ones are reported as text."""
    out = {}
    skip = {os.path.realpath(f) for f in data_files}
    for n in sorted(os.listdir(directory)):
        p = os.path.join(directory, n)
        if not os.path.isfile(p) or os.path.realpath(p) in skip:
            continue
        with open(p, "rb") as f:
            head = f.read()
        if head[:8] == b"\x89HDF\r\n\x1a\n":
            continue
        try:
            root = ET.fromstring(head)
        except ET.ParseError as e:
            out[n] = f"is not well-formed XML: {e}"
            continue
        if root.tag != "Xdmf":
            out[n] = f"has root {root.tag}"
            continue
        out[n] = root
    return out


class Bad(Exception):
    pass


def dims_of(item):
    return tuple(int(x) for x in item.get("Dimensions").split())


def squeeze(shape):
    return tuple(n for n in shape if n != 1)


def resolve(item, directory, path, data):
    """Shape and array of the dataset an HDF item refers to."""
    text = (item.text or "").strip()
    if ":/" not in text:
        raise Bad(f"item {text!r} is no file:/dataset reference")
    file, name = text.split(":/", 1)
    target = os.path.join(directory, file)
    if not os.path.exists(target) or not os.path.samefile(target, path):
        raise Bad(f"item {text!r} does not refer to the data file {os.path.basename(path)!r}")
    if name not in data or data[name] == "group":
        raise Bad(f"item {text!r}: no such dataset")
    dt, shape, raw = data[name]
    d = dims_of(item)
    if squeeze(d) != squeeze(shape):
        raise Bad(f"item {text!r} states dimensions {d}, the dataset has {shape}")
    kind = item.get("NumberType") or item.get("DataType") or "Float"
    if kind not in {"f": ("Float",), "i": ("Int",), "u": ("UInt", "Int")}[np.dtype(dt).kind]:
        raise Bad(f"item {text!r} states number type {kind}, the dataset holds {dt}")
    if int(item.get("Precision", 4)) != np.dtype(dt).itemsize:
        raise Bad(f"item {text!r} states a precision of {item.get('Precision')} bytes, the "
                  f"dataset holds {dt}")
    return np.frombuffer(raw, dtype=dt).reshape(shape), d, name


def one(root, tag):
    found = root.findall(f".//{tag}")
    if len(found) != 1:
        raise Bad(f"{len(found)} {tag} elements")
    return found[0]


def same(a, b):
    return a.shape == b.shape and a.tobytes() == np.ascontiguousarray(b).tobytes()


def check_saved(reg, path, time, snap, data=None):
    """Check all descriptions of one saved file; snap holds the arrays as saved."""
    directory = os.path.dirname(os.path.abspath(path))
    found = descriptions(directory)
    mine = {}
    for n, root in found.items():
        if isinstance(root, str):
            raise Bad(f"{n} {root}")
        files = set()
        for item in root.iter("DataItem"):
            if item.get("Format") == "HDF":
                files.add((item.text or "").strip().split(":/", 1)[0])
        if any(os.path.basename(f) == os.path.basename(path) for f in files):
            mine[n] = root
    data = walk(path)
    eul, lag = {}, {}
    for n, root in mine.items():
        names = [(i.text or "").strip().split(":/", 1)[1] for i in root.iter("DataItem")
                 if i.get("Format") == "HDF"]
        kinds = {x.split("/")[0] for x in names}
        if kinds == {"Eulerian"}:
            eul[n] = root
        elif kinds == {"Lagrangian"}:
            lag[n] = root
        else:
            raise Bad(f"{n} mixes {kinds}")
    if reg.eul:
        if len(eul) != 1:
            raise Bad(f"{len(eul)} Eulerian descriptions")
        for n, root in eul.items():
            try:
                check_eulerian(reg, root, directory, path, time, snap, data)
            except Bad as b:
                raise Bad(f"{n}: {b}")
    if any(g["fields"] for g in reg.lag.values()):
        if len(lag) != len(reg.lag):
            raise Bad(f"{len(lag)} Lagrangian descriptions of {len(reg.lag)} grids")
    if lag:
        left = dict(lag)
        for slot, g in reg.lag.items():
            hits, why = [], []
            for n, root in left.items():
                try:
                    check_lagrangian(reg, slot, g, root, directory, path, time, snap, data)
                    hits.append(n)
                except Bad as b:
                    why.append(f"{n}: {b}")
            if not hits:
                raise Bad(f"no description agrees with Lagrangian grid {g['name'] or slot!r}: {why}")
            del left[hits[0]]


def check_time(root, time):
    t = float(one(root, "Time").get("Value"))
    if abs(t - float(time)) > 1e-12 * abs(float(time)):
        raise Bad(f"time {t}, saved {float(time)}")


def array_of(snap, key, like):
    return np.frombuffer(snap[key], dtype=like.dtype).reshape(like.shape)


def check_eulerian(reg, root, directory, path, time, snap, data):
    check_time(root, time)
    dim = reg.dim
    full = ((1,) + reg.size) if dim == 2 else reg.size
    topo = dims_of(one(root, "Topology"))
    if topo != full:
        raise Bad(f"topology {topo}, grid {full}")
    tol = 1e-6 if reg.T is np.float32 else 1e-13
    geo = one(root, "Geometry")
    inline = {i.get("Name"): i for i in geo.findall("DataItem")}
    if len(inline) != 2:
        raise Bad("geometry without two items")
    for name, want in (("Origin", reg.origin), ("Spacing", reg.dx)):
        if name not in inline:
            raise Bad(f"no item {name}")
        item = inline[name]
        vals = [float(x) for x in (item.text or "").split()]
        if len(vals) != int(np.prod(dims_of(item))):
            raise Bad(f"{name} has {len(vals)} values, states {dims_of(item)}")
        if len(vals) != 3:
            raise Bad(f"{name} has {len(vals)} values in a 3D mesh")
        for x, w in zip(vals[3 - dim:], want):
            if not abs(x - float(w)) <= tol * abs(float(w)):
                raise Bad(f"{name} {vals}, registered {want.tolist()}")
    listed = {}
    for att in root.iter("Attribute"):
        arr, d, name = resolve(one(att, "DataItem"), directory, path, data)
        if d != full:
            raise Bad(f"{name}: dimensions {d}, grid {full}")
        if name in listed:
            raise Bad(f"dataset {name} listed twice")
        if att.get("Center") != "Node":
            raise Bad(f"{name} not on nodes")
        listed[name] = (att.get("Name"), arr)
    n = 0
    for f, (kind, like) in reg.eul.items():
        a = array_of(snap, ("E", f), like)
        comps = [(f, a)] if kind == "s" else [(f"{f}_{i}", a[i]) for i in range(dim)]
        for label, comp in comps:
            n += 1
            hits = [k for k, (nm, arr) in listed.items()
                    if nm == label and same(arr.reshape(comp.shape), comp)]
            if len(hits) != 1:
                raise Bad(f"{label} listed {len(hits)} times with its values")
    if n != len(listed):
        raise Bad(f"{len(listed)} attributes, {n} registered")


def check_lagrangian(reg, slot, g, root, directory, path, time, snap, data):
    check_time(root, time)
    dim, n = reg.dim, g["n"]
    geo = one(root, "Geometry")
    if geo.get("GeometryType") != ("XYZ" if dim == 3 else "XY"):
        raise Bad(f"geometry type {geo.get('GeometryType')} in {dim}D")
    arr, d, name = resolve(one(geo, "DataItem"), directory, path, data)
    a = array_of(snap, ("G", slot), g["arr"])
    if d != (n, dim):
        raise Bad(f"grid dimensions {d}")
    if not same(arr, a.T):
        raise Bad("another grid")
    own = name.rsplit("/", 1)[0]
    topo = one(root, "Topology")
    items = topo.findall("DataItem")
    if g["connect"]:
        if topo.get("TopologyType") != "Polyline" or len(items) != 1:
            raise Bad("connected grid without polyline")
        conn, d, _ = resolve(items[0], directory, path, data)
        if int(np.prod(d)) != n or conn.reshape(-1).tolist() != list(range(n)):
            raise Bad(f"connectivity {conn.tolist()} {d}")
    elif items or topo.get("TopologyType") != "Polyvertex" or int(topo.get("NumberOfElements")) != n:
        raise Bad(f"topology of {n} unconnected nodes")
    listed = {}
    for att in root.iter("Attribute"):
        arr, d, name = resolve(one(att, "DataItem"), directory, path, data)
        if name in listed:
            raise Bad(f"dataset {name} listed twice")
        if not name.startswith(own + "/"):
            raise Bad(f"{name} belongs to another grid than {own}")
        listed[name] = (att.get("Name"), att.get("AttributeType"), arr, d)
    for f, (kind, like) in g["fields"].items():
        a = array_of(snap, ("L", slot, f), like)
        want = a if kind == "s" else np.ascontiguousarray(a.T)
        hits = [k for k, (nm, ty, arr, d) in listed.items()
                if nm == f and ty == {"s": "Scalar", "v": "Vector"}[kind]
                and d == want.shape and same(arr, want)]
        if len(hits) != 1:
            raise Bad(f"field {f} listed {len(hits)} times with its values")
    if len(listed) != len(g["fields"]):
        raise Bad(f"{len(listed)} attributes, {len(g['fields'])} registered")


def save_and_check(ctx, spec, path, time=1.25, d=None, **kw):
    ctx.history = dict(spec=spec, file=path, time=repr(time))
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            os.remove(p)
    reg = Reg(spec, **kw)
    reg.fill(1)
    snap = reg.snap()
    reg.save(path, time)
    ctx.transitions(2)
    try:
        check_saved(reg, path, time, snap)
        again = Reg(spec, **kw)
        again.blank()
        again.load(path)
        if again.snap() != snap:
            raise Bad(f"data file does not load: {differing(again.snap(), snap)}")
    except Bad as b:
        ctx.fail(str(b), ctx.history)
    except OSError as e:
        ctx.fail(f"data file unreadable after the descriptions were written: {e}", ctx.history)
    ctx.state(repr((spec, time, os.path.basename(path))))
    ctx.traces()


MAGNITUDES = (0.0, 1.0, 0.1, 1 / 3, 1e-5, 123456.789, -2.5e7, -1e-9)


def run_unit(ctx, p):
    from checks.i01 import FILE_NAMES, HIST_SPECS, RICH, TIMES

    kind = p["kind"]
    if kind == "reg":
        d = work(ctx, "reg")
        specs = (s for s in iolib.registrations(ctx.tier) if any(
            (c[0] == "eul" and c[1]) or (c[0] == "lag" and c[5]) for c in s["calls"]))
        for spec in iolib.parts(specs, p["part"], REG_PARTS):
            save_and_check(ctx, spec, os.path.join(d, "f.h5"), d=d)
    elif kind == "grid":
        d = work(ctx, "grid")
        for dim in (2, 3):
            for real in ("float64", "float32"):
                for k in range(dim):
                    for m, rest in itertools.product(MAGNITUDES, (0.0, 0.3)):
                        for which in ("origin", "dx"):
                            vec = [rest + i * 0.1 for i in range(dim)]
                            vec[k] = m
                            other = [0.5 + 0.25 * i for i in range(dim)]
                            o, x = (vec, other) if which == "origin" else (other, vec)
                            size = [2 + i for i in range(dim)]
                            spec = dict(dim=dim, real=real, calls=[
                                ["grid", size, o, x], ["eul", {"a": "s"}]])
                            save_and_check(ctx, spec, os.path.join(d, "f.h5"), d=d)
        # whatever print options the program has set for numpy
        for options in (dict(suppress=True), dict(threshold=1, edgeitems=1), dict(precision=2),
                        dict(formatter={"all": "{:.1f}".format}), dict(sign="+"),
                        dict(linewidth=10), dict(floatmode="fixed"), dict(legacy="1.13")):
            for dim, real, m in itertools.product((2, 3), ("float64", "float32"), (1.0, 1e-9, 3e6)):
                with np.printoptions(**options):
                    ctx.count("print options")
                    save_and_check(ctx, dict(dim=dim, real=real, calls=[
                        ["grid", [3, 1024, 70][:dim], [m / 3, 0.0, 2 * m][:dim], [0.1 * m] * dim],
                        ["eul", {"a": "s", "b": "v"}],
                        ["lag", 0, "g", 1200, True, {"a": "v", "b": "s"}]]),
                        os.path.join(d, "f.h5"), d=d)
        # many cells: long numbers in the dimensions
        spec = dict(dim=3, real="float64", calls=[["grid", [1, 1, 12345], [0.0] * 3, [1e-3] * 3],
                                                  ["eul", {"a": "v"}],
                                                  ["lag", 0, None, 12345, True, {"a": "v", "b": "s"}]])
        save_and_check(ctx, spec, os.path.join(d, "f.h5"), d=d)
    elif kind == "names":
        for dim in (2, 3):
            for name in FILE_NAMES:
                for mode in ("absolute", "relative"):
                    d = work(ctx, "names")
                    full = os.path.join(d, name)
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    cwd = os.getcwd()
                    os.chdir(d)
                    try:
                        save_and_check(ctx, RICH[dim], full if mode == "absolute" else name,
                                       d=os.path.dirname(full))
                    finally:
                        os.chdir(cwd)
    elif kind == "times":
        d = work(ctx, "times")
        for t in TIMES:
            save_and_check(ctx, HIST_SPECS[0], os.path.join(d, "f.h5"), time=t, d=d)
    elif kind == "special":
        d = work(ctx, "special")
        words = ("p<q", "a&b", "x>y", "it's", "\u03c9", "with space", "c&lt;", "Grid", "Scalar", "Eulerian")
        for w in words:
            for dim in (2, 3):
                eul = [iolib.eul_options(dim)["s"][0], ["eul", {w: "s", "other": "v"}],
                       ["eul", {w + "v": "v"}]]
                save_and_check(ctx, dict(dim=dim, real="float64", calls=eul + [
                    ["lag", 0, w, 4, True, {w: "v", "s": "s"}], ["lag", 1, w + "2", 3, False, {w: "s"}]]),
                    os.path.join(d, "f.h5"), d=d)
    elif kind == "reserved":
        reserved(ctx)
    else:
        sequence(ctx, p)


REGS = {
    "both": dict(dim=2, real="float64", calls=iolib.eul_options(2)["s"] + [
        ["lag", 0, "g", 2, True, {"a": "v"}]]),
    "eul": dict(dim=3, real="float32", calls=iolib.eul_options(3)["s"]),
    "lag": dict(dim=2, real="float64", calls=[["lag", 0, "b_c", 3, False, {"a": "s"}],
                                              ["lag", 1, "c", 3, False, {"a": "s"}]]),
}
NAMES = ("a.h5", "b.h5", "a", "d/a.h5", "a_b.h5", "a.h5.h5", "x_eulerian.h5", "x.h5", "a.hdf5",
         "x_eulerian.xmf")
SAVES = [(r, n) for r in REGS for n in NAMES]
FEW = [(r, n) for r in REGS for n in ("a.h5", "d/a.h5", "a_b.h5")]


def stem(name):
    return name[:-3] if name.endswith(".h5") else name


def outputs(r, name):
    """Names of the files a save is known to write, for recognising the recorded collisions."""
    out = {name: "data"}
    spec = REGS[r]
    if any(c[0] == "eul" for c in spec["calls"]):
        out[stem(name) + "_eulerian.xmf"] = "description"
    for c in spec["calls"]:
        if c[0] == "lag":
            out[stem(name) + f"_{c[2]}.xmf"] = "description"
    return out


def collision(saves):
    """Key of the recorded defect two saves of a history run into, if any."""
    for (r1, n1), (r2, n2) in itertools.combinations(saves, 2):
        if n1 == n2:
            continue
        o1, o2 = outputs(r1, n1), outputs(r2, n2)
        for f in set(o1) & set(o2):
            if "data" in (o1[f], o2[f]):
                return "data-named-as-description"
            return "same-stem" if stem(n1) == stem(n2) else "joined-name"
    return None


def sequence(ctx, p):
    d = work(ctx, "seq")
    menu = SAVES if p["set"] == "all" else FEW
    first = menu[p["first"]]
    for tail in itertools.product(menu, repeat=p["n"] - 1):
        saves = (first,) + tail
        if len(set(n for _, n in saves)) < len(saves) - (p["n"] > 2):
            continue  # the same file every time: covered by shorter histories
        ctx.history = saves
        shutil.rmtree(d)
        os.makedirs(os.path.join(d, "d"))
        live = {}
        key = None
        for step, (r, n) in enumerate(saves):
            reg = regs(r)
            reg.fill(step + 1)
            path = os.path.join(d, n)
            # a description left by an earlier save of other contents to the same file is
            # not part of what is claimed
            if n in live:
                for f in outputs(live[n][0], n):
                    if os.path.exists(os.path.join(d, f)):
                        os.remove(os.path.join(d, f))
            reg.save(path, step + 0.5)
            live[n] = (r, step, reg.snap())
            ctx.transitions()
            key = collision([(v[0], k) for k, v in live.items()] + list(saves[:step + 1]))
            try:
                for name, (r2, s2, snap) in live.items():
                    check_saved(regs(r2), os.path.join(d, name), s2 + 0.5, snap)
                    got = walk(os.path.join(d, name))
                    if np.frombuffer(got["/@time"][2], got["/@time"][0]).item() != s2 + 0.5:
                        raise Bad(f"{name} holds another save")
            except (Bad, OSError) as b:
                if key is None:
                    ctx.fail(f"after save {step + 1}: {b}", saves)
                ctx.finding(key, f"{saves}: {b}")
                break
            ctx.state(tuple(sorted((k, v[0], v[1]) for k, v in live.items())))
        ctx.traces()


_REGS = {}


def regs(r):
    if r not in _REGS:
        _REGS[r] = Reg(REGS[r])
    return _REGS[r]


def reserved(ctx):
    """A grid named like the Eulerian description."""
    for dim in (2, 3):
        for eul in (False, True):
            d = work(ctx, "reserved")
            spec = dict(dim=dim, real="float64", calls=(iolib.eul_options(dim)["s"] if eul else []) + [
                ["lag", 0, "eulerian", 3, False, {"a": "s"}]])
            reg = Reg(spec)
            reg.fill(1)
            path = os.path.join(d, "f.h5")
            reg.save(path, 0.5)
            ctx.transitions()
            try:
                check_saved(reg, path, 0.5, reg.snap())
            except Bad as b:
                if not eul:
                    ctx.fail(str(b), spec)
                ctx.finding("grid-named-eulerian", f"{dim}D: {b}")
            ctx.state(("reserved", dim, eul))
            ctx.traces()
