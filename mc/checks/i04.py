"""I04 a crash or write error during save is never mistaken for a good file."""
import ctypes
import errno
import json
import os
import shutil
import subprocess
import sys

import numpy as np

import iolib
from iolib import Reg, differing, tick, time_bits

HERE = os.path.dirname(os.path.abspath(__file__))

BOUNDS = {
    "quick": "6 registrations x 4 earlier states of the target (absent, complete earlier save, larger save of "
             "other fields, not an HDF5 file): every prefix of the recorded file operations; every "
             "write torn at all byte positions (up to 128 bytes), else at multiples of 64 bytes and "
             "+-1 of the ends; a failure of every single open/write/truncate/rename with ENOSPC, EIO, "
             "EDQUOT (once, and from there on), short writes and EINTR at every write",
    "thorough": "as quick with writes torn at every byte (up to 4096 bytes; multiples of 16 beyond) and 12 "
                "registrations",
}
EXPLANATION = ("A preloaded shim records every file operation of a real save; all crash states are "
               "rebuilt from the record and loaded by the real code. Replaying the whole record must "
               "reproduce the real files. Fault injection runs the real save in a forked process for "
               "every operation index.")
ASSUMPTIONS = ["writes reach the file in the order they were issued",
               "an open that fails once and is tried again successfully is no reported error if the "
               "result is complete"]

SHIM = None


def prepare(scratch):
    so = os.path.join(scratch, "ioshim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so,
                    os.path.join(HERE, "..", "native", "ioshim.c"), "-ldl"], check=True)
    return dict(LD_PRELOAD=so, MC_SHIM=so)


class Rec(ctypes.Structure):
    _fields_ = [("type", ctypes.c_int), ("ct", ctypes.c_int), ("off", ctypes.c_long),
                ("len", ctypes.c_long), ("data", ctypes.c_void_p), ("path", ctypes.c_char_p),
                ("path2", ctypes.c_char_p), ("failed", ctypes.c_int)]


T_OPEN, T_WRITE, T_TRUNC, T_RENAME, T_UNLINK, T_CLOSE = range(1, 7)
M_NONE, M_ONCE, M_ALWAYS, M_SHORT = range(4)
NAMES = {T_OPEN: "open", T_WRITE: "write", T_TRUNC: "truncate", T_RENAME: "rename",
         T_UNLINK: "unlink", T_CLOSE: "close"}


def shim():
    global SHIM
    if SHIM is None:
        SHIM = ctypes.CDLL(os.environ["MC_SHIM"])
        SHIM.shim_start.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int]
        SHIM.shim_count.restype = ctypes.c_long
        SHIM.shim_get.argtypes = [ctypes.c_long]
        SHIM.shim_get.restype = ctypes.POINTER(Rec)
    return SHIM


class Op:
    def __init__(self, r):
        self.type, self.ct, self.off, self.len, self.failed = r.type, r.ct, r.off, r.len, r.failed
        self.path = r.path.decode()
        self.path2 = r.path2.decode() if r.path2 else None
        self.data = ctypes.string_at(r.data, r.len) if r.data else b""

    def __str__(self):
        s = f"{NAMES[self.type]} {os.path.basename(self.path)}"
        return s + (f" {self.len}@{self.off}" if self.type == T_WRITE else "")


def recorded():
    s = shim()
    return [Op(s.shim_get(i).contents) for i in range(s.shim_count())]


def specs(tier):
    from checks.i01 import HIST_SPECS, RICH

    out = list(HIST_SPECS) + [RICH[2], RICH[3]]
    big = dict(dim=2, real="float64", calls=[["grid", [130, 140], [0.0, 0.0], [0.1, 0.1]],
                                             ["eul", {"a": "s"}]])
    out.append(big)
    if tier == "thorough":
        out += [dict(dim=2, real="float32", calls=iolib.eul_options(2)[k]) for k in ("s", "v", "grid only")]
        out += [dict(dim=3, real="float64", calls=l) for l in list(iolib.triple_lag(3))[:2]]
        out.append(dict(dim=3, real="float64", calls=[["grid", [20, 24, 40], [0.0] * 3, [0.1] * 3],
                                                      ["eul", {"a": "v"}]]))
    return out


PRIORS = ("absent", "earlier", "other", "garbage")


def units(tier):
    us = []
    for i in range(len(specs(tier))):
        for prior in PRIORS:
            us.append(dict(name=f"crash {i} {prior}", cost=20, params=dict(kind="crash", spec=i, prior=prior)))
            us.append(dict(name=f"faults {i} {prior}", cost=20, params=dict(kind="fault", spec=i, prior=prior)))
    return us


class World:
    """A directory with the target file in its earlier state, and a save into it."""

    def __init__(self, ctx, spec, prior):
        self.ctx, self.spec, self.prior = ctx, spec, prior
        self.dir = os.path.realpath(os.path.join(ctx.scratch, "target"))
        self.path = os.path.join(self.dir, "f.h5")
        self.src, self.dst = Reg(spec), Reg(spec)
        self.before = {}  # file name -> bytes before the save
        self.old = None
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        if prior == "earlier":
            self.src.fill(5)
            self.old = (self.src.snap(), 0.25)
            self.src.save(self.path, 0.25)
        elif prior == "other":
            from checks.i01 import RICH

            r = Reg(dict(RICH[3], calls=RICH[3]["calls"] + [["lag", 7, "bulk", 900, True, {"q": "v"}]]))
            r.fill(3)
            r.save(self.path, 0.5)
            try:  # what is stored may include all that is registered here
                t = self.dst.load(self.path)
                self.old = (self.dst.snap(), t)
            except Exception:
                pass
        elif prior == "garbage":
            with open(self.path, "wb") as f:
                f.write(bytes(range(256)) * 40)
        self.before = self.files()
        self.src.fill(9)
        self.new = (self.src.snap(), 1.75)

    def files(self):
        out = {}
        for n in os.listdir(self.dir):
            with open(os.path.join(self.dir, n), "rb") as f:
                out[n] = f.read()
        return out

    def restore(self, files):
        for n in os.listdir(self.dir):
            if n not in files:
                os.remove(os.path.join(self.dir, n))
        for n, b in files.items():
            with open(os.path.join(self.dir, n), "wb") as f:
                f.write(b)

    def save(self, at=-1, err=0, mode=M_NONE):
        s = shim()
        tick()
        s.shim_start(self.dir.encode(), at, err, mode)
        try:
            self.src.io.save(h5_file_name=self.path, time=self.new[1])
        finally:
            s.shim_stop()

    def verdict(self, files, strict_new=False):
        """Load the target; None if acceptable, else what is wrong. Also says what happened."""
        self.dst.blank()
        try:
            t = self.dst.load(self.path)
        except Exception as e:
            return ("raised", f"load raises {type(e).__name__}" if strict_new else None)
        got = self.dst.snap()
        if got == self.new[0] and time_bits(t) == time_bits(self.new[1]):
            return ("new", None)
        if not strict_new and self.old is not None and files.get("f.h5") == self.before.get("f.h5") \
                and got == self.old[0] and time_bits(t) == time_bits(self.old[1]):
            return ("old", None)
        return ("wrong", f"load returned time {t} and data differing in {differing(got, self.new[0])} "
                         "from the save")


def apply(files, op, cut=None):
    """The files after one recorded operation (a write possibly torn)."""
    n = os.path.basename(op.path)
    if op.failed:
        return
    if op.type == T_OPEN:
        if op.ct & 2 and n in files or (op.ct & 1 and n not in files):
            files[n] = b""
    elif op.type == T_WRITE:
        data = op.data if cut is None else op.data[:cut]
        old = files.get(n, b"")
        if len(old) < op.off:
            old = old + bytes(op.off - len(old))
        files[n] = old[:op.off] + data + old[op.off + len(data):]
    elif op.type == T_TRUNC:
        old = files.get(n, b"")
        files[n] = old[:op.len] + bytes(max(0, op.len - len(old)))
    elif op.type == T_RENAME:
        files[os.path.basename(op.path2)] = files.pop(n)
    elif op.type == T_UNLINK:
        files.pop(n, None)


def cuts(n, tier):
    fine, step = (128, 64) if tier == "quick" else (4096, 16)
    if n > 40000:
        step = 4096 if tier == "quick" else 1024
    if n <= fine:
        return range(1, n)
    return sorted({1, 2, n - 1, n - 2} | set(range(step, n, step)))


def crash(ctx, w):
    w.save()
    ops = recorded()
    after = w.files()
    # the record is complete: replaying all of it gives the real files
    files = dict(w.before)
    for op in ops:
        apply(files, op)
    if files != after:
        raise RuntimeError(f"recorded operations do not reproduce {differing(files, after)}")
    ctx.traces()
    verdict = w.verdict(after, strict_new=True)
    if verdict[1]:
        ctx.fail(f"complete save: {verdict[1]}", dict(spec=w.spec, prior=w.prior))
    seen = {}
    files = dict(w.before)

    def visit(label):
        ctx.transitions()
        key = tuple(sorted((n, hash(b)) for n, b in files.items()))
        if key in seen:
            return
        seen[key] = label
        w.restore(files)
        what, bad = w.verdict(files)
        ctx.state((repr(w.spec), w.prior, key))
        ctx.count(f"crash states: load {what}")
        if bad:
            ctx.fail(f"crash {label}: {bad}", dict(spec=w.spec, prior=w.prior, crash=label,
                                                   operations=[str(o) for o in ops]))

    visit("before the first operation")
    for i, op in enumerate(ops):
        ctx.history = dict(spec=w.spec, prior=w.prior, operation=i, op=str(op))
        if op.type == T_WRITE and not op.failed:
            keep = dict(files)
            for c in cuts(op.len, ctx.tier):
                files.clear()
                files.update(keep)
                apply(files, op, c)
                visit(f"in operation {i} ({op}) after {c} bytes")
            files.clear()
            files.update(keep)
        apply(files, op)
        visit(f"after operation {i} ({op})")
    ctx.sample(dict(prior=w.prior, operations=[str(o) for o in ops][:40]))


def fault(ctx, w):
    w.save()
    ops = recorded()
    complete = w.files()
    sites = [i for i, o in enumerate(ops) if o.type != T_CLOSE]
    plan = []
    for i in sites:
        for err in (errno.ENOSPC, errno.EIO, errno.EDQUOT):
            plan += [(i, err, M_ONCE), (i, err, M_ALWAYS)]
        if ops[i].type == T_WRITE:
            plan += [(i, 0, M_SHORT), (i, errno.EINTR, M_SHORT)]
    for i, err, mode in plan:
        op = ops[i]
        label = (f"operation {i} ({op}) " + {M_ONCE: "fails once", M_ALWAYS: "and all later ones fail",
                                             M_SHORT: "is cut short" if not err else "is interrupted"}[mode]
                 + (f" with {errno.errorcode[err]}" if err else ""))
        detail = dict(spec=w.spec, prior=w.prior, fault=label, operations=[str(o) for o in ops])
        ctx.history = detail
        w.restore(w.before)
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            out = dict(raised=None)
            try:
                try:
                    w.save(i, err, mode)
                except BaseException as e:
                    out["raised"] = f"{type(e).__name__}: {e}"[:300]
                out["ops"] = [(o.type, o.failed) for o in recorded()]
                os.write(wr, json.dumps(out).encode())
            finally:
                os._exit(0)
        os.close(wr)
        text = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            text += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        ctx.transitions()
        if not text:
            ctx.fail(f"{label}: the saving process died with status {status}", detail)
        out = json.loads(text)
        files = w.files()
        hit = [k for k, (t, failed) in enumerate(out["ops"]) if failed and k >= i]
        if mode != M_SHORT and not hit:
            raise RuntimeError(f"fault not reached: {label}")
        if out["raised"] is None:
            # nothing was reported: the save has to be complete and exact
            what, bad = w.verdict(files, strict_new=True)
            if bad:
                ctx.fail(f"{label}: save returned normally, {bad}", detail)
            if files != complete and any(n not in files or not files[n] for n in complete):
                ctx.fail(f"{label}: save returned normally, files missing: "
                         f"{differing(files, complete)}", detail)
            if mode != M_SHORT:
                retried = all(out["ops"][k][0] == T_OPEN for k in hit) and mode == M_ONCE
                if not retried:
                    ctx.fail(f"{label}: the error was swallowed, save returned normally", detail)
            for n in complete:
                if n.endswith(".xmf") and files.get(n) != complete[n]:
                    ctx.fail(f"{label}: save returned normally, {n} is incomplete", detail)
            ctx.count("faults absorbed by a retry")
        else:
            what, bad = w.verdict(files)
            if bad:
                ctx.fail(f"{label}: save raised, but {bad}", detail)
            ctx.count(f"faults raised, then load {what}")
        ctx.state((repr(w.spec), w.prior, label))
    ctx.traces(len(plan))


def run_unit(ctx, p):
    w = World(ctx, specs(ctx.tier)[p["spec"]], p["prior"])
    if p["kind"] == "crash":
        crash(ctx, w)
    else:
        fault(ctx, w)
    shutil.rmtree(w.dir)
