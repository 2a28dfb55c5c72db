"""Kernels on the controlled OpenMP runtime (native/mcrt.c): teams, orders, access sets."""
import ctypes
import os
import subprocess

import numpy as np

import fastcc

HERE = os.path.dirname(os.path.abspath(__file__))
_LIB = None


def prepare(scratch):
    """Build the runtime and a compiler configuration for pystencils that uses it."""
    so = os.path.join(scratch, "libmcrt.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-fvisibility=hidden", "-o", so,
                    os.path.join(HERE, "native", "mcrt.c")], check=True)
    cxx = os.path.join(scratch, "cxx")
    with open(cxx, "w") as f:
        f.write(f"""#!/bin/bash
for a in "$@"; do [ "$a" = -c ] && exec g++ "$@"; done
args=()
for a in "$@"; do case "$a" in -fsanitize=thread|-fopenmp) ;; *) args+=("$a");; esac; done
exec g++ "${{args[@]}}" -L{scratch} -lmcrt -Wl,-rpath,{scratch}
""")
    os.chmod(cxx, 0o755)
    env = fastcc.prepare(scratch, "-O1 -fno-tree-loop-distribute-patterns -DNDEBUG -fPIC -fopenmp "
                                  "-fsanitize=thread -std=c++11", command=cxx)
    return dict(env, MC_RT=so)


def lib():
    global _LIB
    if _LIB is None:
        _LIB = ctypes.CDLL(os.environ["MC_RT"])
        _LIB.mc_arena_add.argtypes = [ctypes.c_size_t, ctypes.c_size_t, ctypes.c_int]
        _LIB.mc_arena_writes.restype = ctypes.c_void_p
        _LIB.mc_arena_reads.restype = ctypes.c_void_p
        _LIB.mc_order.argtypes = [ctypes.POINTER(ctypes.c_int), ctypes.c_int]
        _LIB.mc_stats.argtypes = [ctypes.POINTER(ctypes.c_long)]
    return _LIB


class Shadow:
    """Access counts of one allocation, by element."""

    def __init__(self, arr):
        L = lib()
        self.arr = arr
        comps = 2 if arr.dtype.kind == "c" else 1
        g = arr.dtype.itemsize // comps
        n = arr.size * comps
        self.i = L.mc_arena_add(arr.__array_interface__["data"][0], arr.nbytes, g)
        if self.i < 0:
            raise RuntimeError("too many arenas")
        order = "F" if arr.flags.f_contiguous and not arr.flags.c_contiguous else "C"

        def wrap(ptr, ct, dt):
            a = np.frombuffer((ct * n).from_address(ptr), dtype=dt)
            return a.reshape(arr.shape + (comps,)) if order == "C" else \
                np.moveaxis(a.reshape(arr.shape[::-1] + (comps,)).transpose(
                    tuple(range(arr.ndim))[::-1] + (arr.ndim,)), -1, -1)

        self.writes = wrap(L.mc_arena_writes(self.i), ctypes.c_uint16, np.uint16)
        self.reads = wrap(L.mc_arena_reads(self.i), ctypes.c_uint8, np.uint8)


class Monitor:
    """Access monitor over a set of named arrays: views inside larger allocations."""

    def __init__(self, allocations):
        """allocations: name -> base array (contiguous)."""
        lib().mc_arenas_clear()
        self.shadow = {n: Shadow(a) for n, a in allocations.items()}

    def start(self, team=0, default=1, order=None):
        L = lib()
        L.mc_reset(int(team), int(default))
        if order is not None:
            L.mc_order((ctypes.c_int * len(order))(*order), len(order))

    def stats(self):
        o = (ctypes.c_long * 16)()
        lib().mc_stats(o)
        keys = ("regions", "conflicts", "switches", "accesses", "team", "barriers", "requested")
        d = {k: int(o[i]) for i, k in enumerate(keys)}
        d["first"] = [int(x) for x in o[7:13]]
        return d

    def where(self, addr):
        for n, s in self.shadow.items():
            lo = s.arr.__array_interface__["data"][0]
            if lo <= addr < lo + s.arr.nbytes:
                e = (addr - lo) // s.arr.itemsize
                order = "C" if s.arr.flags.c_contiguous else "F"
                return f"{n}{[int(x) for x in np.unravel_index(e, s.arr.shape, order=order)]}"
        return "memory outside the arrays"

    def writes(self):
        return {n: s.writes.copy() for n, s in self.shadow.items()}

    def reads(self):
        return {n: s.reads.copy() for n, s in self.shadow.items()}
