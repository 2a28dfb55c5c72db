"""P03 FFT wrappers."""
import itertools

import numpy as np

from arrays import EPS, NP, pattern, rough, worst

BOUNDS = {
    "quick": "2D: all shapes 2..8 x 2..9; 3D: all shapes 2..5 x 2..5 x 2..6, 12 larger shapes up to 128x130 and 32x32x31; both "
             "precisions, threads 1,2; every unit impulse up to 40 points, generic fields; all "
             "histories of depth 3 over {forward, inverse, both helpers} x {caller arrays, plan "
             "buffers} x 2 plan objects",
    "thorough": "as quick, 2D up to 12 x 13, 3D up to 7 x 7 x 8, histories of depth 4",
}
EXPLANATION = ("The real FFTW plans and scipy helpers are run on every basis field and on all "
               "bounded histories, against a direct (matrix) DFT in double precision.")
ASSUMPTIONS = ["FFTW's multi-dimensional inverse overwrites its input array (documented by FFTW), "
               "so the spectrum argument of an inverse is not read afterwards"]


def units(tier):
    us = []
    q = tier == "quick"
    s2 = list(itertools.product(range(2, 9 if q else 13), range(2, 10 if q else 14)))
    m = range(2, 6 if q else 8)
    s3 = list(itertools.product(m, m, range(2, 7 if q else 9)))
    s2 += [(16, 15), (31, 32), (64, 9), (64, 48), (7, 100), (101, 8), (128, 130)]
    s3 += [(8, 9, 10), (7, 16, 5), (16, 18, 20), (33, 6, 7), (32, 32, 31)]
    for d, sh in ((2, s2), (3, s3)):
        for dt in ("float64", "float32"):
            for i in range(6):
                us.append(dict(name=f"transforms {d}d {dt} part {i}", cost=5,
                               params=dict(kind="shapes", dim=d, dtype=dt, shapes=sh[i::6],
                                           threads=1 + i % 2)))
            if dt == "float64":
                us.append(dict(name=f"both precisions {d}d", cost=4, params=dict(kind="mixed", dim=d)))
            for shape in ((4, 5), (5, 6)) if d == 2 else ((3, 4, 5), (2, 3, 4)):
                us.append(dict(name=f"histories {shape} {dt}", cost=6,
                               params=dict(kind="hist", shape=shape, dtype=dt)))
    return us


def make(ctx, shape, dt, threads):
    """A plan object; its buffers have the shapes of a field and of its spectrum."""
    f = construct(shape, dt, threads)
    for got, want, name in ((f.field_pyfftw_buffer, tuple(shape), "field"),
                            (f.fourier_field_pyfftw_buffer, cshape(shape), "spectrum")):
        if got.shape != want:
            ctx.fail(f"{name} buffer of a {dt} plan on {shape} has shape {got.shape}, not {want}",
                     dict(shape=shape, dtype=dt, threads=threads))
    return f


def construct(shape, dt, threads):
    from sopht.numeric.eulerian_grid_ops import FFTPyFFTW2D, FFTPyFFTW3D

    kw = dict(zip(("grid_size_x", "grid_size_y", "grid_size_z"), shape[::-1]))
    opts = dict(num_threads=threads, real_t=NP[dt])
    if sum(shape) % 2:  # arguments that equal the documented defaults are left out
        opts = {k: v for k, v in opts.items() if v != dict(num_threads=1, real_t=np.float64)[k]}
    return (FFTPyFFTW2D if len(shape) == 2 else FFTPyFFTW3D)(**kw, **opts)


def scipy_helper(dim):
    import sopht.numeric.eulerian_grid_ops as m

    return getattr(m, f"fft_ifft_via_scipy_kernel_{dim}d")


def dft(x):
    """Real-to-complex DFT by direct summation along each axis."""
    y = x.astype(complex)
    for ax, n in enumerate(x.shape):
        k = np.arange(n)
        W = np.exp(-2j * np.pi * (np.outer(k, k) % n) / n)
        y = np.moveaxis(np.tensordot(W, y, axes=(1, ax)), 0, ax)
    return y[..., : x.shape[-1] // 2 + 1]


def empty(shape, dt, cplx=False):
    import pyfftw

    t = NP[dt] if not cplx else (np.complex64 if dt == "float32" else np.complex128)
    a = pyfftw.empty_aligned(shape, dtype=t)
    a[...] = 3.25
    return a


def cshape(shape):
    return tuple(shape[:-1]) + (shape[-1] // 2 + 1,)


def run_unit(ctx, p):
    if p["kind"] == "hist":
        return histories(ctx, p)
    if p["kind"] == "mixed":  # plans that differ in one option only, one after the other
        shps = [(4, 5), (5, 4), (4, 4)] if p["dim"] == 2 else [(3, 2, 4), (2, 3, 4), (4, 3, 2)]
        for dt, th in (("float64", 1), ("float32", 1), ("float64", 2), ("float32", 8)):
            run_unit(ctx, dict(kind="shapes", dtype=dt, shapes=shps, threads=th))
        return
    dt = p["dtype"]
    eps = EPS[dt]
    for shape in map(tuple, p["shapes"]):
        n = int(np.prod(shape))
        dim = len(shape)
        ctx.history = dict(shape=shape, dtype=dt, threads=p["threads"])
        f = make(ctx, shape, dt, p["threads"])
        helper = scipy_helper(dim)
        cells = list(range(n)) if n <= 40 else [0, 1, n // 2, n - 1]
        for case in cells + ["generic 1", "generic 2", "constant", "large", "tiny", "zero"]:
            x = np.zeros(shape)
            if isinstance(case, int):
                x.reshape(-1)[case] = 1.0
            elif case == "constant":
                x[...] = 1.0
            else:
                x = (rough if case == "generic 2" else pattern)(shape, len(case)) * {"large": 2.0**40, "tiny": 2.0**-60, "zero": 0.0}.get(case, 1)
            X = empty(shape, dt)
            X[...] = x
            exp = dft(X.astype(float))
            mag = max(float(np.abs(X.astype(float)).sum()), 1e-30)
            F = empty(cshape(shape), dt, True)
            f.fft_plan(input_array=X, output_array=F)
            verify(ctx, F, exp, 100 * eps * mag, f"forward transform of {case} on {shape} {dt}")
            if not np.array_equal(X, x.astype(NP[dt])):
                ctx.fail("forward transform modified its input", ctx.history)
            Y = empty(shape, dt)
            f.ifft_plan(input_array=F, output_array=Y)
            verify(ctx, Y, X.astype(float), 100 * eps * mag, f"inverse of forward of {case} on "
                                                           f"{shape} {dt}")
            F[...], Y[...] = 1.5, 2.5
            f.fft_ifft_plan_kernel(fourier_field=F, inv_fourier_field=Y, field=X)
            verify(ctx, Y, X.astype(float), 100 * eps * mag, f"forward-and-inverse of {case} on "
                                                            f"{shape} {dt}")
            F[...], Y[...] = 1.5, 2.5
            helper(fourier_field=F, inv_fourier_field=Y, field=X, num_threads=p["threads"])
            verify(ctx, F, exp, 100 * eps * mag, f"scipy helper spectrum of {case} on {shape}")
            verify(ctx, Y, X.astype(float), 100 * eps * mag, f"scipy helper inverse of {case} on "
                                                            f"{shape}")
            ctx.transitions(4)
            ctx.traces()
            ctx.state((shape, dt, case, p["threads"]))
            if not np.array_equal(X, x.astype(NP[dt])):
                ctx.fail("a transform modified its input field", ctx.history)
        # plan buffers
        g = make(ctx, shape, dt, p["threads"])
        g.field_pyfftw_buffer[...] = pattern(shape, 8)
        exp = dft(g.field_pyfftw_buffer.astype(float))
        mag = float(np.abs(exp).max()) + 1
        x0 = g.field_pyfftw_buffer.copy()
        g.fft_plan(input_array=g.field_pyfftw_buffer, output_array=g.fourier_field_pyfftw_buffer)
        verify(ctx, g.fourier_field_pyfftw_buffer, exp, 100 * eps * mag, f"forward in plan buffers "
                                                                         f"on {shape}")
        g.field_pyfftw_buffer[...] = 0
        g.ifft_plan(input_array=g.fourier_field_pyfftw_buffer, output_array=g.field_pyfftw_buffer)
        verify(ctx, g.field_pyfftw_buffer, x0.astype(float), 100 * eps * mag,
               f"inverse in plan buffers on {shape}")
        for a, name, cp in ((f.field_pyfftw_buffer, "field", False),
                            (f.fourier_field_pyfftw_buffer, "fourier", True)):
            want = NP[dt] if not cp else (np.complex64 if dt == "float32" else np.complex128)
            if a.dtype != want:
                ctx.fail(f"{name} buffer has precision {a.dtype}", ctx.history)


def verify(ctx, got, exp, tol, what):
    idx, d = worst(got, exp)
    if d > tol:
        ctx.fail(f"{what}: element {idx} is {got[idx]!r}, expected {exp[idx]!r} "
                 f"({d:.3g} > {tol:.3g})", ctx.history)


def histories(ctx, p):
    shape, dt = tuple(p["shape"]), p["dtype"]
    eps = EPS[dt]
    dim = len(shape)
    helper = scipy_helper(dim)
    plans = [make(ctx, shape, dt, 1), make(ctx, shape, dt, 2)]
    xs = [pattern(shape, 1), pattern(shape, 2)]
    specs = [dft(x) for x in xs]
    mag = 50 * eps * max(float(np.abs(s).max()) for s in specs)
    depth = 3 if ctx.tier == "quick" else 4
    alphabet = [(op, pl, arr, d) for op in ("fwd", "inv", "both", "scipy") for pl in range(2)
                for arr in ("caller", "buffer") for d in range(2)
                if not (op in ("scipy", "both") and arr == "buffer")]
    if depth == 4:
        alphabet = [a for a in alphabet if not (a[0] == "scipy" and a[1])]
    hists = itertools.chain(
        itertools.product(alphabet, repeat=depth),
        [tuple(alphabet[(k * k + k // 3) % len(alphabet)] for k in range(400))])
    for hist in hists:
        ctx.history = dict(shape=shape, dtype=dt, history=hist)
        X, F, Y = empty(shape, dt), empty(cshape(shape), dt, True), empty(shape, dt)
        for op, pl, arr, d in hist:
            f = plans[pl]
            ctx.transitions()
            if op == "fwd":
                a, o = (X, F) if arr == "caller" else (f.field_pyfftw_buffer,
                                                       f.fourier_field_pyfftw_buffer)
                a[...] = xs[d]
                f.fft_plan(input_array=a, output_array=o)
                ok = np.abs(o - specs[d]).max() <= mag
            elif op == "inv":
                a, o = (F, Y) if arr == "caller" else (f.fourier_field_pyfftw_buffer,
                                                       f.field_pyfftw_buffer)
                a[...] = specs[d]
                f.ifft_plan(input_array=a, output_array=o)
                ok = np.abs(o - xs[d]).max() <= mag
            elif op == "both":
                X[...] = xs[d]
                f.fft_ifft_plan_kernel(fourier_field=F, inv_fourier_field=Y, field=X)
                ok = np.abs(Y - xs[d]).max() <= mag and np.array_equal(X, xs[d].astype(NP[dt]))
            else:
                X[...] = xs[d]
                helper(fourier_field=F, inv_fourier_field=Y, field=X)
                ok = np.abs(Y - xs[d]).max() <= mag and np.abs(F - specs[d]).max() <= mag
            if not ok:
                ctx.fail(f"history {hist[:8]}: {op} on plan {pl} gives a wrong transform", ctx.history)
        ctx.traces()
        ctx.state((shape, dt, hist))
