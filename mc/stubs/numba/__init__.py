"""Stand-in for numba (not installed here): the decorated Python functions run unchanged.

sopht.numeric.immersed_boundary_ops only uses numba to compile functions written in the
NumPy subset of Python, so running them undecorated executes the same source.  Functions compiled
with parallel=True may run the iterations of their prange loops in any order and concurrently: the
checker chooses an order (set_order) and the elements each iteration changes are compared (races).
"""
import functools as _functools
import sys as _sys

import numpy as _np

__version__ = "0.55.2"
_order = None
_races = []
_arrays = None  # arrays the running parallel function can see
_loops = 0


def set_order(order):
    """Iteration order of parallel loops: None (as written) or a callable n -> sequence."""
    global _order, _loops
    _order = order
    _loops = 0
    del _races[:]


def races():
    return list(_races)


def parallel_loops():
    return _loops


def prange(*args):
    global _loops
    r = range(*args)
    if _order is None or _arrays is None:
        yield from r
        return
    # whatever the loop can change that outlives an iteration: arguments, arrays of the enclosing
    # functions and of the module, arrays made before the loop
    frame = _sys._getframe(1)
    arrays = list(_arrays)
    for a in list(frame.f_locals.values()) + list(frame.f_globals.values()):
        if isinstance(a, _np.ndarray) and not any(a is b for b in arrays):
            arrays.append(a)
    del frame
    _loops += 1
    last = [_np.full(a.shape, -1, dtype=_np.int64) for a in arrays]
    outer = _set_arrays(None)  # nested parallel loops run serially
    try:
        for k in _order(len(r)):
            before = [a.copy() for a in arrays]
            yield r[k]
            for j, (a, b) in enumerate(zip(arrays, before)):
                changed = (a != b) & ~((a != a) & (b != b))
                twice = changed & (last[j] >= 0) & (last[j] != k)
                if twice.any():
                    e = tuple(int(x) for x in _np.argwhere(twice)[0])
                    _races.append(f"array {j}, element {list(e)}: iterations "
                                  f"{int(last[j][e])} and {k}")
                last[j][changed] = k
    finally:
        _set_arrays(outer)


def _set_arrays(value):
    global _arrays
    old, _arrays = _arrays, value
    return old


def _parallel(function):
    @_functools.wraps(function)
    def run(*args, **kwargs):
        if _order is None:
            return function(*args, **kwargs)
        cells = [c.cell_contents for c in (function.__closure__ or ())]
        outer = _set_arrays([a for a in list(args) + list(kwargs.values()) + cells
                             if isinstance(a, _np.ndarray)])
        try:
            return function(*args, **kwargs)
        finally:
            _set_arrays(outer)

    return run


def _passthrough(*args, **kwargs):
    wrap = _parallel if kwargs.get("parallel") else lambda function: function
    if len(args) == 1 and callable(args[0]) and not isinstance(args[0], type):
        return wrap(args[0])
    return wrap


njit = jit = generated_jit = stencil = guvectorize = _passthrough


def vectorize(*args, **kwargs):
    if len(args) == 1 and not kwargs and callable(args[0]):
        return _np.vectorize(args[0])
    return _np.vectorize


def set_num_threads(n):
    return None


def get_num_threads():
    return 1
