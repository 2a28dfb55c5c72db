"""Reference immersed-boundary operators built from the one-dimensional kernels (double)."""
import numpy as np

from checks.l01 import phi


class Stencil:
    """Support and weights (times cell volume) of the nodes at pos (dim, n), cosine kernel."""

    def __init__(self, pos, dx, shift, kern="cosine"):
        pos = np.asarray(pos, float)
        self.dim, self.n = pos.shape
        self.dx = dx
        self.idx = np.floor((pos - shift) / dx + 1e-9).astype(int)
        offs = np.arange(-1, 3)
        self.w = []
        self.blocks = []
        for k in range(self.n):
            w = np.ones((4,) * self.dim)
            for a in range(self.dim):
                d = ((self.idx[a, k] + offs) * dx + shift - pos[a, k]) / dx
                shape = [1] * self.dim
                shape[self.dim - 1 - a] = 4
                w = w * phi(kern, d).reshape(shape)
            self.w.append(w)
            self.blocks.append((Ellipsis,) + tuple(
                slice(i - 1, i + 3) for i in self.idx[::-1, k]))

    def interpolate(self, field):
        return np.array([[(field[c][b] * w).sum() for w, b in zip(self.w, self.blocks)]
                         for c in range(len(field))])

    def spread(self, grid, lag, divide_by_volume):
        out = grid.copy()
        vol = self.dx**self.dim if divide_by_volume else 1.0
        for k, (w, b) in enumerate(zip(self.w, self.blocks)):
            for c in range(len(lag)):
                out[c][b[1:]] += lag[c, k] * w / vol
        return out
