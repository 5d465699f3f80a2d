"""Boring reference for gridded preprocessing: disk closing+opening, temporal closing, area filter."""
import numpy as np


def _shift(a, dy, dx):
    out = np.zeros_like(a)
    H, W = a.shape[-2:]
    ys, yd = (slice(dy, H), slice(0, H - dy)) if dy >= 0 else (slice(0, H + dy), slice(-dy, H))
    xs, xd = (slice(dx, W), slice(0, W - dx)) if dx >= 0 else (slice(0, W + dx), slice(-dx, W))
    out[..., yd, xd] = a[..., ys, xs]
    return out


def disk(R):
    return [(dy, dx) for dy in range(-R, R + 1) for dx in range(-R, R + 1) if dy * dy + dx * dx <= R * R]


def dil(a, off):
    out = np.zeros_like(a)
    for dy, dx in off:
        out |= _shift(a, dy, dx)
    return out


def ero(a, off):
    return ~dil(~a, off)


def fill(a, R, wrap=True, mask=None):
    """closing then opening of every slice of a (..., Y, X) with the disk of radius R; then mask."""
    out = a.copy()
    if R > 0:
        h = 6 * R + 3
        p = np.pad(a, [(0, 0)] * (a.ndim - 2) + [(h, h), (0, 0)], mode="edge")
        p = np.pad(p, [(0, 0)] * (a.ndim - 1) + [(h, h)], mode="wrap" if wrap else "edge")
        off = disk(R)
        out = dil(ero(ero(dil(p, off), off), off), off)[..., h:-h, h:-h]
    return out if mask is None else out & mask


def tclose(a, n):
    """closing along axis 0 of gaps of at most n steps; nothing added at the ends."""
    if n == 0:
        return a.copy()
    out = a.copy()
    T = a.shape[0]
    last = np.full(a.shape[1:], -10 ** 6)
    for t in range(T):
        now = a[t]
        gap = t - last - 1
        br = now & (gap <= n) & (gap > 0)
        for s in range(max(0, t - n), t):
            out[s] |= br & (s > last)
        last = np.where(now, t, last)
    return out


def labels(a, wrap=True):
    """8-connected components of every slice: list of (t, list of cells), raster order."""
    from .model_track import components
    out = []
    for t in range(a.shape[0]):
        cells = [(int(y), int(x)) for y, x in zip(*np.nonzero(a[t]))]
        out += [(t, c) for c in components(cells, a.shape[2], wrap)]
    return out


def preprocess(a, R, T, mask, wrap=True):
    b = fill(a, R, wrap, mask)
    if T:
        b = fill(tclose(b, T), R // 2, wrap, mask)
    return b
