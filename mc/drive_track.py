"""Driving the real gridded tracker on batches of small independent histories."""
import numpy as np
from . import common as C

BASE_KW = dict(R_fill=0, T_fill=0, area_filter_absolute=1, allow_merging=True, overlap_threshold=0.5,
               nn_partitioning=False, quiet=True, coordinate_units="degrees")


def make(a, tchunk=None, lat=None, lon=None, mask=None, dims=("time", "lat", "lon"), order=None, dtype_coord="f8"):
    import xarray as xr
    T, Y, X = a.shape
    lat = np.linspace(-40, 40, Y).astype(dtype_coord) if lat is None else np.asarray(lat)
    lon = (np.arange(X) * (360.0 / X)).astype(dtype_coord) if lon is None else np.asarray(lon)
    t = (np.datetime64("2000-01-01") + np.arange(T)).astype("datetime64[ns]")
    td, yd, xd = dims
    da = xr.DataArray(np.ascontiguousarray(a, dtype=bool), dims=dims, coords={td: t, yd: lat, xd: lon})
    m = xr.DataArray(np.ones((Y, X), bool) if mask is None else np.asarray(mask, bool), dims=(yd, xd),
                     coords={yd: lat, xd: lon})
    if order:
        da = da.transpose(*order)
    da = da.chunk({td: tchunk or T, yd: -1, xd: -1})
    return da, m


def track(a, tchunk=None, mask=None, lat=None, lon=None, regional=False, make_kw=None, areas=None, **kw):
    """One real tracker run. Returns (events_ds loaded, merges_ds loaded).
    areas: scale of physical cell areas that differ by a factor of up to 9 between neighbouring cells"""
    marEx = C.load()
    k = dict(BASE_KW); k.update(kw)
    da, m = make(a, tchunk, lat, lon, mask, **(make_kw or {}))
    if areas:
        iy, ix = np.indices(m.shape)
        k["cell_areas"] = m.astype("f4").copy(data=(areas * (1 + 2 * ((3 * iy + 2 * ix) % 5))).astype("f4"))
    with C.real("tracker.run"):
        if regional:
            k["regional_mode"] = True
        tr = marEx.tracker(da, m, **k)
        if k.get("allow_merging"):
            ev, mg = tr.run(return_merges=True)
            return ev.load(), mg.load()
        return tr.run().load(), None


class Batch:
    """Histories (T,Y,X) of equal X, stacked in time (one empty slice between) and rows (one empty row between).

    Time slice 0 holds a single sacrificial cell, slice 1 is empty (see known finding KF1: the first
    identified object is dropped by the gridded area filter; nothing is asserted about it here).
    """
    def __init__(self, hists, rows):
        self.h = hists
        self.rows = max(1, min(rows, len(hists)))
        X = hists[0].shape[2]
        Y = max(x.shape[1] for x in hists)
        T = max(x.shape[0] for x in hists)
        ncol = -(-len(hists) // self.rows)
        self.big = np.zeros((2 + ncol * (T + 1), self.rows * (Y + 1) - 1, X), bool)
        self.big[0, 0, 0] = True
        self.pos = []
        for i, x in enumerate(hists):
            c, r = divmod(i, self.rows)
            t0, y0 = 2 + c * (T + 1), r * (Y + 1)
            self.big[t0:t0 + x.shape[0], y0:y0 + x.shape[1]] = x
            self.pos.append((t0, y0))
        self.Y, self.T = Y, T

    def patch(self, field, i):
        t0, y0 = self.pos[i]
        x = self.h[i]
        return field[t0:t0 + x.shape[0], y0:y0 + x.shape[1]]


def split_events(field):
    """ID field (T,Y,X) -> frozenset of frozenset of (t,y,x)."""
    out = {}
    for t, y, x in zip(*np.nonzero(field)):
        out.setdefault(int(field[t, y, x]), set()).add((int(t), int(y), int(x)))
    return frozenset(frozenset(v) for v in out.values())


def cells_of(hist):
    return [[(int(y), int(x)) for y, x in zip(*np.nonzero(s))] for s in hist]


def hist_from_bits(bits, T, Y, X):
    n = T * Y * X
    return np.array([(bits >> k) & 1 for k in range(n)], bool).reshape(T, Y, X)


def canonical_bits(T, Y, X, rot=True, flip=True, trim=True):
    """All T*Y*X-bit histories up to longitude rotation and latitude flip (both are symmetries of the
    property; the code's own symmetry is checked by T05), whose first and last slice are non-empty."""
    n = Y * X
    perms = []
    idx = np.arange(n).reshape(Y, X)
    for r in range(X if rot else 1):
        a = np.roll(idx, r, axis=1)
        perms.append(a.ravel())
        if flip and Y > 1:
            perms.append(a[::-1].ravel())
    # slice value after permutation, as lookup tables
    vals = np.arange(1 << n)
    bits = (vals[:, None] >> np.arange(n)) & 1
    tabs = [(bits[:, p] << np.arange(n)).sum(1) for p in perms]
    grids = np.meshgrid(*[vals] * T, indexing="ij")
    flat = [g.ravel() for g in grids]
    code = sum(f.astype(np.int64) << (n * k) for k, f in enumerate(flat))
    keep = np.ones(len(code), bool)
    for tb in tabs[1:]:
        c2 = sum(tb[f].astype(np.int64) << (n * k) for k, f in enumerate(flat))
        keep &= code <= c2
    if trim:
        keep &= (flat[0] != 0) & (flat[-1] != 0)
    return np.sort(code[keep])
