"""Driving the real tracker on unstructured (triangular-style) meshes made of disconnected patches.

A patch is a prism ladder: 2 rings of n cells, each cell joined to its two ring neighbours and to the
cell of the other ring (3 neighbours each), or an open ladder whose ends miss a neighbour.
"""
import os, shutil, tempfile
import numpy as np
from . import common as C


def ladder(n, ring=True, base=0):
    """-> list of neighbour index lists (0-based, relative indices + base; -1 missing), for 2n cells."""
    nb = []
    for r in range(2):
        for i in range(n):
            l = (i - 1) % n if ring else i - 1
            q = (i + 1) % n if ring else i + 1
            row = [l if l >= 0 else -1, q if 0 <= q < n else -1]
            nb.append([base + r * n + k if k >= 0 else -1 for k in row] + [base + (1 - r) * n + i])
    return nb


def path(n, ring=True, base=0):
    """1-D ring/chain of n cells with two neighbours each (third missing)."""
    nb = []
    for i in range(n):
        l = (i - 1) % n if ring else i - 1
        q = (i + 1) % n if ring else i + 1
        nb.append([base + l if l >= 0 else -1, base + q if q < n else -1, -1])
    return nb


def ladderp(n, ring=True, base=0):
    """the ladder with every cell listing its neighbours in a different order"""
    nb = ladder(n, ring, base)
    perms = [(0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
    return [[row[p] for p in perms[(5 * i + i // 4) % 6]] for i, row in enumerate(nb)]


MESH = {"ladder": ladder, "ladderp": ladderp, "path": path}


def coords(kind, n, k):
    """lat/lon of the k-th patch's cells: patches lie on different latitude bands."""
    lat0 = -60 + 9.0 * k
    off = (0.0, 165.0, -95.0, 90.0, -170.0, 40.0)[k % 6]      # some rows lie across the date line
    if kind != "path":
        lon = np.tile(np.arange(n) * 5.0, 2)
        lat = np.repeat([lat0, lat0 + 4.0], n)
    else:
        lon = np.arange(n) * 5.0
        lat = np.full(n, lat0)
    lon = lon + off
    return lat, np.where(lon >= 180, lon - 360, lon)


class UBatch:
    """Boolean histories (T, cells) on copies of one patch mesh; stacked in time and over patches.

    The last patch holds a sacrificial object of 7 cells in slice 0 only (the absolute area filter needs
    one object of more than five cells), away from everything else."""
    def __init__(self, hists, kind, n, ring, rows):
        self.h, self.kind = hists, kind
        mk = MESH[kind]
        nc = len(mk(n, ring))
        self.nc = nc
        self.rows = max(1, min(rows, len(hists)))
        T = max(h.shape[0] for h in hists)
        ncol = -(-len(hists) // self.rows)
        nbs, lat, lon = [], [], []
        for k in range(self.rows):
            nbs += mk(n, ring, base=k * nc)
            la, lo = coords(kind, n, k)
            lat.append(la); lon.append(lo)
        nbs += path(8, False, base=self.rows * nc)
        lat.append(np.full(8, 80.0)); lon.append(np.arange(8) * 3.0)
        self.nb = np.array(nbs).T           # (3, cells), -1 missing
        self.lat, self.lon = np.concatenate(lat), np.concatenate(lon)
        N = self.nb.shape[1]
        self.big = np.zeros((2 + ncol * (T + 1), N), bool)
        self.big[0, N - 8:N - 1] = True
        self.pos = []
        for i, h in enumerate(hists):
            c, r = divmod(i, self.rows)
            t0 = 2 + c * (T + 1)
            self.big[t0:t0 + h.shape[0], r * nc:(r + 1) * nc] = h
            self.pos.append((t0, r * nc))

    def patch(self, f, i):
        t0, c0 = self.pos[i]
        return f[t0:t0 + self.h[i].shape[0], c0:c0 + self.nc]


def utrack(big, nb, lat, lon, tchunk=None, areas=None, mask=None, dims=("time", "ncells"), order=None, coordinates=None,
           load=True, scratch=None, **kw):
    import xarray as xr
    marEx = C.load()
    T, N = big.shape
    td, xd = dims
    t = (np.datetime64("2000-01-01") + np.arange(T)).astype("datetime64[ns]")
    co = {"lat": (xd, np.asarray(lat, "f4")), "lon": (xd, np.asarray(lon, "f4"))}
    da = xr.DataArray(big, dims=dims, coords={td: t, **co})
    if order:
        da = da.transpose(*order)
    da = da.chunk({td: tchunk or T, xd: -1})
    m = xr.DataArray(np.ones(N, bool) if mask is None else np.asarray(mask, bool), dims=(xd,), coords=co).chunk()
    nbr = xr.DataArray(nb + 1, dims=("nv", xd), coords=co).chunk()
    ar = xr.DataArray(np.ones(N, "f4") if areas is None else np.asarray(areas, "f4"), dims=(xd,), coords=co).chunk()
    k = dict(R_fill=0, T_fill=0, area_filter_absolute=1, allow_merging=True, overlap_threshold=0.5, nn_partitioning=False,
             quiet=True, coordinate_units="degrees")
    k.update(kw)
    own = scratch is None
    scratch = scratch or tempfile.mkdtemp(dir=C.SCRATCH)
    try:
        with C.real("unstructured tracker.run"):
            tr = marEx.tracker(da, m, unstructured_grid=True, dimensions={"time": td, "x": xd},
                               coordinates=coordinates or {"time": td, "x": "lon", "y": "lat"},
                               neighbours=nbr, cell_areas=ar, temp_dir=scratch, **k)
            ev, mg = tr.run(return_merges=True)
            return ev.load(), mg.load()
    finally:
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
