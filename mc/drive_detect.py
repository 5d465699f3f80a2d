"""Driver for the detection half: builds small inputs (many series packed side by side in space) and calls the
real public functions."""
import numpy as np
from . import common as C

_ds = {}


def days(start, n, step=1):
    return np.datetime64(start) + np.arange(n) * np.timedelta64(step, "D")


def axis(kind):
    """named time axes; ('daily', start, n) | ('step', start, n, days) | ('months', start, n) | ('drop', start, n, [i..])
    | ('dropyear', start, n, year) | ('parts', year, nyears) | ('hours', start, n, h)"""
    k = kind[0]
    if k == "daily":
        t = days(kind[1], kind[2])
    elif k == "step":
        t = days(kind[1], kind[2], kind[3])
    elif k == "months":
        t = (np.datetime64(kind[1], "M") + np.arange(kind[2])).astype("datetime64[D]")
    elif k == "drop":
        t = np.delete(days(kind[1], kind[2]), list(kind[3]))
    elif k == "dropyear":
        t = days(kind[1], kind[2]); t = t[t.astype("datetime64[Y]").astype(int) + 1970 != kind[3]]
    elif k == "parts":                           # the days from 24 Dec to 3 Jan and around the end of February, for many years
        t = days(f"{kind[1]}-01-01", kind[2] * 366)
        md = (t - t.astype("datetime64[M]").astype("datetime64[D]")).astype(int) + 1 + 100 * (t.astype("datetime64[M]").astype(int) % 12 + 1)
        y = t.astype("datetime64[Y]").astype(int) + 1970
        t = t[(y < kind[1] + kind[2]) & ((md >= 1229) | (md <= 102) | ((md >= 228) & (md <= 301)))]
    elif k == "hours":
        t = np.datetime64(kind[1], "h") + np.arange(kind[2]) * np.timedelta64(kind[3], "h")
    else:
        raise ValueError(kind)
    return t.astype("datetime64[ns]")


def year_doy(t):
    d = t.astype("datetime64[D]")
    y = d.astype("datetime64[Y]")
    return y.astype(int) + 1970, (d - y.astype("datetime64[D]")).astype(int) + 1


def decimal_year(t):
    y, doy = year_doy(t)
    leap = ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)
    return y + (doy - 1) / np.where(leap, 366, 365)


DIMS_U = {"time": "time", "x": "ncells"}
COORDS_U = {"time": "time", "x": "lon", "y": "lat"}


def unstructured(data, t, chunks=None, name="sst"):
    """data: (time, cells)"""
    import xarray as xr
    n = data.shape[1]
    da = xr.DataArray(np.asarray(data, np.float32), dims=("time", "ncells"), name=name,
                      coords={"time": t, "lon": ("ncells", np.linspace(-179, 179, n)), "lat": ("ncells", np.linspace(-80, 80, n))})
    return da.chunk(chunks or {"time": -1, "ncells": -1})


def gridded(data, t, chunks=None, name="sst"):
    import xarray as xr
    _, Y, X = data.shape
    da = xr.DataArray(np.asarray(data, np.float32), dims=("time", "lat", "lon"), name=name,
                      coords={"time": t, "lat": np.linspace(-40., 40., Y) if Y > 1 else np.zeros(1), "lon": np.arange(X) * (360. / X)})
    return da.chunk(chunks or {"time": -1, "lat": -1, "lon": -1})


def grid_shape(n):
    """a (Y, X) with Y*X >= n, both > 1"""
    X = int(np.ceil(np.sqrt(n)))
    return max(2, int(np.ceil(n / X))), max(2, X)


def layout(data, kind, t, chunks=None):
    """pack (time, cells) either unstructured or gridded; returns (da, kwargs, unpack)"""
    if kind == "u":
        ch = {"time": chunks or -1, "ncells": -1} if not isinstance(chunks, dict) else chunks
        return (unstructured(data, t, ch), dict(dimensions=dict(DIMS_U), coordinates=dict(COORDS_U)),
                lambda a: np.asarray(a.transpose(..., "ncells").values))
    n = data.shape[1]
    Y, X = grid_shape(n)
    full = np.zeros((data.shape[0], Y * X), np.float32); full[:, :n] = data
    ch = {"time": chunks or -1, "lat": -1, "lon": -1} if not isinstance(chunks, dict) else chunks
    da = gridded(full.reshape(-1, Y, X), t, ch)
    return da, {}, lambda a: (lambda v: v.reshape(v.shape[:-2] + (-1,))[..., :n])(np.asarray(a.transpose(..., "lat", "lon").values))


def call(what, fn, *a, **k):
    with C.real(what):
        return fn(*a, **k)


def warm():
    """compile what the exact percentile compiles (shared by forked workers)"""
    mx = C.load()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = axis(("daily", "2001-01-01", 6))
        for dt in (np.float32, np.float64):
            da = gridded(np.arange(24.0).reshape(6, 2, 2), t).astype(dt)
            e, th = mx.identify_extremes(da, method_extreme="global_extreme", threshold_percentile=80, method_percentile="exact")
            th.compute()
            da = unstructured(np.arange(24.0).reshape(6, 4), t).astype(dt)
            e, th = mx.identify_extremes(da, method_extreme="global_extreme", threshold_percentile=80, method_percentile="exact", dimensions=dict(DIMS_U), coordinates=dict(COORDS_U))
            th.compute()


def plain():
    """use xarray's numpy reductions instead of just-in-time compiled ones (same results, no compilation per worker);
    D04 runs with the compiled ones"""
    import xarray as xr
    xr.set_options(use_numbagg=False)
