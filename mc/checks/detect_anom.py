"""D01-D03: anomaly methods.  Locations never interact in these methods, so every series of a complete basis of the
input space is packed side by side in one real call; the whole linear map of the real code is compared with the map
the property defines (plus non-basis, value-coded and missing-value series that would expose non-linearity)."""
import itertools
import numpy as np
from .. import common as C
from .. import drive_detect as D


def series(n, with_nan):
    """(n, cells) float32: the n impulses, their negatives' sum, constants, ramps, coded series, land, late-NaN"""
    cols = [np.eye(n)]
    t = np.arange(n)
    extra = [np.zeros(n), np.ones(n), -3 * np.ones(n), (t % 7) - 3.0, ((t * 37) % 101) / 10 - 5, 2.0 * (t % 2), t / n]
    land = [np.full(n, np.nan)]
    late = []
    if with_nan:
        for k in {1, n // 2, n - 1}:
            v = ((t * 13) % 29) / 4.0; v[k] = np.nan; late.append(v)
        v = ((t * 11) % 23) / 4.0; v[1::3] = np.nan; late.append(v)
        v = ((t * 11) % 23) / 4.0; v[0] = np.nan; late.append(v)
    return np.concatenate(cols + [np.array(extra + land + late).T], axis=1).astype(np.float32)


def diff(r, what, got, want, case, tol=2e-5):
    nan = np.isnan(got) != np.isnan(want)
    bad = nan | (np.abs(np.nan_to_num(got) - np.nan_to_num(want)) > tol * (1 + np.abs(np.nan_to_num(want))))
    if got.shape != want.shape or bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad)) if got.shape == want.shape else None
        r["viol"].append({"what": f"{what}: at {i} (index, series) got {got[i] if i else got.shape}, expected {want[i] if i else want.shape}; {int(bad.sum())} entries differ",
                          "case": case})


def outcome(r, got, want, key):
    r["evals"] += got.shape[1]
    r["distinct"].add(key)
    r["transitions"] += got.size


def fixed_oracle(x, t):
    _, doy = D.year_doy(t)
    out = np.full(x.shape, np.nan)
    x = x.astype(np.float64)
    for d in np.unique(doy):
        s = doy == d
        ok = ~np.isnan(x[s])
        with np.errstate(invalid="ignore", divide="ignore"):
            m = np.where(ok, x[s], 0).sum(0) / ok.sum(0)
        out[s] = x[s] - m
    return out


def design(t, orders, harmonics):
    dy = D.decimal_year(t)
    c = dy - dy.mean()
    cols = [np.ones(len(t))] + [c ** o for o in orders]
    if harmonics:
        cols += [np.sin(2 * np.pi * dy), np.cos(2 * np.pi * dy), np.sin(4 * np.pi * dy), np.cos(4 * np.pi * dy)]
    return np.array(cols).T


def project(x, t, orders, harmonics):
    A = design(t, orders, harmonics)
    A = A / np.abs(A).max(0)
    u, s, _ = np.linalg.svd(A, full_matrices=False)
    u = u[:, s > 1e-9 * s[0]]
    x = x.astype(np.float64)
    return x - u @ (u.T @ x)


def check_mask(r, ds, unpack, x, case):
    want = np.isfinite(x[0])
    got = unpack(ds.mask)
    if got.shape != want.shape or (got.astype(bool) != want).any():
        r["viol"].append({"what": "mask differs from the validity of the first time step", "case": case})


# ---------------------------------------------------------------- D01
def d01(tier):
    thorough = tier == "thorough"
    axes = [("daily", "2001-01-01", 730), ("daily", "2003-12-30", 740), ("daily", "2000-02-27", 735), ("daily", "1999-07-15", 800),
            ("step", "2000-01-01", 300, 5), ("months", "1999-11", 50), ("drop", "2003-11-20", 500, (40, 101, 102, 103, 400)),
            ("daily", "2001-05-05", 40), ("hours", "2000-02-20T00", 400, 12), ("daily", "2000-12-30", 4)]
    if thorough:
        axes += [("daily", f"{y}-{m:02d}-{d:02d}", 731) for y in (1999, 2000, 2003) for m in range(1, 13) for d in (1, 28)]
        axes += [("daily", "1996-01-01", 366 * 9)]
    tasks = []
    for ax in axes:
        for lay in ("u", "g"):
            for ch in (-1, 100, 7) if thorough else (-1, 100):
                tasks.append((ax, lay, ch))
    ax2 = [("daily", "2000-01-01", 740), ("daily", "2003-12-30", 500), ("step", "2000-01-01", 300, 5), ("months", "1999-11", 50)]
    if thorough:
        ax2 += [("daily", "1999-03-01", 1100), ("daily", "2003-02-10", 800)]
    for ax in ax2:
        for orders in ([1], [2], [1, 2], [1, 3], [3, 1], [1, 2, 3]):
            for fz in (True, False):
                tasks.append((ax, "u" if fz else "g", -1 if len(orders) == 1 else 100, orders, fz))
    total = C.run_tasks(d01_task, tasks)
    return {"level": "exploration", "total": total,
            "rule": "every series of a complete impulse basis (plus coded, constant, land and missing-value series) for each enumerated time axis (daily over leap/year boundaries, gaps, 5-daily, monthly, 12-hourly, shorter than a year), gridded and unstructured, each chunking; with and without prior detrending by every listed order set; anomaly matrix compared entry by entry with value minus same-day-of-year mean",
            "assumptions": ["float32 tolerance 2e-5", "datetime64 time axes"]}


def d01_task(ax, lay, ch, orders=None, fz=True):
    mx = C.load()
    r = C.result()
    t = D.axis(ax)
    x = series(len(t), orders is None)
    da, kw, unpack = D.layout(x, lay, t, ch)
    case = dict(axis=ax, layout=lay, chunk=ch, orders=orders, force_zero_mean=fz)
    try:
        if orders is None:
            ds = D.call("fixed_baseline", lambda: mx.compute_normalised_anomaly(da, method_anomaly="fixed_baseline", **kw).compute())
        else:
            ds = D.call("detrend_fixed_baseline", lambda: mx.compute_normalised_anomaly(da, method_anomaly="detrend_fixed_baseline", detrend_orders=list(orders), force_zero_mean=fz, **kw).compute())
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    got = unpack(ds.dat_anomaly)
    y = x if orders is None else project(x, t, orders, False)
    want = fixed_oracle(y, t)
    diff(r, f"{'fixed' if orders is None else 'detrend_fixed'} baseline", got, want, case)
    if not np.array_equal(ds.time.values, t):
        r["viol"].append({"what": "time axis changed", "case": case})
    check_mask(r, ds, unpack, x, case)
    outcome(r, got, want, repr(case))
    r["samples"] = [case]
    return r


# ---------------------------------------------------------------- D02
def shift_oracle(x, t, w, s):
    y, doy = D.year_doy(t)
    x = x.astype(np.float64)
    n = len(t)
    sm = np.full(x.shape, np.nan)
    lo, hi = -(s // 2), s - 1 - s // 2
    cs = np.concatenate([np.zeros((1, x.shape[1])), np.cumsum(np.nan_to_num(x), axis=0)])
    for k in range(n):
        if k + lo >= 0 and k + hi < n:
            sm[k] = (cs[k + hi + 1] - cs[k + lo]) / s
    sm[:, np.isnan(x).any(0)] = np.nan
    base = np.full(x.shape, np.nan)
    y0 = y.min()
    for yy in np.unique(y):
        if yy < y0 + w:
            continue
        src = (y >= yy - w) & (y < yy)
        for d in np.unique(doy[y == yy]):
            v = sm[src & (doy == d)]
            ok = ~np.isnan(v)
            with np.errstate(invalid="ignore", divide="ignore"):
                base[(y == yy) & (doy == d)] = np.where(ok, v, 0).sum(0) / ok.sum(0)
    return x - base


def d02(tier):
    thorough = tier == "thorough"
    A4 = ("daily", "2001-01-01", 1461)
    tasks = []
    for w in (1, 2, 3):
        for s in (1, 3, 5, 21):
            tasks.append((A4, w, s, "u", -1 if s != 3 else 200, False))
    tasks += [(("daily", "1999-10-20", 1000), 2, 5, "g", 365, False), (("daily", "2003-06-01", 1000), 1, 7, "u", 50, False),
              (("daily", "2000-02-29", 1100), 2, 2, "u", -1, False), (("daily", "2000-02-29", 1100), 2, 4, "u", 100, False),
              (("dropyear", "2000-01-01", 1827, 2002), 2, 1, "u", 365, False), (("dropyear", "2000-01-01", 1827, 2002), 1, 1, "g", 365, False),
              (("daily", "2001-01-01", 1461), 2, 5, "g", 300, True), (("daily", "2003-07-01", 1000), 2, 21, "u", 100, True),
              (("daily", "2003-12-31", 800), 1, 3, "u", 100, True), (("daily", "2001-01-01", 800), 3, 3, "u", 100, "short"),
              (("daily", "2000-01-01", 731), 3, 3, "u", 100, "short")]
    tasks += [(("parts", y0, n), w, s, lay, ch, pre) for y0, n, w, s, lay, ch, pre in
              [(1996, 14, 4, 1, "u", -1, False), (1996, 14, 5, 1, "g", 40, False), (1988, 24, 15, 3, "u", 50, False), (1985, 26, 16, 1, "u", -1, True), (1996, 14, 8, 1, "u", 30, "clim"), (1996, 12, 4, 3, "g", 50, True)]]
    tasks += [(A4, 2, 1, "g", 200, "clim"), (("daily", "2003-07-01", 1000), 1, 5, "u", 100, "clim"), (("dropyear", "2000-01-01", 1827, 2002), 2, 3, "u", 365, "clim")]
    if thorough:
        for w in (1, 2, 3, 4):
            for s in (1, 2, 3, 4, 5, 11, 21, 31):
                for ax in (("daily", "1999-12-15", 1830), ("daily", "2003-03-01", 1830)):
                    tasks.append((ax, w, s, "u" if s % 2 else "g", 150, w < 4))
    total = C.run_tasks(d02_task, tasks, nproc=6)
    return {"level": "exploration", "total": total,
            "rule": "every series of a complete impulse basis (plus coded and land series) over 3-5 year daily axes for each (window, smoothing) pair incl. even and single-day smoothing, leap years, partial first/last years and a missing year; anomaly matrix compared entry by entry with value minus mean over exactly the preceding years of the smoothed series; trimmed years checked through preprocess_data",
            "assumptions": ["float32 tolerance", "daily datetime64 axes (smoothing counts time steps)"]}


def d02_task(ax, w, s, lay, ch, pre):
    mx = C.load()
    r = C.result()
    t = D.axis(ax)
    x = series(len(t), False)
    if pre:
        keep = list(range(0, len(t), 3)) + list(range(len(t), x.shape[1])) if len(t) > 900 else slice(None)
        x = x[:, keep]
    da, kw, unpack = D.layout(x, lay, t, ch)
    case = dict(axis=ax, window=w, smooth=s, layout=lay, chunk=ch, through=("rolling_climatology" if pre == "clim" else "preprocess_data" if pre else "compute_normalised_anomaly"))
    y, _ = D.year_doy(t)
    y = y.astype(int)
    try:
        if not pre:
            ds = D.call("shifting_baseline", lambda: mx.compute_normalised_anomaly(da, method_anomaly="shifting_baseline", window_year_baseline=w, smooth_days_baseline=s, **kw).compute())
        elif pre == "clim":                    # the two climatology functions themselves
            raw = shift_oracle(x, t, w, 1)
            got1 = unpack(D.call("rolling_climatology", lambda: mx.rolling_climatology(da, window_year_baseline=w, **kw).compute()))
            got2 = unpack(D.call("smoothed_rolling_climatology", lambda: mx.smoothed_rolling_climatology(da, window_year_baseline=w, smooth_days_baseline=s, **kw).compute()))
            diff(r, "rolling climatology", got1, x - raw, case, tol=3e-5)
            diff(r, "smoothed rolling climatology", got2, x - shift_oracle(x, t, w, s), case, tol=3e-5)
            outcome(r, got2, x, repr(case)); r["samples"] = [case]
            return r
        elif pre == "short":
            try:
                with C.real("x"):
                    mx.preprocess_data(da, method_anomaly="shifting_baseline", method_extreme="global_extreme", window_year_baseline=w, smooth_days_baseline=s, **kw)
            except C.RealCodeError as e:
                r["evals"] = 1; r["distinct"].add("short")
                if "DataValidationError" not in str(e):
                    r["viol"].append({"what": f"too few years: {e}", "case": case})
                return r
            r["evals"] = 1
            r["viol"].append({"what": "fewer years than the window accepted", "case": case}); return r
        else:
            ds = D.call("preprocess_data", lambda: mx.preprocess_data(da, method_anomaly="shifting_baseline", method_extreme="global_extreme", window_year_baseline=w, smooth_days_baseline=s, **kw).compute())
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    want = shift_oracle(x, t, w, s)
    sel = y >= y.min() + w if pre else np.ones(len(t), bool)
    if not np.array_equal(ds.time.values, t[sel]):
        r["viol"].append({"what": f"output covers {ds.time.values[:1]}..{ds.time.values[-1:]} instead of the years with a complete history", "case": case}); r["evals"] = 1; return r
    got = unpack(ds.dat_anomaly)
    diff(r, "shifting baseline", got, want[sel], case, tol=3e-5)
    check_mask(r, ds, unpack, x, case)
    outcome(r, got, want, repr(case))
    r["samples"] = [case]
    return r


# ---------------------------------------------------------------- D03
def std_oracle(anom, t):
    _, doy = D.year_doy(t)
    u = np.unique(doy)
    var = np.array([np.var(anom[doy == d], axis=0) for d in u])
    n = len(u)
    out = np.array([np.mean([var[(i + k) % n] for k in range(-15, 15)], axis=0) for i in range(n)])
    return u, np.sqrt(out)


def d03(tier):
    thorough = tier == "thorough"
    subsets = [list(s) for k in (1, 2, 3) for s in itertools.combinations((1, 2, 3), k)] + [[2, 1], [4], [1, 5]]
    axes = [("daily", "2000-01-01", 800), ("daily", "2001-06-15", 400), ("step", "1999-01-01", 260, 7), ("months", "1999-02", 75), ("drop", "2003-12-01", 500, (3, 200, 201))]
    if thorough:
        axes += [("daily", "1999-12-31", 1500), ("daily", "2003-02-28", 1000), ("step", "1998-03-01", 600, 3), ("daily", "2000-01-01", 200)]
    tasks = [(ax, o, fz, "u" if fz else "g", -1 if fz else 90, False) for ax in axes for o in subsets for fz in (True, False)]
    std_axes = [("daily", "2000-01-01", 1461), ("daily", "2001-01-01", 1095), ("daily", "2002-03-10", 800), ("daily", "2004-02-10", 731)]
    if thorough:
        std_axes += [("daily", "1999-06-01", 1830), ("daily", "2003-12-31", 1100)]
    tasks = [(ax, o, True, lay, -1 if lay == "u" else 365, True) for ax in std_axes for o in ([1], [1, 2]) for lay in ("u", "g")] + tasks
    total = C.run_tasks(d03_task, tasks)
    return {"level": "exploration", "total": total,
            "rule": "every series of a complete impulse basis for each set of polynomial orders (all subsets of {1,2,3} and four higher-order sets), both zero-mean settings, five time axes; residual map compared entry by entry with the orthogonal projection off span{1, t^orders, annual and semi-annual harmonics}; standardised variant against the 30-day smoothed day-of-year deviation",
            "assumptions": ["float32 tolerance 3e-5", "datetime64 axes with day resolution"]}


def d03_task(ax, orders, fz, lay, ch, std):
    mx = C.load()
    r = C.result()
    t = D.axis(ax)
    x = series(len(t), False)
    if std:
        x = x[:, list(range(0, len(t), 9)) + list(range(len(t), x.shape[1]))]
        x = np.concatenate([x, (((np.arange(len(t))[:, None] * np.array([[7, 31, 53]])) % 97) / 40).astype(np.float32)], axis=1)
    dy = D.decimal_year(t)
    c = dy - dy.mean()
    exact = np.array([0.3 * c, 3 + np.sin(2 * np.pi * dy), np.cos(4 * np.pi * dy) - c] if orders[0] == 1 else [3 + np.sin(2 * np.pi * dy) - 2 * np.cos(2 * np.pi * dy)]).T
    x = np.concatenate([x, exact.astype(np.float32)], axis=1)
    da, kw, unpack = D.layout(x, lay, t, ch)
    case = dict(axis=ax, orders=orders, force_zero_mean=fz, layout=lay, chunk=ch, std=std)
    try:
        ds = D.call("detrend_harmonic", lambda: mx.compute_normalised_anomaly(da, method_anomaly="detrend_harmonic", detrend_orders=list(orders), force_zero_mean=fz, std_normalise=std, **kw).compute())
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    got = unpack(ds.dat_anomaly)
    want = project(x, t, orders, True)
    diff(r, "harmonic detrending", got, want, case, tol=3e-5)
    check_mask(r, ds, unpack, x, case)
    if std:
        u, w = std_oracle(want, t)
        gs = unpack(ds.STD)
        if not np.array_equal(ds.dayofyear.values, u):
            r["viol"].append({"what": "day-of-year axis of STD differs", "case": case})
        else:
            diff(r, "STD", gs, w, case, tol=2e-5)
            _, doy = D.year_doy(t)
            ws = w[np.searchsorted(u, doy)]
            with np.errstate(invalid="ignore", divide="ignore"):
                q = want / ws
            ok = (ws > 1e-4) | np.isnan(ws)             # a vanishing deviation makes the quotient meaningless in float32
            gq = unpack(ds.dat_stn)
            diff(r, "dat_stn", np.where(ok, gq, 0), np.where(ok, q, 0), case, tol=2e-3)
    elif "dat_stn" in ds or "STD" in ds:
        r["viol"].append({"what": "standardised output although not requested", "case": case})
    outcome(r, got, want, repr(case))
    r["samples"] = [case]
    return r
