"""D04-D06: thresholds and the extreme flag.  Global thresholds and unstructured day-of-year thresholds treat locations
independently, so whole alphabets of series are packed side by side in one real call; the spatially pooled threshold is
explored by moving a hot cell over every position of the grid."""
import itertools
import numpy as np
from .. import common as C
from .. import drive_detect as D


# ---------------------------------------------------------------- D04
ALPHA = [-2.0, -0.004, 0.0, 0.004, 0.013, 0.52, 0.5349, 4.99, 7.5, np.nan]


def seqs(alpha, n):
    """all sequences of length n over alpha, as (n, cells)"""
    return np.array(list(itertools.product(alpha, repeat=n)), dtype=np.float32).T


def multis(alpha, n):
    """all multisets of size n over alpha, laid out in a scrambled order, as (n, cells)"""
    m = np.array(list(itertools.combinations_with_replacement(alpha, n)), dtype=np.float32).T
    k = next(k for k in (7, 11, 13, 3, 1) if np.gcd(k, n) == 1)
    return m[(np.arange(n) * k) % n]


def order_stat(x, q):
    """smallest value with at least a fraction q of the (non-missing) values at or below it; returns (lo, hi) where q*n is
    within rounding of an integer and both neighbours are admissible"""
    s = np.sort(x, axis=0)                        # NaN last
    n = (~np.isnan(s)).sum(0)
    k = q * n
    near = np.abs(k - np.round(k)) < 1e-6
    hi = np.where(near, np.round(k), np.ceil(k)).astype(int) - 1
    hi = np.clip(hi, 0, np.maximum(n - 1, 0))
    v = np.take_along_axis(s, hi[None], 0)[0].astype(np.float64)
    return np.where(n > 0, v, np.nan)


def d04_task(gen, q, mode, prec, mx_an, lay, chunk):
    mx = C.load()
    r = C.result()
    kind, alpha, n = gen
    x = (seqs if kind == "seq" else multis)(alpha, n)
    t = D.days("2001-01-01", n).astype("datetime64[ns]")
    da, kw, unpack = D.layout(x, lay, t, chunk)
    case = dict(gen=gen, percentile=q, mode=mode, precision=prec, max_anomaly=mx_an, layout=lay, chunk=chunk)
    pk = {} if mode == "exact" else dict(precision=prec, max_anomaly=mx_an)
    try:
        def go():
            ext, thr = mx.identify_extremes(da, method_extreme="global_extreme", threshold_percentile=q, method_percentile=mode, **pk, **kw)
            return ext.compute(), thr.compute()
        ext, thr = D.call("identify_extremes", go)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    g = unpack(thr).astype(np.float64)
    allnan = np.isnan(x).all(0)
    if mode == "exact":
        with np.errstate(all="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                want = np.nanpercentile(x.astype(np.float64), q, axis=0)
        bad = (np.isnan(g) != np.isnan(want)) | (np.abs(np.nan_to_num(g) - np.nan_to_num(want)) > 2e-6 * (1 + np.abs(np.nan_to_num(want))))
    else:
        v = order_stat(x, q / 100.0)
        top = mx_an
        want = np.where(v < 0, prec, np.where(v > top, top, v))
        bad = np.isnan(g) != allnan
        ok = ~allnan
        bad |= ok & (np.abs(g - want) > prec * np.where(v > top - prec, 2, 1) * 1.02 + 1e-6)    # saturated at the top of the range
        bad |= ok & (g <= 0)
    if bad.any():
        for j in np.nonzero(bad)[0][:2]:
            r["viol"].append({"what": f"{mode} p{q} of {[float(z) for z in x[:, j]]}: threshold {g[j]}, expected {'' if mode == 'exact' else 'within one bin of '}{want[j]}",
                              "case": dict(case, series=[float(z) for z in x[:, j]])})
    e = unpack(ext).astype(bool)
    with np.errstate(invalid="ignore"):
        we = x >= unpack(thr)
    if (e != we).any():
        r["viol"].append({"what": f"extreme flags differ from anomaly >= threshold in {int((e != we).sum())} entries", "case": case})
    r["evals"] = x.shape[1]
    r["distinct"] = {(q, mode, prec, float(round(z, 6))) for z in np.unique(g[~np.isnan(g)])[:400]}
    r["samples"] = [case]
    return r


def d04(tier):
    thorough = tier == "thorough"
    tasks = []
    A6 = [-2.0, 0.0, 0.013, 0.5349, 4.99, np.nan]
    for q in (50, 90, 95):
        tasks += [(("seq", tuple(ALPHA), 4), q, "exact", 0.01, 5.0, lay, ch) for lay, ch in (("u", -1), ("g", 2))]
    tasks += [(("multi", tuple(ALPHA), 6), 80, "exact", 0.01, 5.0, "u", 2), (("multi", (0.0, 1.0, -1.0), 40), 95, "exact", 0.01, 5.0, "g", -1)]
    for q in (60, 75, 90, 95, 99):
        for prec, mxa in ((0.01, 5.0), (0.05, 2.0), (0.25, 8.0)):
            tasks.append((("seq", tuple(ALPHA), 4), q, "approximate", prec, mxa, "u" if prec != 0.05 else "g", -1 if q != 90 else 2))
    for q in (60, 80, 95):
        tasks.append((("multi", tuple(ALPHA), 6), q, "approximate", 0.01, 5.0, "g", 3))
        tasks.append((("multi", (-1.0, 0.0, 0.5, 1.0, 9.0, np.nan), 10), q, "approximate", 0.01, 5.0, "u", -1))
        tasks.append((("multi", (-1.0, 0.30, 2.0), 40), q, "approximate", 0.01, 5.0, "u", 7))
    if thorough:
        for q in (0, 10, 50, 66.6, 90, 99, 100):
            tasks.append((("seq", tuple(A6), 6), q, "exact", 0.01, 5.0, "u", -1))
        for q in (60, 66.6, 75, 80, 85, 90, 97.5, 99, 99.9):
            for prec, mxa in ((0.01, 5.0), (0.02, 3.0), (0.1, 10.0)):
                tasks.append((("seq", tuple(A6), 6), q, "approximate", prec, mxa, "u", 4))
                tasks.append((("multi", tuple(ALPHA), 8), q, "approximate", prec, mxa, "g", -1))
                tasks.append((("multi", (-1.0, 0.3, 2.0, np.nan), 60), q, "approximate", prec, mxa, "u", 13))
    total = C.run_tasks(d04_task, tasks, nproc=6, warm=D.warm)
    return {"level": "exploration", "total": total,
            "rule": "every sequence (and, for longer series, every multiset) over a value alphabet of negatives, zero, bin interiors, bin edges, out-of-range values and missing values, packed as locations of one real call, for each percentile, precision/range, layout and chunking; exact mode compared with the percentile, approximate mode within one bin",
            "assumptions": ["approximate percentile: smallest value with at least the requested fraction at or below; below zero it is reported as the smallest positive bin edge, above the range as the top bin"]}


# ---------------------------------------------------------------- D05
def doy_series(n, kinds):
    t = np.arange(n)
    return np.stack([((t * a) % m) / s + o for a, m, s, o in kinds], axis=1).astype(np.float32)


CODED = ((37, 101, 40, 0.1), (11, 53, 20, -0.8), (7, 29, 10, -1.0), (1, 365, 100, 0.0), (53, 97, 25, 0.5))


def d05_exact(ax, w, q, lay, chunk, impulses):
    """exact mode: every impulse position (step impulses) + coded series + land, packed"""
    mx = C.load()
    r = C.result()
    t = D.axis(ax)
    n = len(t)
    y, doy = D.year_doy(t)
    x = doy_series(n, CODED)
    if impulses:
        base = doy_series(n, ((7, 29, 100, -0.1),))
        imp = np.repeat(base, len(range(0, n, impulses)), axis=1)
        for j, k in enumerate(range(0, n, impulses)):
            imp[k, j] += 3
        x = np.concatenate([x, imp], axis=1)
    land = np.full((n, 1), np.nan, np.float32)
    x = np.concatenate([x, land], axis=1)
    da, kw, unpack = D.layout(x, lay, t, chunk)
    case = dict(axis=ax, window=w, percentile=q, layout=lay, chunk=chunk, mode="exact")
    try:
        def go():
            e, th = mx.identify_extremes(da, method_extreme="hobday_extreme", threshold_percentile=q, window_days_hobday=w, method_percentile="exact", **kw)
            return e.compute(), th.compute()
        ext, thr = D.call("identify_extremes", go)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    u = np.unique(doy)
    if not np.array_equal(thr.dayofyear.values, u):
        r["viol"].append({"what": f"thresholds cover days {thr.dayofyear.values[:3]}..; expected every day present", "case": case}); return r
    g = unpack(thr)
    h = w // 2
    xp = np.concatenate([np.full((h, x.shape[1]), np.nan), x.astype(np.float64), np.full((h, x.shape[1]), np.nan)])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = np.array([np.nanpercentile(np.concatenate([xp[i:i + w] for i in np.nonzero(doy == d)[0]]), q, axis=0) for d in u])
    compare_thr(r, g, want, 2e-5, 2e-5, u, case)
    flags(r, unpack(ext), x, g, np.searchsorted(u, doy), case)
    r["evals"] = g.size
    r["distinct"] = {(w, q, "exact", float(np.round(z, 4))) for z in np.unique(np.nan_to_num(g))[:300]}
    r["samples"] = [case]
    return r


def flags(r, ext, x, thr, idx, case):
    with np.errstate(invalid="ignore"):
        we = x >= thr[idx]
    e = np.asarray(ext).astype(bool)
    if e.shape != we.shape or (e != we).any():
        r["viol"].append({"what": f"extreme flags differ from anomaly >= threshold of the day in {int((e != we).sum()) if e.shape == we.shape else e.shape} entries", "case": case})


def compare_thr(r, g, want, below, above, u, case):
    nan = np.isnan(g) != np.isnan(want)
    d = np.nan_to_num(g).astype(np.float64) - np.nan_to_num(want)
    bad = nan | (d > above) | (d < -below)
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        r["viol"].append({"what": f"threshold of day {int(u[i[0]])} at series {i[1:]}: {g[i]}, expected {want[i]}; {int(bad.sum())} differ", "case": case})


def pool_want(cols, q, p, mxa):
    """floor(q*n)-th order statistic of each column's pooled values (list of 2D arrays)"""
    v = np.sort(cols, axis=0)
    n = (~np.isnan(v)).sum(0)
    kf = q * n
    k = np.floor(kf + 1e-9).astype(int)
    k = np.clip(k, 0, np.maximum(n - 1, 0))
    lo = np.clip(np.where(np.abs(kf - np.round(kf)) < 1e-6, k - 1, k), 0, None)
    a = np.take_along_axis(v, k[None], 0)[0].astype(np.float64)
    b = np.take_along_axis(v, lo[None], 0)[0].astype(np.float64)
    return np.where(n > 0, a, np.nan), np.where(n > 0, b, np.nan)


def approx_check(r, g, hi, lo, p, mxa, u, case):
    """g within two bins of the order statistic (either neighbour when q*n is an integer), clipped to [p, top]"""
    c = lambda v: np.where(np.isnan(v), v, np.clip(v, 0.0, mxa))  # noqa: E731
    H, L = c(hi), c(lo)
    nan = np.isnan(g) != np.isnan(H)
    z = np.nan_to_num
    bad = nan | (z(g) > z(H) + 2 * p + 1e-5) | (z(g) < z(L) - 2 * p - 1e-5) | (~np.isnan(g) & (g < p - 1e-5))
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        r["viol"].append({"what": f"threshold of day {int(u[i[0]])} at {i[1:]}: {g[i]}, expected within two bins of {H[i]}; {int(bad.sum())} differ", "case": case})


def d05_approx(ax, w, q, p, mxa, chunk, impulses):
    """approximate mode without spatial pooling (unstructured): impulse positions + coded + land + out-of-range"""
    mx = C.load()
    r = C.result()
    t = D.axis(ax)
    n = len(t)
    _, doy = D.year_doy(t)
    x = doy_series(n, CODED + ((53, 97, 5, -3.0),))
    base = doy_series(n, ((7, 29, 100, -0.1),))
    imp = np.repeat(base, len(range(0, n, impulses)), axis=1)
    for j, k in enumerate(range(0, n, impulses)):
        imp[k, j] += 3
    x = np.concatenate([x, imp, np.full((n, 1), np.nan, np.float32)], axis=1)
    da, kw, unpack = D.layout(x, "u", t, chunk)
    case = dict(axis=ax, window=w, percentile=q, precision=p, max_anomaly=mxa, chunk=chunk, mode="approximate", layout="u")
    try:
        def go():
            e, th = mx.identify_extremes(da, method_extreme="hobday_extreme", threshold_percentile=q, window_days_hobday=w, method_percentile="approximate", precision=p, max_anomaly=mxa, **kw)
            return e.compute(), th.compute()
        ext, thr = D.call("identify_extremes", go)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    g = unpack(thr.transpose("dayofyear", ...))
    H, L = [], []
    for d in range(1, 367):
        inw = np.zeros(n, bool)
        for k in range(-(w // 2), w // 2 + 1):
            inw |= doy == (d - 1 + k) % 366 + 1
        a, b = pool_want(x[inw], q / 100, p, mxa) if inw.any() else (np.full(x.shape[1], np.nan),) * 2
        H.append(a); L.append(b)
    u = np.arange(1, 367)
    if g.shape[0] != 366 or not np.array_equal(thr.dayofyear.values, u):
        r["viol"].append({"what": "thresholds do not cover days 1..366", "case": case}); return r
    approx_check(r, g, np.array(H), np.array(L), p, mxa, u, case)
    flags(r, unpack(ext), x, g, doy - 1, case)
    r["evals"] = g.size
    r["distinct"] = {(w, q, "approximate", float(np.round(z, 3))) for z in np.unique(np.nan_to_num(g))[:300]}
    r["samples"] = [case]
    return r


def d05_space(Y, X, w, ws, q, p, hot, chunk, years=2, land=()):
    """approximate mode with spatial pooling: hot cells (one per call, or a list) on a coded background"""
    mx = C.load()
    r = C.result()
    t = D.axis(("daily", "2001-01-01", 365 * years + (1 if years > 3 else 0)))
    n = len(t)
    _, doy = D.year_doy(t)
    yy, xx = np.mgrid[:Y, :X]
    x = (((np.arange(n)[:, None, None] * 7 + yy * 5 + xx * 11) % 31) / 50.0 + 0.05).astype(np.float32)
    for (j, i, d) in hot:
        s = np.isin(doy, [d])
        x[s, j, i] = 3.0
    for (j, i) in land:
        x[:, j, i] = np.nan
    da = D.gridded(x, t, chunk)
    eff = ws if ws else 5
    case = dict(grid=(Y, X), window=w, window_spatial=ws, percentile=q, precision=p, hot=hot, land=land, chunk=chunk)
    kw = {} if ws is None else {"window_spatial_hobday": ws}
    try:
        def go():
            e, th = mx.identify_extremes(da, method_extreme="hobday_extreme", threshold_percentile=q, window_days_hobday=w, method_percentile="approximate", precision=p, **kw)
            return e.compute(), th.compute()
        ext, thr = D.call("identify_extremes", go)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    g = thr.transpose("dayofyear", "lat", "lon").values
    hs = eff // 2
    days_of = {d: np.nonzero(np.isin(doy, [(d - 1 + k) % 366 + 1 for k in range(-(w // 2), w // 2 + 1)]))[0] for d in range(1, 367)}
    H = np.full(g.shape, np.nan); L = H.copy()
    for j in range(Y):
        rows = [jj for jj in range(j - hs, j + hs + 1) if 0 <= jj < Y]
        for i in range(X):
            cols = [(i + k) % X for k in range(-hs, hs + 1)]
            blk = x[:, rows][:, :, cols].reshape(n, -1)
            for d in range(1, 367):
                v = blk[days_of[d]].reshape(-1, 1)
                if v.size:
                    a, b = pool_want(v, q / 100, p, 5.0)
                    H[d - 1, j, i], L[d - 1, j, i] = a[0], b[0]
    m = np.isnan(x[0])
    H[:, m] = np.nan; L[:, m] = np.nan
    approx_check(r, g, H, L, p, 5.0, np.arange(1, 367), case)
    flags(r, ext.transpose("time", "lat", "lon").values, x, g, doy - 1, case)
    r["evals"] = g.size
    r["distinct"] = {(Y, X, w, ws, tuple(hot[:1]), int((np.nan_to_num(g) > 1).sum()))}
    r["samples"] = [case]
    return r


def d05_any(kind, *a):
    return {"e": d05_exact, "a": d05_approx, "s": d05_space}[kind](*a)


def d05(tier):
    thorough = tier == "thorough"
    tasks = []
    for ax, w, q, lay, ch, imp in ((("daily", "2003-12-20", 760), 5, 90, "u", -1, 2), (("daily", "2001-03-01", 740), 11, 95, "g", 200, 5),
                                   (("daily", "2004-01-01", 731), 3, 80, "u", 366, 3), (("daily", "2001-01-01", 730), 1, 50, "g", -1, 5), (("daily", "2002-11-05", 120), 7, 40, "u", -1, 1)):
        tasks.append(("e", ax, w, q, lay, ch, imp))
    for ax, w, q, p, mxa, ch, imp in ((("daily", "2003-12-20", 760), 5, 90, 0.05, 5.0, -1, 2), (("daily", "2001-03-01", 740), 11, 95, 0.01, 5.0, 100, 5),
                                      (("daily", "2004-01-01", 731), 3, 75, 0.1, 3.0, 366, 2), (("daily", "2001-01-01", 730), 1, 60, 0.05, 5.0, -1, 5),
                                      (("daily", "2000-01-01", 1200), 31, 99, 0.05, 5.0, 300, 9), (("daily", "2002-11-05", 120), 7, 80, 0.1, 5.0, -1, 1)):
        tasks.append(("a", ax, w, q, p, mxa, ch, imp))
    g1 = [(j, i) for j in range(4) for i in range(5)]
    for (j, i) in g1:
        tasks.append(("s", 4, 5, 3, 3, 80, 0.1, [(j, i, 1), (j, i, 180)], None, 2, [(0, 0)] if (j, i) == (3, 3) else []))
    for (j, i) in ((0, 0), (5, 0), (3, 6), (2, 3), (0, 6)):
        tasks.append(("s", 6, 7, 5, 5, 90, 0.1, [(j, i, 365), (j, i, 60)], {"time": 100, "lat": 3, "lon": 2}, 2, []))
    tasks.append(("s", 6, 7, 5, None, 90, 0.1, [(1, 1, 365), (4, 6, 200)], {"time": -1, "lat": -1, "lon": -1}, 2, [(2, 2)]))
    tasks.append(("s", 3, 4, 3, 1, 80, 0.1, [(1, 1, 10), (2, 3, 200)], None, 2, []))
    for h in ([(15, 15, 30), (16, 0, 100), (0, 17, 200), (17, 16, 300)], [(0, 0, 30), (17, 17, 100)]):
        tasks.append(("s", 18, 18, 3, 3, 80, 0.2, h, {"time": -1, "lat": 18, "lon": 18}, 2, []))
    if thorough:
        for w in (1, 3, 5, 7, 9):
            for q in (10, 50, 75, 90, 99):
                tasks.append(("e", ("daily", "2003-11-20", 800), w, q, "u", 250, 1))
        for w in (1, 3, 9, 15, 21):
            for q in (60, 80, 90, 99):
                tasks.append(("a", ("daily", "1999-12-01", 1100), w, q, 0.02, 4.0, 365, 1))
        for j in range(6):
            for i in range(8):
                for d in (1, 59, 60, 365):
                    tasks.append(("s", 6, 8, 5, 3 if d < 60 else 5, 90, 0.1, [(j, i, d)], None, 3, []))
        for ws in (3, 5, 7):
            for h in ([(15, 15, 30), (16, 0, 100), (0, 17, 200), (17, 16, 300)], [(0, 0, 30), (17, 31, 100), (16, 16, 240)]):
                tasks.append(("s", 18, 33, 3, ws, 80, 0.2, h, {"time": -1, "lat": 9, "lon": 11}, 2, [(5, 5), (17, 0)]))
    total = C.run_tasks(d05_any, tasks, nproc=7)
    return {"level": "exploration", "total": total,
            "rule": "exact mode: impulses at enumerated positions of every series over leap-year and year-end axes, each window and percentile, thresholds of every calendar day compared with the percentile of the pooled window; approximate mode: the same within two bins; spatial pooling: a hot cell at every position of the grid (and across the 16-cell internal blocks), every threshold compared with the pooled order statistic",
            "assumptions": ["daily axes", "approximate mode pools calendar days 1..366 cyclically; exact mode pools consecutive days around each occurrence", "spatial window not wider than the grid"]}
