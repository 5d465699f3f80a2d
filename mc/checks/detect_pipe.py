"""D06-D10: the detection pipeline as a whole (preprocess_data), on the real code."""
import itertools, re, os, sys, errno, tempfile, shutil
import numpy as np
from .. import common as C
from .. import drive_detect as D

AN = ("fixed_baseline", "shifting_baseline", "detrend_harmonic", "detrend_fixed_baseline")
WINTER = ("winters",)


def taxis(kind):
    if kind == "winters":                      # 20 Dec - 10 Jan of four winters: few calendar days, three year ends
        t = D.days("2001-12-20", 1200)
        _, doy = D.year_doy(t)
        return t[(doy >= 354) | (doy <= 10)].astype("datetime64[ns]")
    return D.axis(kind)


def field(t, Y, X, land=(), seed=0):
    n = len(t)
    yy, xx = np.mgrid[:Y, :X]
    _, doy = D.year_doy(t)
    k = np.arange(n)[:, None, None]
    x = 15 + 2 * np.sin(2 * np.pi * doy / 365.25)[:, None, None] + ((k * 37 + yy * 17 + xx * 29 + seed * 7) % 53) / 20.0 + 0.002 * k + yy
    x = x.astype(np.float32)
    for c in land:
        x[:, c // X, c % X] = np.nan
    return x


def build(x, t, lay, chunks=None):
    """-> da, kwargs for the two layouts; lay 'u' flattens the grid into cells"""
    if lay == "g":
        return D.gridded(x, t, chunks), {}
    f = x.reshape(len(t), -1)
    if chunks:
        c = chunks.get("lon", -1)
        chunks = {"time": chunks["time"], "ncells": c if isinstance(c, int) else max(c)}
    return D.unstructured(f, t, chunks), dict(dimensions=dict(D.DIMS_U), coordinates=dict(D.COORDS_U))


VARS = ("dat_anomaly", "mask", "extreme_events", "thresholds", "dat_stn", "STD", "extreme_events_stn", "thresholds_stn")


def canon(ds, lay):
    out = {}
    for v in VARS:
        if v in ds:
            a = ds[v]
            order = [d for d in ("time", "dayofyear") if d in a.dims] + (["lat", "lon"] if lay == "g" else ["ncells"])
            b = a.transpose(*order).values
            out[v] = b.reshape(b.shape[:-2] + (-1,)) if lay == "g" else b
    out["time"] = ds.time.values
    if "dayofyear" in ds.dims:
        out["dayofyear"] = ds.dayofyear.values
    return out


def same(a, b, tol):
    if a.shape != b.shape:
        return False, f"shape {a.shape} vs {b.shape}"
    if a.dtype.kind in "bM" or b.dtype.kind in "bM":
        m = a != b
    else:
        m = (np.isnan(a) != np.isnan(b)) | (np.abs(np.nan_to_num(a) - np.nan_to_num(b)) > tol * (1 + np.abs(np.nan_to_num(b))))
    if m.any():
        i = tuple(int(v[0]) for v in np.nonzero(m))
        return False, f"at {i}: {a[i]} vs {b[i]} ({int(m.sum())} differ)"
    return True, ""


def flags_ok(o, ext, an, thr):
    """extreme == anomaly >= applicable threshold, from the outputs themselves"""
    A, T, E = o[an], o[thr], o[ext].astype(bool)
    if T.ndim == 2:
        _, doy = D.year_doy(o["time"])
        days = list(o["dayofyear"])
        idx = np.array([days.index(d) if d in days else -1 for d in doy])
        full = np.where((idx >= 0)[:, None], T[idx], np.nan)
    else:
        full = np.broadcast_to(T, A.shape)
    with np.errstate(invalid="ignore"):
        w = A >= full
    return E.shape == w.shape and not (E != w).any(), int((E != w).sum()) if E.shape == w.shape else -1


# ---------------------------------------------------------------- D06
def d06_task(ax, lay, land, ma, me, mp, pr):
    mx = C.load()
    r = C.result()
    t = taxis(ax)
    x = field(t, 3, 4, land)
    da, kw = build(x, t, lay)
    case = dict(axis=ax, layout=lay, land=list(land), method_anomaly=ma, method_extreme=me, method_percentile=mp, params=pr)
    pre = dict(pr)
    try:
        ds = D.call("preprocess_data", lambda: mx.preprocess_data(da, method_anomaly=ma, method_extreme=me, method_percentile=mp, **pre, **kw).compute())
        ka = {k: pre[k] for k in ("window_year_baseline", "smooth_days_baseline", "std_normalise", "detrend_orders", "force_zero_mean") if k in pre}
        ke = {k: pre[k] for k in ("threshold_percentile", "window_days_hobday", "window_spatial_hobday", "precision", "max_anomaly") if k in pre}

        def go():
            an = mx.compute_normalised_anomaly(da, method_anomaly=ma, **ka, **kw)
            if ma == "shifting_baseline":
                y = an.time.dt.year
                an = an.isel(time=np.nonzero((y >= y.min() + pre["window_year_baseline"]).values)[0])
            e, th = mx.identify_extremes(an.dat_anomaly, method_extreme=me, method_percentile=mp, **ke, **kw)
            o = {"dat_anomaly": an.dat_anomaly, "mask": an.mask, "extreme_events": e, "thresholds": th}
            if pre.get("std_normalise") and ma == "detrend_harmonic":
                es, ts = mx.identify_extremes(an.dat_stn, method_extreme=me, method_percentile=mp, **ke, **kw)
                o.update(dat_stn=an.dat_stn, STD=an.STD, extreme_events_stn=es, thresholds_stn=ts)
            import xarray as xr
            return xr.Dataset(o).compute()
        ref = D.call("composition", go)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    o, q = canon(ds, lay), canon(ref, lay)
    ocean = np.ones(12, bool); ocean[list(land)] = False
    for e_, a_, t_ in (("extreme_events", "dat_anomaly", "thresholds"), ("extreme_events_stn", "dat_stn", "thresholds_stn")):
        if e_ in o:
            ok, n = flags_ok(o, e_, a_, t_)
            if not ok:
                r["viol"].append({"what": f"{e_} differs from {a_} >= {t_} in {n} entries", "case": case})
            if o[e_].astype(bool)[:, ~ocean].any():
                r["viol"].append({"what": f"{e_} true on land", "case": case})
            if not np.isnan(o[t_][..., ~ocean]).all():
                r["viol"].append({"what": f"{t_} defined on land", "case": case})
    if not np.array_equal(o["mask"].astype(bool), ocean):
        r["viol"].append({"what": "mask differs from the valid locations of the input", "case": case})
    if set(o) != set(q):
        r["viol"].append({"what": f"outputs {sorted(o)} instead of {sorted(q)}", "case": case})
    if "dayofyear" in o and "dayofyear" in q:        # the pipeline may leave out calendar days that never occur
        _, doy = D.year_doy(o["time"])
        if not set(doy) <= set(o["dayofyear"]) <= set(q["dayofyear"]):
            r["viol"].append({"what": f"calendar days {o['dayofyear']} do not cover the series", "case": case}); return r
        sel = np.searchsorted(q["dayofyear"], o["dayofyear"])
        q = {k: (v[sel] if k in ("thresholds", "thresholds_stn", "STD", "dayofyear") and v.shape[0] == len(q["dayofyear"]) else v) for k, v in q.items()}
    for v in set(o) & set(q):
        ok, msg = same(o[v], q[v], 1e-6)
        if not ok:
            r["viol"].append({"what": f"{v} of the pipeline differs from the stages applied separately with the same settings: {msg}", "case": case})
    r["evals"] = 1
    r["distinct"].add(C.h([o["extreme_events"].tobytes(), case]))
    r["samples"] = [case]
    return r


PARAMS = [dict(threshold_percentile=80, window_year_baseline=2, smooth_days_baseline=3, window_days_hobday=3, window_spatial_hobday=3, detrend_orders=[1, 2], force_zero_mean=False, std_normalise=True, precision=0.05, max_anomaly=3.0),
          dict(threshold_percentile=90, window_year_baseline=1, smooth_days_baseline=5, window_days_hobday=5, detrend_orders=[1], precision=0.1, max_anomaly=6.0)]


def adapt(pr, me, mp, lay):
    p = dict(pr)
    if mp == "exact":
        p.pop("precision", None); p.pop("max_anomaly", None)
    if mp == "exact" or lay == "u" or me == "global_extreme":
        p.pop("window_spatial_hobday", None)
    return p


def d06(tier):
    thorough = tier == "thorough"
    masks1 = [(), (0,), (11,), (5, 6), tuple(range(11))]
    masks2 = masks1 + [(i,) for i in range(1, 11)] + [tuple(range(0, 12, 2)), tuple(range(1, 12)), (0, 1, 2, 3)]
    if thorough:
        masks2 += [c for c in itertools.combinations(range(12), 2)]
    tasks = []
    for ma in AN:
        for me, mp in itertools.product(("global_extreme", "hobday_extreme"), ("approximate", "exact")):
            for pi, pr in enumerate(PARAMS):
                for lay in "gu":
                    if me == "hobday_extreme":
                        ms = (masks1[1:3] if mp == "exact" else masks1) if not thorough else (masks1 if mp == "exact" else masks2[:18])
                        if not thorough and mp == "exact" and (pi == 0) == (lay == "g"):
                            continue
                    else:
                        ms = masks2 if (lay == "g" and pi == 0) or thorough else masks1
                    for m in ms:
                        tasks.append(("winters", lay, m, ma, me, mp, adapt(pr, me, mp, lay)))
    tasks.append((("daily", "2001-12-20", 760), "g", (3,), "fixed_baseline", "hobday_extreme", "approximate", adapt(PARAMS[0], "hobday_extreme", "approximate", "g")))
    tasks.append((("daily", "2003-12-20", 760), "u", (3,), "shifting_baseline", "hobday_extreme", "approximate", adapt(PARAMS[1], "hobday_extreme", "approximate", "u")))
    tasks.sort(key=lambda a: (a[4] != "hobday_extreme", a[5] != "exact"))
    total = C.run_tasks(d06_task, tasks, warm=D.plain)
    return {"level": "exploration", "total": total,
            "rule": "all method combinations (4 anomaly x 2 extreme x 2 percentile) x 2 parameter sets x gridded/unstructured x enumerated land masks through preprocess_data; flags, land and mask recomputed from the outputs; every output compared with the public stages applied one after the other with the same settings",
            "assumptions": ["the stages themselves are decided by D01-D05"]}


# ---------------------------------------------------------------- D07
FAULT = {"on": False, "n": 0, "at": None, "dir": None, "persist": False, "log": None}
_hooked = False
_MUT = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "shutil.rmtree", "os.truncate", "os.link", "shutil.move"}


def _hook(event, args):
    if not FAULT["on"]:
        return
    if event == "open":
        p, mode, flags = args
        if isinstance(p, int):
            return
        if not ((isinstance(mode, str) and any(c in mode for c in "wax+")) or (mode is None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))):
            return
    elif event in _MUT:
        p = args[0]
        if isinstance(p, int):
            return
    else:
        return
    try:
        p = os.path.abspath(os.fsdecode(p))
    except Exception:  # noqa: BLE001
        return
    if not p.startswith(FAULT["dir"]):
        return
    k = FAULT["n"]
    FAULT["n"] += 1
    if FAULT["at"] is not None and (k == FAULT["at"] or (FAULT["persist"] and k > FAULT["at"])):
        FAULT["log"] = (event, os.path.basename(p))
        raise OSError(FAULT["errno"], os.strerror(FAULT["errno"]), p)


def faulty(fn, at=None, persist=False, err=errno.ENOSPC):
    """run fn with the at-th mutation below a fresh dask temporary directory failing; returns (result, mutations)"""
    global _hooked
    import dask, zarr
    if not _hooked:
        sys.addaudithook(_hook); _hooked = True
    try:
        zarr.config.set({"async.concurrency": 1, "threading.max_workers": 1})
    except Exception:  # noqa: BLE001
        pass
    d = os.path.realpath(tempfile.mkdtemp(dir=C.SCRATCH))
    with dask.config.set({"temporary-directory": d}):
        FAULT.update(on=True, n=0, at=at, dir=d, persist=persist, errno=err, log=None)
        try:
            return fn(), FAULT["n"]
        finally:
            FAULT["on"] = False
            shutil.rmtree(d, ignore_errors=True)


CH = [{"time": -1, "lat": -1, "lon": -1}, {"time": 10, "lat": -1, "lon": -1}, {"time": -1, "lat": 1, "lon": -1}, {"time": -1, "lat": -1, "lon": 1},
      {"time": 19, "lat": (1, 2), "lon": (1, 3)}, {"time": "irr", "lat": (2, 1), "lon": (3, 1)}, {"time": 1, "lat": -1, "lon": -1}]


def chunking(c, n):
    c = dict(c)
    if c["time"] == "irr":
        k, out = 17, []
        while sum(out) + k <= n:
            out.append(k); k = (k * 5) % 23 + 8
        if n - sum(out):
            out.append(n - sum(out))
        c["time"] = tuple(out)
    return c


def cmp_all(r, o, q, what, case):
    for v in sorted(set(o) | set(q)):
        if v not in o or v not in q:
            r["viol"].append({"what": f"{what}: {v} present in only one of the runs", "case": case}); continue
        if v.startswith("extreme_events"):
            a, th = ("dat_anomaly", "thresholds") if v == "extreme_events" else ("dat_stn", "thresholds_stn")
            T = q[th]
            if T.ndim == 2:
                _, doy = D.year_doy(q["time"])
                days = list(q["dayofyear"])
                T = T[[days.index(d) for d in doy]] if all(d in days for d in doy) else np.full(q[a].shape, np.nan)
            near = np.abs(np.nan_to_num(q[a] - T, nan=1.0)) < 1e-4      # rounding may go either way at equality
            bad = (o[v] != q[v]) & ~near if o[v].shape == q[v].shape else np.ones(1, bool)
            if bad.any():
                r["viol"].append({"what": f"{what}: {v} differs in {int(bad.sum())} entries", "case": case})
            continue
        ok, msg = same(o[v], q[v], 2e-5 if "stn" not in v else 1e-3)
        if not ok:
            r["viol"].append({"what": f"{what}: {v} {msg}", "case": case})


_ref = {}


def d07_ref(ax, lay, ma, me, mp, pr):
    mx = C.load()
    key = repr((ax, lay, ma, me, mp, pr))
    if key not in _ref:
        t = taxis(ax)
        da, kw = build(field(t, 3, 4, (5,)), t, lay, chunking(CH[0], len(t)))
        ds = D.call("preprocess_data", lambda: mx.preprocess_data(da, method_anomaly=ma, method_extreme=me, method_percentile=mp, **pr, **kw).compute())
        _ref[key] = canon(ds, lay)
    return _ref[key]


def d07_task(kind, ax, lay, ma, me, mp, pr, arg):
    mx = C.load()
    r = C.result()
    t = taxis(ax)
    x = field(t, 3, 4, (5,))
    base = dict(axis=ax, layout=lay, method_anomaly=ma, method_extreme=me, method_percentile=mp, params=pr)
    try:
        q = d07_ref(ax, lay, ma, me, mp, pr)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": base}); r["evals"] = 1; return r
    if kind == "chunk":
        ci, ck, oc = arg
        da, kw = build(x, t, lay, chunking(CH[ci], len(t)))
        case = dict(base, chunks=CH[ci], use_temp_checkpoints=ck, dask_chunks=oc)
        try:
            ds, _ = faulty(lambda: D.call("preprocess_data", lambda: mx.preprocess_data(da, method_anomaly=ma, method_extreme=me, method_percentile=mp, use_temp_checkpoints=ck, **({"dask_chunks": {"time": oc}} if oc else {}), **pr, **kw).compute()))
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
        cmp_all(r, canon(ds, lay), q, f"chunks {CH[ci]} checkpoints={ck}", case)
        r["evals"] = 1; r["distinct"].add(repr(case)); r["samples"] = [case]
        return r
    # faults: every mutation of the temporary directory fails once / from then on
    da, kw = build(x, t, lay, chunking(CH[arg[0]], len(t)))
    run = lambda: D.call("preprocess_data", lambda: canon(mx.preprocess_data(da, method_anomaly=ma, method_extreme=me, method_percentile=mp, use_temp_checkpoints=True, **pr, **kw).compute(), lay))  # noqa: E731
    _, persist, part, parts, err = arg
    try:
        o, n = faulty(run)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": base}); r["evals"] = 1; return r
    if part == 0:
        cmp_all(r, o, q, "with checkpoints", base)
    for k in range(part, n, parts):
        case = dict(base, chunks=CH[arg[0]], failing_mutation=k, of=n, stays_full=persist)
        r["evals"] += 1
        try:
            o, _ = faulty(run, at=k, persist=persist, err=err)
        except C.RealCodeError as e:
            r["notes"]["errors_surfaced"] = r["notes"].get("errors_surfaced", 0) + 1
            r["distinct"].add("error " + str(e)[:60]); continue
        cmp_all(r, o, q, f"disk error at mutation {k} ({FAULT['log']})", case)
        r["distinct"].add((ma, me, str(FAULT["log"])))
        r["samples"] = [case]
    return r


def d07_helper(name, tch, cleanup, dataset, at):
    """checkpoint_to_zarr itself: values survive, with cleanup, irregular chunks and any single failing mutation"""
    import xarray as xr
    mx = C.load()
    import marEx.helper as H
    r = C.result()
    v = np.arange(30, dtype=np.float32).reshape(10, 3) + 1
    da = xr.DataArray(v, dims=("time", "x"), name=name, coords={"time": np.arange(10), "x": [1, 2, 3]}).chunk({"time": tch, "x": 2})
    obj = xr.Dataset({"a": da, "b": da + 100}) if dataset else da
    case = dict(name=name, chunks=tch, cleanup=cleanup, dataset=dataset)

    def go():
        with C.real("checkpoint_to_zarr"):
            o = H.checkpoint_to_zarr(obj, name="n", cleanup=cleanup)
            return o.compute()
    try:
        o, n = faulty(go)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    def cmp(o, what):
        ok = np.array_equal(o["a"].values, v) and np.array_equal(o["b"].values, v + 100) if dataset else np.array_equal(o.values, v)
        if not ok:
            r["viol"].append({"what": f"{what}: data changed", "case": case})
    cmp(o, "checkpoint_to_zarr")
    r["evals"] += 1
    for k in range(n):
        for persist in (False, True):
            r["evals"] += 1
            try:
                o, _ = faulty(go, at=k, persist=persist)
            except C.RealCodeError:
                r["notes"]["errors_surfaced"] = r["notes"].get("errors_surfaced", 0) + 1; continue
            cmp(o, f"disk error at mutation {k}")
    r["distinct"].add(repr(case))
    return r


def d07_two(ax, lay, runs, order):
    """several checkpointed calls share the temporary directory before any lazy result is read; every order of reading"""
    mx = C.load()
    r = C.result()
    t = taxis(ax)
    case = dict(axis=ax, layout=lay, calls=runs, read_order=order)
    data = [field(t, 3, 4, (5,), seed=k) for k in range(len(runs))]

    def one(k, ck):
        ma, me, mp, pr = runs[k]
        da, kw = build(data[k], t, lay, chunking(CH[1], len(t)))
        return D.call("preprocess_data", lambda: mx.preprocess_data(da, method_anomaly=ma, method_extreme=me, method_percentile=mp, use_temp_checkpoints=ck, **pr, **kw))

    def go():
        lazy = [one(k, True) for k in range(len(runs))]
        got = {}
        for k in order:
            got[k] = D.call("reading the result", lambda k=k: canon(lazy[k].compute(), lay))
        return got
    r["evals"] = 1; r["distinct"].add(repr(case)); r["samples"] = [case]
    try:
        got, _ = faulty(go)
        for k in order:
            cmp_all(r, got[k], canon(one(k, False).compute(), lay), f"call {k} of {len(runs)} sharing a temporary directory", case)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case})
    return r


def d07_helper_two(ops):
    """all sequences of checkpoint_to_zarr calls (name, cleanup), then reads in any order: each keeps its own data"""
    import xarray as xr
    C.load()
    import marEx.helper as H
    r = C.result()
    for names in ops:
        case = dict(calls=names)
        vs = [np.arange(12, dtype=np.float32).reshape(6, 2) + 100 * (k + 1) for k in range(len(names))]

        def go(names=names, vs=vs):
            with C.real("checkpoint_to_zarr"):
                lazy = [H.checkpoint_to_zarr(xr.DataArray(v, dims=("time", "x"), name="a").chunk({"time": 3}), name=n, cleanup=c) for v, (n, c) in zip(vs, names)]
                out = [o.values for o in reversed(lazy)][::-1]
                return out + [o.values for o in lazy]
        r["evals"] += 1; r["distinct"].add(repr(case))
        try:
            got, _ = faulty(go)
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); continue
        for k, g in enumerate(got):
            if not np.array_equal(g, vs[k % len(vs)]):
                r["viol"].append({"what": f"checkpoint {k % len(vs)} of {names} returns another checkpoint's data", "case": case}); break
    return r


def d07_any(kind, *a):
    return {"helper": d07_helper, "two": d07_two, "helper2": d07_helper_two}[kind](*a) if kind in ("helper", "two", "helper2") else d07_task(kind, *a)


def d07(tier):
    thorough = tier == "thorough"
    P = dict(threshold_percentile=80, window_year_baseline=1, smooth_days_baseline=3, window_days_hobday=3)
    tasks = []
    combos = [("shifting_baseline", "hobday_extreme", "approximate"), ("shifting_baseline", "global_extreme", "approximate"), ("fixed_baseline", "hobday_extreme", "approximate"),
              ("fixed_baseline", "global_extreme", "exact"), ("detrend_harmonic", "global_extreme", "approximate"), ("detrend_fixed_baseline", "global_extreme", "exact"),
              ("detrend_harmonic", "hobday_extreme", "exact"), ("shifting_baseline", "hobday_extreme", "exact")]
    if thorough:
        combos = [(a, e, p) for a in AN for e in ("hobday_extreme", "global_extreme") for p in ("approximate", "exact")]
    for (ma, me, mp) in combos:
        pr = dict(P)
        if mp == "approximate":
            pr["precision"] = 0.1
        if ma == "detrend_harmonic" and me == "global_extreme":
            pr["std_normalise"] = True
        if ma.startswith("detrend"):
            pr["detrend_orders"] = [1, 2]
        for lay in "gu":
            for ci in range(len(CH)):
                for ck in (False, True):
                    if not thorough and mp == "exact" and me == "hobday_extreme" and (ci not in (4,) or lay == "u"):
                        continue
                    if not thorough and (lay == "u" and ci != 5 or ci == 6 and (me == "hobday_extreme" or ck or ma == "shifting_baseline") or ci in (2, 3) and ck):
                        continue
                    tasks.append(("chunk", "winters", lay, ma, me, mp, pr, (ci, ck, None if ci % 2 else 13)))
    pr = dict(P, precision=0.5)
    for ma, me, ci in (("shifting_baseline", "global_extreme", 1),) + ((("shifting_baseline", "hobday_extreme", 0), ("fixed_baseline", "hobday_extreme", 0)) if thorough else ()):
        for persist in (False, True) if thorough else (False,):
            for part in range(8):
                tasks.append(("fault", "winters", "g", ma, me, "approximate", pr, (ci, persist, part, 8, errno.ENOSPC if not persist else errno.EIO)))
    for name in ("a", None):
        for tch in (5, 3, (2, 5, 3), 10) if thorough else (3, (2, 5, 3)):
            for cl in (False, True):
                for dsx in ((False, True) if name else (False,)):
                    tasks.append(("helper", name, tch, cl, dsx, None))
    A = [("shifting_baseline", "global_extreme", "approximate", dict(P, precision=0.5)), ("shifting_baseline", "global_extreme", "approximate", dict(P, precision=0.5)),
         ("fixed_baseline", "global_extreme", "approximate", dict(P, precision=0.5))]
    for lay in "gu":
        for runs in (A[:2], [A[0], A[2]]) if not thorough else (A[:2], [A[0], A[2]], [A[2], A[2]], A):
            for order in itertools.permutations(range(len(runs))):
                tasks.append(("two", "winters", lay, runs, order))
    nm = [("a", False), ("a", True), ("b", False)]
    seqs = [s for n in ((2, 3) if not thorough else (2, 3, 4)) for s in itertools.product(nm, repeat=n)]
    tasks += [("helper2", seqs[i::4]) for i in range(4)]
    tasks.sort(key=lambda a: (a[0] != "fault", a[0] != "two", not (len(a) > 5 and a[5] == "exact" and a[4] == "hobday_extreme")))
    total = C.run_tasks(d07_any, tasks, warm=D.plain)
    return {"level": "fault_enumeration", "total": total,
            "rule": "every chunking of the menu (single, per-step, per-column, irregular in time and space) x temporary checkpoints on/off x method combinations compared with the single-chunk run; every file-system mutation of the checkpointed pipeline and of checkpoint_to_zarr fails once, or fails from then on; all short sequences of checkpointed calls sharing one directory before their lazy results are read, in every order; the result must be identical or an error",
            "assumptions": ["float32 tolerance; flags within 1e-4 of the threshold may go either way", "faults are OSErrors on file-system mutations below the dask temporary directory"]}


# ---------------------------------------------------------------- D08
def d08_task(lay, ch, kind, lo, hi, land):
    import marEx.exceptions as X
    mx = C.load()
    r = C.result()
    t = D.axis(("daily", "2001-12-20", 24))
    n = len(t)
    v = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[kind]
    base = field(t, 2, 3, land)
    for code in range(lo, hi):
        k, c = divmod(code, 6)
        x = base.copy()
        x[k, c // 3, c % 3] = v
        da, kw = build(x, t, lay, chunking(ch, n))
        valid0 = np.isfinite(x[0].reshape(-1))
        refuse = not valid0.any() or not np.isfinite(x.reshape(n, -1)[:, valid0]).all()
        case = dict(layout=lay, chunks=ch, flaw=kind, step=k, cell=c, land=list(land))
        r["evals"] += 1
        err = None
        try:
            with C.real("preprocess_data"):
                try:
                    ds = mx.preprocess_data(da, method_anomaly="fixed_baseline", method_extreme="global_extreme", threshold_percentile=80, **kw)
                except X.DataValidationError as e:
                    err = e
        except C.RealCodeError as e:
            r["viol"].append({"what": f"{e}", "case": case}); continue
        if refuse and err is None:
            r["viol"].append({"what": "invalid input accepted", "case": case})
        elif not refuse and err is not None:
            r["viol"].append({"what": f"valid input refused: {str(err)[:200]}", "case": case})
        elif not refuse:
            m = canon(ds.compute(), lay)["mask"].astype(bool)
            if not np.array_equal(m, valid0):
                r["viol"].append({"what": f"mask {m.tolist()} instead of {valid0.tolist()}", "case": case})
        r["distinct"].add((lay, kind, k, c, tuple(land), refuse))
        r["samples"] = [case]
    return r


def d08_pairs(lay, kinds, steps, cells, land):
    """two flaws at once, incl. flaws at the first step that turn a location into land"""
    import marEx.exceptions as X
    mx = C.load()
    r = C.result()
    t = D.axis(("daily", "2001-12-20", 24))
    n = len(t)
    V = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}
    for (k1, k2) in itertools.product(steps, repeat=2):
        for (c1, c2) in itertools.combinations_with_replacement(cells, 2):
            x = field(t, 2, 3, land)
            x[k1, c1 // 3, c1 % 3] = V[kinds[0]]
            x[k2, c2 // 3, c2 % 3] = V[kinds[1]]
            da, kw = build(x, t, lay, {"time": 5, "lat": 1, "lon": 2})
            valid0 = np.isfinite(x[0].reshape(-1))
            refuse = not valid0.any() or not np.isfinite(x.reshape(n, -1)[:, valid0]).all()
            case = dict(layout=lay, flaws=kinds, steps=(k1, k2), cells=(c1, c2), land=list(land))
            r["evals"] += 1
            err = None
            try:
                with C.real("preprocess_data"):
                    try:
                        mx.preprocess_data(da, method_anomaly="fixed_baseline", method_extreme="global_extreme", threshold_percentile=80, **kw)
                    except X.DataValidationError as e:
                        err = e
            except C.RealCodeError as e:
                r["viol"].append({"what": f"{e}", "case": case}); continue
            if refuse != (err is not None):
                r["viol"].append({"what": "invalid input accepted" if refuse else f"valid input refused: {str(err)[:200]}", "case": case})
            r["distinct"].add((lay, kinds, k1, k2, c1, c2))
    return r


def d08_any(kind, *a):
    return d08_task(*a) if kind == "one" else d08_pairs(*a)


def d08(tier):
    thorough = tier == "thorough"
    tasks = []
    for lay in "gu":
        for kind in ("nan", "inf", "-inf"):
            for ci in (0, 4) if not thorough else range(len(CH)):
                ch = dict(CH[ci])
                ch["lat"] = {-1: -1, 1: 1}.get(ch["lat"], 1) if not isinstance(ch["lat"], tuple) else 1
                ch["lon"] = (1, 2) if isinstance(ch["lon"], tuple) else ch["lon"]
                for land in ((), (4,)) if ci == 0 or thorough else ((),):
                    for lo in range(0, 24 * 6, 24):
                        tasks.append(("one", lay, ch, kind, lo, lo + 24, land))
        for kinds in (("nan", "nan"), ("nan", "inf"), ("inf", "-inf")):
            tasks.append(("two", lay, kinds, (0, 1, 23) if not thorough else (0, 1, 2, 5, 12, 22, 23), (0, 3, 5) if not thorough else range(6), ()))
        tasks.append(("two", lay, ("nan", "nan"), (0, 1), range(6), (0, 1, 2, 3)))
    total = C.run_tasks(d08_any, tasks)
    return {"level": "exploration", "total": total,
            "rule": "NaN, +inf and -inf at every (step, location) of a 24x2x3 field, each chunking and layout, with and without land, and pairs of flaws: refused with a data error iff a location valid at the first step is invalid later or no location is valid at the first step; otherwise accepted with the right mask",
            "assumptions": []}


# ---------------------------------------------------------------- D09
def d09_expect(c):
    """decision table: None = accepted, else the set of admissible error types"""
    bad_cfg = (c["method_anomaly"] not in AN or c["method_extreme"] not in ("global_extreme", "hobday_extreme") or c["method_percentile"] not in ("exact", "approximate")
               or (c["method_percentile"] == "exact" and (c["precision"] != 0.01 or c["max_anomaly"] != 5.0))
               or (c["method_percentile"] == "approximate" and c["threshold_percentile"] < 60)
               or (c["window_spatial_hobday"] is not None and (c["layout"] == "u" or c["method_extreme"] != "hobday_extreme" or c["method_percentile"] == "exact" or c["window_spatial_hobday"] % 2 == 0))
               or (c["method_extreme"] == "hobday_extreme" and c["window_days_hobday"] % 2 == 0)
               or (c["method_anomaly"] in ("detrend_harmonic", "detrend_fixed_baseline") and (c["detrend_orders"] == [] or any(o < 1 for o in c["detrend_orders"] or [1]))))
    bad_data = c["numpy"] or (c["method_anomaly"] == "shifting_baseline" and c["window_year_baseline"] >= 5)
    types = (["ConfigurationError"] if bad_cfg else []) + (["DataValidationError"] if bad_data else [])
    return types or None


def d09_task(c):
    import marEx.exceptions as X
    mx = C.load()
    r = C.result()
    t = D.days("2001-12-20", 1200)
    _, doy = D.year_doy(t)
    t = t[(doy >= 356) | (doy <= 8)].astype("datetime64[ns]")
    x = field(t, 3, 4, (2,))
    da, kw = build(x, t, c["layout"][0])
    tn = "time"
    if c["layout"] == "gr":                  # other dimension names
        tn = "day"
        da = da.rename({"time": "day", "lat": "row", "lon": "col"})
        kw = dict(dimensions={"time": "day", "y": "row", "x": "col"}, coordinates={"time": "day", "y": "row", "x": "col"})
    if c["numpy"]:
        da = da.compute()
    args = {k: v for k, v in c.items() if k not in ("layout", "numpy")}
    want = d09_expect(c)
    err = None
    r["evals"] = 1
    try:
        with C.real("preprocess_data"):
            try:
                ds = mx.preprocess_data(da, **args, **kw)
            except X.MarExError as e:
                err = e
    except C.RealCodeError as e:
        r["viol"].append({"what": f"untyped error: {e}", "case": c}); return r
    r["distinct"].add(C.h([want, type(err).__name__, c["method_anomaly"], c["method_extreme"], c["method_percentile"], c["threshold_percentile"], c["layout"]]))
    r["samples"] = [c]
    if want is None and err is not None:
        r["viol"].append({"what": f"valid configuration refused: {type(err).__name__}: {str(err)[:200]}", "case": c})
    elif want is not None and err is None:
        r["viol"].append({"what": f"contradictory configuration accepted (expected {want})", "case": c})
    elif want is not None and type(err).__name__ not in want:
        r["viol"].append({"what": f"refused with {type(err).__name__}, expected one of {want}", "case": c})
    elif want is None:
        a = ds.attrs
        rec = {"method_anomaly": c["method_anomaly"], "method_extreme": c["method_extreme"], "threshold_percentile": c["threshold_percentile"],
               "method_percentile": c["method_percentile"], "precision": c["precision"], "max_anomaly": c["max_anomaly"]}
        if c["method_anomaly"] == "shifting_baseline":
            rec.update(window_year_baseline=c["window_year_baseline"], smooth_days_baseline=c["smooth_days_baseline"])
        if c["method_anomaly"].startswith("detrend"):
            rec.update(detrend_orders=c["detrend_orders"] or [1], force_zero_mean=c["force_zero_mean"])
        if c["method_anomaly"] == "detrend_harmonic":
            rec.update(std_normalise=c["std_normalise"])
        if c["method_extreme"] == "hobday_extreme":
            rec.update(window_days_hobday=c["window_days_hobday"])
        for k, v in rec.items():
            if k not in a or (list(a[k]) if isinstance(v, list) else a[k]) != v:
                r["viol"].append({"what": f"recorded {k}={a.get(k)!r}, requested {v!r}", "case": c})
        if not len(a.get("preprocessing_steps", [])):
            r["viol"].append({"what": "no preprocessing steps recorded", "case": c})
        said = {int(n) for n in re.findall(r"\d+", " ".join(map(str, a.get("preprocessing_steps", []))))}
        told = ([c["window_year_baseline"], c["smooth_days_baseline"]] if c["method_anomaly"] == "shifting_baseline" else []) + \
               (c["detrend_orders"] or [1] if c["method_anomaly"].startswith("detrend") else []) + \
               ([c["window_days_hobday"], c["window_spatial_hobday"] or c["window_days_hobday"]] if c["method_extreme"] == "hobday_extreme" else [])
        if not set(told) <= said:
            r["viol"].append({"what": f"recorded steps {a.get('preprocessing_steps')} do not state the requested {told}", "case": c})
        tc = list(c["dask_chunks"].values())[0] if c["dask_chunks"] else 25
        got = ds.extreme_events.chunksizes[tn]
        if any(g != tc for g in got[:-1]) or got[-1] > tc:
            r["viol"].append({"what": f"output time chunks {got}, requested {tc}", "case": c})
        if any(len(ds.extreme_events.chunksizes[d]) != 1 for d in ds.extreme_events.dims if d != tn):
            r["viol"].append({"what": "output space not in a single chunk", "case": c})
        has = "dat_stn" in ds
        if has != (c["std_normalise"] and c["method_anomaly"] == "detrend_harmonic"):
            r["viol"].append({"what": "standardised output present iff requested: violated", "case": c})
    return r


def d09_group(cs):
    r = C.result()
    for c in cs:
        C.merge(r, d09_task(c))
    return r


BASEC = dict(method_anomaly="fixed_baseline", method_extreme="global_extreme", method_percentile="approximate", threshold_percentile=80, precision=0.01, max_anomaly=5.0,
             window_spatial_hobday=None, window_days_hobday=3, detrend_orders=None, window_year_baseline=1, smooth_days_baseline=3, force_zero_mean=True, std_normalise=False,
             dask_chunks=None, layout="g", numpy=False)
ALT = dict(method_anomaly=["shifting_baseline", "detrend_harmonic", "detrend_fixed_baseline", "bogus"], method_extreme=["hobday_extreme", "bogus"], method_percentile=["exact", "bogus"],
           threshold_percentile=[59.9, 60, 95], precision=[0.05], max_anomaly=[4.0], window_spatial_hobday=[1, 3, 4], window_days_hobday=[1, 4], detrend_orders=[[], [0], [1, 2], [-1, 1], [1]],
           window_year_baseline=[2, 4, 5, 9], smooth_days_baseline=[5], force_zero_mean=[False], std_normalise=[True], dask_chunks=[{"time": 7}], layout=["u"], numpy=[True])


def d09_cases(depth):
    keys = list(ALT)
    out, seen = [], set()
    for d in range(depth + 1):
        for ks in itertools.combinations(keys, d):
            for vs in itertools.product(*[ALT[k] for k in ks]):
                c = dict(BASEC); c.update(zip(ks, vs))
                if repr(c) not in seen:
                    seen.add(repr(c)); out.append(c)
    # full product over the method names and everything validation looks at
    core = dict(method_anomaly=list(AN), method_extreme=["global_extreme", "hobday_extreme"], method_percentile=["exact", "approximate"], threshold_percentile=[50, 80],
                precision=[0.01, 0.05], window_spatial_hobday=[None, 3, 4], window_days_hobday=[3, 4], layout=["g", "u"])
    for vs in itertools.product(*core.values()):
        c = dict(BASEC); c.update(zip(core, vs))
        if repr(c) not in seen:
            seen.add(repr(c)); out.append(c)
    return out


def d09_own():
    """full products of the settings belonging to one method (all accepted)"""
    out = []

    def add(**axes):
        for vs in itertools.product(*axes.values()):
            c = dict(BASEC); c.update(zip(axes, vs))
            if c not in out:
                out.append(c)
    add(method_anomaly=["detrend_harmonic"], force_zero_mean=[True, False], std_normalise=[True, False], detrend_orders=[None, [1, 2], [2], [3, 1]], method_extreme=["global_extreme", "hobday_extreme"])
    add(method_anomaly=["detrend_fixed_baseline"], force_zero_mean=[True, False], detrend_orders=[None, [1, 2], [2], [3, 1]], method_extreme=["global_extreme", "hobday_extreme"])
    add(method_anomaly=["shifting_baseline"], window_year_baseline=[1, 2, 4], smooth_days_baseline=[3, 5], method_extreme=["global_extreme", "hobday_extreme"])
    add(method_extreme=["hobday_extreme"], window_days_hobday=[1, 3, 7], window_spatial_hobday=[None, 1, 3, 5])
    add(method_extreme=["hobday_extreme"], window_days_hobday=[3, 7], layout=["u"])
    add(method_percentile=["exact"], method_extreme=["global_extreme", "hobday_extreme"], method_anomaly=list(AN), layout=["g", "u"])
    add(layout=["gr"], dask_chunks=[None, {"time": 7}, {"day": 7}], method_anomaly=["fixed_baseline", "detrend_harmonic"], method_extreme=["global_extreme", "hobday_extreme"])
    return out


def d09(tier):
    thorough = tier == "thorough"
    cs = d09_cases(3 if thorough else 2)
    slow = [c for c in cs if d09_expect(c) is None]
    if not thorough:          # accepted core-product configurations cost most: keep those with few deviations from the default
        few = [c for c in slow if sum(c[k] != BASEC[k] for k in BASEC) <= 2]
        slow_keep = few
    else:
        slow_keep = slow
    fast = [c for c in cs if d09_expect(c) is not None]
    slow_keep = slow_keep + [c for c in d09_own() if c not in slow_keep]
    order = slow_keep + fast
    tasks = [(order[i::max(1, len(order) // 12)],) for i in range(max(1, len(order) // 12))]
    total = C.run_tasks(d09_group, tasks, warm=D.plain)
    return {"level": "exploration", "total": total,
            "rule": "every configuration with at most 2 (thorough: 3) deviations from a default over 16 settings, plus the full product of the method names and validated windows/percentile/precision/grid kind (refused ones all; accepted ones up to the deviation bound), plus the full products of the settings of each method and other dimension names, against a decision table: accepted and recorded, or refused with the library's own error type",
            "assumptions": ["when a configuration has several flaws any of their error types is admissible"]}


# ---------------------------------------------------------------- D10
def fingerprint(da):
    return C.h([da.dims, da.name, sorted((str(k), repr(v)) for k, v in da.attrs.items()), str(da.dtype), getattr(da, "chunks", None) and da.chunks,
                [(str(k), v.dims, v.values.tobytes(), sorted((str(a), repr(b)) for a, b in v.attrs.items()), sorted(map(str, v.encoding))) for k, v in sorted(da.coords.items(), key=lambda z: str(z[0]))],
                np.asarray(da.values).tobytes()])


def d10_task(lay, ma, me, mp, pr, names, perm, dtype, fail, attrs):
    import xarray as xr
    import marEx.exceptions as X
    mx = C.load()
    r = C.result()
    t = taxis("winters")
    x = field(t, 3, 4, (5,))
    case = dict(layout=lay, methods=(ma, me, mp), names=names, order=perm, dtype=dtype, fail=fail, attrs=attrs)
    try:
        q = d07_like(lay, ma, me, mp, pr)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    da0, _ = build(x, t, lay)
    da = da0.astype(dtype)
    if lay == "g":
        tn, yn, xn = names
        ren = {"time": tn, "lat": yn, "lon": xn}
        da = da.rename({k: v for k, v in ren.items() if k != v}).transpose(*[ren[d] for d in perm])
        kw = dict(dimensions={"time": tn, "x": xn, "y": yn}, coordinates={"time": tn, "x": xn, "y": yn}) if names != ("time", "lat", "lon") else {}
    else:
        tn, cn, yn, xn = names
        ren = {"time": tn, "ncells": cn, "lat": yn, "lon": xn}
        da = da.rename({k: v for k, v in ren.items() if k != v}).transpose(*[ren[d] for d in perm])
        kw = dict(dimensions={"time": tn, "x": cn}, coordinates={"time": tn, "x": xn, "y": yn})
    if attrs:
        da.attrs = {"units": "K", "long_name": "x"}
        da[tn].attrs = {"calendar": "standard", "units": "days", "note": "keep"}
        da[xn].attrs = {"units": "degrees_east"}
    if fail == "nan":
        v = da.values.copy().astype(float).reshape(-1)
        w = da.isel({tn: 3}).values
        arr = da.values.copy(); idx = tuple(3 if d == tn else 0 for d in da.dims); arr[idx] = np.nan
        da = da.copy(data=arr).chunk()
    keep = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
    neigh = xr.DataArray(np.arange(36).reshape(3, 12) * 4001 - 1, dims=("nv", ren.get("ncells", "ncells"))) if lay == "u" else None
    areas = xr.DataArray(np.arange(12.0) * 7001.25 + 1, dims=(ren["ncells"],)) if lay == "u" else xr.DataArray(np.arange(12.0).reshape(3, 4) * 7001.25 + 1, dims=(ren["lat"], ren["lon"]), coords={ren["lat"]: da0.lat.values, ren["lon"]: da0.lon.values})
    do = [1]
    before = (fingerprint(da), fingerprint(areas), None if neigh is None else fingerprint(neigh))
    r["evals"] = 1
    ds = None
    p = dict(pr)
    if fail == "cfg":
        p["threshold_percentile"] = 10; p["method_percentile"] = "approximate"
    else:
        p["method_percentile"] = mp
    if ma.startswith("detrend"):
        p["detrend_orders"] = do
    try:
        with C.real("preprocess_data"):
            try:
                ds = mx.preprocess_data(da, method_anomaly=ma, method_extreme=me, cell_areas=areas, neighbours=neigh, **p, **kw)
            except X.MarExError:
                if not fail:
                    raise
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); return r
    after = (fingerprint(da), fingerprint(areas), None if neigh is None else fingerprint(neigh))
    if after != before:
        r["viol"].append({"what": f"caller's data modified (input, areas, neighbours): {[a == b for a, b in zip(before, after)]}; attrs now {dict(da[tn].attrs)}", "case": case})
    if kw != keep or do != [1]:
        r["viol"].append({"what": "caller's dimension/coordinate mappings or order list modified", "case": case})
    if fail:
        if ds is not None:
            r["viol"].append({"what": "flawed call accepted", "case": case})
        r["distinct"].add(repr(case)); return r
    inv = {v: k for k, v in ren.items()}
    ds = ds.compute()
    out = ds.rename({k: v for k, v in inv.items() if k in ds.dims or k in ds.coords if k != v})
    o = canon(out, lay)
    cmp_all(r, o, q, f"names {names} order {perm} dtype {dtype}", case)
    for c0 in ("lat", "lon"):
        if c0 not in out.coords or not np.array_equal(out[c0].values, da0[c0].values):
            r["viol"].append({"what": f"coordinate {c0} changed", "case": case})
    if "cell_areas" not in ds or not np.allclose(np.asarray(ds.cell_areas.transpose(*areas.dims).values), areas.values):
        r["viol"].append({"what": "cell areas not passed through", "case": case})
    if lay == "u" and ("neighbours" not in ds or not np.array_equal(ds.neighbours.transpose(*neigh.dims).values, neigh.values)):
        r["viol"].append({"what": "neighbours not passed through", "case": case})
    r["distinct"].add(repr(case))
    r["samples"] = [case]
    return r


def d07_like(lay, ma, me, mp, pr):
    p = dict(pr)
    if ma.startswith("detrend"):
        p["detrend_orders"] = [1]
    return d07_ref("winters", lay, ma, me, mp, p)


def d10(tier):
    thorough = tier == "thorough"
    P = dict(threshold_percentile=80, window_year_baseline=1, smooth_days_baseline=3, window_days_hobday=3)
    gnames = [("time", "lat", "lon"), ("t", "latitude", "longitude"), ("lat", "y", "x"), ("month", "j", "i")]
    unames = [("time", "ncells", "lat", "lon"), ("t", "cell", "clat", "clon"), ("date", "x", "y", "lonx")]
    tasks = []
    combos = [(a, e, p) for a in AN for e, p in (("global_extreme", "approximate"), ("global_extreme", "exact"), ("hobday_extreme", "approximate"), ("hobday_extreme", "exact"))]
    for i, (ma, me, mp) in enumerate(combos):
        pr = dict(P)
        if mp == "approximate":
            pr["precision"] = 0.1
        heavy = me == "hobday_extreme"
        gp = list(itertools.permutations(("time", "lat", "lon")))
        up = list(itertools.permutations(("time", "ncells")))
        for ni, names in enumerate(gnames):
            for pi, perm in enumerate(gp):
                if not thorough and heavy and (mp == "exact" and (ni, pi) not in ((1, 3), (0, 5)) or mp != "exact" and (ni + pi) % 3 != i % 3):
                    continue
                if not thorough and not heavy and (ni + pi + i) % 2:
                    continue
                tasks.append(("g", ma, me, mp, pr, names, perm, "float32" if pi % 2 else "float64", None, bool(pi % 2)))
        for ni, names in enumerate(unames):
            for pi, perm in enumerate(up):
                if not thorough and heavy and (mp == "exact" and (ni, pi) != (1, 1) or mp != "exact" and (ni + pi) % 2):
                    continue
                tasks.append(("u", ma, me, mp, pr, names, perm, "float32", None, bool(pi)))
        for fail in ("nan", "cfg"):
            tasks.append(("g", ma, me, mp, pr, gnames[1], gp[2], "float32", fail, True))
            tasks.append(("u", ma, me, mp, pr, unames[1], up[1], "float32", fail, True))
    tasks.sort(key=lambda a: (a[2] != "hobday_extreme", a[3] != "exact"))
    total = C.run_tasks(d10_task, tasks, warm=D.plain)
    return {"level": "exploration", "total": total,
            "rule": "all dimension orders x naming schemes (incl. clashing names) x dtypes x all method combinations, gridded and unstructured, compared with the canonical run; inputs, coordinates, attributes, areas, neighbours and argument dictionaries fingerprinted before and after, on success and on failure",
            "assumptions": ["float32 tolerance"]}
