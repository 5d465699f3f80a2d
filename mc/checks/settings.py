"""T16: every tracker configuration is honoured and recorded, or refused with a typed error (decision table)."""
import itertools, shutil, tempfile
import numpy as np
from .. import common as C
from .. import model_preproc as M
from .. import drive_unstruct as DU
from .track_core import canon, canon_diff

OMIT = "<omitted>"


def field():
    """A fixed history in which each setting of the alphabet changes something: gaps in time of 1-4 steps, holes, objects of
    many sizes, a merge, a split. Slice 0 holds one object alone (KF1: the first object may vanish in the area filter)."""
    T, Y, X = 14, 14, 20
    a = np.zeros((T, Y, X), bool)
    a[0, 6:12, 8:14] = True
    # two objects that merge into one (steps 2-4), then split again
    a[2, 1:6, 1:6] = True; a[2, 1:6, 9:16] = True
    a[3, 1:6, 1:7] = True; a[3, 1:6, 8:16] = True
    a[4, 1:6, 1:16] = True
    a[5, 1:6, 2:16] = True
    a[6, 1:6, 2:7] = True; a[6, 1:6, 10:15] = True
    # object with a hole
    a[7, 2:9, 3:10] = True; a[7, 5, 6] = False
    # gaps of one to three steps at different places
    a[8, 9:13, 0:5] = True; a[10, 9:13, 0:5] = True
    a[8, 9:13, 9:13] = True; a[11, 9:13, 9:13] = True
    a[8, 8:13, 15:19] = True; a[12, 8:13, 15:19] = True
    # small ones, and one touching the seam
    a[10, 1:3, 7:10] = True
    a[11, 1, 2:4] = True
    a[12, 0:4, 18:20] = True; a[12, 0:4, 0:3] = True
    a[13, 0:3, 19:20] = True; a[13, 0:3, 0:2] = True
    return a


SIZE = field().shape
SPANS = {"360": 360.0, "359.1": 359.1, "358.8": 358.8, "360.9": 360.9, "361.2": 361.2, "2pi": 2 * np.pi, "2pi-": 2 * np.pi - 0.019, "2pi--": 2 * np.pi - 0.021,
         "2pi+": 2 * np.pi + 0.019, "2pi++": 2 * np.pi + 0.021, "342": 342.0, "60": 60.0}
BASE = dict(R_fill=0, filt=("abs", 1), T_fill=0, allow_merging=True, nn_partitioning=True, overlap_threshold=0.5, span="342", coordinate_units="degrees", regional_mode=False,
            data="ok", mask="ok", cell_areas=None, grid_resolution=None, schunk=False, via="tracker")
ALT = dict(R_fill=[1, 2, 2.0], filt=[("none",), ("q", 0.25), ("q", 0.0), ("q", 1.5), ("q", -0.1), ("abs", 7), ("abs", 0), ("abs", -3), ("both", 0.5, 7), ("both", 0.0, 1)],
           T_fill=[OMIT, 2, 4, 1, 3], allow_merging=[OMIT, False], nn_partitioning=[OMIT, False], overlap_threshold=[OMIT, 0.9, 0.1], span=["360", "2pi", "60"],
           coordinate_units=[OMIT, "radians", "deg"], regional_mode=[OMIT, True], data=["uint8", "float", "numpy", "depth", "no lat", "no time"], mask=["int", "empty", "coast"],
           cell_areas=["ok", "1d"], grid_resolution=[1.5, 2, 0, -1.0, "1"], schunk=[True], via=["regional_tracker"])


def units_ok(c):
    u, reg = c["coordinate_units"], c["regional_mode"] is True or c["via"] == "regional_tracker"
    if u in ("degrees", "radians"):
        return True
    if u == "deg" or reg:
        return False
    s = SPANS[c["span"]] if c["data"] != "no lon" else 19.0
    return abs(s - 360) <= 1.0 or abs(s - 2 * np.pi) <= 0.02


def expect(c):
    """admissible error types, or None when the configuration must be accepted"""
    e = set()
    f = c["filt"]
    if f[0] == "both" or (f[0] == "q" and not 0 <= f[1] <= 1) or (f[0] == "abs" and f[1] <= 0) or c["T_fill"] in (1, 3):
        e.add("ConfigurationError")
    if not units_ok(c):
        e.add("CoordinateError")
    if c["data"] != "ok" or c["mask"] in ("int", "empty") or c["cell_areas"] == "1d" or c["grid_resolution"] in (0, -1.0, "1"):
        e.add("DataValidationError")
    return e or None


def effective(c):
    """documented defaults filled in"""
    c = dict(c)
    for k, v in dict(T_fill=2, allow_merging=True, nn_partitioning=False, overlap_threshold=0.5, regional_mode=False).items():
        if c[k] == OMIT:
            c[k] = v
    if c["filt"] == ("none",):
        c["filt"] = ("q", 0.5)
    if c["coordinate_units"] == OMIT:
        c["coordinate_units"] = "degrees" if SPANS[c["span"]] > 100 else "radians"
    if c["via"] == "regional_tracker":
        c["regional_mode"], c["via"] = True, "tracker"
    if c["grid_resolution"] is not None:
        c["cell_areas"] = None
    c["R_fill"] = int(c["R_fill"])
    c["schunk"] = False
    return c


def call(c):
    import xarray as xr
    mx = C.load()
    a = field()
    T, Y, X = a.shape
    span = SPANS[c["span"]]
    lon = np.linspace(0, span, X)
    lat = np.linspace(-30, 30, Y) if span > 100 or span == 60 else np.linspace(-0.5, 0.5, Y)
    t = (np.datetime64("2000-01-01") + np.arange(T)).astype("datetime64[ns]")
    da = xr.DataArray(a, dims=("time", "lat", "lon"), coords={"time": t, "lat": lat, "lon": lon}, attrs={"source": "menu"})
    da = da.chunk({"time": 4, "lat": 5 if c["schunk"] else -1, "lon": 7 if c["schunk"] else -1})
    m = xr.DataArray(np.ones((Y, X), bool), dims=("lat", "lon"), coords={"lat": lat, "lon": lon})
    if c["mask"] == "coast":
        m[11:, 12:] = False
    elif c["mask"] == "int":
        m = m.astype(int)
    elif c["mask"] == "empty":
        m = m & False
    d = c["data"]
    if d in ("uint8", "float"):
        da = da.astype(d)
    elif d == "numpy":
        da = da.compute()
    elif d == "depth":
        da = da.expand_dims("depth")
    elif d == "no lat":
        da = da.drop_vars("lat")
    elif d == "no time":
        da = da.drop_vars("time")
    kw = dict(R_fill=c["R_fill"], quiet=True)
    for k in ("T_fill", "allow_merging", "nn_partitioning", "overlap_threshold", "regional_mode", "coordinate_units"):
        if c[k] != OMIT:
            kw[k] = c[k]
    f = c["filt"]
    if f[0] in ("q", "both"):
        kw["area_filter_quartile"] = f[1]
    if f[0] in ("abs", "both"):
        kw["area_filter_absolute"] = f[-1]
    if c["cell_areas"]:
        ar = xr.DataArray(np.cos(np.deg2rad(np.arange(Y)))[:, None] * np.ones(X) * 3.0, dims=("lat", "lon"), coords={"lat": lat, "lon": lon})
        kw["cell_areas"] = ar if c["cell_areas"] == "ok" else ar.isel(lon=0)
    if c["grid_resolution"] is not None:
        kw["grid_resolution"] = c["grid_resolution"]
    if c["via"] == "regional_tracker":
        kw.pop("regional_mode", None)
        kw.setdefault("coordinate_units", None)
        return a, m.values.astype(bool), (lambda: mx.regional_tracker(da, m, **kw))
    return a, m.values.astype(bool), (lambda: mx.tracker(da, m, **kw))


def run_case(c):
    """-> ('error', type name, text) | ('ok', canonical output, attrs, footprint)"""
    import marEx.exceptions as X
    a, m, go = call(c)
    with C.real("tracker"):
        try:
            tr = go()
        except (X.MarExError, NotImplementedError) as e:
            return "error", type(e).__name__, str(e)[:200]
    with C.real("run"):
        am = c["allow_merging"] is not False
        out = tr.run(return_merges=True) if am else (tr.run(), None)
        ev, mg = out[0].load(), (out[1].load() if am else None)
    return "ok", canon(ev, mg, 1), dict(ev.attrs), ev.ID_field.values > 0


_ref = {}


def reference(c):
    k = repr(sorted(c.items(), key=str))
    if k not in _ref:
        _ref[k] = run_case(c)
    return _ref[k]


def footprint(c):
    """(must-be-labelled, may-be-labelled, threshold) by the reference preprocessing"""
    a = field()
    mask = np.ones(a.shape[1:], bool)
    if c["mask"] == "coast":
        mask[11:, 12:] = False
    wrap = not c["regional_mode"]
    b = M.preprocess(a, c["R_fill"], c["T_fill"], mask, wrap)
    objs = M.labels(b, wrap)
    ar = np.array([len(x) for _, x in objs], float)
    thr = float(c["filt"][1]) if c["filt"][0] == "abs" else float(np.percentile(ar.astype("f4"), c["filt"][1] * 100))
    lo, hi = np.zeros_like(b), np.zeros_like(b)
    for n, (t, cells) in enumerate(objs):
        if len(cells) >= thr - 1e-6:
            for y, x in cells:
                hi[t, y, x] = True
                lo[t, y, x] = n > 0
    return lo, hi, thr, len(objs)


def t16_task(c):
    r = C.result()
    r["evals"] = r["traces"] = 1
    want = expect(c)
    case = {k: (list(v) if isinstance(v, tuple) else v) for k, v in c.items()}
    try:
        got = run_case(c)
    except C.RealCodeError as e:
        r["viol"].append({"what": ("untyped error: " if want else "valid configuration failed: ") + str(e), "case": case}); return r
    r["distinct"].add(C.h(case)); r["samples"] = [case]
    if got[0] == "error":
        if want is None:
            r["viol"].append({"what": f"valid configuration refused: {got[1]}: {got[2]}", "case": case})
        elif got[1] not in want:
            r["viol"].append({"what": f"refused with {got[1]}, expected one of {sorted(want)}", "case": case})
        return r
    if want is not None:
        r["viol"].append({"what": f"flawed configuration accepted (expected {sorted(want)})", "case": case}); return r
    e = effective(c)
    _, cn, at, foot = got
    # recorded
    rec = dict(allow_merging=int(e["allow_merging"]), R_fill=e["R_fill"], T_fill=e["T_fill"], source="menu")
    if e["filt"][0] == "q":
        rec["area_filter_quartile"] = e["filt"][1]
    if e["allow_merging"]:
        rec.update(overlap_threshold=e["overlap_threshold"], nn_partitioning=int(e["nn_partitioning"]))
    lo, hi, thr, nobj = footprint(e)
    rec["N_objects_prefiltered"] = nobj
    for k, v in rec.items():
        if k not in at or at[k] != v:
            r["viol"].append({"what": f"recorded {k}={at.get(k)!r}, requested {v!r}", "case": case})
    if abs(float(at["area_threshold (cells)"]) - thr) > 1e-4 * max(1, thr):
        r["viol"].append({"what": f"recorded area threshold {at['area_threshold (cells)']}, settings imply {thr}", "case": case})
    # honoured: the preprocessing settings give this footprint ...
    if (lo & ~foot).any() or (foot & ~hi).any():
        d = (lo & ~foot) | (foot & ~hi)
        r["viol"].append({"what": f"labelled cells are not those the settings imply, e.g. (time, lat, lon) index {tuple(map(int, np.argwhere(d)[0]))}", "case": case})
    # ... and omitted settings, equivalent spellings and the convenience constructor change nothing
    if e != c:
        ref = reference(e)
        if ref[0] != "ok":
            r["viol"].append({"what": f"equivalent explicit configuration failed: {ref[1:]}", "case": case})
        else:
            d = canon_diff(ref[1], cn)
            if d:
                r["viol"].append({"what": "differs from the equivalent explicit configuration: " + d, "case": case})
    return r


# ---------------------------------------------------------------- unstructured
UBASE = dict(temp_dir="ok", neighbours="ok", cell_areas="ok", grid_resolution=None, regional_mode=False, data="ok", mask="ok", filt=("abs", 1), T_fill=0, coordinate_units="degrees",
             allow_merging=True, overlap_threshold=0.5, nn_partitioning=True)
UALT = dict(temp_dir=["none", "empty"], neighbours=["none", "transposed", "names", "four", "two"], cell_areas=["none"], grid_resolution=[1.0], regional_mode=[True], data=["int", "numpy", "3d"],
            mask=["int", "empty"], filt=[("abs", 0), ("q", 2.0), ("both", 0.5, 5)], T_fill=[1, 2], coordinate_units=[OMIT, "bogus", "radians"], allow_merging=[OMIT],
            overlap_threshold=[OMIT, 0.9], nn_partitioning=[OMIT, False])


def uexpect(c):
    e = set()
    f = c["filt"]
    if f[0] == "both" or (f[0] == "q" and not 0 <= f[1] <= 1) or (f[0] == "abs" and f[1] <= 0) or c["T_fill"] == 1 or c["temp_dir"] == "empty":
        e.add("ConfigurationError")
    if c["coordinate_units"] in ("bogus", OMIT):
        e.add("CoordinateError")
    if c["regional_mode"]:
        e.add("NotImplementedError")
    if c["temp_dir"] == "none" or c["neighbours"] != "ok" or c["cell_areas"] != "ok" or c["grid_resolution"] is not None or c["data"] != "ok" or c["mask"] != "ok":
        e.add("DataValidationError")
    return e or None


def urun(c):
    import xarray as xr
    import marEx.exceptions as X
    mx = C.load()
    h = np.zeros((5, 16), bool)
    h[0, 0:3] = h[0, 5:8] = True
    h[1, 0:8] = True
    h[2, 0:2] = h[2, 6:8] = h[2, 9:12] = True
    h[4, 0:2] = True
    b = DU.UBatch([h], "ladder", 8, False, 1)
    big, nb, lat, lon = b.big, b.nb, b.lat, b.lon
    T, N = big.shape
    t = (np.datetime64("2000-01-01") + np.arange(T)).astype("datetime64[ns]")
    if c["coordinate_units"] == "radians":
        lat, lon = np.deg2rad(lat), np.deg2rad(lon)
    co = {"lat": ("ncells", lat), "lon": ("ncells", lon)}
    da = xr.DataArray(big, dims=("time", "ncells"), coords={"time": t, **co}).chunk({"time": T, "ncells": -1})
    m = xr.DataArray(np.ones(N, bool), dims=("ncells",), coords=co).chunk()
    nbr = xr.DataArray(nb + 1, dims=("nv", "ncells"), coords=co).chunk()
    ar = xr.DataArray(np.ones(N, "f4"), dims=("ncells",), coords=co).chunk()
    k = dict(R_fill=0, quiet=True, regional_mode=c["regional_mode"])
    for key in ("T_fill", "coordinate_units", "allow_merging", "overlap_threshold", "nn_partitioning"):
        if c[key] != OMIT:
            k[key] = c[key]
    f = c["filt"]
    if f[0] in ("q", "both"):
        k["area_filter_quartile"] = f[1]
    if f[0] in ("abs", "both"):
        k["area_filter_absolute"] = f[-1]
    if c["grid_resolution"]:
        k["grid_resolution"] = c["grid_resolution"]
    d = c["data"]
    da = da.astype(int) if d == "int" else da.compute() if d == "numpy" else da.expand_dims("depth") if d == "3d" else da
    m = m.astype(int) if c["mask"] == "int" else (m & False) if c["mask"] == "empty" else m
    n = c["neighbours"]
    if n == "none":
        nbr = None
    elif n == "transposed":
        nbr = nbr.transpose()
    elif n == "names":
        nbr = nbr.rename(nv="vertex")
    elif n == "four":
        nbr = xr.concat([nbr, nbr.isel(nv=[0])], dim="nv")
    elif n == "two":
        nbr = nbr.isel(nv=[0, 1])
    ca = None if c["cell_areas"] == "none" else ar
    tmp = tempfile.mkdtemp(dir=C.SCRATCH)
    try:
        with C.real("tracker"):
            try:
                tr = mx.tracker(da, m, unstructured_grid=True, dimensions={"x": "ncells"}, coordinates={"time": "time", "x": "lon", "y": "lat"}, neighbours=nbr, cell_areas=ca,
                                temp_dir={"ok": tmp, "none": None, "empty": ""}[c["temp_dir"]], **k)
            except (X.MarExError, NotImplementedError) as e:
                return "error", type(e).__name__, str(e)[:200]
        with C.real("run"):
            ev, mg = tr.run(return_merges=True)
            ev = ev.load()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return "ok", ev.ID_field.values, dict(ev.attrs), big


def t16_u(c):
    r = C.result()
    r["evals"] = r["traces"] = 1
    want = uexpect(c)
    case = {k: (list(v) if isinstance(v, tuple) else v) for k, v in c.items()}
    try:
        got = urun(c)
    except C.RealCodeError as e:
        r["viol"].append({"what": ("unstructured: untyped error: " if want else "unstructured: valid configuration failed: ") + str(e), "case": case}); return r
    r["distinct"].add(C.h(["u", case]))
    if got[0] == "error":
        if want is None:
            r["viol"].append({"what": f"unstructured: valid configuration refused: {got[1]}: {got[2]}", "case": case})
        elif got[1] not in want:
            r["viol"].append({"what": f"unstructured: refused with {got[1]}, expected one of {sorted(want)}", "case": case})
        return r
    if want is not None:
        r["viol"].append({"what": f"unstructured: flawed configuration accepted (expected {sorted(want)})", "case": case}); return r
    at = got[2]
    ov = 0.5 if c["overlap_threshold"] == OMIT else c["overlap_threshold"]
    nn = 0 if c["nn_partitioning"] == OMIT else int(c["nn_partitioning"])
    for k, v in dict(allow_merging=1, R_fill=0, T_fill=c["T_fill"], overlap_threshold=ov, nn_partitioning=nn).items():
        if at.get(k) != v:
            r["viol"].append({"what": f"unstructured: recorded {k}={at.get(k)!r}, requested {v!r}", "case": case})
    want_f = M.tclose(got[3], c["T_fill"])
    if ((got[1] > 0) != want_f).any():
        r["viol"].append({"what": "unstructured: labelled cells are not those the settings imply", "case": case})
    return r


def cases(base, alt, depth):
    out = []
    for d in range(depth + 1):
        for ks in itertools.combinations(alt, d):
            for vs in itertools.product(*[alt[k] for k in ks]):
                c = dict(base); c.update(zip(ks, vs)); out.append(c)
    return out


def group(kind, cs):
    r = C.result()
    for c in cs:
        C.merge(r, (t16_task if kind == "g" else t16_u)(c))
    return r


def t16(tier):
    th = tier == "thorough"
    cs = cases(BASE, ALT, 3 if th else 2)
    # the whole unit-detection table
    for s, u, rg, via in itertools.product(SPANS, ["degrees", "radians", OMIT, "deg"], [OMIT, True], ["tracker", "regional_tracker"]):
        c = dict(BASE, span=s, coordinate_units=u, regional_mode=rg, via=via)
        if c not in cs and (th or u in (OMIT, "deg") or s in ("342", "60")):
            cs.append(c)
    # all accepted preprocessing settings together
    for R, f, T, mg, nn, reg, mk in itertools.product([0, 1, 2], [("none",), ("q", 0.25), ("abs", 7)], [OMIT, 0, 4], [OMIT, False], [OMIT, True], [False, True], ["ok", "coast"]):
        c = dict(BASE, R_fill=R, filt=f, T_fill=T, allow_merging=mg, nn_partitioning=nn, regional_mode=reg, mask=mk)
        if c not in cs:
            cs.append(c)
    us = cases(UBASE, UALT, 2)
    if not th:   # runs (not refusals) are what costs: keep those with at most two deviations and a complete sub-product
        dev = lambda c: sum(c[k] != BASE[k] for k in BASE)
        cs = [c for c in cs if expect(c) is not None or dev(c) <= 1 or (dev(c) == 2 and c["span"] == "342") or (c["mask"] == "coast" and c["nn_partitioning"] == OMIT and not c["regional_mode"])
              or c["span"] not in ("342", "360", "2pi", "60")]
    ok, bad = [c for c in cs if expect(c) is None], [c for c in cs if expect(c) is not None]
    ok.sort(key=lambda c: repr(sorted(effective(c).items(), key=str)))     # configurations sharing their reference run lie together
    tasks = [("u", us[i::16]) for i in range(16)] + [("g", ok[i:i + 8]) for i in range(0, len(ok), 8)] + [("g", bad[i::16]) for i in range(16)]
    total = C.run_tasks(group, tasks, budget=840 if not th else 30000)
    return {"level": "exploration", "total": total, "exhaustive": True,
            "rule": "every gridded configuration with at most 2 (thorough: 3) deviations from a base over 15 settings (including flawed values, flawed data, masks, areas), the whole unit-detection table (12 longitude spans x units x "
                    "regional x constructor), all preprocessing settings together, and every unstructured configuration with at most 2 deviations over 13 settings, against a decision table: refused at construction with an error type of one of its "
                    "flaws, or accepted, recorded, labelling exactly the cells the reference preprocessing gives, and identical to the run with all defaults spelled out",
            "assumptions": ["with several flaws any of their error types is admissible", "names absent from the data altogether are not part of the table"]}


def replay(pid, case):
    c = {k: (tuple(v) if isinstance(v, list) else v) for k, v in case.items()}
    return (t16_u if "neighbours" in c else t16_task)(c)
