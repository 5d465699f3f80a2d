"""T14: the same events whatever the representation of the input; nothing of the caller's is modified."""
import itertools, shutil, tempfile
import numpy as np
from .. import common as C
from ..drive_track import Batch, cells_of, BASE_KW
from ..drive_unstruct import UBatch
from ..model_track import Model, mean_index
from . import track_core as TC
from . import unstruct as UN

NAMES = {"std": ("time", "lat", "lon", "time", "lat", "lon"), "alt": ("t", "y", "x", "t", "y", "x"),
         "split": ("t", "j", "i", "clock", "latitude", "longitude")}


def tie_free(nn, regional=False, nmax=16):
    """histories whose division is unambiguous, with merges and splits first"""
    out = []
    for name in ("menu12:3x8", "menu2x8:3x8"):
        hs = []
        for c in TC.space(name):
            h = TC.build(c)
            m = Model(cells_of(h), h.shape[2], not regional, 0.5, nn)
            if h.any(axis=1).all(axis=1).any():        # an object all round the globe has no centroid longitude
                continue
            if m.ties == 0 and not m.amb_centroid and not m.nonconverged:
                hs.append((-len(m.merges), len(hs), h))
        hs.sort(key=lambda k: k[:2])
        out.append([h for *_, h in hs[:nmax]])
    return out


def snapshot(objs):
    """deep description of xarray objects and of the numpy buffers underneath"""
    out = []
    for o in objs:
        if o is None:
            out.append(None); continue
        if isinstance(o, np.ndarray):
            out.append((o.shape, str(o.dtype), o.tobytes(), o.flags.writeable)); continue
        if isinstance(o, dict):
            out.append(repr(sorted(o.items()))); continue
        c = {str(k): (v.dims, str(v.dtype), v.values.tobytes(), repr(sorted(v.attrs.items()))) for k, v in o.coords.items()}
        out.append((o.name, o.dims, str(o.dtype), o.shape, o.values.tobytes(), sorted(map(str, o.indexes)), sorted(c.items(), key=lambda k: k[0]), repr(sorted(o.attrs.items())), repr(o.chunks)))
    return out


def snap_diff(a, b, names):
    for x, y, n in zip(a, b, names):
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple):
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        return f"{n} was modified (field {i}): {str(p)[:200]} -> {str(q)[:200]}"
            return f"{n} was modified"
    return None


def inputs(a, v):
    """build the caller's arrays in representation v -> (da, mask, areas, kwargs, decode)"""
    import xarray as xr
    T, Y, X = a.shape
    lat = np.linspace(-60, 60, Y) if Y > 1 else np.array([12.5])
    lon = np.arange(X) * 360.0 / X
    w = (1 + (np.arange(Y)[:, None] * 7 + np.arange(X)[None, :] * 3) % 11).astype("f4")
    mask = np.ones((Y, X), bool)
    td, yd, xd, tc, yc, xc = NAMES[v["names"]]
    ys = slice(None, None, -1) if v["flip"] else slice(None)
    data = np.array(a[:, ys], dtype=bool, order=v["mem"])
    lat, w, mask = lat[ys], w[ys], mask[ys]
    if v["conv"] == "neg":
        lon = np.where(lon >= 180, lon - 360, lon)
        k = int(np.argmin(lon))
        lon, data, w = np.roll(lon, -k), np.array(np.roll(data, -k, axis=2), order=v["mem"]), np.roll(w, -k, axis=1)
    if v["units"] == "rad":
        lat, lon = np.radians(lat), np.radians(lon)
    lat, lon = lat.astype(v["ctype"]), lon.astype(v["ctype"])
    t = (np.datetime64("2000-01-01") + np.arange(T)).astype("datetime64[ns]")
    co = {tc: (td, t), yc: (yd, lat.copy()), xc: (xd, lon.copy())}
    sp = {yc: (yd, lat.copy()), xc: (xd, lon.copy())}
    da = xr.DataArray(data, dims=(td, yd, xd), coords=co, name="extreme_events", attrs={"source": "mc"})
    da = da.transpose(*[(td, yd, xd)[i] for i in v["order"]])
    da = da.chunk({td: v["tchunk"], yd: v["schunk"], xd: v["schunk"]})
    m = xr.DataArray(mask, dims=(yd, xd), coords=sp)
    ca = None
    kw = {}
    if v["areas"] in ("cell", "cellT"):
        ca = xr.DataArray(w.copy(), dims=(yd, xd), coords=sp)
        if v["areas"] == "cellT":
            ca = ca.transpose(xd, yd)
        kw["cell_areas"] = ca
    elif v["areas"] == "res":
        kw["grid_resolution"] = 2.5
    if v["mask"] == "T":
        m = m.transpose(xd, yd)
    elif v["mask"] == "dask":
        m = m.chunk({yd: 1})
    kw["dimensions"] = {"time": td, "y": yd, "x": xd}
    kw["coordinates"] = {"time": tc, "y": yc, "x": xc}
    kw["coordinate_units"] = {"deg": "degrees", "rad": "radians"}[v["units"]]
    return da, m, ca, kw, (td, yd, xd, tc, yc, xc), [data, lat, lon]


def canon(ev, mg, nm, v, Y, X, t_from=1):
    """events keyed by (step, row counted from the south, column counted from 0E)"""
    td, yd, xd, tc, yc, xc = nm
    f = ev.ID_field.transpose(td, yd, xd).values
    foot = {}
    k = X - (int(np.ceil(X / 2))) if v["conv"] == "neg" else 0       # column of 0E
    first = 0
    if v["conv"] == "neg":
        lon0 = np.arange(X) * 360.0 / X
        first = int(np.argmin(np.where(lon0 >= 180, lon0 - 360, lon0)))
    for t, y, x in zip(*np.nonzero(f)):
        yy = Y - 1 - int(y) if v["flip"] else int(y)
        foot.setdefault(int(f[t, y, x]), []).append((int(t), yy, (int(x) + first) % X))
    foot = {k: tuple(sorted(c)) for k, c in foot.items()}
    out = {}
    led = ev["merge_ledger"].transpose(td, "ID", "sibling_ID").values
    cen = ev["centroid"].transpose("component", td, "ID").values.astype("f8")
    if v["units"] == "rad":
        cen = np.degrees(cen)
    lo = cen[1]
    area, pres = ev.area.transpose(td, "ID").values, ev.presence.transpose(td, "ID").values
    ts, te = ev.time_start.values, ev.time_end.values
    for j, i in enumerate(map(int, ev.ID.values)):
        if i not in foot or foot[i][0][0] < t_from:
            continue
        cols = {}
        for t, y, x in foot[i]:
            cols.setdefault(t, []).append(x)
        for t, xs in cols.items():                  # two widest gaps: the centroid longitude is not unique
            if not mean_index(xs, [1] * len(xs), X, True)[1]:
                lo[t, j] = np.nan
        out[foot[i]] = dict(area=area[:, j], presence=pres[:, j].astype(bool), clat=cen[0, :, j],
                            cx=np.cos(np.radians(lo[:, j])), cy=np.sin(np.radians(lo[:, j])), start=ts[j], end=te[j],
                            ledger=tuple(frozenset(C.h(foot.get(int(s))) for s in row if s > 0) for row in led[:, j]))
        rng = lo[:, j][np.isfinite(lo[:, j])]
        if v["conv"] == "neg" and (rng > 180.01 + 360.0 / X).any() or v["conv"] == "pos" and (rng < -0.01).any():
            out[foot[i]]["convention"] = rng.tolist()
    recs = sorted((str(mg.merge_time.values[i]), int(mg.n_parents.values[i]), tuple(sorted(float(x) for x in mg.overlap_areas.values[i] if x >= 0))) for i in range(mg.sizes["merge_ID"]))
    return out, recs


def diff(a, b):
    (ea, ra), (eb, rb) = a, b
    if set(ea) != set(eb):
        d = sorted(set(ea) ^ set(eb), key=len)
        return f"events differ, e.g. {d[0][:30]} ({len(ea)} vs {len(eb)} events)"
    if ra != rb:
        return f"merge records differ: {ra[:4]} vs {rb[:4]}"
    for k in ea:
        if "convention" in eb[k]:
            return f"centroid longitudes {eb[k]['convention']} outside the input's convention"
        for v in ea[k]:
            if v == "convention":
                continue
            x, y = ea[k][v], eb[k][v]
            ok = x == y if v in ("ledger", "start", "end") else np.allclose(x, y, rtol=1e-4, atol=2e-3, equal_nan=True)
            if not ok:
                return f"{v} of event {k[:20]}: {x} vs {y}"[:500]
    return None


BASE = dict(order=(0, 1, 2), units="deg", names="std", flip=False, conv="pos", areas="none", mask="np", mem="C", ctype="f8", tchunk=5, schunk=-1)
OPT = dict(order=[(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)], units=["deg", "rad"], names=["std", "alt", "split"],
           flip=[False, True], conv=["pos", "neg"], areas=["none", "cell", "cellT", "res"], mask=["np", "T", "dask"], mem=["C", "F"],
           ctype=["f8", "f4"], schunk=[-1, 2])
_tf = {}


def run_variant(a, v, kw0):
    marEx = C.load()
    da, m, ca, kw, nm, raw = inputs(a, v)
    objs = [da, m, ca, *raw, kw["dimensions"], kw["coordinates"]]
    names = ["data_bin", "mask", "cell_areas", "the data buffer", "latitudes", "longitudes", "dimensions", "coordinates"]
    before = snapshot(objs)
    k = dict(BASE_KW); k.update(kw0); k.update(kw)
    with C.real("tracker.run"):
        tr = marEx.tracker(da, m, **k)
        ev, mg = tr.run(return_merges=True)
        ev, mg = ev.load(), mg.load()
    return ev, mg, nm, snap_diff(before, snapshot(objs), names)


def hist_block(which, nn):
    key = (which, nn)
    if key not in _tf:
        _tf[(0, nn)], _tf[(1, nn)] = [Batch(h, 8).big for h in tie_free(nn)]
    return _tf[key]


def t14_task(which, kw0, variants):
    r = C.result()
    a = hist_block(which, kw0["nn_partitioning"])
    ref = {}
    for v in variants:
        v = dict(BASE, **v)
        key = "cell" if v["areas"].startswith("cell") else v["areas"]
        if key not in ref:
            b = dict(BASE, areas=key)
            ev, mg, nm, d = run_variant(a, b, kw0)
            ref[key] = canon(ev, mg, nm, b, a.shape[1], a.shape[2])
        case = {"menu": which, "cfg": kw0, "representation": {k: x for k, x in v.items() if x != BASE[k]}}
        try:
            ev, mg, nm, d = run_variant(a, v, kw0)
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); r["evals"] += 1; continue
        r["evals"] += 1
        r["distinct"].add(C.h((which, sorted(kw0.items()), sorted((k, str(x)) for k, x in v.items()))))
        if d:
            r["viol"].append({"what": d, "case": case})
        e = diff(ref[key], canon(ev, mg, nm, v, a.shape[1], a.shape[2]))
        if e:
            r["viol"].append({"what": f"result depends on the representation {case['representation']}: {e}", "case": case})
    r["samples"] = [{"representation": str(variants[-1])}]
    return r


# ---------------------------------------------------------------- unstructured
UOPT = dict(order=[0, 1], units=["deg", "rad"], names=["std", "split"], conv=["neg", "pos"], mem=["C", "F"], chunk=["none", "data", "nbr", "area", "mask"],
            nbt=["i8", "i4", "f8"])
UBASE = dict(order=0, units="deg", names="std", conv="pos", mem="C", chunk="none", nbt="i8")


def run_u(b, areas, mask, v, kw0):
    import xarray as xr
    marEx = C.load()
    td, xd, tc, xc, yc = ("time", "ncells", "time", "lon", "lat") if v["names"] == "std" else ("t", "cell", "clock", "clon", "clat")
    lat, lon = b.lat.astype("f8"), b.lon.astype("f8") % 360
    if v["conv"] == "neg":
        lon = np.where(lon >= 180, lon - 360, lon)
    if v["units"] == "rad":
        lat, lon = np.radians(lat), np.radians(lon)
    lat, lon = lat.astype("f4"), lon.astype("f4")
    T, N = b.big.shape
    t = (np.datetime64("2000-01-01") + np.arange(T)).astype("datetime64[ns]")
    sp = {yc: (xd, lat.copy()), xc: (xd, lon.copy())}
    data = np.array(b.big, order=v["mem"])
    da = xr.DataArray(data, dims=(td, xd), coords={tc: (td, t), **sp}, attrs={"source": "mc"})
    if v["order"]:
        da = da.transpose(xd, td)
    ch = lambda k: {xd: 7} if v["chunk"] == k else {xd: -1}
    da = da.chunk({td: kw0.get("tchunk", T), **ch("data")})
    mk, nb, arr = mask.copy(), (b.nb + 1).astype(v["nbt"]), areas.astype("f4")
    m = xr.DataArray(mk, dims=(xd,), coords=sp).chunk(ch("mask"))
    nbr = xr.DataArray(nb, dims=("nv", xd), coords=sp).chunk(ch("nbr"))
    ar = xr.DataArray(arr, dims=(xd,), coords=sp).chunk(ch("area"))
    objs = [da, m, nbr, ar, data, mk, nb, arr]
    names = ["data_bin", "mask", "neighbours", "cell_areas", "the data buffer", "the mask buffer", "the neighbours buffer", "the area buffer"]
    before = snapshot(objs)
    k = dict(R_fill=0, T_fill=0, area_filter_absolute=1, allow_merging=True, overlap_threshold=0.5, nn_partitioning=False, quiet=True)
    k.update({a: c for a, c in kw0.items() if a not in ("tchunk", "land")})
    k["coordinate_units"] = {"deg": "degrees", "rad": "radians"}[v["units"]]
    sc = tempfile.mkdtemp(dir=C.SCRATCH)
    try:
        with C.real("unstructured tracker.run"):
            tr = marEx.tracker(da, m, unstructured_grid=True, dimensions={"time": td, "x": xd}, coordinates={"time": tc, "x": xc, "y": yc},
                               neighbours=nbr, cell_areas=ar, temp_dir=sc, **k)
            ev, mg = tr.run(return_merges=True)
            ev, mg = ev.load(), mg.load()
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    return ev, mg, (td, xd, tc, xc, yc), snap_diff(before, snapshot(objs), names)


def canon_u(ev, mg, nm, v):
    td, xd, tc, xc, yc = nm
    f = ev.ID_field.transpose(td, xd).values
    foot = {}
    for t, c in zip(*np.nonzero(f)):
        foot.setdefault(int(f[t, c]), []).append((int(t), int(c)))
    foot = {k: tuple(x) for k, x in foot.items()}
    cen = ev["centroid"].transpose("component", td, "ID").values.astype("f8")
    if v["units"] == "rad":
        cen = np.degrees(cen)
    area, pres = ev.area.transpose(td, "ID").values, ev.presence.transpose(td, "ID").values
    out = {}
    for j, i in enumerate(map(int, ev.ID.values)):
        lo = cen[1, :, j]
        out[foot.get(i, ("no cells", i))] = dict(area=area[:, j], presence=pres[:, j].astype(bool), clat=cen[0, :, j], cx=np.cos(np.radians(lo)), cy=np.sin(np.radians(lo)),
                                                 start=ev.time_start.values[j], end=ev.time_end.values[j])
        g = lo[np.isfinite(lo)]
        if v["conv"] == "neg" and (g > 180.01).any() or v["conv"] == "pos" and (g < -0.01).any():
            out[foot[i]]["convention"] = g.tolist()
    recs = sorted((str(mg.merge_time.values[i]), int(mg.n_parents.values[i]), tuple(sorted(round(float(x), 3) for x in mg.overlap_areas.values[i] if x >= 0))) for i in range(mg.sizes["merge_ID"]))
    return out, recs


def t14_u(kw0, variants):
    r = C.result()
    mesh, hs = UN.hists("p10:3x1345678")
    cfg = dict(areas="var", thr=0.5, nn=kw0.get("nn_partitioning", False))
    keep = [h for i, h in enumerate(hs) if not UN.model(h, mesh, 0, cfg).ties]
    keep = sorted(keep, key=lambda h: -len(UN.model(h, mesh, 0, cfg).merges))[:12]
    b = UBatch(keep, *mesh, 4)
    N = b.big.shape[1]
    b.lon = (b.lon + 150.0) % 360
    ar = np.concatenate([np.tile(UN.areas_of("var", b.nc), b.rows), np.ones(N - b.nc * b.rows)])
    mask = np.ones(N, bool)
    if kw0.get("land"):
        mask[[3, 12]] = False
    ref = None
    for v in [{}] + variants:
        v = dict(UBASE, **v)
        case = {"cfg": kw0, "unstructured": True, "representation": {k: x for k, x in v.items() if x != UBASE[k]}}
        try:
            ev, mg, nm, d = run_u(b, ar, mask, v, kw0)
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); r["evals"] += 1; continue
        r["evals"] += 1
        r["distinct"].add(C.h(("u", sorted(kw0.items()), sorted((k, str(x)) for k, x in v.items()))))
        if d:
            r["viol"].append({"what": d, "case": case})
        c = canon_u(ev, mg, nm, v)
        if ref is None:
            ref = c
        else:
            e = diff(ref, c)
            if e:
                r["viol"].append({"what": f"result depends on the representation {case['representation']}: {e}", "case": case})
    return r


# ---------------------------------------------------------------- refused calls leave the inputs alone
def t14_refused(which):
    """every refusal (one flawed argument at a time): an exception, and inputs untouched"""
    import xarray as xr
    marEx = C.load()
    r = C.result()
    a = hist_block(0, False)[:6]
    flaws = [dict(T_fill=3), dict(area_filter_absolute=0), dict(area_filter_absolute=1, area_filter_quartile=0.5), dict(area_filter_absolute=None, area_filter_quartile=1.5),
             dict(coordinate_units="furlongs"), dict(grid_resolution=-1.0), dict(_mask="int"), dict(_mask="empty"), dict(_data="int"), dict(_data="numpy"),
             dict(_data="dims"), dict(_coords="missing"), dict(_areas="dims"), dict(regional_mode=True, coordinate_units=None), dict(unstructured_grid=True),
             dict(unstructured_grid=True, regional_mode=True), dict(coordinate_units=None)]
    for units in ("deg", "rad"):
        for f in flaws:
            f = dict(f)
            v = dict(BASE, units=units, areas="cell" if "_areas" in f else "none", order=(1, 2, 0))
            da, m, ca, kw, nm, raw = inputs(a, v)
            if f.get("_mask") == "int":
                m = m.astype(int)
            elif f.get("_mask") == "empty":
                m = m & False
            if f.get("_data") == "int":
                da = da.astype(int)
            elif f.get("_data") == "numpy":
                da = da.compute()
            elif f.get("_data") == "dims":
                da = da.expand_dims("depth")
            if f.get("_coords"):
                kw["coordinates"] = {"time": "time", "y": "nope", "x": "lon"}
            if f.get("_areas"):
                kw["cell_areas"] = ca = ca.isel(lat=0)
            label = str(f)
            for k in [k for k in f if k.startswith("_")]:
                f.pop(k)
            k = dict(BASE_KW); k.update(kw); k.update(f)
            objs = [da, m, ca, *raw, kw["dimensions"], kw["coordinates"]]
            names = ["data_bin", "mask", "cell_areas", "the data buffer", "latitudes", "longitudes", "dimensions", "coordinates"]
            before = snapshot(objs)
            err = None
            try:
                with C.real("x"):
                    marEx.tracker(da, m, **k).run()
            except C.RealCodeError as e:
                err = e
            r["evals"] += 1; r["distinct"].add((units, label))
            d = snap_diff(before, snapshot(objs), names)
            if d:
                r["viol"].append({"what": f"refused call ({label}, {units}): {d}", "case": {"flaw": label, "units": units}})
            if err is None:
                r["viol"].append({"what": f"call with {label} was accepted", "case": {"flaw": label, "units": units}})
    return r


def dispatch(kind, *a):
    return {"g": t14_task, "u": t14_u, "x": t14_refused}[kind](*a)


def product(opt, keys):
    return [dict(zip(keys, c)) for c in itertools.product(*[opt[k] for k in keys])]


def t14(tier):
    th = tier == "thorough"
    tasks = [("x", 0)]
    if th:
        vs = product(OPT, ["order", "units", "names", "flip", "conv", "areas", "mask", "mem", "ctype"])
        vs = [v for i, v in enumerate(vs)]
        sets = [(0, dict(nn_partitioning=False), vs[::4] + product(OPT, ["schunk", "order", "units"])), (0, dict(nn_partitioning=True), vs[1::16]),
                (1, dict(nn_partitioning=True), vs[2::16])]
    else:
        vs = product(OPT, ["order", "units"]) + product(OPT, ["order", "names"]) + product(OPT, ["units", "areas", "conv"]) + product(OPT, ["flip", "areas", "conv"]) + product(OPT, ["mask", "units", "schunk"])
        sets = [(0, dict(nn_partitioning=False), vs), (1, dict(nn_partitioning=True), product(OPT, ["order", "units"]) + product(OPT, ["mem", "ctype", "conv"]))]
    for which, kw, l in sets:
        for i in range(0, len(l), 8):
            tasks.append(("g", which, kw, l[i:i + 8]))
    us = product(UOPT, ["order", "units", "names"]) + product(UOPT, ["conv", "units"]) + product(UOPT, ["chunk", "nbt"]) + product(UOPT, ["mem"])
    if th:
        us = product(UOPT, ["order", "units", "names", "conv", "mem", "nbt"]) + product(UOPT, ["chunk", "order", "units"])
    for kw in (dict(nn_partitioning=False, tchunk=4), dict(nn_partitioning=True), dict(R_fill=1, T_fill=2, land=True, nn_partitioning=False)):
        for i in range(0, len(us), 6):
            tasks.append(("u", kw, us[i:i + 6]))
    tot = C.run_tasks(dispatch, tasks, budget=840 if not th else 30000)
    return {"level": "exploration", "total": tot, "exhaustive": True,
            "rule": "products of input representations (dimension order, units, names, latitude direction, longitude convention, cell-area form, mask form, memory layout, coordinate type, "
                    "spatial chunking; unstructured: order, units, names, convention, chunking of every argument, neighbour dtype) over fixed blocks of merge/split histories without ties: outputs equal the reference "
                    "representation's up to renumbering; every caller object is compared bytewise before/after, also for every refused call"}
