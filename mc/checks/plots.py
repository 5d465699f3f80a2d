"""S02 (plotter/grid selection as a state machine) and S04 (plots show the data): every drawing call of the real plotters is
observed at the axes boundary; nothing is rendered from the network (coastlines are never drawn)."""
import contextlib, itertools, os, shutil, tempfile, warnings
import numpy as np
from .. import common as C

REC = []
SAVED = []


def patch_axes():
    """record what reaches the map axes; the real drawing still happens"""
    import matplotlib
    matplotlib.use("Agg")
    from cartopy.mpl.geoaxes import GeoAxes
    if getattr(GeoAxes, "_mc_patched", False):
        return
    for name in ("pcolormesh", "tripcolor", "scatter", "contour"):
        def mk(name, orig):
            def f(self, *a, **k):
                im = orig(self, *a, **k)
                REC.append((name, self, a, k, im))
                return im
            return f
        setattr(GeoAxes, name, mk(name, getattr(GeoAxes, name)))
    GeoAxes._mc_patched = True


_files = {}


def grid_files():
    """two different triangulations and two different interpolation tables for the same 6-cell data"""
    import xarray as xr
    if _files:
        return _files
    d = tempfile.mkdtemp(dir=C.SCRATCH)
    for k, (dx, tri) in {"A": (0.0, [[1, 2, 3], [2, 3, 4], [3, 4, 5], [4, 5, 6]]), "B": (50.0, [[2, 4, 5], [2, 3, 5], [3, 5, 6], [2, 4, 6]])}.items():
        os.mkdir(os.path.join(d, k))
        p = os.path.join(d, k, "grid.nc")           # the same base name in two folders
        xr.Dataset({"vertex_of_cell": (("nv", "cell"), np.array(tri).T), "clon": ("node", dx + np.array([0.0, 10, 5, 15, 10, 20])),
                    "clat": ("node", np.array([0.0, 1, 10, 11, 20, 21])), "other": ("cell", np.zeros(4))}).to_netcdf(p)
        _files["t" + k] = p
        kd = os.path.join(d, k, "kd"); os.mkdir(kd)
        idx = [0, 1, 2, 3, 4, 5, 5, 4] if k == "A" else [5, 4, 3, 2, 1, 0, 0, 1]
        for res, perm in ((0.3, idx), (0.5, idx[::-1])):
            xr.Dataset({"ickdtree_c": ("n", np.array(perm)), "lon": np.array([0.0, 10, 20, 30]) + dx, "lat": np.array([-5.0, 5.0])}).to_netcdf(os.path.join(kd, f"res{res:3.2f}.nc"))
        _files["k" + k] = kd
    _files["tri"] = {"A": (0.0, [[1, 2, 3], [2, 3, 4], [3, 4, 5], [4, 5, 6]]), "B": (50.0, [[2, 4, 5], [2, 3, 5], [3, 5, 6], [2, 4, 6]])}
    _files["idx"] = {"A": [0, 1, 2, 3, 4, 5, 5, 4], "B": [5, 4, 3, 2, 1, 0, 0, 1]}
    return _files


UDIM = {"time": "time", "x": "ncells"}


def data_g(X=6):
    import xarray as xr
    return xr.DataArray(np.arange(3 * X, dtype="f8").reshape(3, X) + 0.5, dims=("lat", "lon"), coords={"lat": [-10.0, 0.0, 10.0], "lon": np.arange(X) * 360.0 / X}, name="v")


def data_u():
    import xarray as xr
    return xr.DataArray(np.array([3.0, 1, 4, 1.5, 9, 2.6]), dims=("ncells",), coords={"lat": ("ncells", np.arange(6.0)), "lon": ("ncells", np.arange(6.0))}, name="v")


def cfg(mx, **kw):
    import cartopy.crs as ccrs
    k = dict(projection=ccrs.PlateCarree(), show_colorbar=False, grid_lines=False)
    k.update(kw)
    return mx.PlotConfig(**k)


def draw(plotter, c, ax=None):
    """single_plot; returns the recorded drawing calls"""
    import matplotlib.pyplot as plt
    REC.clear()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            plotter.single_plot(c)
            return list(REC)
        finally:
            plt.close("all")


# ---------------------------------------------------------------- S02
SPECS = {
    "spec()": {}, "spec(gridded)": dict(grid_type="gridded"), "spec(Unstructured)": dict(grid_type="Unstructured"), "spec(tA)": dict(fpath_tgrid="tA"),
    "spec(unstructured,tB)": dict(grid_type="unstructured", fpath_tgrid="tB"), "spec(kA)": dict(fpath_ckdtree="kA"), "spec(unstructured,tA,kB)": dict(grid_type="unstructured", fpath_tgrid="tA", fpath_ckdtree="kB"),
    "spec(GRIDDED,tA,kA)": dict(grid_type="GRIDDED", fpath_tgrid="tA", fpath_ckdtree="kA"), "spec(bogus,tB)": dict(grid_type="bogus", fpath_tgrid="tB", fpath_ckdtree="kB"),
}
ACTS = ["draw(g)", "draw(u)", "own(tB)", "own(kB)", "own(none)", "clear"]


def file_of(v, path=False):
    f = grid_files()
    from pathlib import Path
    return {k: (x if k == "grid_type" else (Path(f[x]) if path else f[x])) for k, x in v.items()}


def expect_u(t, k):
    """what must be drawn for the unstructured data with grid files t, k"""
    f = grid_files()
    v = data_u().values
    if k:
        which = k[-1]
        dx = f["tri"][which][0]
        idx = f["idx"][which]
        lon, lat = np.array([0.0, 10, 20, 30]) + dx, np.array([-5.0, 5.0])
        return ("grid", sorted((float(lon[i % 4]), float(lat[i // 4]), float(v[idx[i]])) for i in range(8)))
    if t:
        dx, tri = f["tri"][t[-1]]
        return ("tri", sorted([tuple(sorted(x - 1 for x in tr)) for tr in tri]), dx)
    return ("error", "VisualisationError")


def seen_u(rec):
    if not rec:
        return ("nothing",)
    name, ax, a, k, im = rec[-1]
    if name == "pcolormesh":
        lon, lat, val = (np.asarray(z) for z in a[:3])
        if lon.ndim == 1:
            lon, lat = np.meshgrid(lon, lat)
        return ("grid", sorted((float(x), float(y), float(z)) for x, y, z in zip(lon.ravel(), lat.ravel(), val.ravel())))
    tri = a[0]
    ok = np.array_equal(np.asarray(a[1]), data_u().values)
    return ("tri" if ok else "tri with wrong values", sorted(tuple(sorted(map(int, t))) for t in tri.triangles), float(tri.x[0]))


def do_u(mx, X, r_t, r_k, own=None):
    p = data_u().plotX(dimensions=dict(UDIM))
    kind = type(p).__name__
    if own is not None and hasattr(p, "specify_grid"):
        p.specify_grid(**own)
    try:
        return kind, seen_u(draw(p, cfg(mx)))
    except X.MarExError as e:
        return kind, ("error", type(e).__name__)
    except Exception as e:  # noqa: BLE001
        return kind, ("error", "foreign " + type(e).__name__ + ": " + str(e)[:100])


def do_g(mx, X):
    da = data_g()
    p = da.plotX()
    kind = type(p).__name__
    if kind != "GriddedPlotter":
        return kind, None
    rec = draw(p, cfg(mx))
    return kind, cells(rec[-1]) if rec else None


def cells(rec):
    """recorded pcolormesh -> sorted (lon, lat, value)"""
    _, ax, a, k, im = rec
    lon, lat = np.asarray(a[0], float), np.asarray(a[1], float)
    val = np.ma.masked_invalid(np.asarray(a[2], float))
    if lon.ndim == 1:
        lon, lat = np.meshgrid(lon, lat)
    return sorted((round(float(x), 6), round(float(y), 6), None if m else round(float(v), 6))
                  for x, y, v, m in zip(lon.ravel(), lat.ravel(), val.data.ravel(), np.ma.getmaskarray(val).ravel()))if lon.shape == val.shape else \
        [("shape", lon.shape, val.shape)]


def closed(da, xn="lon", yn="lat"):
    """(lon, lat, value) of a gridded slice, with the closing column of a global grid"""
    out = []
    lon, lat = da[xn].values.astype(float), da[yn].values.astype(float)
    v = da.transpose(yn, xn).values.astype(float)
    sp = lon[1] - lon[0]
    glob = abs(360 - (lon.max() - lon.min())) < 2 * sp
    for j, y in enumerate(lat):
        for i, x in enumerate(lon):
            out.append((round(float(x), 6), round(float(y), 6), None if np.isnan(v[j, i]) else round(float(v[j, i]), 6)))
        if glob:
            out.append((round(float(lon[0]) + 360, 6), round(float(y), 6), None if np.isnan(v[j, 0]) else round(float(v[j, 0]), 6)))
    return sorted(out, key=str)


def s02_task(seqs):
    mx = C.load()
    import marEx.plotX as px
    import marEx.plotX.unstructured as pu
    import marEx.exceptions as X
    patch_axes(); grid_files()
    r = C.result()
    gwant = closed(data_g())
    for seq in seqs:
        px.specify_grid(); pu.clear_cache()
        st = (None, None, None)
        case = {"ops": list(seq)}
        r["evals"] += 1; r["traces"] += 1
        bad = None
        for i, op in enumerate(list(seq) + ["draw(g)", "draw(u)"]):
            r["transitions"] += 1
            with C.real(f"operation {op} after {list(seq)[:i]}"):
                if op.startswith("spec"):
                    kw = SPECS[op]
                    try:
                        px.specify_grid(**file_of(kw, path=bool(i % 2)))
                        refused = None
                    except X.MarExError as e:
                        refused = type(e).__name__
                    if kw.get("grid_type") == "bogus":
                        if refused != "ConfigurationError":
                            bad = f"invalid grid type: {refused}"
                    else:
                        if refused:
                            bad = f"{op} refused: {refused}"
                        st = ((kw.get("grid_type") or "").lower() or None, kw.get("fpath_tgrid"), kw.get("fpath_ckdtree"))
                elif op == "clear":
                    pu.clear_cache()
                elif op == "draw(g)":
                    kind, got = do_g(mx, X)
                    wk = "UnstructuredPlotter" if st[0] == "unstructured" else "GriddedPlotter"
                    if kind != wk:
                        bad = f"gridded data after {st}: {kind}, expected {wk}"
                    elif wk == "GriddedPlotter" and sorted(got, key=str) != gwant:
                        bad = f"gridded data drawn as {got}, expected {gwant}"
                else:
                    own = None
                    t, k = st[1], st[2]
                    if op.startswith("own"):
                        t, k = {"own(tB)": ("tB", None), "own(kB)": (None, "kB"), "own(none)": (None, None)}[op]
                        own = dict(fpath_tgrid=grid_files()[t] if t else None, fpath_ckdtree=grid_files()[k] if k else None)
                    kind, got = do_u(mx, X, t, k, own)
                    wk = "GriddedPlotter" if st[0] == "gridded" else "UnstructuredPlotter"
                    if kind != wk:
                        bad = f"unstructured data after {st}: {kind}, expected {wk}"
                    elif wk == "UnstructuredPlotter" and got != expect_u(t, k):
                        bad = f"unstructured data with grid {t}, table {k} drawn as {got}, expected {expect_u(t, k)}"
            r["states"].add(C.h(st))
            if bad:
                r["viol"].append({"what": f"after {list(seq)[:i + 1]}: {bad}"[:900], "case": case}); break
        r["distinct"].add(C.h(list(seq)))
        r["samples"] = [case]
    px.specify_grid()
    return r


def s02_cache(_):
    """the two caches alone: every order of loads over both files/resolutions, each value compared with the file"""
    C.load()
    import marEx.plotX.unstructured as pu
    r = C.result()
    f = grid_files()
    # a file that changed on disk is read again once the cache is cleared
    import marEx.exceptions as X
    patch_axes()
    mx = C.load()
    for key in ("t", "k"):
        for order in itertools.permutations("AB"):
            d = tempfile.mkdtemp(dir=C.SCRATCH)
            q = os.path.join(d, "g")
            for n, w in enumerate(order):
                if os.path.isdir(q):
                    shutil.rmtree(q)
                (shutil.copytree if key == "k" else shutil.copyfile)(f[key + w], q)
                pu.clear_cache()
                r["evals"] += 1
                t, k = (w, None) if key == "t" else (None, w)
                _, got = do_u(mx, X, t, k, dict(fpath_tgrid=q if key == "t" else None, fpath_ckdtree=q if key == "k" else None))
                want = expect_u(t and "t" + t, k and "k" + k)
                if got != want:
                    r["viol"].append({"what": f"grid file replaced by {w} and cache cleared: drawn {got}, expected {want}", "case": {"replace": [key, list(order)]}}); return r
            shutil.rmtree(d, ignore_errors=True)
    if not (hasattr(pu, "_load_ckdtree")):
        return r
    ops = [("A", 0.3), ("B", 0.3), ("A", 0.5), ("B", 0.5)]
    for seq in itertools.product(ops, repeat=3):
        pu.clear_cache()
        for w, res in seq:
            d = pu._load_ckdtree(f["k" + w], res)
            want = f["idx"][w] if res == 0.3 else f["idx"][w][::-1]
            r["evals"] += 1
            if list(map(int, d["indices"])) != want:
                r["viol"].append({"what": f"interpolation table {w} at resolution {res} after {seq}: {d['indices']}", "case": {"cache": [list(s) for s in seq]}}); return r
        r["distinct"].add(seq)
    return r


def s02(tier):
    th = tier == "thorough"
    ops = list(SPECS) + ACTS
    seqs = [s for n in range(0, 4 if th else 3) for s in itertools.product(ops, repeat=n)]
    if not th:   # depth three: specification, drawing (fills the caches), specification
        seqs += [s for s in itertools.product(list(SPECS), ["draw(u)", "own(tB)", "own(kB)"], list(SPECS))]
    n = 40
    tot = C.run_tasks(s02_task, [(seqs[i::max(1, len(seqs) // n)],) for i in range(max(1, len(seqs) // n))], warm=patch_axes, budget=840 if not th else 20000)
    C.merge(tot, C.run_tasks(s02_cache, [(0,)]))
    return {"level": "model_checking", "total": tot, "exhaustive": True,
            "rule": "every sequence of grid specifications (types, triangulation and interpolation files, invalid type), plots, per-plot specifications and cache clearing up to depth 2 (thorough 3), plus all "
                    "specify-plot-specify sequences, each followed by plotting a gridded and an unstructured field; plotter type and the drawn triangles / interpolated values compared with a model whose state is the last valid specification"}


# ---------------------------------------------------------------- S04
NAMES = {"default": ("time", "lat", "lon"), "custom": ("t", "yy", "xx")}


def field_g(Y, X, lon0, glob, desc, order, tdim, names, nan, ids, dask):
    import xarray as xr
    tn, yn, xn = NAMES[names]
    sp = 360.0 / (X + 2) if glob == "near" else 360.0 / X if glob else 7.0      # near: all but two columns of the globe
    lon = lon0 + np.arange(X) * sp
    lat = np.linspace(-40, 40, Y)
    if desc:
        lat = lat[::-1]
    n = tdim or 1
    v = (np.arange(n * Y * X) * 7 % 23 - 11 + 0.25 * np.arange(n * Y * X)).reshape(n, Y, X).astype("f8")
    if names == "custom":
        v = -v
    if ids:
        v = (np.arange(n * Y * X) % 4).reshape(n, Y, X).astype("i4")
    elif nan:
        v[:, 0, 1] = np.nan; v[:, Y - 1, 0] = np.nan
    t = np.datetime64("2001-02-03", "ns") + np.arange(n) * np.timedelta64(1, "D")
    da = xr.DataArray(v, dims=(tn, yn, xn), coords={tn: t, yn: lat, xn: lon}, name="v")
    if not tdim:
        da = da.isel({tn: 0}, drop=True)
    if order == "xy":
        da = da.transpose(..., xn, yn)
    if dask:
        da = da.chunk()
    return da, {"time": tn, "y": yn, "x": xn}


CLIMS = {"auto": {}, "perc": dict(cperc=[10, 75]), "sym": dict(issym=True), "clim": dict(clim=(-3.0, 4.5)), "norm": "norm", "ids": dict(plot_IDs=True), "ids+cmap": "ids+cmap"}


def clim_kw(name):
    from matplotlib.colors import BoundaryNorm, ListedColormap
    if name == "norm":
        return dict(norm=BoundaryNorm([-5, 0, 5], 256), cmap="coolwarm")
    if name == "ids+cmap":
        return dict(plot_IDs=True, cmap="viridis")
    return dict(CLIMS[name])


def want_colors(da, name, tname):
    """expected (vmin, vmax) or None when a norm applies"""
    if name in ("norm", "ids", "ids+cmap"):
        return None
    if name == "clim":
        return (-3.0, 4.5)
    v = da.isel({tname: slice(None, None, 10)}).values if tname in da.dims else da.values
    q = np.nanpercentile(v, [10, 75] if name == "perc" else [4, 96])
    return (-abs(q).max(), abs(q).max()) if name == "sym" else tuple(q)


def check_panel(rec, sl, dims, cname, want_lim, maxid):
    """one recorded pcolormesh against one data slice; returns a complaint or None"""
    from matplotlib.colors import BoundaryNorm
    got = cells(rec)
    s = sl.squeeze(drop=True).astype(float).compute()
    if cname.startswith("ids"):
        s = s.where(s > 0)
    want = closed(s, dims["x"], dims["y"])
    if sorted(got, key=str) != want:
        d = [z for z in got if z not in want][:3], [z for z in want if z not in got][:3]
        return f"drawn cells differ from the data: drawn but not in the data {d[0]}, in the data but not drawn {d[1]}"
    _, ax, a, k, im = rec
    if want_lim is not None:
        lim = im.get_clim()
        if not np.allclose(lim, want_lim, rtol=1e-9, atol=1e-12):
            return f"colour limits {lim}, expected {want_lim}"
        if not cname.startswith("ids"):
            cm = im.get_cmap().name
            if cm != ("RdBu_r" if cname == "sym" else "viridis"):
                return f"colour map {cm}"
    elif cname == "norm":
        if list(im.norm.boundaries) != [-5, 0, 5] or im.get_cmap().name != "coolwarm":
            return f"requested norm or colour map not used: {im.norm}, {im.get_cmap().name}"
    else:   # identifiers: distinct colours for distinct IDs
        cols = {i: tuple(np.round(im.to_rgba(np.array([float(i)]))[0], 6)) for i in range(1, maxid + 1)}
        if len(set(cols.values())) != maxid:
            return f"identifiers share colours: {cols}"
    return None


def snap(da):
    return C.h([da.dims, str(da.dtype), np.asarray(da.values).tobytes(), [(str(k), v.values.tobytes()) for k, v in sorted(da.coords.items(), key=lambda z: str(z[0]))], sorted(map(str, da.attrs.items()))])


def s04_single(combos):
    mx = C.load()
    patch_axes()
    r = C.result()
    for c in combos:
        Y, X, lon0, glob, desc, order, tdim, names, nan, cname, dask = c
        da, dims = field_g(Y, X, lon0, glob, desc, order, tdim, names, nan, cname.startswith("ids"), dask)
        case = dict(zip("Y X lon0 global descending order timedim names missing colours dask".split(), c))
        before = snap(da)
        d2 = dict(dims)
        r["evals"] += 1; r["traces"] += 1
        try:
            with C.real("single_plot"):
                p = da.plotX(dimensions=d2, coordinates=dict(dims))
                rec = [z for z in draw(p, cfg(mx, **clim_kw(cname))) if z[0] == "pcolormesh"]
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); continue
        r["distinct"].add(C.h(c))
        if len(rec) != 1:
            r["viol"].append({"what": f"{len(rec)} meshes drawn", "case": case}); continue
        e = check_panel(rec[0], da, dims, cname, want_colors(da, cname, dims["time"]), int(np.nanmax(da.values)) if cname.startswith("ids") else 0)
        if e is None and (snap(da) != before or d2 != dims):
            e = "plotting changed the caller's data or mapping"
        if e:
            r["viol"].append({"what": e, "case": case})
        r["samples"] = [case]
    return r


def s04_multi(combos):
    """multi-panel plots: one panel per slice, in order, all with the same colours"""
    import matplotlib.pyplot as plt
    mx = C.load()
    patch_axes()
    f = grid_files()
    r = C.result()
    for c in combos:
        kind, n, wrap, names, cname, order = c
        case = dict(zip("grid panels wrap names colours order".split(), c))
        r["evals"] += 1; r["traces"] += 1
        if kind == "g":
            da, dims = field_g(4, 5, 0.0, True, False, order, n, names, True, cname.startswith("ids"), False)
        else:
            import xarray as xr
            tn, _, xn = NAMES[names] if names == "custom" else ("time", None, "ncells")
            da = xr.DataArray(np.arange(n * 6, dtype="f8").reshape(n, 6) * 3 % 17, dims=(tn, xn), name="v",
                              coords={tn: np.datetime64("2001-02-03", "ns") + np.arange(n) * np.timedelta64(1, "D"), "lat": (xn, np.arange(6.0)), "lon": (xn, np.arange(6.0))})
            dims = {"time": tn, "x": xn}
            da[:, 2] = np.nan                              # land
        coords = {"time": dims["time"], "y": dims.get("y", "lat"), "x": dims["x"] if kind == "g" else "lon"}
        REC.clear()
        try:
            with C.real("multi_plot"):
                p = da.plotX(dimensions=dict(dims), coordinates=coords)
                if kind != "g":
                    p.specify_grid(fpath_tgrid=f["tA"], fpath_ckdtree=f["kA"] if kind == "uk" else None)
                full = dict(dims); full.setdefault("y", "lat")
                fig, axes = p.multi_plot(cfg(mx, show_colorbar=True, dimensions=full, coordinates=coords, **clim_kw(cname)), col=dims["time"], col_wrap=wrap)
                rec = [z for z in REC if z[0] in ("pcolormesh", "tripcolor")]
                live = [a for a in fig.axes if hasattr(a, "projection")]
                bars = len(fig.axes) - len(live)
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); plt.close("all"); continue
        r["distinct"].add(C.h(c))
        e = None
        if len(rec) != n or len(live) != n:
            e = f"{len(rec)} meshes in {len(live)} panels for {n} slices"
        elif bars != (0 if cname.startswith("ids") else 1):
            e = f"{bars} colour bars"
        else:
            lim = want_colors(da, cname, dims["time"])
            pos = []
            for i, z in enumerate(rec):
                sl = da.isel({dims["time"]: i}, drop=True)
                day = str(da[dims["time"]].values[i])[:10]
                if z[1].get_title() != day:
                    e = f"panel {i} titled {z[1].get_title()!r}, shows {day}"
                elif kind == "g":
                    e = check_panel(z, sl, dims, cname, lim, int(np.nanmax(da.values)) if cname.startswith("ids") else 0)
                else:
                    vals = np.ma.filled(np.ma.asarray(z[2][2 if kind == "uk" else 1]).astype(float), np.nan).ravel()
                    want = sl.values[np.array(f["idx"]["A"])] if kind == "uk" else sl.values
                    if not np.array_equal(vals, want, equal_nan=True):
                        e = f"panel {i} shows {vals}, data are {want}"
                    elif not np.allclose(z[4].get_clim(), lim):
                        e = f"colour limits {z[4].get_clim()}, expected {lim}"
                bb = z[1].get_position()
                pos.append((-round(bb.y0, 3), round(bb.x0, 3)))
                if e:
                    e = f"panel {i}: {e}"; break
            if e is None and pos != sorted(pos):
                e = f"panels out of order: {pos}"
        plt.close("all")
        if e:
            r["viol"].append({"what": e, "case": case})
        r["samples"] = [case]
    return r


@contextlib.contextmanager
def no_network_no_ffmpeg(calls, fail):
    """stand-ins: empty coastlines; ffmpeg records its command and the frames it would read"""
    import marEx.plotX.base as pb
    import cartopy.feature as cfeature, cartopy.crs as ccrs
    from types import SimpleNamespace
    empty = cfeature.ShapelyFeature([], ccrs.PlateCarree())

    class F:
        def with_scale(self, *_):
            return empty

    def run(cmd, *a, **k):
        src = cmd[cmd.index("-i") + 1]
        d = os.path.dirname(src)
        calls.append(dict(cmd=list(map(str, cmd)), frames=sorted(os.listdir(d)), dir=d))
        if fail:
            raise RuntimeError("ffmpeg failed")
        open(cmd[-1], "w").close()
    import shutil as sh, subprocess as sp
    saved = cfeature.LAND, cfeature.COASTLINE, sh.which, sp.run
    cfeature.LAND, cfeature.COASTLINE = F(), F()
    sh.which = lambda *a, **k: "/usr/bin/ffmpeg"
    sp.run = run
    import matplotlib.figure as mf
    osave = mf.Figure.savefig

    def save(self, fn, **k):
        n = "".join(ch for ch in os.path.basename(str(fn)) if ch.isdigit())
        SAVED.append((self, int(n) if n else None))
        return osave(self, fn, **dict(k, dpi=20))
    SAVED.clear()
    mf.Figure.savefig = save
    try:
        yield
    finally:
        cfeature.LAND, cfeature.COASTLINE, sh.which, sp.run = saved
        mf.Figure.savefig = osave


def s04_anim(combos):
    import dask, glob
    import matplotlib.pyplot as plt
    mx = C.load()
    patch_axes()
    f = grid_files()
    r = C.result()
    for c in combos:
        kind, n, names, cname, extra, fname = c[:6]
        order, nan, Y, X, desc, oorder = c[6] if len(c) > 6 else ("yx", False, 4, 6, False, "yx")
        case = dict(zip("grid steps names colours extra file layout".split(), c))
        r["evals"] += 1; r["traces"] += 1
        if kind == "g":
            da, dims = field_g(Y, X, 0.0, True, desc, order, n, names, nan, cname.startswith("ids"), True)
        else:
            import xarray as xr
            da = xr.DataArray(np.arange(n * 6, dtype="f8").reshape(n, 6) * 3 % 17, dims=("time", "ncells"), name="v",
                              coords={"time": np.datetime64("2001-02-03", "ns") + np.arange(n) * np.timedelta64(1, "D"), "lat": ("ncells", np.arange(6.0)), "lon": ("ncells", np.arange(6.0))})
            dims = {"time": "time", "x": "ncells"}
            da[:, 2] = np.nan                              # land
        tn = dims["time"]
        coords = {"time": tn, "y": dims.get("y", "lat"), "x": dims["x"] if kind == "g" else "lon"}
        full = dict(dims); full.setdefault("y", "lat")
        out = tempfile.mkdtemp(dir=C.SCRATCH)
        calls = []
        kw = {}
        if extra == "centroids":
            import xarray as xr
            cen = np.full((2, n, 3), np.nan)
            for t in range(n):
                for i in range(3):
                    if (t + i) % 2:
                        cen[:, t, i] = (10 * i + t, 20 * i + t)
            kw["centroids"] = xr.DataArray(cen, dims=("component", tn, "ID"), coords={"ID": [1, 2, 3], tn: da[tn].values})
        if extra == "object_ids":
            import xarray as xr
            yn, xn = dims["y"], dims["x"]
            k = np.arange(n * Y * X).reshape(n, Y, X)
            ov = np.where((k * 5 % 7 < 2) | (k % X == 0) & (k // X % Y == 1), k % 3 + 1, 0)
            ov[n - 1] = 0                                  # one frame without objects
            oids = xr.DataArray(ov, dims=(tn, yn, xn), coords={z: da[z].values for z in (tn, yn, xn)}, name="ID_field")
            kw["object_ids"] = oids.transpose(tn, xn, yn) if oorder == "xy" else oids.transpose(yn, xn, tn) if oorder == "tlast" else oids
        before = snap(da)
        REC.clear()
        try:
            with C.real("animate"), no_network_no_ffmpeg(calls, False), dask.config.set(scheduler="synchronous"):
                p = da.plotX(dimensions=dict(dims), coordinates=coords)
                if kind != "g":
                    p.specify_grid(fpath_tgrid=f["tA"], fpath_ckdtree=f["kA"] if kind == "uk" else None)
                path = p.animate(cfg(mx, show_colorbar=True, dimensions=full, coordinates=coords, framerate=7, **clim_kw(cname)), plot_dir=out, file_name=fname, **kw)
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); plt.close("all"); continue
        r["distinct"].add(C.h(c)); r["samples"] = [case]
        rec = [z for z in REC if z[0] in ("pcolormesh", "tripcolor")]
        e = None
        if len(calls) != 1 or len(rec) != n:
            e = f"{len(rec)} frames drawn for {n} steps, ffmpeg called {len(calls)} times"
        elif calls[0]["frames"] != [f"time_{i:04d}.jpg" for i in range(n)]:
            e = f"frames {calls[0]['frames']}"
        elif not path or not os.path.exists(path) or os.path.dirname(os.path.abspath(path)) != os.path.abspath(out) or not os.path.basename(path).endswith(".mp4") or (fname and not os.path.basename(path).startswith(fname)):
            e = f"movie written to {path}, requested {fname} in {out}"
        elif os.path.exists(calls[0]["dir"]):
            e = "temporary frames left behind"
        elif "7" not in calls[0]["cmd"]:
            e = "frame rate not passed on"
        else:
            lim = want_colors(da, cname, tn)
            num = {id(fg): k for fg, k in SAVED}          # frames may be made in any order; the file number says which is which
            rec.sort(key=lambda z: (num.get(id(z[1].figure)) or 0, z[1].get_title()))
            for i, z in enumerate(rec):
                day = str(da[tn].values[i])[:10]
                sl = da.isel({tn: i}, drop=True).compute()
                if z[1].get_title() != day:
                    e = f"frame {i} titled {z[1].get_title()!r}, shows {day}"
                elif kind == "g":
                    s = sl.astype(float)
                    if cname.startswith("ids"):
                        s = s.where(s > 0)
                    want = closed(s, dims["x"], dims["y"])
                    got = sorted(cells(z), key=str)
                    # a frame need not close the globe
                    if not set(map(str, got)) <= set(map(str, want)) or len({(g[0] % 360, g[1]) for g in got}) != sl.size:
                        e = f"frame {i} draws {got[:4]}..., data are {want[:4]}..."
                else:
                    vals = np.ma.filled(np.ma.asarray(z[2][2 if kind == "uk" else 1]).astype(float), np.nan).ravel()
                    want = sl.values[np.array(f["idx"]["A"])] if kind == "uk" else sl.values
                    if not np.array_equal(vals, want, equal_nan=True):
                        e = f"frame {i} shows {vals}, data are {want}"
                if e is None and lim is not None and not np.allclose(z[4].get_clim(), lim):
                    e = f"frame {i}: colour limits {z[4].get_clim()}, expected {lim}"
                if e:
                    break
            if e is None and extra == "centroids":
                sc = [z for z in REC if z[0] == "scatter"]
                for i in range(n):
                    sl = da.isel({tn: i}).values
                    want = sorted((20.0 * k + i, 10.0 * k + i) for k in range(3) if (i + k) % 2 and (sl == k + 1).any())
                    got = sorted((float(x), float(y)) for z in sc if z[1] is rec[i][1] for x, y in zip(*map(np.atleast_1d, z[2][:2])))
                    if want != got:
                        e = f"frame {i}: centroids drawn at {got}, expected {want}"; break
            if e is None and extra == "object_ids":
                for i in range(n):
                    want = {(float(x), float(y)): bool(oids.isel({tn: i}).sel({dims["y"]: y, dims["x"]: x}) > 0) for y in da[dims["y"]].values for x in da[dims["x"]].values}
                    cs = [z for z in REC if z[0] == "contour" and z[1] is rec[i][1]]
                    if not any(want.values()):
                        cs = [z for z in cs if np.ptp(np.asarray(z[2][2], dtype=float))]
                        if cs:
                            e = f"frame {i}: outlines drawn without objects"; break
                        continue
                    got = {}
                    for z in cs:
                        lo, la, m = (np.asarray(q, dtype=float) for q in z[2][:3])
                        if lo.ndim == 1:
                            lo, la = np.meshgrid(lo, la)
                        lev = np.atleast_1d(z[3].get("levels", z[2][3] if len(z[2]) > 3 else [0.5]))[0]
                        for x, y, v in zip(lo.ravel(), la.ravel(), m.ravel()):
                            got[float(x), float(y)] = got.get((float(x), float(y)), False) or bool(v > lev)
                    if want != got:
                        e = f"frame {i}: outlines around {sorted(k for k in got if got[k])[:6]}, objects at {sorted(k for k in want if want[k])[:6]}"; break
            if e is None and snap(da) != before:
                e = "the animated data were changed"
        plt.close("all")
        if e:
            r["viol"].append({"what": e, "case": case})
    return r


def dispatch(kind, combos):
    return {"s": s04_single, "m": s04_multi, "a": s04_anim}[kind](combos)


def s04(tier):
    th = tier == "thorough"
    base = (4, 6, 0.0, True, False, "yx", 0, "default", True, "auto", False)
    shapes = [(4, 6), (5, 5), (3, 12), (2, 2)]
    single = [(Y, X, l0, g, d, o, 0, nm, True, "clim", False) for (Y, X), l0, g, d, o, nm in
              itertools.product(shapes, [0.0, -180.0, 30.0], [True, False, "near"], [False, True], ["yx", "xy"], ["default", "custom"])]
    single += [(4, 6, 0.0, True, False, o, td, nm, na, cn, dk) for o, td, nm, na, cn, dk in
               itertools.product(["yx", "xy"], [0, 1], ["default", "custom"], [False, True], list(CLIMS), [False, True])]
    multi = [("g", n, w, nm, cn, o) for n, w, nm, cn, o in itertools.product([1, 2, 3, 5], [1, 2, 3], ["default", "custom"], ["auto", "clim"], ["yx"])]
    multi += [("g", 4, 3, nm, cn, o) for nm, cn, o in itertools.product(["default", "custom"], list(CLIMS), ["yx", "xy"])]
    multi += [(k, n, w, nm, "auto", "yx") for k, n, w, nm in itertools.product(["ut", "uk"], [1, 2, 4], [2, 3], ["default", "custom"])]
    multi += [("g", 12, 4, "default", "perc", "yx")]
    anim = [("g", 3, nm, cn, ex, fn) for nm, cn, ex, fn in itertools.product(["default", "custom"], ["auto", "clim"], [None], ["film"])]
    anim += [("g", 4, "default", "ids", "centroids", "film"), ("g", 12, "default", "perc", None, None), ("ut", 3, "default", "auto", None, "film"), ("uk", 3, "default", "clim", None, "film"), ("g", 1, "default", "norm", None, "a b")]
    anim += [("g", 3, nm, "clim", ex, "film", (o, na, Y, X, ds, oo)) for nm, ex, o, na, Y, X, ds, oo in
             ([(("default", "custom")[i % 2], (None, "object_ids")[i // 2 % 2], *z) for i, z in enumerate([("xy", True, 4, 6, False, "yx")] * 4)] +
              [("default", "object_ids", "yx", False, 5, 5, True, "xy"), ("custom", "object_ids", "xy", True, 5, 5, False, "yx"), ("custom", "object_ids", "yx", True, 3, 6, False, "tlast")])]
    anim += [("g", 3, "custom", "ids", "centroids", "film", ("xy", False, 5, 5, True, "yx"))]
    if th:
        anim += [("g", 3, nm, "clim", ex, "film", z) for nm in ("default", "custom") for ex in (None, "object_ids")
                 for z in itertools.product(["yx", "xy"], [False, True], [3, 5], [5], [False, True], ["yx", "xy", "tlast"])]
        anim += [(k, n, nm, cn, None, "film") for k, n, nm, cn in itertools.product(["g"], [2, 11], ["default", "custom"], list(CLIMS))]
        multi += [("g", n, w, nm, cn, o) for n, w, nm, cn, o in itertools.product([1, 2, 3, 4, 7], [1, 2, 3, 4], ["default", "custom"], list(CLIMS), ["yx", "xy"])]
    tasks = [("m", multi[i::24]) for i in range(24)] + [("a", anim[i::9]) for i in range(9)] + [("s", single[i::32]) for i in range(32)]
    tot = C.run_tasks(dispatch, tasks, warm=patch_axes, budget=840 if not th else 20000)
    return {"level": "exploration", "total": tot, "exhaustive": True,
            "rule": "products of grid shape, longitude origin, global/regional, latitude direction, dimension order, names, time dimension, missing values and colour settings through single plots; panels x wrap x names x colours x grid kinds "
                    "through multi-panel plots; animations with recorded frames (ffmpeg and coastlines replaced by recording stand-ins): each drawn cell, colour limit, title, order compared with the data; caller's data fingerprinted",
            "assumptions": ["what reaches the map axes is what is drawn (matplotlib/cartopy trusted)"]}
