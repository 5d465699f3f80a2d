"""Whole-pipeline combinations (fill, gap fill, filter, mask, merging, regional, rotation) on a fixed rich history:
used by T01 (footprint), T04 (time chunks) and T05 (rotation, regional)."""
import itertools
import numpy as np
from .. import common as C
from .. import model_preproc as M
from ..drive_track import track, split_events, cells_of
from ..model_track import events_3d
from .settings import field
from . import track_core as TC

FILTS = [dict(area_filter_absolute=1), dict(area_filter_absolute=7), dict(area_filter_absolute=None, area_filter_quartile=0.25),
         dict(area_filter_absolute=None, area_filter_quartile=0.5)]
MERGE = [dict(nn_partitioning=True), dict(nn_partitioning=False), dict(allow_merging=False)]


def coast(Y, X):
    m = np.ones((Y, X), bool)
    m[11:, 12:] = False
    m[4:6, 11] = False
    return m


def build(spec):
    """spec: shift, reverse (time), mask -> input field, mask"""
    a = field()
    if spec.get("reverse"):
        a = np.concatenate([a[:1], np.zeros_like(a[:1]), a[1:][::-1]])
    m = coast(*a.shape[1:]) if spec.get("mask") else np.ones(a.shape[1:], bool)
    s = spec.get("shift", 0)
    return np.roll(a, s, axis=2), np.roll(m, s, axis=1)


def expected(a, m, spec):
    """-> (surely labelled, possibly labelled) by the reference preprocessing"""
    wrap = not spec.get("regional")
    b = M.preprocess(a, spec["R"], spec["T"], m, wrap)
    objs = M.labels(b, wrap)
    f = spec["filt"]
    q = f.get("area_filter_quartile")
    ar = np.array([len(x) for _, x in objs], "f4")
    thr = float(f["area_filter_absolute"]) if q is None else float(np.percentile(ar, q * 100))
    lo, hi = np.zeros_like(b), np.zeros_like(b)
    for n, (t, cells) in enumerate(objs):
        if len(cells) >= thr - 1e-6:
            for y, x in cells:
                hi[t, y, x] = True
                lo[t, y, x] = n > 0          # known finding KF1: the first object may be dropped by the filter
    return lo, hi


def run(a, m, spec, tchunk):
    kw = dict(R_fill=spec["R"], T_fill=spec["T"])
    kw.update(spec["filt"]); kw.update(spec["merge"])
    if kw.get("area_filter_absolute", 1) is None:
        kw.pop("area_filter_absolute")
    T, Y, X = a.shape
    if spec.get("regional"):
        return track_kw(a, m, tchunk, kw, lon=5 + 2.0 * np.arange(X), regional=True)
    return track_kw(a, m, tchunk, kw)


def track_kw(a, m, tchunk, kw, **more):
    from .. import drive_track as D
    base = dict(D.BASE_KW)
    if "area_filter_quartile" in kw:
        base.pop("area_filter_absolute")
    marEx = C.load()
    reg = more.pop("regional", False)
    da, mm = D.make(a, tchunk, mask=m, **more)
    base.update(kw)
    with C.real("tracker.run"):
        if reg:
            base["regional_mode"] = True
        tr = marEx.tracker(da, mm, **base)
        if base.get("allow_merging"):
            ev, mg = tr.run(return_merges=True)
            return ev.load(), mg.load()
        return tr.run().load(), None


def name(spec):
    return {k: (v if not isinstance(v, dict) else dict(v)) for k, v in spec.items()}


def foot_task(specs):
    """T01: labelled cells against the reference preprocessing."""
    r = C.result()
    for spec in specs:
        a, m = build(spec)
        lo, hi = expected(a, m, spec)
        ev, mg = run(a, m, spec, spec["chunk"])
        f = ev.ID_field.values
        r["evals"] += 1; r["traces"] += 1; r["distinct"].add(C.h(name(spec)))
        got = f > 0
        bad = (lo & ~got) | (got & ~hi) | (f < 0)
        if bad.any() or not np.issubdtype(f.dtype, np.integer):
            w = tuple(map(int, np.argwhere(bad)[0])) if bad.any() else f.dtype
            r["viol"].append({"what": f"labelled cells are not the preprocessed cells: {int((lo & ~got).sum())} lost, {int((got & ~hi).sum())} added, first at (time, lat, lon) index {w}", "case": {"combo": name(spec)}})
    return r


def events_ok(ev, spec, a):
    """events of the (real) footprint by the reference model -> ok / bad / inconclusive"""
    f = ev.ID_field.values
    got = split_events(f[1:])
    wrap = not spec.get("regional")
    h = f[1:] > 0
    if spec["merge"].get("allow_merging") is False:
        want = frozenset(frozenset(e) for e in events_3d(cells_of(h), h.shape[2], wrap))
        return "ok" if want == got else "bad"
    v, _ = TC.models_agree(h, dict(regional=not wrap, overlap_threshold=spec["merge"].get("overlap_threshold", 0.5), nn_partitioning=spec["merge"]["nn_partitioning"]), got, maxties=12)
    return v


def unroll(ev, shift):
    d = ev.ID_field.dims
    out = ev.copy()
    out["ID_field"] = (d, np.roll(ev.ID_field.values, -shift, axis=2))
    return out


def rot_task(specs):
    """T05: one configuration at every rotation; regional mode against the model with bounded longitude."""
    r = C.result()
    ref = {}
    for spec in specs:
        a, m = build(spec)
        s = spec.get("shift", 0)
        ev, mg = run(a, m, spec, spec["chunk"])
        r["evals"] += 1; r["distinct"].add(C.h(name(spec)))
        case = {"combo": name(spec)}
        lo, hi = expected(a, m, spec)
        got = ev.ID_field.values > 0
        if ((lo & ~got) | (got & ~hi)).any():
            w = tuple(map(int, np.argwhere((lo & ~got) | (got & ~hi))[0]))
            r["viol"].append({"what": f"{'regional' if spec.get('regional') else 'rotated by ' + str(s)}: labelled cells differ from the reference preprocessing at {w}", "case": case}); continue
        v = events_ok(ev, spec, a)
        if v == "bad":
            r["viol"].append({"what": f"{'regional' if spec.get('regional') else 'rotated by ' + str(s)}: events differ from the reference model", "case": case}); continue
        if spec.get("regional"):
            continue
        key = C.h(name({k: v for k, v in spec.items() if k != "shift"}))
        cur = TC.canon(unroll(ev, s), mg, 1), {k: ev.attrs[k] for k in sorted(ev.attrs) if isinstance(ev.attrs[k], (int, float, np.generic))}
        if key not in ref:
            ref[key] = (s, cur); continue
        s0, (c0, at0) = ref[key]
        (e0, m0), (e1, m1) = c0, cur[0]
        same = set(e0) == set(e1)
        at1 = cur[1]
        for k in at0:
            if (k.startswith("N_events") or "merges" in k) and not same:
                continue
            if k not in at1 or not np.isclose(float(at0[k]), float(at1[k]), rtol=1e-6):
                # KF1: which object is identified first, and so may be dropped, changes with the rotation; only counts before filtering are exact
                if "filtered" in k and "prefiltered" not in k or "fraction" in k or k.startswith("N_events"):
                    continue
                r["viol"].append({"what": f"rotation by {s - s0} columns changed {k} from {at0[k]} to {at1.get(k)}", "case": case})
        if not same:
            r["inconclusive"] += 1; continue      # ties: both agree with the model
        if m0 != m1:
            r["viol"].append({"what": f"rotation by {s - s0} columns changed the merge records: {m0} vs {m1}"[:600], "case": case})
        dl = 360.0 / a.shape[2]
        for k in e0:
            for var in e0[k]:
                x, y = e0[k][var], e1[k][var]
                if var == "centroid":
                    ok = np.allclose(x[0], y[0], atol=1e-3, equal_nan=True)
                    d = (y[1] - x[1] - (s - s0) * dl + 180) % 360 - 180
                    ok = ok and np.all((np.abs(d) < 1e-2) | (np.isnan(x[1]) & np.isnan(y[1])))
                elif var == "area":
                    ok = np.allclose(x, y, rtol=1e-6, equal_nan=True)
                else:
                    ok = x == y if var == "ledger" else np.array_equal(x, y)
                if not ok:
                    r["viol"].append({"what": f"rotation by {s - s0} columns changed {var} of event {k[:6]}..: {x} vs {y}"[:600], "case": case}); break
    return r


def chunk_task(spec, chunkings):
    """T04: one configuration under many chunkings of the time axis."""
    r = C.result()
    a, m = build(spec)
    ref = None
    for ch in chunkings:
        case = {"combo": name(spec), "chunks": ch}
        try:
            ev, mg = run(a, m, spec, ch)
        except C.RealCodeError as e:
            r["viol"].append({"what": f"time chunks {ch}: {e}", "case": case}); continue
        r["evals"] += 1; r["distinct"].add(C.h(case))
        c = TC.canon(ev, mg, 0)
        at = {k: v for k, v in ev.attrs.items() if isinstance(v, (int, float, np.generic))}
        if ref is None:
            ref = (ch, c, at); continue
        d = TC.canon_diff(ref[1], c)
        if not d:
            for k in ref[2]:
                if k not in at or not np.isclose(float(ref[2][k]), float(at[k]), rtol=1e-5):
                    d = f"attribute {k}: {ref[2][k]} vs {at.get(k)}"
        if d:
            r["viol"].append({"what": f"chunks {ch} vs {ref[0]}: {d}", "case": case})
    return r


def specs_foot(th):
    out = []
    for i, (R, T, f, mg, mk, reg) in enumerate(itertools.product((0, 1, 2, 3) if th else (0, 1, 2), (0, 2, 4, 6) if th else (0, 2, 4), FILTS, MERGE, (False, True), (False, True))):
        if not th and (i // 4 + i) % 3:     # a third of the product, every pair of settings present
            continue
        out.append(dict(R=R, T=T, filt=f, merge=mg, mask=mk, regional=reg, shift=(3 * i) % 20, chunk=(1, 3, 4, 14, (5, 1, 8))[i % 5], reverse=False))
    return out


def specs_rot(th):
    out = []
    cf = [(R, T, f, mg, mk) for R, T, f, mg, mk in itertools.product((0, 1, 2), (0, 2, 4), FILTS, MERGE, (False, True))]
    pick = cf if th else cf[::11]
    for i, (R, T, f, mg, mk) in enumerate(pick):
        out.append([dict(R=R, T=T, filt=f, merge=mg, mask=mk, shift=s, chunk=5, regional=False) for s in (range(20) if th else (0, 2 + i % 3, 5 + i % 4, 10 + i % 2, 14 + i % 3, 19))])
        out.append([dict(R=R, T=T, filt=f, merge=mg, mask=mk, shift=s, chunk=5, regional=True) for s in (range(20) if th else (0, 4 + i % 3, 12 + i % 3, 17))])
    return out


def specs_chunk(th):
    out = []
    T = field().shape[0]
    uni = [T] + [k for k in range(1, T)]
    cuts = [(k, T - k) for k in range(1, T)] + [(1,) * 3 + (T - 3,), (2, 1, 4, 1, T - 8), (3, 3, 1, T - 7)]
    cf = list(itertools.product((0, 1, 2), (0, 2, 4), FILTS, MERGE, (False, True)))
    pick = cf[::3] if th else cf[5::17]
    for R, Tf, f, mg, mk in pick:
        sp = dict(R=R, T=Tf, filt=f, merge=mg, mask=mk, shift=0, regional=False)
        out += [(sp, [T] + uni[1:]), (sp, [T] + cuts)] if th else [(sp, [T, 1, 2, 3, 5, 6, 9, (4, 10), (7, 7), (13, 1), (1, 13), (2, 1, 4, 1, 6)])]
    return out
