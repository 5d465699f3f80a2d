"""T08-T10 (and the combined pipeline part of T01): preprocessing, observed through the tracker's footprint."""
import itertools
import numpy as np
from .. import common as C
from ..drive_track import track, make, BASE_KW
from .. import model_preproc as M


def enc(a):
    return ["/".join("".join("1" if c else "0" for c in r) for r in s) for s in a]


def foot(a, tchunk, mask=None, **kw):
    """footprint of a tracker run without merging; slice 0 must hold the sacrificial object (KF1)"""
    ev, _ = track(a, tchunk, mask=mask, allow_merging=False, **kw)
    return ev.ID_field.transpose("time", "lat", "lon").values > 0, ev


def compare(r, a, got, want, what, case, first=1):
    bad = (got != want)
    bad[:first] = False
    if bad.any():
        for t in np.unique(np.nonzero(bad)[0])[:3]:
            r["viol"].append({"what": f"{what}: slice {enc(a[t:t+1])[0]} became {enc(got[t:t+1])[0]}, expected {enc(want[t:t+1])[0]}",
                              "case": dict(case, slice=enc(a[t:t + 1])[0], step=int(t))})


# ---------------------------------------------------------------- T08
def t08_bits(Y, X, lo, hi, R, regional, tchunk):
    r = C.result()
    n = Y * X
    codes = np.arange(lo, hi)
    a = ((codes[:, None] >> np.arange(n)) & 1).astype(bool).reshape(-1, Y, X)
    a = np.concatenate([np.ones((1, Y, X), bool), a])
    case = dict(grid=(Y, X), R=R, regional=regional, tchunk=tchunk)
    try:
        got, ev = foot(a, tchunk, R_fill=R, regional=regional)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); return r
    want = M.fill(a, R, not regional)
    compare(r, a, got, want, f"R_fill={R}", case)
    r["evals"] = len(codes)
    for k in range(1, len(a)):
        if want[k].any() and not want[k].all():
            r["distinct"].add((Y, X, R, regional, int(codes[k - 1])))
    r["samples"] = [{"grid": (Y, X), "R": R, "codes": [int(lo), int(hi)]}]
    return r


def blocks(Y, X, R):
    """two rectangles with a gap, or a rectangle with a hole, or a ring, at every position"""
    out = []
    s = 2 * R + 1
    for y in range(0, Y):
        for x in range(0, X):
            for (h, w) in ((s, s), (2 * R, s), (s + 1, 2 * s)):
                a = np.zeros((Y, X), bool)
                a[y:y + h, [(x + i) % X for i in range(w)]] = True
                out.append(a)
                b = a.copy()
                b[min(Y - 1, y + h // 2), (x + w // 2) % X] = False      # a hole
                out.append(b)
                for g in (R, 2 * R, 2 * R + 1):
                    c = a.copy()
                    c[y:y + h, [(x + w + g + i) % X for i in range(w)]] = True
                    out.append(c)
                    d = a.copy()
                    if y + h + g < Y:
                        d[y + h + g:y + 2 * h + g, [(x + i) % X for i in range(w)]] = True
                        out.append(d)
    return out


_bc = {}


def t08_blocks(Y, X, R, regional, lo, hi, tchunk, schunk=None, maskkind=None):
    r = C.result()
    key = (Y, X, R)
    if key not in _bc:
        _bc[key] = np.array(blocks(Y, X, R))
    a = np.concatenate([np.ones((1, Y, X), bool), _bc[key][lo:hi]])
    mask = None
    if maskkind == "diag":
        mask = (np.add.outer(np.arange(Y), 2 * np.arange(X)) % 5) != 0
    elif maskkind == "land":
        mask = np.ones((Y, X), bool); mask[:, 3:5] = False; mask[-2:, X - 2:] = False
    case = dict(grid=(Y, X), R=R, regional=regional, tchunk=tchunk, schunk=schunk, mask=maskkind)
    try:
        if schunk:
            got = foot_schunk(a, tchunk, schunk, R, regional)
        else:
            got, ev = foot(a, tchunk, mask=mask, R_fill=R, regional=regional)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); return r
    want = M.fill(a, R, not regional, mask)
    compare(r, a, got, want, f"R_fill={R}", case, 1)
    if mask is not None and (got & ~mask).any():
        r["viol"].append({"what": "land is labelled", "case": case})
    r["evals"] = len(a) - 1
    for k in range(1, len(a)):
        r["distinct"].add((Y, X, R, regional, lo + k, maskkind))
    return r


def foot_schunk(a, tchunk, schunk, R, regional):
    marEx = C.load()
    da, m = make(a, tchunk)
    da = da.chunk({"lat": schunk[0], "lon": schunk[1]})
    kw = dict(BASE_KW, allow_merging=False, R_fill=R)
    if regional:
        kw["regional_mode"] = True
    with C.real("tracker.run"):
        return marEx.tracker(da, m, **kw).run().load().ID_field.transpose("time", "lat", "lon").values > 0


def t08_masks(Y, X, lo, hi, R):
    """every land mask of a Y x X ocean, on an informative set of fields"""
    r = C.result()
    codes = np.arange(0, 1 << (Y * X), 7 if Y * X > 8 else 1)[:256]
    f = ((codes[:, None] >> np.arange(Y * X)) & 1).astype(bool).reshape(-1, Y, X)
    a = np.concatenate([np.ones((1, Y, X), bool), f])
    for code in range(lo, hi):
        m = np.array([(code >> k) & 1 for k in range(Y * X)], bool).reshape(Y, X)
        if not m.any():
            continue
        try:
            got, _ = foot(a, 50, mask=m, R_fill=R)
        except C.RealCodeError as e:
            # with a mask under which nothing survives there may be nothing left to filter
            if not M.fill(a, R, True, m).any():
                continue
            r["viol"].append({"what": str(e), "case": {"mask": enc(m[None]), "R": R}}); continue
        want = M.fill(a, R, True, m)
        # the first object in raster order of slice 0 is dropped (KF1); slice 0 is not asserted
        compare(r, a, got, want, f"R_fill={R} mask={enc(m[None])[0]}", {"mask": enc(m[None]), "R": R})
        r["evals"] += len(a) - 1
        r["distinct"].add((Y, X, R, code))
    return r


def t08(tier):
    th = tier == "thorough"
    tasks = []
    for (Y, X), Rs in (((4, 4), (1, 2)), ((2, 6), (1, 2)), ((1, 9), (1, 2, 3)), ((3, 4), (1, 3))) if not th else \
            (((4, 4), (1, 2, 3)), ((3, 5), (1, 2, 3)), ((2, 7), (1, 2, 3)), ((1, 12), (1, 2, 3, 4)), ((5, 3), (1, 2)), ((4, 4), (0,))):
        n = 1 << (Y * X)
        step = 8192
        for R in Rs:
            for reg in (False, True):
                for i in range(0, n, step):
                    tasks.append((Y, X, i, min(n, i + step), R, reg, 4096 if i % (2 * step) else 1000))
    tot = C.run_tasks(t08_bits, tasks)
    t2 = []
    for (Y, X, R) in ((9, 11, 1), (11, 14, 2), (12, 18, 3)) + (((16, 22, 4), (20, 40, 6)) if th else ()):
        n = len(blocks(Y, X, R))
        for reg in (False, True):
            for i in range(0, n, 1500):
                t2.append((Y, X, R, reg, i, min(n, i + 1500), 200))
        t2.append((Y, X, R, False, 0, min(n, 300), 1))
        t2.append((Y, X, R, False, 0, min(n, 300), 7, (3, 4)))
        t2.append((Y, X, R, True, 0, min(n, 300), 7, (5, 2)))
        for mk in ("diag", "land"):
            t2.append((Y, X, R, False, 0, min(n, 1500), 100, None, mk))
            t2.append((Y, X, R, True, 0, min(n, 1500), 100, None, mk))
    C.merge(tot, C.run_tasks(t08_blocks, t2))
    mY, mX = (2, 3) if not th else (2, 4)
    C.merge(tot, C.run_tasks(t08_masks, [(mY, mX, i, min(i + 8, 1 << (mY * mX)), R) for i in range(0, 1 << (mY * mX), 8) for R in (1, 2)]))
    return {"level": "exploration", "total": tot,
            "rule": "every cell subset of the small grids, two-block/hole shapes at every position of larger grids, every land mask of a small grid; filled field must equal closing-then-opening "
                    "by the disk with periodic longitude (edges replicated in regional mode); non-trivial = filled field neither empty nor full"}


# ---------------------------------------------------------------- T09
def series_field(n, lo, hi):
    """(T, rows, cols) field whose columns of every other row are all binary series lo..hi of length n"""
    codes = np.arange(lo, hi)
    W = 64
    rows = -(-len(codes) // W)
    f = np.zeros((n, rows, W), bool)
    for k, c in enumerate(codes):
        f[:, k // W, k % W] = [(c >> i) & 1 for i in range(n)]
    return f


def t09_series(n, lo, hi, Tf, tchunk, lead, regional=False):
    r = C.result()
    f = series_field(n, lo, hi)
    T, Y, X = f.shape
    a = np.zeros((T + lead, Y + 2, X), bool)
    a[0, 0, 0] = True                      # sacrificial first object (KF1), separated by an empty row
    a[lead:, 2:] = f
    case = dict(n=n, codes=[int(lo), int(hi)], T_fill=Tf, tchunk=tchunk, lead=lead)
    try:
        ev, _ = track(a, tchunk, allow_merging=False, T_fill=Tf, regional=regional)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); return r
    got = ev.ID_field.values > 0
    want = M.tclose(a, Tf)
    bad = np.argwhere((got != want)[:, 2:].any(axis=0))
    for y, x in bad[:2]:
        s = "".join("1" if v else "0" for v in a[:, y + 2, x])
        r["viol"].append({"what": f"T_fill={Tf}: series {s} became {''.join('1' if v else '0' for v in got[:, y + 2, x])}, expected "
                          f"{''.join('1' if v else '0' for v in want[:, y + 2, x])} (time chunks {tchunk})", "case": dict(case, series=s)})
    if got[:, 1].any():
        r["viol"].append({"what": "cells appear at a location that is never extreme", "case": case})
    r["evals"] = int(hi - lo)
    ch = (want != a).any(axis=0)[2:]
    for y, x in zip(*np.nonzero(ch)):
        r["distinct"].add((n, Tf, int(lo + y * 64 + x)))
    r["samples"] = [case]
    return r


def t09_space(T, lo, hi, R, Tf, tchunk, maskkind, regional=False):
    """histories of T slices from a pattern menu, spatial and temporal filling together"""
    r = C.result()
    Y, X = 7, 9
    pats = menu79()
    seqs = list(itertools.product(range(len(pats)), repeat=T))[lo:hi]
    mask = None
    if maskkind:
        mask = np.ones((Y, X), bool); mask[:, 4] = False; mask[0, 0] = False
    for s in seqs:
        a = np.concatenate([np.ones((1, Y, X), bool), np.zeros((Tf + 1, Y, X), bool), np.stack([pats[i] for i in s])])
        m = np.ones((Y, X), bool) if mask is None else mask
        want = M.preprocess(a, R, Tf, m, not regional)
        if not want[1:].any():             # nothing left to track besides the sacrificial object
            continue
        case = dict(seq=list(s), R=R, T_fill=Tf, tchunk=tchunk, mask=maskkind, regional=regional)
        try:
            got, _ = foot(a, tchunk, mask=mask, R_fill=R, T_fill=Tf, regional=regional)
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); continue
        compare(r, a, got, want, f"R_fill={R} T_fill={Tf}", case)
        r["evals"] += 1
        r["distinct"].add((s, R, Tf, tchunk, maskkind, regional))
    return r


def menu79():
    Y, X = 7, 9
    z = np.zeros((Y, X), bool)
    blk = z.copy(); blk[1:5, 1:5] = True
    far = z.copy(); far[2:6, 5:9] = True
    seam = z.copy(); seam[1:6, [7, 8, 0, 1]] = True
    hole = blk.copy(); hole[3, 3] = False
    both = z.copy(); both[0:4, 0:3] = True; both[3:7, 5:8] = True
    return [z, blk, far, seam, hole, both]


def t09(tier):
    th = tier == "thorough"
    n = 15 if th else 12
    tasks = []
    for Tf in (2, 4, 6) + ((8,) if th else ()):
        for ch in ((1, 2, 3, 5, 7, n + 1, n) if th else (1, 2, 3, 5, n)):
            for lead in (0, 1, 3):
                if lead and ch not in (2, 5, n):
                    continue
                step = 8192
                for i in range(0, 1 << n, step):
                    tasks.append((n, i, min(1 << n, i + step), Tf, ch, lead, bool(lead == 1)))
    tasks += [(n, 0, 1 << min(n, 13), 0, 4, 0)]
    tot = C.run_tasks(t09_series, tasks)
    # a gap of every length 1..14 in a long series, every chunk size
    t3 = []
    for T in ((3, 4) if th else (3,)):
        N = 6 ** T
        for (R, Tf, ch, mk, reg) in ((1, 2, 3, None, False), (2, 2, 2, None, False), (3, 4, 5, None, True), (2, 2, 4, True, False)):
            for i in range(0, N, 36):
                t3.append((T, i, min(N, i + 36), R, Tf, ch, mk, reg))
    C.merge(tot, C.run_tasks(t09_space, t3))
    from . import umorph
    C.merge(tot, C.run_tasks(umorph.dispatch, umorph.gap_tasks()))
    return {"level": "exploration", "total": tot,
            "rule": "every binary series of the bounded length at one location per series, each gap length setting, several time chunkings and offsets; filled series must bridge exactly the gaps "
                    "up to the setting; plus all pattern sequences through spatial and temporal filling together, and the same on meshes; non-trivial = series changed by filling"}


# ---------------------------------------------------------------- T10
def t10_task(items, kw, areas=None):
    """items: multisets of row-run lengths; the first entry is the sacrificial first object"""
    import xarray as xr
    r = C.result()
    for it in items:
        sizes, layout = it
        X = 8
        T = 1 + max(t for t, _ in layout)
        Y = 2 * (1 + max(y for _, y in layout))
        a = np.zeros((T, Y, X), bool)
        for k, (t, y) in enumerate(layout):
            a[t, 2 * y, [(3 * k + i) % X for i in range(sizes[k])]] = True
        case = dict(sizes=list(sizes), layout=[list(l) for l in layout], kw=kw, field=enc(a))
        objs = M.labels(a, True)
        ar = np.array([len(c) for _, c in objs], float)
        if len(ar) == 0:
            continue
        q, ab = kw.get("area_filter_quartile"), kw.get("area_filter_absolute")
        thr = float(ab) if ab is not None else float(np.percentile(ar.astype("f4"), q * 100.0))
        keep = ar >= thr - 1e-6
        try:
            k2 = dict(kw)
            if ab is None:
                k2["area_filter_absolute"] = None
            ev, _ = track(a, 2, allow_merging=False, **k2)
        except C.RealCodeError as e:
            # nothing left to track is allowed to be an error
            if keep[1:].any():
                r["viol"].append({"what": str(e), "case": case})
            continue
        got = ev.ID_field.values > 0
        r["evals"] += 1
        r["distinct"].add((sizes, str(kw), layout))
        for n, (t, cells) in enumerate(objs):
            lab = [bool(got[t][c]) for c in cells]
            if n == 0:
                if keep[0] and not any(lab):
                    r["known"].append({"id": "KF1", "what": "first object dropped", "case": case})
                    continue
            if all(lab) != keep[n] or any(lab) != keep[n]:
                r["viol"].append({"what": f"object of area {ar[n]} at step {t} {'kept' if any(lab) else 'dropped'}, threshold {thr} (areas {ar.tolist()})", "case": case})
        at = ev.attrs
        nk = int(keep.sum())
        checks = [("N_objects_prefiltered", len(ar), int(at["N_objects_prefiltered"])),
                  ("area threshold", thr, float(at["area_threshold (cells)"])),
                  ("accepted_area_fraction", float(ar[keep].sum() / ar.sum()), float(at["accepted_area_fraction"]))]
        for name, w, g in checks:
            if abs(w - g) > 1e-4 * max(1, abs(w)):
                r["viol"].append({"what": f"{name} reported as {g}, is {w} (areas {ar.tolist()}, threshold {thr})", "case": case})
        gotn = int(at["N_objects_filtered"])
        dropped_first = bool(keep[0] and not got[objs[0][0]][sorted(objs[0][1])[0]])
        if gotn != nk - (1 if dropped_first else 0):
            r["viol"].append({"what": f"N_objects_filtered reported as {gotn}, {nk} objects reach the threshold", "case": case})
        tot = got.sum()
        pf = float(at["preprocessed_area_fraction"])
        if tot and abs(pf - a.sum() / tot) > 1e-4 * pf:
            r["viol"].append({"what": f"preprocessed_area_fraction {pf} is not raw/processed area {a.sum() / tot}", "case": case})
    r["samples"] = [{"sizes": list(items[0][0]), "kw": kw}]
    return r


def t10_shapes(lo, hi, thr):
    """all cell subsets of a 3x4 ring grid as slices: 2D objects of every shape, absolute threshold"""
    r = C.result()
    Y, X = 3, 4
    codes = np.arange(lo, hi)
    a = ((codes[:, None] >> np.arange(Y * X)) & 1).astype(bool).reshape(-1, Y, X)
    a = np.concatenate([np.ones((1, Y, X), bool), a])
    try:
        got, ev = foot(a, 300, area_filter_absolute=thr)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": {"codes": [lo, hi], "thr": thr}}); return r
    want = np.zeros_like(a)
    npre = nfil = 0
    for t, c in M.labels(a, True):
        npre += 1
        if len(c) >= thr:
            nfil += 1
            for y, x in c:
                want[t, y, x] = True
    compare(r, a, got, want, f"area_filter_absolute={thr}", {"thr": thr, "codes": [int(lo), int(hi)]})
    if int(ev.attrs["N_objects_prefiltered"]) != npre:
        r["viol"].append({"what": f"N_objects_prefiltered={ev.attrs['N_objects_prefiltered']}, {npre} objects", "case": {"thr": thr}})
    if int(ev.attrs["N_objects_filtered"]) not in (nfil, nfil - 1):
        r["viol"].append({"what": f"N_objects_filtered={ev.attrs['N_objects_filtered']}, {nfil} objects", "case": {"thr": thr}})
    r["evals"] = len(codes)
    r["distinct"] |= {(int(c), thr) for c in codes}
    return r


def t10(tier):
    th = tier == "thorough"
    smax, k = (6, 5) if th else (4, 4)
    items = []
    lay = {3: ((0, 0), (0, 1), (1, 0)), 4: ((0, 0), (1, 0), (1, 1), (2, 0)), 5: ((0, 0), (0, 1), (1, 0), (2, 1), (2, 2))}
    for first in (1, 3):
        for n in range(2, k):
            for ms in itertools.combinations_with_replacement(range(1, smax + 1), n):
                items.append(((first,) + ms, lay[n + 1]))
    tasks = []
    for kw in [dict(area_filter_quartile=q) for q in (0.0, 0.25, 0.5, 0.75, 0.9, 1.0)] + [dict(area_filter_absolute=x) for x in (1, 2, 3)]:
        for i in range(0, len(items), 14):
            tasks.append((items[i:i + 14], kw))
    tot = C.run_tasks(t10_task, tasks)
    C.merge(tot, C.run_tasks(t10_shapes, [(i, i + 1024, x) for i in range(0, 4096, 1024) for x in (1, 2, 3, 5, 8)]))
    return {"level": "exploration", "total": tot,
            "rule": "every multiset of object sizes in the bound (spread over space and time) with each percentile and absolute threshold, and every shape on a small ring grid; kept objects, counts, "
                    "threshold and accepted fraction recomputed directly; a case is one multiset and threshold"}


def replay(pid, case):
    return "see case"
