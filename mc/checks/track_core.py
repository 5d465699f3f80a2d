"""T01-T07, T11: gridded tracking on exhaustively enumerated histories, against the reference model."""
import itertools
import numpy as np
from .. import common as C
from ..drive_track import *
from ..model_track import Model, events_3d, mean_index, components, dist, centroid

# ---------------------------------------------------------------- spaces of histories
ROWS12 = ["000000000000", "111100000000", "000000111100", "111100111100", "111111111100",
          "110011001100", "110000000011", "111111111111", "100100100100"]


def rows_to_slice(rows):
    return np.array([[c == "1" for c in r] for r in rows], bool)


def enc(h):
    return ["/".join("".join("1" if c else "0" for c in r) for r in s) for s in h]


def dec(e):
    return np.array([[[c == "1" for c in r] for r in s.split("/")] for s in e], bool)


MENU12 = [rows_to_slice([r]) for r in ROWS12]
# two-row menu on a 8-column ring: diagonal contacts, holes, wrap, unequal sizes
MENU2x8 = [rows_to_slice(r.split("/")) for r in (
    "00000000/00000000", "11100000/00000000", "00000000/00001110", "11100000/00001110",
    "11111110/11111110", "10000001/10000001", "11000011/00111100", "11011011/11011011")]


def space(name):
    """-> list of histories (lazily built in the worker)."""
    kind, *p = name.split(":")
    if kind == "bits":
        T, Y, X = map(int, p[0].split("x"))
        return [("b", int(c), (T, Y, X)) for c in canonical_bits(T, Y, X)]
    if kind == "menu12":
        L, n = map(int, p[0].split("x"))
        return [("m12", t, None) for t in itertools.product(range(n), repeat=L) if t[0] and t[-1]]
    if kind == "menu2x8":
        L, n = map(int, p[0].split("x"))
        return [("m28", t, None) for t in itertools.product(range(n), repeat=L) if t[0] and t[-1]]
    if kind == "arcs20":         # a long piece and small ones on a ring of 20, then an arc: divisions that need several rounds
        return [("a20", (L, b, g0, gl), None) for L in map(int, p[0].split(",")) for b in range(1 << (18 - L)) for g0 in range(4) for gl in (6, 8, 9, 10) if g0 + gl <= L]
    raise KeyError(name)


def build(code):
    k, v, shp = code
    if k == "b":
        return hist_from_bits(v, *shp)
    if k == "a20":
        L, bits, g0, gl = v
        a = np.zeros((2, 1, 20), bool)
        a[0, 0, :L] = True
        a[0, 0, L + 1:19] = [(bits >> i) & 1 for i in range(18 - L)]
        a[1] = True
        a[1, 0, g0:g0 + gl] = False
        return a
    if k == "m12":
        return np.stack([MENU12[i] for i in v])
    return np.stack([MENU2x8[i] for i in v])


_cache = {}


def chunked(spacename, per):
    if spacename not in _cache:
        _cache[spacename] = space(spacename)
    n = len(_cache[spacename])
    return [(spacename, i, min(n, i + per)) for i in range(0, n, per)]


def hists_of(task):
    name, a, b = task
    if name not in _cache:
        _cache[name] = space(name)
    return [build(c) for c in _cache[name][a:b]]


# ---------------------------------------------------------------- driving
def run_batch(hs, cfg, rows=64):
    b = Batch(hs, rows)
    kw = dict(cfg)
    tch = kw.pop("tchunk", 7)
    ev, mg = track(b.big, tch, **kw)
    return b, ev, mg


def isolate(hs, cfg, err):
    """Find single histories on which the real code raises (for the replay file)."""
    for h in hs:
        try:
            run_batch([h], cfg)
        except C.RealCodeError as e:
            return {"what": str(e), "case": {"hist": enc(h), "cfg": cfg}}
    return {"what": str(err), "case": {"hists": [enc(h) for h in hs], "cfg": cfg}}


def guarded(fn):
    def w(task, cfg, *a):
        hs = hists_of(task)
        try:
            b, ev, mg = run_batch(hs, cfg)
        except C.RealCodeError as e:
            r = C.result(); r["evals"] = len(hs); r["viol"].append(isolate(hs, cfg, e)); return r
        return fn(hs, cfg, b, ev, mg, *a)
    w.__name__ = fn.__name__
    return w


def models_agree(h, cfg, got, maxties=10):
    """Does some tie resolution of the model give these events?  -> (verdict, model)"""
    nx = h.shape[2]
    args = (cells_of(h), nx, not cfg.get("regional", False), cfg.get("overlap_threshold", 0.5),
            cfg.get("nn_partitioning", False))
    m = Model(*args)
    if m.events == got:
        return "ok", m
    if m.amb_centroid or m.nonconverged:
        return "inconclusive", m
    if m.ties == 0:
        return "bad", m
    if m.ties > maxties:
        return "inconclusive", m
    # depth-first over tie choices (the number of ties can change along the way)
    stack, tried = [()], 0
    while stack and tried < 5000:
        pre = stack.pop(); tried += 1
        seen = []

        def tie(k, pre=pre, seen=seen):
            i = len(seen)
            c = pre[i] if i < len(pre) else 0
            seen.append(len(k))
            return k[min(c, len(k) - 1)]
        mm = Model(*args, tie=tie)
        if mm.events == got:
            return "ok", mm
        for i in range(len(pre), len(seen)):
            for c in range(1, seen[i]):
                stack.append(tuple(list(pre) + [0] * (i - len(pre)) + [c]))
    return ("bad" if not stack else "inconclusive"), m


def add_states(r, m):
    for s in m.trace:
        r["states"].add(C.h(s))
    r["transitions"] += len(m.trace)


def patch_ids(b, ev):
    """IDs used per patch; also which IDs appear in several patches."""
    f = ev.ID_field.values
    owner = {}
    clash = None
    for i in range(len(b.h)):
        for k in np.unique(b.patch(f, i)):
            if k > 0:
                if k in owner and clash is None:
                    clash = (int(k), owner[k], i)
                owner[int(k)] = i
    return owner, clash


# ---------------------------------------------------------------- T01 footprint
def _t01(hs, cfg, b, ev, mg):
    r = C.result()
    f = ev.ID_field.values
    if not np.issubdtype(f.dtype, np.integer):
        r["viol"].append({"what": f"ID_field is {f.dtype}, not integer", "case": {"cfg": cfg}})
    mask = np.ones(b.big.shape[1:], bool) if cfg.get("mask") is None else np.asarray(cfg["mask"], bool)
    want = b.big & mask
    got = f > 0
    neq = (got != want) | (f < 0)
    neq[0] = False
    r["evals"] = r["traces"] = len(hs)
    for i, h in enumerate(hs):
        r["distinct"].add(C.h(h.tobytes()))
        if b.patch(neq, i).any():
            r["viol"].append({"what": "labelled cells differ from the input cells: got "
                              f"{enc(b.patch(got, i))} want {enc(b.patch(want, i))}",
                              "case": {"hist": enc(h), "cfg": {k: v for k, v in cfg.items() if k != 'mask'}}})
            neq[b.pos[i][0]:b.pos[i][0] + h.shape[0], b.pos[i][1]:b.pos[i][1] + h.shape[1]] = False
    if neq.any() and not r["viol"]:
        t, y, x = map(int, np.argwhere(neq)[0])
        r["viol"].append({"what": f"cell {(t, y, x)} outside every extreme object is labelled {int(f[t, y, x])}",
                          "case": {"hists": [enc(h) for h in hs][:50], "cfg": str(cfg)}})
    r["samples"] = [enc(hs[0])]
    return r


t01_task = guarded(_t01)


def t01_mask(T, Y, X, lo, hi, cfg):
    """Every land mask of a Y x X grid (same mask for the whole run) with a menu of histories."""
    r = C.result()
    full = np.ones((T, Y, X), bool)
    chk = np.indices((T, Y, X)).sum(0) % 2 == 0
    hs = [full, chk, ~chk]
    for code in range(lo, hi):
        m = np.array([(code >> k) & 1 for k in range(Y * X)], bool).reshape(Y, X)
        if not m.any():
            continue
        big = np.zeros((2 + sum(h.shape[0] + 1 for h in hs), Y + 2, X), bool)
        big[0, Y + 1, 0] = True
        t = 2
        for h in hs:
            big[t:t + T, :Y] = h; t += T + 1
        mm = np.vstack([m, np.ones((2, X), bool)])
        for kw in (dict(nn_partitioning=False), dict(allow_merging=False)):
            c = dict(cfg); c.update(kw)
            try:
                ev, _ = track(big, 4, mask=mm, **c)
            except C.RealCodeError as e:
                r["viol"].append({"what": str(e), "case": {"mask": enc([m]), "cfg": c}}); continue
            got = ev.ID_field.values > 0
            want = big & mm
            r["evals"] += 1; r["traces"] += 1
            r["distinct"].add((code, str(kw)))
            if (got[1:] != want[1:]).any():
                r["viol"].append({"what": f"masked footprint differs under mask {enc([m])}", "case": {"mask": enc([m]), "cfg": c}})
    return r


def t01(tier):
    th = tier == "thorough"
    tasks = []
    sp = [("bits:3x1x5", 900), ("bits:2x2x3", 700), ("menu12:3x9", 90)]
    if th:
        sp = [("bits:3x1x6", 900), ("bits:2x2x4", 900), ("bits:4x1x4", 900), ("menu12:4x9", 90), ("menu2x8:4x8", 90)]
    cfgs = [dict(nn_partitioning=True, tchunk=5), dict(nn_partitioning=False, tchunk=1),
            dict(allow_merging=False, tchunk=3), dict(nn_partitioning=False, regional=True, tchunk=4, overlap_threshold=0.9)]
    for s, per in sp:
        for c in cfgs:
            tasks += [(t, c) for t in chunked(s, per)]
    tot = C.run_tasks(t01_task, tasks)
    n = 9 if th else 6
    Y, X = (3, 3) if th else (2, 3)
    C.merge(tot, C.run_tasks(t01_mask, [(2, Y, X, i, min(1 << n, i + 4), {}) for i in range(0, 1 << n, 4)]))
    from . import combo
    sp = combo.specs_foot(th)
    C.merge(tot, C.run_tasks(combo.foot_task, [(sp[i::24],) for i in range(24)]))
    from . import umorph, unstruct
    C.merge(tot, C.run_tasks(umorph.dispatch, umorph.foot_tasks()))
    C.merge(tot, C.run_tasks(unstruct.mesh_task, unstruct.mesh_tasks(("foot",), th)))
    return {"level": "exploration", "total": tot,
            "rule": "every history of the bounded grids (all cell subsets over T slices, up to symmetry), every land mask of a "
                    "small grid: labelled cells must equal input cells (after mask) in every merge mode; plus combinations of filling radius, gap filling, area filter, "
                    "merge mode, mask, regional mode and chunking on a rich history against the reference preprocessing; the same on unstructured meshes; a case is one history/mask/configuration"}


# ---------------------------------------------------------------- T02 event identity
def _t02(hs, cfg, b, ev, mg):
    r = C.result()
    f = ev.ID_field.values
    owner, clash = patch_ids(b, ev)
    ids = sorted(int(k) for k in np.unique(f) if k > 0)
    case = {"hists": [enc(h) for h in hs][:200], "cfg": cfg}
    if ids != list(range(1, len(ids) + 1)):
        r["viol"].append({"what": f"event IDs are not contiguous from 1: {ids[:20]}", "case": case})
    if [int(k) for k in ev.ID.values] != ids:
        r["viol"].append({"what": f"ID coordinate {ev.ID.values[:10]}.. does not list exactly the IDs in the field (n={len(ids)})", "case": case})
    if int(ev.attrs["N_events_final"]) != len(ids):
        r["viol"].append({"what": f"N_events_final={ev.attrs['N_events_final']} but {len(ids)} events", "case": case})
    if clash:
        r["viol"].append({"what": f"event ID {clash[0]} is shared by two unconnected histories",
                          "case": {"hists": [enc(hs[clash[1]]), enc(hs[clash[2]])], "cfg": cfg}})
    for i, h in enumerate(hs):
        got = split_events(b.patch(f, i))
        v, m = models_agree(h, cfg, got)
        r["traces"] += 1; r["evals"] += 1
        add_states(r, m)
        r["distinct"].add(C.h((h.tobytes(), cfg.get("nn_partitioning"))) if len(m.events) > 1 or m.merges else 0)
        if m.merges:
            r["notes"]["histories_with_merges"] = r["notes"].get("histories_with_merges", 0) + 1
        if v == "inconclusive":
            r["inconclusive"] += 1
        elif v == "bad":
            r["viol"].append({"what": f"events {sorted(map(sorted, got))} differ from the reference model's {sorted(map(sorted, m.events))}",
                              "case": {"hist": enc(h), "cfg": cfg}})
    r["samples"] = [{"hist": enc(hs[-1]), "cfg": {k: v for k, v in cfg.items()}}]
    return r


t02_task = guarded(_t02)


def t02_crowd(n, Y, X, T, nn):
    """Many objects: isolated cells that each vanish for one step, so IDs grow far beyond what pairs of 16- or 32-bit
    numbers can encode; a merger among the highest IDs at the end. Oracle: one event per unbroken run of a cell."""
    r = C.result()
    a = np.zeros((T, Y, X), bool)
    a[:, ::2, ::2] = True
    yy, xx = np.nonzero(a[0])
    gone = {}
    for s, (y, x) in enumerate(zip(yy, xx)):
        if x < X - 6:
            gone[(y, x)] = 3 + s % (T - 8)
            a[gone[(y, x)], y, x] = False
    a[T - 2:, Y - 1, X - 3] = True          # joins the cells at X-4 and X-2 of the last row
    case = dict(cells=int(len(yy)), steps=T, grid=(Y, X), nn_partitioning=nn)
    ev, mg = track(a, 5, nn_partitioning=nn)
    f = ev.ID_field.values
    want = a.copy(); want[0, 0, 0] = f[0, 0, 0] > 0
    r["evals"] = r["traces"] = 1; r["transitions"] = T; r["distinct"].add(C.h(case))
    seen = {}
    bad = None
    if ((f > 0) != want)[1:].any():
        bad = "labelled cells differ from the objects"
    for (y, x) in zip(yy, xx):
        if bad:
            break
        col = f[:, y, x]
        cut = gone.get((y, x))
        runs = [col[1:]] if cut is None else [col[1:cut], col[cut + 1:]]
        for k, v in enumerate(runs):
            if len(v) and (v != v[0]).any():
                bad = f"cell {(int(y), int(x))} changes event within one unbroken run: {v.tolist()}"; break
            if len(v) and seen.setdefault(int(v[0]), (int(y), int(x), k)) != (int(y), int(x), k):
                bad = f"event {int(v[0])} holds two separate histories: {seen[int(v[0])]} and {(int(y), int(x), k)}"; break
    ids = set(np.unique(f)) - {0}
    if not bad and ids != set(range(1, len(ids) + 1)):
        bad = f"event IDs are not contiguous: {len(ids)} events, highest {max(ids)}"
    if not bad and int(ev.attrs["N_events_final"]) != len(ids):
        bad = f"{ev.attrs['N_events_final']} events reported, {len(ids)} in the field"
    if not bad:
        for k in mg.merge_ID.values:
            par = [int(v) for v in mg.parent_IDs.sel(merge_ID=k).values if v > 0]
            if len(par) != 2 or mg.merge_time.sel(merge_ID=k).values not in ev.time.values[T - 2:]:
                bad = f"merger of {par} at {mg.merge_time.sel(merge_ID=k).values}"
        if mg.sizes["merge_ID"] != 2:
            bad = f"{mg.sizes['merge_ID']} mergers recorded, expected one in each of the last two steps"
    if bad:
        r["viol"].append({"what": bad, "case": case})
    r["notes"]["objects_in_crowds"] = int(a.sum())
    return r


def t02_flicker(_, Y, X, T):
    """More events than 16-bit numbers hold: lattices of single cells that never overlap the step before, except in the
    last step. Oracle: every cell its own event, those of the last two steps shared."""
    r = C.result()
    a = np.zeros((T, Y, X), bool)
    for t in range(T - 1):
        a[t, ::2, t % 2::2] = True
    a[T - 1] = a[T - 2]
    case = dict(flicker=(T, Y, X))
    ev, mg = track(a, 4)
    f = ev.ID_field.values
    r["evals"] = r["traces"] = 1; r["transitions"] = T; r["distinct"].add(C.h(case))
    bad = None
    n = int(a[:T - 1].sum()) - 1 + int(f[0, 0, 0] > 0)
    if ((f > 0) != a)[1:].any() or ((f > 0) != a)[0].sum() > 1:
        bad = "labelled cells differ from the objects"
    elif (f[T - 1] != f[T - 2]).any():
        bad = "an object of the last step is not the event it overlaps"
    elif not np.array_equal(np.sort(f[:T - 1][f[:T - 1] > 0]), np.arange(1, n + 1)):
        bad = f"{n} objects that overlap nothing are not {n} events numbered from 1"
    elif int(ev.attrs["N_events_final"]) != n or mg.sizes["merge_ID"]:
        bad = f"{ev.attrs['N_events_final']} events and {mg.sizes['merge_ID']} mergers reported, expected {n} and 0"
    elif not np.array_equal(ev.ID.values, np.arange(1, n + 1)) or not np.array_equal(ev.presence.values.sum(0), np.where(np.isin(np.arange(1, n + 1), f[T - 1]), 2, 1)):
        bad = "presence does not match the labelled field"
    if bad:
        r["viol"].append({"what": bad, "case": case})
    r["notes"]["objects_in_crowds"] = int(a.sum())
    return r


def giant_field():
    """two objects of 190x200 cells (more than 16-bit counts hold) drifting east; a bridge joins them in the last step"""
    Y, X, T = 200, 430, 4
    a = np.zeros((T, Y, X), bool)
    for t in range(T):
        a[t, 5:195, 5 + 2 * t:205 + 2 * t] = True
        a[t, 5:195, 210 + 2 * t:410 + 2 * t] = True
    a[T - 1, 100, 205 + 2 * (T - 1):210 + 2 * (T - 1)] = True
    return a


def giant_run(nn=False):
    a = giant_field()
    T, Y, X = a.shape
    ev, mg = track(a, 2, nn_partitioning=nn)
    return a, ev, mg


def t02_giant(_, nn):
    r = C.result()
    case = dict(giant="two objects of 38000 cells, drifting, then joined", nn_partitioning=nn)
    a, ev, mg = giant_run(nn)
    f = ev.ID_field.values
    T = a.shape[0]
    r["evals"] = r["traces"] = 1; r["transitions"] = T; r["distinct"].add(C.h(case))
    bad = None
    A, B = int(f[1, 100, 50]), int(f[1, 100, 300])
    if A == B or not A or not B:
        bad = "the two objects are not two events"
    else:
        for t in range(1, T - 1):
            k = 5 + 2 * t
            if set(np.unique(f[t, 5:195, k:k + 200])) != {A} or set(np.unique(f[t, 5:195, k + 205:k + 405])) != {B}:
                bad = f"an object changes its event at step {t}"
    if not bad and ((f > 0) != a)[1:].any():
        bad = "labelled cells differ from the objects"
    if not bad and set(np.unique(f[T - 1])) - {0} != {A, B}:
        bad = f"after joining, events {sorted(set(np.unique(f[T - 1])) - {0})}, expected the parents {sorted((A, B))}"
    if not bad:
        got = [(sorted(int(v) for v in mg.parent_IDs.sel(merge_ID=k).values if v > 0), sorted(int(v) for v in mg.overlap_areas.sel(merge_ID=k).values if v > 0)) for k in mg.merge_ID.values]
        want = sorted(int((a[T - 1] & (f[T - 2] == e)).sum()) for e in (A, B))
        if [g[1] for g in got] != [want]:
            bad = f"merge record {got}, expected one merger with overlap areas {want}"
    if bad:
        r["viol"].append({"what": bad, "case": case})
    return r


def t02_any(*a):
    if a[0] == "giant":
        return t02_giant(*a)
    if a[0] == "flicker":
        return t02_flicker(*a)
    return t02_crowd(*a) if a[0] == "crowd" else t02_task(*a)


def t02(tier):
    th = tier == "thorough"
    tasks = [("flicker", 121, 280, 9), ("giant", True), ("giant", False), ("crowd", 61, 130, 26, False)] + ([("crowd", 41, 130, 40, True)] if th else [])
    if th:
        sp = [("bits:3x1x6", 700), ("bits:2x2x4", 700), ("bits:4x1x5", 700), ("bits:3x2x3", 700), ("menu12:5x9", 120), ("menu2x8:5x8", 120)]
        thr = (0.5, 0.25, 0.7)
    else:
        sp = [("bits:3x1x5", 800), ("bits:2x2x3", 800), ("menu12:4x7", 120), ("menu2x8:3x8", 80)]
        thr = (0.5,)
    for s, per in sp:
        for nn in (True, False):
            for x in thr:
                tasks += [(t, dict(nn_partitioning=nn, overlap_threshold=x, tchunk=(7 if nn else 4))) for t in chunked(s, per)]
    tasks += [(t, dict(nn_partitioning=False, tchunk=4)) for t in chunked("arcs20:10,11,12,13,14" if th else "arcs20:12,13,14", 450)]
    for x in (0.0, 0.26, 0.5, 0.67, 1.0):
        tasks += [(t, dict(nn_partitioning=True, overlap_threshold=x, tchunk=3)) for t in chunked("menu12:3x9", 150)]
    tasks += [(t, dict(nn_partitioning=nn, overlap_threshold=0.5, regional=True)) for t in chunked("menu12:3x9", 150) for nn in (True, False)]
    for i, ar in enumerate((0.05, 1e6) if not th else (0.05, 1.0, 1e6)):      # cell areas must not influence which objects are linked
        tasks += [(t, dict(nn_partitioning=bool(i), areas=ar, tchunk=5)) for t in chunked("menu12:3x9", 150)]
    tot = C.run_tasks(t02_any, tasks)
    return {"level": "model_checking", "total": tot,
            "rule": "one history of 50000 objects, and every history of the bounded spaces replayed on the real tracker and on the reference model; event partitions must agree "
                    "up to ID renaming and distance ties; non-trivial = several events or a merge"}


# ---------------------------------------------------------------- T03 partition geometry
def rect(y0, x0, hh, w, nx):
    return frozenset((y, x % nx) for y in range(y0, y0 + hh) for x in range(x0, x0 + w))


def adjacent(a, b, nx, wrap):
    for y, x in a:
        for dy in (-1, 0, 1):
            for dx in (-1, 0, 1):
                xx = (x + dx) % nx if wrap else x + dx
                if (y + dy, xx) in b:
                    return True
    return False


def pair_space(name):
    """Two-step histories: slice 0 = 2-3 separated rectangles, slice 1 = one object covering them all."""
    kind, *p = name.split(":")
    out = []
    if kind == "pairs":                       # all pairs of rectangles, sizes from a menu, full-grid child
        Y, X = map(int, p[0].split("x"))
        sizes = [(1, 1), (1, 2), (2, 1), (2, 3)][:int(p[1])]
        rs = [rect(y, x, hh, w, X) for hh, w in sizes for y in range(Y - hh + 1) for x in range(X)]
        for a, b in itertools.combinations(rs, 2):
            if not adjacent(a, b, X, True):
                out.append(((Y, X), [a, b], None))
        # canonical under rotation is not used: grid-cell boundaries of the search index matter
    elif kind == "triples":
        Y, X = map(int, p[0].split("x"))
        rs = [rect(y, x, 1, 1, X) for y in range(Y) for x in range(X)]
        for a, b, c in itertools.combinations(rs, 3):
            if min(a)[1] == 0 and not (adjacent(a, b, X, True) or adjacent(b, c, X, True) or adjacent(a, c, X, True)):
                out.append(((Y, X), [a, b, c], None))
    elif kind == "wide":                      # wide ring: distances beyond the search radius, index-cell seams
        Y, X = map(int, p[0].split("x"))
        for x1 in (0, 3, X // 2, X - 2):
            for x2 in range(0, X, int(p[1])):
                for (h1, w1), (h2, w2) in (((1, 1), (2, 2)), ((Y, 2), (1, 5))):
                    a, b = rect(0, x1, h1, w1, X), rect(Y - h2, x2, h2, w2, X)
                    if not adjacent(a, b, X, True):
                        out.append(((Y, X), [a, b], None))
    elif kind == "ell":                       # parents of three cells in an L: centroids at thirds of a cell
        Y, X = map(int, p[0].split("x"))
        sq = [(0, 0), (0, 1), (1, 0), (1, 1)]
        for y, q, x1 in itertools.product(range(Y - 1), range(4), range(X)):
            a = frozenset((y + dy, (x1 + dx) % X) for k, (dy, dx) in enumerate(sq) if k != q)
            for y2, x2, w in itertools.product(range(Y), range(X), range(1, int(p[1]) + 1)):
                b = rect(y2, x2, 1, w, X)
                if not adjacent(a, b, X, True):
                    out.append(((Y, X), [a, b], None))
    elif kind == "big":                       # large parents: their search radius grows with their size
        Y, X = map(int, p[0].split("x"))
        for n, gap in itertools.product(map(int, p[1].split(",")), map(int, p[2].split(","))):
            for x0 in (5, X - n // 2):
                a, b = rect(0, x0, n, n, X), rect(0, x0 + n + gap, 1, 2, X)
                out.append(((Y, X), [a, b], a | b | rect(0, x0, 1, n + gap + 1, X)))
    elif kind == "seam":                      # a band almost around the globe, a small object above its gap: the last index cell is narrow
        Y, X = map(int, p[0].split("x"))
        for c in (0, 1, 4, 9, X // 2, X - 3, X - 1):
            for gl, gr in itertools.product(map(int, p[1].split(",")), repeat=2):
                for dx in (0, 2):
                    a = frozenset((Y - 1, (c + x) % X) for x in range(gr, X - gl + 1))
                    out.append(((Y, X), [a, rect(0, c + dx, 1, 1, X)], None))
    elif kind == "tall":                      # tall narrow grid: latitude distances
        Y, X = map(int, p[0].split("x"))
        for y1 in range(0, Y, int(p[1])):
            for y2 in range(y1 + 2, Y, int(p[1])):
                out.append(((Y, X), [rect(y1, 0, 1, 1, X), rect(y2, X // 2, 1, 2, X)], None))
    elif kind == "scatter":                   # L-shaped child: not every cell of the grid
        Y, X = map(int, p[0].split("x"))
        rs = [rect(y, x, 1, 1, X) for y in range(Y) for x in range(X)]
        for a, b in itertools.combinations(rs, 2):
            if adjacent(a, b, X, True):
                continue
            (ya, xa), (yb, xb) = min(a), min(b)
            ch = {(ya, x) for x in range(min(xa, xb), max(xa, xb) + 1)} | {(y, xb) for y in range(min(ya, yb), max(ya, yb) + 1)} | a | b
            out.append(((Y, X), [a, b], frozenset(ch)))
    elif kind == "split":                     # one parent is a former object that has fallen into 2-3 pieces
        Y, X = map(int, p[0].split("x"))
        for x0 in range(0, X, 2):
            for w in (4, 5, 6):
                whole = rect(0, x0, 2, w, X)
                for g in range(1, w - 1):
                    for g2 in (None, g + 2):
                        if g2 is not None and g2 >= w - 1:
                            continue
                        holes = rect(0, x0 + g, 2, 1, X) | (rect(0, x0 + g2, 2, 1, X) if g2 else frozenset())
                        a = whole - holes
                        for x2 in range(0, X, int(p[1])):
                            b = rect(Y - 1, x2, 1, 2, X)
                            if not adjacent(whole, b, X, True):
                                out.append(((Y, X), [a, b], None, whole))
    return [o if len(o) == 4 else o + (None,) for o in out]


_pcache = {}


def pairs_of(task):
    name, lo, hi = task
    if name not in _pcache:
        _pcache[name] = pair_space(name)
    return _pcache[name][lo:hi]


def t03_task(task, cfg):
    r = C.result()
    items = pairs_of(task)
    hs = []
    for (Y, X), ps, ch, before in items:
        a = np.zeros((2 if before is None else 3, Y, X), bool)
        for y, x in before or ():
            a[0, y, x] = True
        for p in ps:
            for y, x in p:
                a[-2, y, x] = True
        if ch is None:
            a[-1] = True
        else:
            for y, x in ch:
                a[-1, y, x] = True
        hs.append(a)
    rows = 4 if hs[0].shape[1] * hs[0].shape[2] > 100 else 24
    try:
        b, ev, mg = run_batch(hs, cfg, rows=rows)
    except C.RealCodeError as e:
        r["evals"] = len(hs); r["viol"].append(isolate(hs, cfg, e)); return r
    f = ev.ID_field.values
    wrap = not cfg.get("regional", False)
    nn = cfg.get("nn_partitioning", False)
    for i, ((Y, X), ps, ch, before) in enumerate(items):
        pf = b.patch(f, i)
        r["evals"] += 1
        case = {"hist": enc(hs[i]), "cfg": cfg}
        m = Model(cells_of(hs[i]), X, wrap, cfg.get("overlap_threshold", 0.5), nn)
        r["distinct"].add(C.h((X, Y, sorted(map(sorted, ps)), nn)))
        if m.amb_centroid:
            r["inconclusive"] += 1; continue
        if len(m.merges) != 1 or len(m.event_cells) != len(ps):
            # the first partition is not final (later rounds / consolidation): compare whole events
            v, _ = models_agree(hs[i], cfg, split_events(pf))
            r["notes"]["multi_round"] = r["notes"].get("multi_round", 0) + 1
            if v == "bad":
                r["viol"].append({"what": "merged object divided differently from the reference model", "case": case})
            elif v == "inconclusive":
                r["inconclusive"] += 1
            continue
        ids = [int(pf[-2][min(p)]) for p in ps]
        if len(set(ids)) != len(ids):
            r["viol"].append({"what": f"separate parents share event IDs {ids}", "case": case}); continue
        torn = [k for k, p in enumerate(ps) if len({int(pf[-2][c]) for c in p}) != 1]
        if torn:
            r["viol"].append({"what": f"the pieces of parent {torn} are not one object", "case": case}); continue
        cellsizes = [len(p) for p in ps]
        maxd = max(int(np.sqrt(max(cellsizes)) * 3.0), 40)
        cents_ok = [centroid(p, X, wrap)[2] for p in ps]
        if not nn and not all(cents_ok):
            r["inconclusive"] += 1; continue
        cents = [centroid(p, X, wrap) for p in ps]
        bad = None
        for y, x in cells_of(hs[i])[-1]:
            cd = [dist(y, x, c[0], c[1], X, wrap) for c in cents]
            if nn:
                ds = [min(dist(y, x, a, c, X, wrap) for a, c in p) for p in ps]
                ds = [d if d <= maxd else np.inf for d in ds]
                if min(ds) == np.inf:
                    ds = cd
            else:
                ds = cd
            ok = {ids[k] for k, d in enumerate(ds) if d - min(ds) < 1e-5}
            if int(pf[-1, y, x]) not in ok:
                bad = (y, x, ds, ids, int(pf[-1, y, x])); break
        if bad:
            r["viol"].append({"what": f"cell {bad[:2]} has distances {bad[2]} to parents {bad[3]} but went to {bad[4]}", "case": case})
    r["samples"] = [{"parents": [sorted(p) for p in items[0][1]], "grid": items[0][0], "nn": nn}]
    return r


def t03(tier):
    th = tier == "thorough"
    sp = [("pairs:3x7:3", 60), ("triples:3x6", 60), ("wide:2x130:3", 12), ("tall:60x3:7", 12), ("scatter:4x6", 60), ("split:4x12:5", 60), ("seam:6x91:2,10", 12), ("ell:4x7:1", 120), ("big:24x300:14,24:84,112,140", 4)]
    if th:
        sp = [("pairs:4x9:4", 120), ("triples:4x8", 120), ("wide:3x130:1", 12), ("wide:2x97:1", 12), ("tall:90x4:5", 12), ("scatter:5x8", 100), ("split:4x12:1", 60), ("split:5x17:3", 60), ("ell:4x7:2", 120), ("ell:4x9:2", 120), ("ell:5x8:1", 120), ("big:27x400:13,14,17,20,26:60,80,84,90,98,112,130,150,170", 4)] + [(f"seam:{y}x{x}:2,5,9,10,11", 12) for y in (4, 6, 9) for x in (85, 91, 92, 99, 100, 101)]
    tasks = []
    for name, per in sp:
        _pcache[name] = pair_space(name)
        n = len(_pcache[name])
        cfgs = [dict(nn_partitioning=True), dict(nn_partitioning=False), dict(nn_partitioning=True, regional=True)]
        if th or name.split(":")[0] in ("pairs", "split"):
            cfgs += [dict(nn_partitioning=False, regional=True), dict(nn_partitioning=False, areas=1e3)]
        if th:
            cfgs += [dict(nn_partitioning=True, areas=0.1), dict(nn_partitioning=True, overlap_threshold=0.2)]
        for cfg in cfgs:
            tasks += [((name, i, min(n, i + per)), cfg) for i in range(0, n, per)]
    tot = C.run_tasks(t03_task, tasks)
    return {"level": "exploration", "total": tot,
            "rule": "every placement of 2-3 separated parents from the size menu on the bounded grids, merged by a child covering them; "
                    "each child cell must belong to a nearest parent (cell distance, or centroid distance), ties free"}


# ---------------------------------------------------------------- comparing whole outputs up to ID renaming
def canon(ev, mg, t_from=1):
    """Everything observable, keyed by event footprint instead of ID."""
    f = ev.ID_field.values
    foot = {}
    for t, y, x in zip(*np.nonzero(f)):
        foot.setdefault(int(f[t, y, x]), []).append((int(t), int(y), int(x)))
    foot = {k: tuple(v) for k, v in foot.items()}
    out = {}
    led = ev["merge_ledger"].transpose(ev.ID_field.dims[0], "ID", "sibling_ID").values if "merge_ledger" in ev else None
    ids = list(map(int, ev.ID.values)) if "ID" in ev.coords else []
    for j, k in enumerate(ids):
        if k not in foot or foot[k][0][0] < t_from:
            continue
        d = {}
        for v in ("area", "presence"):
            d[v] = ev[v].isel(ID=j).values
        d["centroid"] = ev["centroid"].isel(ID=j).transpose("component", ...).values
        d["start"], d["end"] = ev["time_start"].isel(ID=j).values, ev["time_end"].isel(ID=j).values
        d["ledger"] = tuple(frozenset(C.h(foot[int(s)]) for s in row if s > 0) for row in led[:, j])
        out[foot[k]] = d
    if not ids:
        out = {v: {} for v in foot.values() if v[0][0] >= t_from}
    recs = None
    if mg is not None:
        recs = sorted((str(mg.merge_time.values[i]), int(mg.n_parents.values[i]), int(mg.n_children.values[i]),
                       tuple(sorted(float(a) for a in mg.overlap_areas.values[i] if a >= 0))) for i in range(mg.sizes["merge_ID"]))
    return out, recs


def canon_diff(a, b):
    (ea, ra), (eb, rb) = a, b
    if set(ea) != set(eb):
        d = set(ea) ^ set(eb)
        return "events differ, e.g. " + str(sorted(d, key=len)[0][:40])
    if ra != rb:
        return f"merge records differ: {ra} vs {rb}"[:600]
    for k in ea:
        for v in ea[k]:
            x, y = ea[k][v], eb[k][v]
            same = np.array_equal(x, y) if v in ("presence", "start", "end") else (x == y if v == "ledger" else np.allclose(x, y, rtol=1e-5, atol=1e-4, equal_nan=True))
            if not same:
                return f"{v} of event {k[:30]} differs: {x} vs {y}"[:600]
    return None


# ---------------------------------------------------------------- T04 chunk invariance
def compositions(n):
    for bits in range(1 << (n - 1)):
        c, cur = [], 1
        for i in range(n - 1):
            if bits >> i & 1:
                c.append(cur); cur = 1
            else:
                cur += 1
        yield tuple(c + [cur])


def t04_task(menu, lo, hi, L, cfg):
    """All compositions of the time axis into chunks, on histories from a menu stacked in rows."""
    r = C.result()
    M = {"m12": [MENU12[i] for i in (3, 4, 5)], "m28": [MENU2x8[i] for i in (3, 4, 6)]}[menu]
    hs = [np.stack([M[i] for i in t]) for t in itertools.islice(itertools.product(range(3), repeat=L), lo, hi)]
    b = Batch(hs, len(hs))
    body = b.big[:2 + L]
    ref = None
    for comp in sorted(compositions(L), key=len):
        ch = (2 + comp[0],) + comp[1:] if len(comp) % 2 else (1, 1) + comp
        try:
            ev, mg = track(body, ch, **cfg)
        except C.RealCodeError as e:
            r["viol"].append({"what": f"time chunks {ch}: {e}", "case": {"hists": [enc(h) for h in hs[:40]], "cfg": cfg, "chunks": ch}}); continue
        c = canon(ev, mg)
        r["evals"] += 1; r["distinct"].add((menu, lo, comp, str(cfg)))
        if ref is None:
            ref = c
        else:
            d = canon_diff(ref, c)
            if d:
                r["viol"].append({"what": f"chunks {ch} vs one chunk: {d}", "case": {"hists": [enc(h) for h in hs[:40]], "cfg": cfg, "chunks": ch}})
    r["samples"] = [{"hist": enc(hs[0]), "compositions": len(list(compositions(L)))}]
    return r


def t04_long(spacename, lo, hi, cfg, sizes):
    """A long series (many histories one after the other) cut into uniform chunks of several sizes."""
    r = C.result()
    hs = hists_of((spacename, lo, hi))
    b = Batch(hs, 6)
    ref = None
    for n in (b.big.shape[0],) + tuple(sizes):
        try:
            ev, mg = track(b.big, n, **cfg)
        except C.RealCodeError as e:
            r["viol"].append({"what": f"chunk size {n}: {e}", "case": {"hists": [enc(h) for h in hs], "cfg": cfg, "chunks": n}}); continue
        c = canon(ev, mg)
        r["evals"] += 1; r["distinct"].add((spacename, lo, n, str(cfg)))
        if ref is None:
            ref = c
        else:
            d = canon_diff(ref, c)
            if d:
                r["viol"].append({"what": f"chunk size {n} of {b.big.shape[0]} steps: {d}",
                                  "case": {"hists": [enc(h) for h in hs], "cfg": cfg, "chunks": n}})
    return r


def t04(tier):
    th = tier == "thorough"
    t1 = []
    for menu in ("m12", "m28"):
        for nn in (True, False):
            L = 6 if th else (5 if (menu, nn) == ("m12", False) else 4)
            t1 += [(menu, i, i + 27, L, dict(nn_partitioning=nn)) for i in range(0, 3 ** L, 27)]
    tot = C.run_tasks(t04_task, t1)
    t2 = []
    n = len(space("menu12:3x7"))
    for lo in range(0, n, 60):
        t2.append(("menu12:3x7", lo, min(n, lo + 60), dict(nn_partitioning=bool(lo // 60 % 2)), (1, 2, 3, 4, 13)))
        t2.append(("menu12:3x7", lo, min(n, lo + 60), dict(allow_merging=False), (1, 3, 5)))
    C.merge(tot, C.run_tasks(t04_long, t2))
    from . import combo
    C.merge(tot, C.run_tasks(combo.chunk_task, combo.specs_chunk(th)))
    return {"level": "exploration", "total": tot,
            "rule": "every composition of the time axis into chunks (T<=5 quick, 6 thorough; plus 40-step series with up to 40 chunks) for menus of "
                    "merge/split histories; all outputs equal the single-chunk run up to ID renaming; a case is one (history batch, chunking)"}


# ---------------------------------------------------------------- T05 rotation / regional
def t05_task(task, cfg, shift):
    r = C.result()
    hs = hists_of(task)
    X = hs[0].shape[2]
    cfgs = dict(cfg)
    b = Batch(hs, 64)
    try:
        ev, mg = track(b.big, 6, **cfgs)
        ev2, mg2 = track(np.roll(b.big, shift, axis=2), 6, **cfgs)
    except C.RealCodeError as e:
        r["viol"].append(isolate(hs + [np.roll(h, shift, axis=2) for h in hs], cfg, e)); return r
    f, f2 = ev.ID_field.values, np.roll(ev2.ID_field.values, -shift, axis=2)
    dlon = 360.0 / X
    idx = {int(k): j for j, k in enumerate(ev.ID.values)} if "area" in ev else None
    idx2 = {int(k): j for j, k in enumerate(ev2.ID.values)} if "area" in ev else None
    for i, h in enumerate(hs):
        p, p2 = b.patch(f, i), b.patch(f2, i)
        r["evals"] += 1
        r["distinct"].add(C.h((h.tobytes(), shift)))
        e1, e2 = split_events(p), split_events(p2)
        if e1 != e2:
            if cfg.get("allow_merging", True):
                # legitimate only if the rule itself depends on tie-breaking here
                m1 = Model(cells_of(h), X, True, cfg.get("overlap_threshold", 0.5), cfg.get("nn_partitioning", False))
                m2 = Model(cells_of(np.roll(h, shift, axis=2)), X, True, cfg.get("overlap_threshold", 0.5), cfg.get("nn_partitioning", False))
                back = frozenset(frozenset((t, y, (x - shift) % X) for t, y, x in e) for e in m2.events)
                if m1.ties or m2.ties or m1.amb_centroid or m2.amb_centroid or back != m1.events:
                    r["inconclusive"] += 1; continue
            r["viol"].append({"what": f"rotation by {shift}: events {sorted(map(sorted, e1))} became {sorted(map(sorted, e2))}",
                              "case": {"hist": enc(h), "cfg": cfg, "shift": shift}})
            continue
        if idx is None:
            continue
        A, A2, Ce, Ce2 = ev.area.values, ev2.area.values, ev.centroid.values, ev2.centroid.values
        for k in np.unique(p):
            if k == 0:
                continue
            t, y, x = map(int, np.argwhere(p == k)[0])
            k2 = int(p2[t, y, x])
            j, j2 = idx[int(k)], idx2[k2]
            sl = slice(b.pos[i][0], b.pos[i][0] + h.shape[0])
            a, a2 = A[sl, j], A2[sl, j2]
            if not np.allclose(a, a2, equal_nan=True):
                r["viol"].append({"what": f"rotation by {shift} changed area {a} -> {a2}", "case": {"hist": enc(h), "cfg": cfg, "shift": shift}}); break
            c, c2 = Ce[:, sl, j], Ce2[:, sl, j2]
            for tt in range(c.shape[1]):
                if np.isnan(c[0, tt]) and np.isnan(c2[0, tt]):
                    continue
                ys, xs = np.nonzero(p[tt] == k)
                _, ok = mean_index(list(map(int, xs)), [1] * len(xs), X, True)
                if not ok:
                    continue
                d = (c2[1, tt] - c[1, tt] - shift * dlon + 180) % 360 - 180
                if abs(d) > 1e-2 or abs(c2[0, tt] - c[0, tt]) > 1e-3:
                    r["viol"].append({"what": f"rotation by {shift} columns ({shift * dlon} deg) moved the centroid from {c[:, tt]} to {c2[:, tt]}",
                                      "case": {"hist": enc(h), "cfg": cfg, "shift": shift}}); break
    r["samples"] = [{"hist": enc(hs[0]), "shift": shift}]
    return r


def t05_fill(Y, X, R, shifts):
    """Spatial fill commutes with rotation: every single-slice pattern of a Y x X ring."""
    r = C.result()
    n = Y * X
    pats = [hist_from_bits(c, 1, Y, X)[0] for c in range(1, 1 << n)]
    big = np.zeros((2 * len(pats) + 3, Y, X), bool)
    big[0] = True
    for i, p in enumerate(pats):
        big[3 + 2 * i] = p
    kw = dict(R_fill=R, allow_merging=False)
    a = track(big, 50, **kw)[0].ID_field.values > 0
    for s in shifts:
        c = np.roll(track(np.roll(big, s, axis=2), 50, **kw)[0].ID_field.values > 0, -s, axis=2)
        bad = np.argwhere((a[1:] != c[1:]).any((1, 2)))
        r["evals"] += len(pats)
        r["distinct"] |= {(Y, X, R, s, i) for i in range(len(pats))}
        for k in bad[:2]:
            t = int(k[0]) + 1
            r["viol"].append({"what": f"R_fill={R}: filling then rotating by {s} differs: {enc([a[t]])} vs {enc([c[t]])}",
                              "case": {"slice": enc([big[t]]), "R": R, "shift": s}})
    return r


def t05_regional(task, cfg):
    """Regional mode never connects across the edge: equals a global run with empty columns added."""
    r = C.result()
    hs = hists_of(task)
    X = hs[0].shape[2]
    b = Batch(hs, 64)
    dl = 2.0
    lon = 10 + dl * np.arange(X)
    G = 4 * X + 3
    lonp = 10 + dl * np.arange(G)
    pad = np.concatenate([b.big, np.zeros(b.big.shape[:2] + (G - X,), bool)], axis=2)
    try:
        ev, mg = track(b.big, 5, regional=True, lon=lon, **cfg)
        ev2, mg2 = track(pad, 5, lon=lonp, **cfg)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": {"task": task, "cfg": cfg}}); return r
    ca, cb = canon(ev, mg), canon(ev2, mg2)
    r["evals"] += len(hs)
    r["distinct"] |= {C.h((h.tobytes(), "reg", str(cfg))) for h in hs}
    d = canon_diff(ca, cb)
    if d:
        # name single histories
        for h in hs:
            bb = Batch([h], 1)
            e1, m1 = track(bb.big, 5, regional=True, lon=lon, **cfg)
            e2, m2 = track(np.concatenate([bb.big, np.zeros(bb.big.shape[:2] + (G - X,), bool)], axis=2), 5, lon=lonp, **cfg)
            dd = canon_diff(canon(e1, m1), canon(e2, m2))
            if dd:
                r["viol"].append({"what": f"regional vs padded global: {dd}", "case": {"hist": enc(h), "cfg": cfg}}); break
        else:
            r["viol"].append({"what": f"regional vs padded global: {d}", "case": {"task": task, "cfg": cfg}})
    return r


def t05(tier):
    th = tier == "thorough"
    tasks = []
    for s, per in ([("bits:3x1x5", 800), ("bits:2x2x3", 800), ("menu12:3x9", 150)] if th else [("bits:3x1x4", 600), ("menu12:3x5", 120)]):
        X = 12 if s.startswith("menu12") else int(s.split(":")[1].split("x")[2])
        shifts = range(1, X) if (th or X < 12) else (1, 2, 3, 5, 6, 10)
        for sh in shifts:
            for cfg in (dict(nn_partitioning=bool(sh % 2)),) if not th else (dict(nn_partitioning=True), dict(nn_partitioning=False)):
                tasks += [(t, cfg, sh) for t in chunked(s, per)]
            if sh in (1, 3):
                tasks += [(t, dict(allow_merging=False), sh) for t in chunked(s, per)]
    tot = C.run_tasks(t05_task, tasks)
    C.merge(tot, C.run_tasks(t05_fill, [(Y, X, R, (s,)) for Y, X, R in ([(2, 5, 1), (1, 9, 2), (2, 5, 2)] if not th else [(2, 5, 1), (1, 9, 2), (2, 5, 2), (2, 6, 1), (3, 4, 1), (1, 11, 3)])
                                        for s in range(1, X, 2 if not th else 1)]))
    reg = []
    for s, per in (("bits:3x1x4", 600), ("menu12:3x6", 150)):
        for cfg in (dict(nn_partitioning=True), dict(nn_partitioning=False), dict(allow_merging=False)):
            reg += [(t, cfg) for t in chunked(s, per)]
    C.merge(tot, C.run_tasks(t05_regional, reg))
    from . import combo
    C.merge(tot, C.run_tasks(combo.rot_task, [(s,) for s in combo.specs_rot(th)]))
    return {"level": "exploration", "total": tot,
            "rule": "every history of the bounded spaces x every longitude rotation: events, areas, centroids rotate with the data (distance ties excepted); "
                    "regional runs equal global runs padded with empty columns; a case is one (history, rotation)"}


# ---------------------------------------------------------------- T06 event properties
def check_props(r, ev, weights, lat, lon, wrap, case, t_from=1):
    f = ev.ID_field.values
    T, Y, X = f.shape
    times = ev[ev.ID_field.dims[0]].values
    area, cen = ev.area.transpose(ev.ID_field.dims[0], "ID").values, ev.centroid.transpose("component", ev.ID_field.dims[0], "ID").values
    pres = ev.presence.transpose(ev.ID_field.dims[0], "ID").values
    gid = ev.global_ID.transpose(ev.ID_field.dims[0], "ID").values
    ts, te = ev.time_start.values, ev.time_end.values
    dlon = lon[1] - lon[0] if X > 1 else 0
    where = {}
    for t, y, x in zip(*np.nonzero(f)):
        where.setdefault(int(f[t, y, x]), {}).setdefault(int(t), []).append((int(y), int(x)))
    for j, k in enumerate(ev.ID.values):
        per = where.get(int(k), {})
        tl = sorted(per)
        bad = None
        if not tl:
            r["viol"].append({"what": f"event {k} has no cells", "case": case()}); continue
        want = np.zeros(T, bool); want[tl] = True
        if not np.array_equal(pres[:, j].astype(bool), want):
            bad = f"presence {pres[:, j]} want {want}"
        elif ts[j] != times[tl[0]] or te[j] != times[tl[-1]]:
            bad = f"time_start/time_end {ts[j]} {te[j]} want {times[tl[0]]} {times[tl[-1]]}"
        elif not np.array_equal(gid[:, j] > 0, want):
            bad = "global_ID is not positive exactly when the event is present"
        elif not np.isnan(area[~want, j]).all() or not np.isnan(cen[:, ~want, j]).all():
            bad = "area/centroid not missing while the event is absent"
        else:
            for t in tl:
                ys = [c[0] for c in per[t]]; xs = [c[1] for c in per[t]]
                ws = [float(weights[c]) for c in per[t]]
                A = sum(ws)
                if not np.isclose(area[t, j], A, rtol=2e-5, atol=1e-5):
                    bad = f"area {area[t, j]} at step {t}, cells sum to {A}"; break
                la = sum(w * lat[y] for w, y in zip(ws, ys)) / A
                mx, ok = mean_index(xs, ws, X, wrap)
                lo = lon[0] + mx * dlon
                if abs(cen[0, t, j] - la) > 2e-3 + 1e-5 * abs(la):
                    bad = f"centroid latitude {cen[0, t, j]} want {la} at step {t}"; break
                if ok:
                    d = (cen[1, t, j] - lo + 180) % 360 - 180 if wrap else cen[1, t, j] - lo
                    if abs(d) > 5e-3:
                        bad = f"centroid longitude {cen[1, t, j]} want {lo} at step {t} (columns {xs})"; break
                lo_ok = (-1e-3 <= cen[1, t, j] <= 360.001) if lon.min() >= 0 else (-180.001 <= cen[1, t, j] <= 180.001 + (abs(dlon) if wrap else 0))
                if not lo_ok:
                    bad = f"centroid longitude {cen[1, t, j]} outside the input's longitude convention"; break
        r["evals"] += 1
        r["distinct"].add(C.h((X, tuple(sorted((t, tuple(per[t])) for t in per)))) if len(r["distinct"]) < 200000 else 0)
        if bad:
            c = case()
            r["viol"].append({"what": f"event {k}: {bad}", "case": c})
            return


def t06_task(task, cfg):
    import xarray as xr
    r = C.result()
    hs = hists_of(task)
    kw = {k: v for k, v in cfg.items() if k not in ("grid", "areas")}
    wrap = not cfg.get("regional", False)

    def go(hh):
        b = Batch(hh, 32)
        T, Y, X = b.big.shape
        lat = np.linspace(-60, 60, Y) if Y > 1 else np.array([12.5])
        if cfg["grid"].endswith("desc"):
            lat = lat[::-1]
        lon = {"0": np.arange(X) * 360.0 / X, "h": np.arange(X) * 360.0 / X + 180.0 / X, "-": -180 + np.arange(X) * 360.0 / X,
               "r": 20 + 1.5 * np.arange(X), "d": (X - 1 - np.arange(X)) * 360.0 / X, "n": 180 - np.arange(X) * 360.0 / X}[cfg["grid"][0]]
        if "f4" in cfg["grid"]:
            lat, lon = lat.astype("f4"), lon.astype("f4")
        w = np.ones((Y, X))
        extra = {}
        if cfg["areas"] == "cell":
            w = (1 + (np.arange(Y)[:, None] * 7 + np.arange(X)[None, :] * 3) % 11).astype("f4")
            ca = xr.DataArray(w, dims=("lat", "lon"), coords=dict(lat=lat, lon=lon))
            extra["cell_areas"] = ca if not cfg.get("tr") else ca.transpose("lon", "lat")
        elif cfg["areas"] == "res":
            res = 360.0 / X if X > 12 else 2.5
            extra["grid_resolution"] = res
            lr = np.radians(lat.astype("f8")); d = np.radians(res)
            w = np.repeat((6378.0 ** 2 * np.abs(np.sin(lr + d / 2) - np.sin(lr - d / 2)) * d)[:, None], X, axis=1)
        k2 = {k: v for k, v in kw.items() if k != "tr"}
        ev, mg = track(b.big, 6, lat=lat, lon=lon, **k2, **extra)
        return ev, w, lat.astype("f8"), lon.astype("f8")
    try:
        out = go(hs)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": {"task": task, "cfg": cfg}}); return r

    def case():
        for h in hs[:400]:
            q = C.result()
            try:
                check_props(q, *go([h]), wrap, lambda: {}, 1)
            except C.RealCodeError:
                continue
            if q["viol"]:
                return {"hist": enc(h), "cfg": cfg, "what": q["viol"][0]["what"]}
        return {"task": task, "cfg": cfg}
    check_props(r, *out, wrap, case)
    r["samples"] = [{"hist": enc(hs[-1]), "cfg": cfg}]
    return r


# arcs on rings of many widths: every (start, length) arc, plus two-arc objects
def arc_hists(X):
    out = []
    for n in sorted({1, 2, 3, X // 3, X // 2}):
        for s in range(0, X, max(1, X // 24)):
            a = np.zeros((1, 2, X), bool)
            a[0, 0, [(s + i) % X for i in range(n)]] = True
            a[0, 1, s] = True
            out.append(a)
    return out


def t06_arcs(X, cfg):
    r = C.result()
    if X == "giant":
        try:
            a, ev, mg = giant_run(cfg["neg"])
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": {"giant": True}}); return r
        check_props(r, ev, np.ones(a.shape[1:]), ev.lat.values, ev.lon.values, True, lambda: {"giant": True, "nn": cfg["neg"]})
        return r
    hs = arc_hists(X)
    _cache["arcs%d" % X] = None
    b = Batch(hs, 16)
    Y = b.big.shape[1]
    lat = np.linspace(-60, 60, Y)
    lon = np.arange(X) * 360.0 / X - (180 if cfg.get("neg") else 0)
    try:
        ev, mg = track(b.big, 5, lat=lat, lon=lon)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": {"X": X}}); return r
    check_props(r, ev, np.ones((Y, X)), lat, lon, True, lambda: {"arcs": X, "cfg": cfg})
    return r


def t06(tier):
    th = tier == "thorough"
    tasks = []
    sp = [("bits:3x1x5", 900), ("menu12:3x7", 150), ("bits:2x2x3", 900)] if not th else [("bits:3x1x6", 900), ("menu12:4x8", 150), ("menu2x8:4x8", 150), ("bits:2x2x4", 900)]
    cfgs = [dict(grid="0", areas="unit"), dict(grid="-f4desc", areas="cell", nn_partitioning=True), dict(grid="hf4", areas="res"),
            dict(grid="-", areas="res", nn_partitioning=True), dict(grid="r", areas="cell", regional=True),
            dict(grid="d", areas="cell"), dict(grid="n", areas="unit")]
    for k, (s, per) in enumerate(sp):
        for n, c in enumerate(cfgs):
            if not th and k == 2 and n not in (1, 4):
                continue
            tasks += [(t, c) for t in chunked(s, per)]
    tot = C.run_tasks(t06_task, tasks)
    C.merge(tot, C.run_tasks(t06_arcs, [(X, dict(neg=neg)) for X in (("giant", 4, 7, 36, 101, 150) if not th else ("giant", 3, 4, 5, 7, 12, 36, 72, 99, 100, 101, 150, 201, 360)) for neg in (False, True)]))
    from . import unstruct
    C.merge(tot, C.run_tasks(unstruct.mesh_task, unstruct.mesh_tasks(("props",), th)))
    return {"level": "exploration", "total": tot,
            "rule": "area, centroid, presence, first/last time and missing values of every event of every history recomputed from the ID field alone, for unit/"
                    "given/derived cell areas and several coordinate conventions, on grids and meshes; a case is one event"}


# ---------------------------------------------------------------- T07 merge records and ledger
def other_division(hs, cfg, b, f, t, got):
    """Is there a resolution of distance ties, with the same events, that gives these records at step t?"""
    from collections import Counter
    opts = []
    for i, h in enumerate(hs):
        t0 = b.pos[i][0]
        if not t0 <= t < t0 + h.shape[0]:
            continue
        args = (cells_of(h), h.shape[2], not cfg.get("regional", False), cfg.get("overlap_threshold", 0.5), cfg.get("nn_partitioning", False))
        ev = split_events(b.patch(f, i))
        stack, alts, tried = [()], set(), 0
        while stack and tried < 400:
            pre = stack.pop(); tried += 1
            seen = []

            def tie(k, pre=pre, seen=seen):
                n = len(seen); c = pre[n] if n < len(pre) else 0
                seen.append(len(k)); return k[min(c, len(k) - 1)]
            m = Model(*args, tie=tie)
            if m.events == ev:
                alts.add(tuple(sorted(tuple(sorted(s)) for (tt, _, _, _, s) in m.merges if tt == t - t0)))
            for n in range(len(pre), len(seen)):
                stack += [tuple(list(pre) + [0] * (n - len(pre)) + [c]) for c in range(1, seen[n])]
        if not alts or stack:
            return True                     # not resolved within the cap
        opts.append(sorted(alts))
    goal = Counter(got)
    cur = [Counter()]
    for o in opts:
        nxt = {}
        for c in cur:
            for a in o:
                d = c + Counter(a)
                if not d - goal:
                    nxt[tuple(sorted(d.items()))] = d
        cur = list(nxt.values())
        if len(cur) > 5000:
            return True
    return goal in cur


def _t07(hs, cfg, b, ev, mg):
    r = C.result()
    f = ev.ID_field.values
    times = [str(t) for t in ev.time.values]
    tix = {t: i for i, t in enumerate(times)}
    case = {"hists": [enc(h) for h in hs][:100], "cfg": cfg}
    foot_id = {}
    want, skip_t, skip_n = {}, set(), 0
    want_led = {}
    # per model merge: absolute time, parents' (t-1) footprints, overlap sizes, events of the parents
    for i, h in enumerate(hs):
        got = split_events(b.patch(f, i))
        v, m = models_agree(h, cfg, got)
        r["traces"] += 1; r["evals"] += 1
        add_states(r, m)
        t0, y0 = b.pos[i]
        if v != "ok":
            r["inconclusive"] += 1
            skip_t |= {t0 + t for t in range(h.shape[0])}
            continue
        if m.merges:
            r["distinct"].add(C.h((h.tobytes(), str(cfg))))
        ev_id = {}
        for key, cells in m.event_cells.items():
            t, y, x = min(cells)
            ev_id[key] = int(f[t0 + t, y0 + y, x])
        for (t, pf, pids, cids, sizes) in m.merges:
            evs = [ev_id[m.event_of[(t - 1, p)]] for p in pids]
            want.setdefault(t0 + t, []).append((tuple(sorted(sizes)), tuple(sorted(evs)), i))
    n = mg.sizes["merge_ID"]
    fill = -1
    got = {}
    gid = ev.global_ID.transpose("time", "ID").values
    ids = ev.ID.values
    for q in range(n):
        t = tix.get(str(mg.merge_time.values[q]))
        npar, nch = int(mg.n_parents.values[q]), int(mg.n_children.values[q])
        pa, ch, oa = mg.parent_IDs.values[q], mg.child_IDs.values[q], mg.overlap_areas.values[q]
        bad = None
        if t is None or t == 0:
            bad = f"merge_time {mg.merge_time.values[q]} is not a time step with a predecessor"
        elif npar < 2 or nch != npar:
            bad = f"n_parents={npar} n_children={nch}"
        elif not ((pa[:npar] > 0).all() and (pa[npar:] == fill).all() and (ch[:nch] > 0).all() and (ch[nch:] == fill).all()
                  and (oa[:npar] > 0).all() and (oa[npar:] == fill).all()):
            bad = f"padding of merge record: parents {pa} children {ch} areas {oa}"
        elif len(set(pa[:npar])) != npar or len(set(ch[:nch])) != nch:
            bad = f"repeated parent or child: {pa} {ch}"
        if bad:
            r["viol"].append({"what": bad, "case": case}); continue
        # resolve parents to events through global_ID of the previous step, where it names the object
        evs = []
        for p in pa[:npar]:
            j = np.nonzero(gid[t - 1] == p)[0]
            evs.append(int(ids[j[0]]) if len(j) == 1 else None)
        got.setdefault(t, []).append((tuple(sorted(int(a) for a in oa[:npar])), evs))
    for t in sorted(set(got) | set(want)):
        if t in skip_t:
            continue
        g, w = got.get(t, []), want.get(t, [])
        hist = hs[w[0][2]] if w else None
        cc = {"hist": enc(hist), "cfg": cfg} if hist is not None else case
        if sorted(a for a, _ in g) != sorted(a for a, _, _ in w):
            if other_division(hs, cfg, b, f, t, [a for a, _ in g]):
                r["inconclusive"] += 1; continue
            r["viol"].append({"what": f"merge records at step {t}: overlaps {sorted(a for a, _ in g)} want {sorted(a for a, _, _ in w)}", "case": cc}); continue
        # each fully resolved record must be one of the model's parent-event sets
        pool = [(a, e) for a, e, _ in w]
        for a, evs in g:
            if None in evs:
                ok = any(a == wa and set(x for x in evs if x) <= set(we) for wa, we in pool)
            else:
                ok = (a, tuple(sorted(evs))) in pool
            if not ok:
                r["viol"].append({"what": f"merge record at step {t} names parent events {evs} (overlaps {a}); expected one of {pool}", "case": cc}); break
    led = ev.merge_ledger.transpose("time", "ID", "sibling_ID").values
    for t in range(led.shape[0]):
        if t in skip_t:
            continue
        w = want.get(t, [])
        for j, k in enumerate(ids):
            row = led[t, j]
            sib = tuple(sorted(int(x) for x in row if x > 0))
            if not (((row > 0) | (row == -1)).all()):
                r["viol"].append({"what": f"merge_ledger row {row} has entries that are neither an event ID nor -1", "case": case}); continue
            cand = [tuple(sorted(set(e))) for a, e, _ in w if int(k) in e]
            if (not cand and sib) or (cand and tuple(sorted(set(sib))) not in cand):
                r["viol"].append({"what": f"merge_ledger of event {k} at step {t} lists {sib}, merges there involve {cand}", "case": {"hist": enc(hs[w[0][2]]), "cfg": cfg} if w else case})
    nw = sum(len(v) for v in got.values())
    if int(ev.attrs["total_merges"]) != n:
        r["viol"].append({"what": f"total_merges={ev.attrs['total_merges']} but {n} records", "case": case})
    mp_ = int((mg.n_parents.values > 2).sum())
    if int(ev.attrs["multi_parent_merges"]) != mp_:
        r["viol"].append({"what": f"multi_parent_merges={ev.attrs['multi_parent_merges']} but {mp_} records have more than two parents", "case": case})
    r["notes"]["merge_records"] = n
    r["notes"]["records_with_3plus_parents"] = mp_
    r["samples"] = [{"hist": enc(hs[-1]), "cfg": cfg}]
    return r


t07_task = guarded(_t07)


def t07_gather(_, Y, X, nn):
    """One object that gathers n isolated cells, for every n from 2 to the number the grid holds (in one run each,
    n = 2, 3, 5, 9, ... and the largest): one record of n distinct parents, n children and n single-cell overlaps."""
    r = C.result()
    full = [(y, x) for y in range(1, Y - 1, 2) for x in range(1, X - 1, 2)]
    ns = sorted({k for k in (2, 3, 9, 33, 127, 128, 129, len(full)) if k <= len(full)})
    a = np.zeros((2 + 3 * len(ns), Y, X), bool)
    a[0, 0, 0] = True
    for k, n in enumerate(ns):
        for y, x in full[:n]:
            a[2 + 3 * k, y, x] = True
        a[3 + 3 * k, 1:] = True
    ev, mg = track(a, 4, nn_partitioning=nn)
    f = ev.ID_field.values
    case = dict(grid=(Y, X), numbers_of_parents=ns, nn_partitioning=nn)
    r["evals"] = r["traces"] = len(ns); r["transitions"] = len(a)
    for k, n in enumerate(ns):
        r["distinct"].add(C.h((case, n)))
        tm = ev.time.values[3 + 3 * k]
        rows = np.nonzero(mg.merge_time.values == tm)[0]
        want = sorted(int(f[2 + 3 * k, y, x]) for y, x in full[:n])
        bad = None
        if len(rows) != 1:
            bad = f"{len(rows)} merge records for one division between {n} objects"
        else:
            m = mg.isel(merge_ID=rows[0])
            par = m.parent_IDs.values[m.parent_IDs.values > 0]; chi = m.child_IDs.values[m.child_IDs.values > 0]
            ov = m.overlap_areas.values[m.overlap_areas.values > 0]
            led = ev.merge_ledger.values[3 + 3 * k]
            if int(m.n_parents) != n or int(m.n_children) != n or len(set(par.tolist())) != n or len(set(chi.tolist())) != n:
                bad = f"record of a division between {n} objects: n_parents={int(m.n_parents)} n_children={int(m.n_children)}, {len(set(par.tolist()))} distinct parents, {len(set(chi.tolist()))} distinct children"
            elif ov.tolist() != [1] * n:
                bad = f"overlap areas {sorted(set(ov.tolist()))} x {len(ov)}, expected {n} x 1"
            elif len(set(want)) != n or sorted(set(f[3 + 3 * k][f[3 + 3 * k] > 0].tolist())) != want:
                bad = f"the merged object is divided between {len(set(f[3 + 3 * k].ravel().tolist()) - {0})} events, expected the {n} parents"
            else:
                for i in want:
                    if sorted(int(v) for v in led[i - 1] if v > 0) != want:
                        bad = f"ledger of event {i} at a division between {n} lists {sorted(int(v) for v in led[i - 1] if v > 0)[:12]}..."
                        break
        if bad:
            r["viol"].append({"what": bad, "case": case})
    tot = mg.sizes["merge_ID"]
    if int(ev.attrs["total_merges"]) != tot or tot != len(ns):
        r["viol"].append({"what": f"total_merges {ev.attrs['total_merges']}, {tot} records, {len(ns)} divisions", "case": case})
    if int(ev.attrs["multi_parent_merges"]) != len(ns) - 1:
        r["viol"].append({"what": f"multi_parent_merges {ev.attrs['multi_parent_merges']}, expected {len(ns) - 1}", "case": case})
    return r


def t07_any(*a):
    if a[0] == "giant":
        return t02_giant(*a)
    return t07_gather(*a) if a[0] == "gather" else t07_task(*a)


def t07(tier):
    th = tier == "thorough"
    tasks = [("gather", 24, 40, nn) for nn in (True, False)] + [("giant", nn) for nn in (True, False)]
    sp = [("menu12:3x9", 150), ("bits:2x1x8", 700), ("menu2x8:3x8", 100)] if not th else [("menu12:4x9", 150), ("bits:3x1x6", 900), ("menu2x8:4x8", 100), ("bits:2x2x4", 900)]
    for s, per in sp:
        for nn in (True, False):
            tasks += [(t, dict(nn_partitioning=nn, tchunk=5)) for t in chunked(s, per)]
    tasks += [(t, dict(nn_partitioning=True, tchunk=1, overlap_threshold=0.25)) for t in chunked("menu12:3x9", 150)]
    tasks += [(t, dict(nn_partitioning=False, tchunk=4, areas=50.0)) for t in chunked("menu12:3x7", 150)]
    tasks += [(t, dict(nn_partitioning=False, tchunk=6, regional=True)) for t in chunked("menu12:3x7", 150)]
    tot = C.run_tasks(t07_any, tasks)
    from . import unstruct
    C.merge(tot, C.run_tasks(unstruct.mesh_task, unstruct.mesh_tasks(("records",), th)))
    return {"level": "model_checking", "total": tot,
            "rule": "objects gathering 2 to 209 predecessors, objects of 38000 cells merging, and every history of the bounded spaces: merge records (time, number of parents/children, overlaps, parent events) and the merge ledger equal "
                    "the reference model's; non-trivial = history with at least one merge"}


# ---------------------------------------------------------------- T11 no merging
def _t11(hs, cfg, b, ev, mg):
    r = C.result()
    f = ev.ID_field.values
    owner, clash = patch_ids(b, ev)
    ids = sorted(int(k) for k in np.unique(f[1:]) if k > 0)
    case = {"hists": [enc(h) for h in hs][:50], "cfg": cfg}
    allids = sorted(int(k) for k in np.unique(f) if k > 0)
    if allids != list(range(1, len(allids) + 1)) or int(ev.attrs["N_events_final"]) != len(allids):
        r["viol"].append({"what": f"IDs {allids[:10]}..({len(allids)}) vs N_events_final={ev.attrs['N_events_final']}", "case": case})
    if clash:
        r["viol"].append({"what": f"event ID {clash[0]} shared by unconnected histories", "case": {"hists": [enc(hs[clash[1]]), enc(hs[clash[2]])], "cfg": cfg}})
    for i, h in enumerate(hs):
        r["evals"] += 1
        got = split_events(b.patch(f, i))
        want = events_3d(cells_of(h), h.shape[2], not cfg.get("regional", False))
        if len(want) > 1 or h.shape[0] > 1:
            r["distinct"].add(C.h((h.tobytes(), str(cfg))))
        if got != want:
            r["viol"].append({"what": f"events {sorted(map(sorted, got))} want space-time components {sorted(map(sorted, want))}", "case": {"hist": enc(h), "cfg": cfg}})
    r["samples"] = [enc(hs[-1])]
    return r


t11_task = guarded(_t11)


def t11(tier):
    th = tier == "thorough"
    tasks = []
    sp = [("bits:3x1x6", 4000), ("bits:2x2x4", 3000), ("bits:4x1x4", 4000), ("menu2x8:3x8", 400)] if not th else \
         [("bits:3x1x6", 4000), ("bits:3x2x3", 4000), ("bits:2x2x4", 3000), ("bits:4x1x5", 5000), ("menu12:5x9", 4000), ("menu2x8:5x8", 4000), ("bits:2x3x3", 4000)]
    for s, per in sp:
        for k, reg in enumerate((False, True)):
            tasks += [(t, dict(allow_merging=False, regional=reg, tchunk=(4, 7)[k])) for t in chunked(s, per)]
    tot = C.run_tasks(t11_task, tasks)
    return {"level": "exploration", "total": tot,
            "rule": "every history of the bounded spaces: with merging disabled the events are exactly the 26-connected space-time components (longitude periodic unless regional)"}


def replay(pid, case):
    if "hist" in case:
        h = dec(case["hist"]); cfg = case["cfg"]
        try:
            b, ev, mg = run_batch([h], cfg)
        except C.RealCodeError as e:
            return str(e)
        return {"T01": _t01, "T02": _t02, "T07": _t07, "T11": _t11}.get(pid, _t02)([h], cfg, b, ev, mg)["viol"]
    return "see case"
