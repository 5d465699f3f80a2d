"""T12, T13: unstructured tracking on enumerated histories of small meshes, against the reference model."""
import itertools, math
import numpy as np
from .. import common as C
from ..drive_unstruct import UBatch, utrack, ladder, path, coords, MESH
from ..model_unstruct import UModel, comps, gc

P10 = ["0000000000", "1111000000", "0000011110", "1111011110", "1111111110", "1100110011", "1110000111", "1111111111", "0111101111"]
L6 = ["000000/000000", "110000/110000", "000110/000110", "110110/110110", "111111/111111", "111111/000000", "100100/111111", "101010/000000"]
# pieces that reach an object of the next step only once their own object has been divided
Q12 = ["110110110000", "111110110000", "000111110000", "110111110000", "111110000000"]
MENU = {"q12": ("path", 12, True, [np.array([c == "1" for c in s]) for s in Q12]), "p10": ("path", 10, True, [np.array([c == "1" for c in s]) for s in P10]),
        "l6": ("ladder", 6, True, [np.array([c == "1" for c in s.replace("/", "")]) for s in L6]),
        "c9": ("path", 9, False, [np.array([c == "1" for c in s]) for s in
               ("000000000", "110000011", "111000000", "111101111", "111111111", "010101010", "000111000")])}


def space(name):
    kind, rest = name.split(":")
    if kind == "bits":                                  # all histories of T slices of an n-ring, up to rotation
        T, n = map(int, rest.split("x"))
        out, seen = [], set()
        for t in itertools.product(range(1 << n), repeat=T):
            if not t[0] or not t[-1]:
                continue
            rots = min(tuple(((v << k) | (v >> (n - k))) & ((1 << n) - 1) for v in t) for k in range(n))
            if rots == t:
                out.append(np.array([[(v >> k) & 1 for k in range(n)] for v in t], bool))
        return ("path", n, True), out
    if kind in ("pairs", "triples"):                    # separated pieces, then one object covering the whole patch (or most of it)
        mk, n, ring = rest.split(",")
        n, ring = int(n), ring == "ring"
        nb = MESH[mk](n, ring)
        adj = [set(x for x in row if x >= 0) for row in nb]
        pieces = [frozenset([c]) for c in range(2 * n)] + ([frozenset([c, d]) for c in range(2 * n) for d in adj[c] if d > c] if kind == "pairs" else [])
        near = lambda a, b: bool(a & b) or any(adj[c] & b for c in a)
        out = []
        for ps in itertools.combinations(pieces, 2 if kind == "pairs" else 3):
            if any(near(a, b) for a, b in itertools.combinations(ps, 2)):
                continue
            if ring and mk == "ladder" and min(min(p) for p in ps) != 0:      # up to rotation
                continue
            used = frozenset().union(*ps)
            h = np.zeros((2, 2 * n), bool)
            h[0, sorted(used)] = True
            h[1] = True
            out.append(h)
            if kind == "pairs" and len(used) == 2:
                h = h.copy()
                h[1, (max(used) + 3) % (2 * n)] = (max(used) + 3) % (2 * n) in used
                out.append(h)
        return (mk, n, ring), out
    L, idx = rest.split("x")
    k, n, ring, pats = MENU[kind]
    idx = [int(c) for c in idx]
    return (k, n, ring), [np.stack([pats[i] for i in t]) for t in itertools.product(idx, repeat=int(L)) if pats[t[0]].any() and pats[t[-1]].any()]


_cache = {}


def hists(name):
    if name not in _cache:
        _cache[name] = space(name)
    return _cache[name]


def ev_sets(f):
    d = {}
    for t, c in zip(*np.nonzero(f)):
        d.setdefault(int(f[t, c]), set()).add((int(t), int(c)))
    return frozenset(map(frozenset, d.values()))


def areas_of(kind, n):
    if kind == "unit":
        return np.ones(n)
    return np.array([1.0, 2.0, 1.0, 3.0, 1.0, 2.0, 2.0, 1.0])[np.arange(n) % 8]


def enc(h):
    return ["".join("1" if c else "0" for c in s) for s in h]


def model(h, mesh, row, cfg, tie=None):
    kind, n, ring = mesh
    nb = np.array(MESH[kind](n, ring)).T
    la, lo = coords(kind, n, row)
    return UModel([list(map(int, np.nonzero(s)[0])) for s in h], nb, la, lo, areas_of(cfg["areas"], nb.shape[1]), cfg["thr"], cfg["nn"], tie)


def agree(h, mesh, row, cfg, got, cap=3000):
    m = model(h, mesh, row, cfg)
    if m.events == got:
        return "ok", m
    if not m.ties:
        return "bad", m
    stack, tried = [()], 0
    while stack and tried < cap:
        pre = stack.pop(); tried += 1
        seen = []

        def tie(k, pre=pre, seen=seen):
            i = len(seen); c = pre[i] if i < len(pre) else 0
            seen.append(len(k)); return k[min(c, len(k) - 1)]
        mm = model(h, mesh, row, cfg, tie)
        if mm.events == got:
            return "ok", mm
        for i in range(len(pre), len(seen)):
            for c in range(1, seen[i]):
                stack.append(tuple(list(pre) + [0] * (i - len(pre)) + [c]))
    return ("bad" if not stack else "inconclusive"), m


def batch(hs, mesh, cfg, rows):
    b = UBatch(hs, *mesh, rows)
    N = b.big.shape[1]
    if cfg.get("lon360"):
        b.lon = b.lon % 360
    ar = np.concatenate([np.tile(areas_of(cfg["areas"], b.nc), b.rows), np.ones(N - b.nc * b.rows)])
    ch = cfg["chunk"]
    if ch == "irr":                       # uneven chunks, the last one longer than the first
        pat, ch = [4, 1, 3, 2], []
        while sum(ch) + 12 < len(b.big):
            ch.append(pat[len(ch) % 4])
        ch = tuple(ch + [len(b.big) - sum(ch)])
    ev, mg = utrack(b.big, b.nb, b.lat, b.lon, ch, areas=ar, nn_partitioning=cfg["nn"], overlap_threshold=cfg["thr"])
    return b, ar, ev, mg


def t12_task(name, lo, hi, cfg):
    r = C.result()
    mesh, allh = hists(name)
    hs = allh[lo:hi]
    try:
        b, ar, ev, mg = batch(hs, mesh, cfg, cfg.get("rows", 6))
    except C.RealCodeError as e:
        r["viol"].append({"k": "run", "what": str(e), "case": {"hists": [enc(h) for h in hs], "mesh": mesh, "cfg": cfg}})
        r["evals"] = r["traces"] = len(hs)
        return r
    f = ev.ID_field.transpose("time", "ncells").values
    allcase = {"hists": [enc(h) for h in hs][:100], "mesh": mesh, "cfg": cfg}
    if ((f > 0) != b.big).any() or (f < 0).any():
        t, c = map(int, np.argwhere((f > 0) != b.big)[0])
        i = next((i for i, (t0, c0) in enumerate(b.pos) if t0 <= t < t0 + hs[i].shape[0] and c0 <= c < c0 + b.nc), None)
        r["viol"].append({"k": "foot", "what": f"labelled cells differ from the extreme cells at step {t} cell {c}",
                          "case": allcase if i is None else {"hist": enc(hs[i]), "mesh": mesh, "cfg": cfg}})
    ids = sorted(int(k) for k in np.unique(f) if k > 0)
    if ids != list(range(1, len(ids) + 1)) or [int(k) for k in ev.ID.values] != ids or int(ev.attrs["N_events_final"]) != len(ids):
        r["viol"].append({"k": "ident", "what": f"IDs {ids[:8]}.. ({len(ids)}), ID coordinate {ev.ID.values[:8]}.. ({ev.sizes['ID']}), N_events_final={ev.attrs['N_events_final']}", "case": allcase})
    owner = {}
    want = {}
    skip, tied = set(), set()
    for i, h in enumerate(hs):
        p = b.patch(f, i)
        case = {"hist": enc(h), "mesh": mesh, "cfg": cfg, "row": i % b.rows}
        for k in np.unique(p):
            if k > 0:
                if owner.setdefault(int(k), i) != i:
                    r["viol"].append({"k": "ident", "what": f"event ID {k} is shared by unconnected histories", "case": {"hists": [enc(hs[owner[int(k)]]), enc(h)], "mesh": mesh, "cfg": cfg}})
        v, m = agree(h, mesh, i % b.rows, cfg, ev_sets(p))
        r["traces"] += 1; r["evals"] += 1
        for t in range(len(m.S)):
            r["states"].add(C.h((t and sorted(map(sorted, m.S[t - 1].values())), sorted(map(sorted, m.S[t].values())))))
        r["transitions"] += len(m.S) - 1
        r["distinct"].add(C.h((name, lo + i, cfg["nn"])) if m.merges else 0)
        # KF2: a division in the last step of one chunk followed by objects in the first step of the next
        ch = cfg["chunk"]
        t0 = b.pos[i][0]
        seam = ch is not None and any((ch == "irr" or (t0 + t + 1) % ch == 0) and t + 1 < h.shape[0] and h[t + 1].any() for t, *_ in m.merges)
        if v == "bad" and seam:            # only the inputs listed in known_findings.json are excused
            r["known"].append({"id": "KF2", "input": C.h((enc(h), mesh, i % b.rows, sorted(cfg.items(), key=str), t0 if ch == "irr" else t0 % ch)),
                               "what": "events of a chained merge across a chunk boundary differ from the unchunked result", "case": case})
            v = "known"
        elif v == "bad":
            r["viol"].append({"k": "ident", "what": f"events {sorted(map(sorted, ev_sets(p)))} differ from the model's {sorted(map(sorted, m.events))}", "case": case})
        elif v == "inconclusive":
            r["inconclusive"] += 1
        if v != "ok" or seam:
            skip |= {t0 + t for t in range(h.shape[0])}
        elif m.ties:                       # several divisions give the same events: records not unique
            tied |= {t0 + t for t in range(h.shape[0])}
        if v == "ok" and not seam:
            ev_id = {key: int(p[min(cells)]) for key, cells in m.event_cells.items()}
            for t, par, cid, sizes in m.merges:
                want.setdefault(t0 + t, []).append((tuple(sorted(round(s, 3) for s in sizes)), i, tuple(sorted({ev_id[m.event_of[(t - 1, q)]] for q in par}))))
    tix = {str(t): k for k, t in enumerate(ev.time.values)}
    got = {}
    for q in range(mg.sizes["merge_ID"]):
        t = tix[str(mg.merge_time.values[q])]
        npar, nch = int(mg.n_parents.values[q]), int(mg.n_children.values[q])
        pa, ch, oa = mg.parent_IDs.values[q], mg.child_IDs.values[q], mg.overlap_areas.values[q]
        if npar < 2 or nch != npar or len(set(pa[:npar])) != npar or len(set(ch[:nch])) != nch or (pa[npar:] != -1).any() or (oa[npar:] != -1).any() or (ch[nch:] != -1).any():
            r["viol"].append({"k": "records", "what": f"malformed merge record parents {pa} children {ch} overlaps {oa}", "case": allcase})
        got.setdefault(t, []).append(tuple(sorted(round(float(a), 3) for a in oa[:npar])))
    if cfg.get("records", True):
        for t in sorted(set(got) | set(want)):
            if t in skip:
                continue
            if sorted(got.get(t, [])) != sorted(a for a, *_ in want.get(t, [])):
                w = want.get(t, [])
                if t in tied:
                    r["inconclusive"] += 1; continue
                r["viol"].append({"k": "records", "what": f"merge records at step {t}: overlaps {sorted(got.get(t, []))} want {sorted(a for a, *_ in w)}",
                                  "case": {"hist": enc(hs[w[0][1]]), "mesh": mesh, "cfg": cfg, "row": w[0][1] % b.rows} if w else allcase})
        ledger(r, ev, want, skip | tied, hs, mesh, cfg, b, allcase)
        if int(ev.attrs["total_merges"]) != mg.sizes["merge_ID"] or int(ev.attrs["multi_parent_merges"]) != int((mg.n_parents.values > 2).sum()):
            r["viol"].append({"k": "records", "what": f"total_merges={ev.attrs['total_merges']}, multi_parent_merges={ev.attrs['multi_parent_merges']} but records have "
                              f"{mg.n_parents.values.tolist()[:20]} parents", "case": allcase})
    props(r, ev, f, ar, b, allcase)
    r["notes"]["merge_records"] = int(mg.sizes["merge_ID"])
    r["samples"] = [{"hist": enc(hs[-1]), "cfg": cfg, "mesh": mesh}]
    return r


def ledger(r, ev, want, skip, hs, mesh, cfg, b, case):
    led = ev.merge_ledger.transpose("time", "ID", "sibling_ID").values
    ids = [int(k) for k in ev.ID.values]
    busy = {t for t in range(led.shape[0]) if (led[t] > 0).any()} | set(want)
    if not ((led > 0) | (led == -1)).all():
        r["viol"].append({"k": "records", "what": "merge_ledger holds entries that are neither an event ID nor -1", "case": case})
    for t in sorted(busy - skip):
        for j, k in enumerate(ids):
            sib = tuple(sorted({int(x) for x in led[t, j] if x > 0}))
            cand = [(e, i) for _, i, e in want.get(t, []) if k in e]
            if (not cand and sib) or (cand and sib not in [e for e, _ in cand]):
                i = cand[0][1] if cand else None
                r["viol"].append({"k": "records", "what": f"merge_ledger of event {k} at step {t} lists {sib}, mergers there involve {[e for e, _ in cand]}",
                                  "case": {"hist": enc(hs[i]), "mesh": mesh, "cfg": cfg, "row": i % b.rows} if cand else case})


def mesh_task(kinds, *a):
    """the part of T12 that speaks about one of the general properties (footprint, properties, records) on a mesh"""
    r = t12_task(*a)
    r["viol"] = [v for v in r["viol"] if v.get("k") in kinds + ("run",)]
    r["known"] = []
    return r


def mesh_tasks(kinds, th=False):
    tasks = []

    def add(name, per, **cfg):
        n = len(hists(name)[1])
        tasks.extend((kinds, name, i, min(n, i + per), cfg) for i in range(0, n, per))
    add("p10:3x1345678", 120, nn=False, areas="var", thr=0.5, chunk=3)
    add("l6:3x13467", 60, nn=True, areas="var", thr=0.25, chunk=5, lon360=True)
    add("q12:3x01234", 130, nn=True, areas="unit", thr=0.5, chunk=None)
    if th:
        add("p10:5x345", 90, nn=True, areas="var", thr=0.5, chunk=2)
        add("c9:4x1345", 90, nn=False, areas="var", thr=0.25, chunk=3)
        add("pairs:ladderp,5,open", 150, nn=False, areas="var", thr=0.5, chunk=6)
    return tasks


def props(r, ev, f, ar, b, case):
    per = {}
    for t, c in zip(*np.nonzero(f)):
        per.setdefault(int(f[t, c]), {}).setdefault(int(t), []).append(int(c))
    area = ev.area.transpose("time", "ID").values
    cen = ev.centroid.transpose("component", "time", "ID").values
    pres = ev.presence.transpose("time", "ID").values
    times = ev.time.values
    for j, k in enumerate(map(int, ev.ID.values)):
        if k not in per:
            continue
        ts = sorted(per[k])
        w = np.zeros(f.shape[0], bool); w[ts] = True
        bad = None
        if not np.array_equal(pres[:, j].astype(bool), w):
            bad = "presence does not match the cells carrying the ID"
        elif ev.time_start.values[j] != times[ts[0]] or ev.time_end.values[j] != times[ts[-1]]:
            bad = "start/end time does not match the cells carrying the ID"
        elif not np.isnan(area[~w, j]).all():
            bad = "area given while absent"
        else:
            for t in ts:
                cs = per[k][t]
                A = float(ar[cs].sum())
                if abs(area[t, j] - A) > 1e-4 * A:
                    bad = f"area {area[t, j]} at step {t}, cells {cs} sum to {A}"; break
                la, lo = np.radians(b.lat[cs]), np.radians(b.lon[cs])
                x, y, z = (np.sum(ar[cs] * q) for q in (np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)))
                nrm = math.sqrt(x * x + y * y + z * z)
                if nrm < 1e-3 * A:
                    continue
                wl, wo = math.degrees(math.asin(z / nrm)), math.degrees(math.atan2(y, x))
                d = (cen[1, t, j] - wo + 180) % 360 - 180
                if not (-1e-3 <= cen[1, t, j] < 360 if b.lon.min() >= 0 and b.lon.max() > 180 else -180 <= cen[1, t, j] <= 180):
                    bad = f"centroid longitude {cen[1, t, j]} at step {t} is not in the input's convention"; break
                if abs(cen[0, t, j] - wl) > 5e-3 or abs(d) > 5e-3:
                    bad = f"centroid {cen[:, t, j]} want {(wl, wo)} at step {t}"; break
        r["notes"]["event_properties_checked"] = r["notes"].get("event_properties_checked", 0) + 1
        if bad:
            i = next((i for i, (t0, c0) in enumerate(b.pos) if t0 <= ts[0] < t0 + b.h[i].shape[0] and c0 <= per[k][ts[0]][0] < c0 + b.nc), None)
            cc = dict(case)
            if i is not None:
                cc = {"hist": enc(b.h[i]), "mesh": case["mesh"], "cfg": case["cfg"], "row": i % b.rows}
            r["viol"].append({"k": "props", "what": f"event {k}: {bad}", "case": cc})


def t12_burst(_, T, n, m, chunk):
    """A long quiet history with one step of m separate objects and one merger elsewhere."""
    r = C.result()
    h = np.zeros((T, n), bool)
    h[T // 2, 0:2 * m:2] = True
    h[T - 10, 0:5] = h[T - 10, 6:11] = True
    h[T - 9, 0:11] = True
    b = UBatch([h], "path", n, True, 1)
    case = dict(steps=T, cells=n, objects_in_one_step=m, chunk=chunk)
    r["evals"] = r["traces"] = 1; r["transitions"] = T; r["distinct"].add(C.h(case))
    try:
        ev, mg = utrack(b.big, b.nb, b.lat, b.lon % 360, tchunk=chunk, nn_partitioning=True)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case})
        return r
    f = ev.ID_field.values
    bad = None
    if ((f > 0) != b.big).any():
        bad = "labelled cells differ from the objects"
    elif int(f.max()) != m + 3 or int(ev.attrs["N_events_final"]) != m + 3 or len(set(np.unique(f)) - {0}) != m + 3:
        bad = f"{int(f.max())} events, expected {m + 3} ({m} single-step objects, the two that merge, the object of the first step)"
    elif mg.sizes["merge_ID"] != 1 or mg.merge_time.values[0] != ev.time.values[b.pos[0][0] + T - 9] or int(mg.n_parents[0]) != 2:
        bad = f"{mg.sizes['merge_ID']} merge records, expected one at step {T - 9}"
    if bad:
        r["viol"].append({"what": bad, "case": case})
    return r


def t12_any(*a):
    return t12_burst(*a) if a[0] == "burst" else t12_task(*a)


def t12(tier):
    th = tier == "thorough"
    tasks = [("burst", 300, 330, 160, 50)] + ([("burst", 600, 820, 400, 100)] if th else [])

    def add(name, per, **cfg):
        n = len(hists(name)[1])
        tasks.extend((name, i, min(n, i + per), cfg) for i in range(0, n, per))
    if not th:
        add("p10:3x1345678", 120, nn=True, areas="unit", thr=0.5, chunk=4)
        add("p10:3x1345678", 120, nn=False, areas="unit", thr=0.5, chunk=3)
        add("p10:5x345", 90, nn=True, areas="unit", thr=0.5, chunk=1)
        add("p10:5x345", 90, nn=False, areas="unit", thr=0.5, chunk=2)
        add("p10:5x345", 90, nn=True, areas="unit", thr=0.5, chunk=None)
        add("p10:5x345", 90, nn=False, areas="var", thr=0.5, chunk=None)
        add("l6:3x13467", 60, nn=True, areas="var", thr=0.5, chunk=5)
        add("l6:3x13467", 60, nn=False, areas="var", thr=0.25, chunk=None)
        add("c9:3x12345", 60, nn=True, areas="var", thr=0.25, chunk=2)
        add("bits:2x5", 60, nn=True, areas="unit", thr=0.5, chunk=3)
        add("q12:3x01234", 130, nn=True, areas="unit", thr=0.5, chunk=None)
        add("q12:3x01234", 130, nn=False, areas="unit", thr=0.5, chunk=2)
        add("p10:3x13457", 130, nn=False, areas="var", thr=0.5, chunk="irr", lon360=True)
        add("q12:3x01234", 130, nn=True, areas="unit", thr=0.5, chunk="irr")
        add("pairs:ladder,7,ring", 150, nn=True, areas="unit", thr=0.5, chunk=6)
        add("pairs:ladderp,5,open", 150, nn=True, areas="var", thr=0.5, chunk=6)
        add("pairs:ladderp,5,open", 150, nn=False, areas="var", thr=0.5, chunk=6)
        add("triples:ladderp,5,open", 150, nn=True, areas="unit", thr=0.5, chunk=6)
    else:
        for ch in (None, 1, 2, 3, 5, "irr"):
            for nn in (True, False):
                add("p10:3x12345678", 120, nn=nn, areas="unit", thr=0.5, chunk=ch)
                add("l6:3x134567", 120, nn=nn, areas="var", thr=0.5, chunk=ch)
                add("c9:4x1345", 90, nn=nn, areas="var", thr=0.25, chunk=ch)
                if ch in (1, 3, 5):
                    continue
                add("p10:5x3458", 120, nn=nn, areas="unit", thr=0.5, chunk=ch)
                add("bits:2x6", 120, nn=nn, areas="unit", thr=0.5, chunk=ch)
                add("q12:4x01234", 130, nn=nn, areas="unit", thr=0.5, chunk=ch)
                for sp in ("pairs:ladder,9,ring", "pairs:ladderp,7,open", "pairs:ladderp,6,ring", "triples:ladderp,6,open"):
                    add(sp, 150, nn=nn, areas="unit" if ch == 2 else "var", thr=0.5, chunk=ch)
    tot = C.run_tasks(t12_any, tasks, budget=840 if not th else 20000)
    return {"level": "model_checking", "total": tot,
            "rule": "every history over the pattern menus (ring, chain and ladder meshes; unit and varying cell areas) replayed on the real unstructured tracker with several "
                    "time chunkings and on the reference model: footprint, event partition (ties free), merge records, event properties; non-trivial = history with a merge"}
