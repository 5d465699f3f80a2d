"""T13: unstructured morphology, labelling and area filtering, observed through run_preprocess / run."""
import itertools, shutil, tempfile
import numpy as np
from .. import common as C
from ..drive_unstruct import ladder, path
from ..model_preproc import tclose
from ..model_unstruct import comps


def octa(base=0):
    """faces of the octahedron: 8 triangles, 3 edge neighbours each (the cube graph)"""
    return [[base + (i ^ 1), base + (i ^ 2), base + (i ^ 4)] for i in range(8)]


def cut(base=0):
    """a triangulated strip with a dead end and two cells without any neighbour"""
    e = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (1, 5), (5, 6)]
    nb = [[] for _ in range(9)]
    for a, b in e:
        nb[a].append(b); nb[b].append(a)
    return [[base + k for k in v] + [-1] * (3 - len(v)) for v in nb]


def cutfront(base=0):
    """as cut, missing neighbours listed first"""
    return [v[::-1] for v in cut(base)]


MESH = {"octa": octa, "cut": cut, "cutf": cutfront, "l4": lambda base=0: ladder(4, True, base), "o4": lambda base=0: ladder(4, False, base),
        "o5": lambda base=0: ladder(5, False, base), "l5": lambda base=0: ladder(5, True, base), "l6": lambda base=0: ladder(6, True, base),
        "p8": lambda base=0: path(8, False, base), "p9": lambda base=0: path(9, True, base),
        "p12": lambda base=0: path(12, False, base), "l8": lambda base=0: ladder(8, True, base)}


def dodeca_dual(base=0):
    """faces of the icosahedron: 20 triangles"""
    f = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 5, 1), (1, 6, 2), (2, 7, 3), (3, 8, 4), (4, 9, 5), (5, 10, 1),
         (6, 7, 2), (7, 8, 3), (8, 9, 4), (9, 10, 5), (10, 6, 1), (11, 7, 6), (11, 8, 7), (11, 9, 8), (11, 10, 9), (11, 6, 10)]
    return [[base + j for j in range(20) if j != i and len(set(f[i]) & set(f[j])) == 2] for i in range(20)]


MESH["ico"] = dodeca_dual


class Mesh:
    """sacrificial chain of 8 cells first, then the mesh under study (so its last cell is the array's last)"""
    def __init__(self, name):
        self.nb = np.array(path(8, False, 0) + MESH[name](8)).T
        self.N = self.nb.shape[1]
        self.n = self.N - 8
        A = np.eye(self.N, dtype=bool)
        for k in range(3):
            for c in range(self.N):
                if self.nb[k, c] >= 0:
                    A[c, self.nb[k, c]] = True
        self.A = A

    def dil(self, a, R):
        for _ in range(R):
            a = (a.astype(np.int32) @ self.A.T.astype(np.int32)) > 0
        return a

    def fill(self, a, R, mask):
        """closing then opening by R hops; land counts as extreme while eroding; land removed at the end"""
        a = self.dil(a, R)
        a[:, ~mask] = True
        a = ~self.dil(~a, R)
        a[:, ~mask] = True
        a = ~self.dil(~a, R)
        a = self.dil(a, R)
        return a & mask

    def filt(self, a, thr):
        out = np.zeros_like(a)
        for t in range(a.shape[0]):
            for c in comps([int(k) for k in np.nonzero(a[t])[0]], self.nb):
                if len(c) >= thr:
                    out[t, list(c)] = True
        return out


def bits(codes, n):
    return ((np.asarray(codes)[:, None] >> np.arange(n)) & 1).astype(bool)


def preproc(big, mesh, tchunk, mask, full=False, areas=None, **kw):
    import xarray as xr
    marEx = C.load()
    T, N = big.shape
    t = (np.datetime64("2000-01-01") + np.arange(T)).astype("datetime64[ns]")
    co = {"lat": ("ncells", np.linspace(-40, 40, N).astype("f4")), "lon": ("ncells", (np.arange(N) * 7.0 % 360).astype("f4"))}
    da = xr.DataArray(big.copy(), dims=("time", "ncells"), coords={"time": t, **co}).chunk({"time": tchunk or T, "ncells": -1})
    m = xr.DataArray(mask.copy(), dims=("ncells",), coords=co).chunk()
    nbr = xr.DataArray(mesh.nb + 1, dims=("nv", "ncells"), coords=co).chunk()
    ar = xr.DataArray(np.ones(N, "f4") if areas is None else areas.astype("f4"), dims=("ncells",), coords=co).chunk()
    k = dict(R_fill=0, T_fill=0, area_filter_absolute=1, allow_merging=True, overlap_threshold=0.5, nn_partitioning=False, quiet=True, coordinate_units="degrees")
    k.update(kw)
    k = {a: b for a, b in k.items() if b is not None}
    sc = tempfile.mkdtemp(dir=C.SCRATCH)
    try:
        with C.real("unstructured preprocessing"):
            tr = marEx.tracker(da, m, unstructured_grid=True, dimensions={"time": "time", "x": "ncells"},
                               coordinates={"time": "time", "x": "lon", "y": "lat"}, neighbours=nbr, cell_areas=ar, temp_dir=sc, **k)
            if full:
                ev, _ = tr.run(return_merges=True)
                return ev.ID_field.transpose("time", "ncells").values > 0, ev.attrs
            out, st = tr.run_preprocess()
            return out.transpose("time", "ncells").values.astype(bool), st
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def enc(v):
    return "".join("1" if c else "0" for c in v)


def t13_task(name, codes, masks, R, thr, tchunk, full=False):
    """every field code under every mask code; slice 0 holds the sacrificial 7-cell object"""
    r = C.result()
    M = Mesh(name)
    f = bits(codes, M.n)
    big = np.zeros((len(f) + 1, M.N), bool)
    big[0, 0:7] = True
    big[1:, 8:] = f
    for mc in masks:
        mask = np.ones(M.N, bool)
        mask[8:] = bits([mc], M.n)[0]
        want = M.filt(M.fill(big, R, mask), thr)
        if want[0].sum() < 6:                     # the absolute filter wants one object of more than five cells
            want_err = True
        case = dict(mesh=name, mask=enc(mask[8:]), R=R, threshold=thr, tchunk=tchunk)
        try:
            got, _ = preproc(big, M, tchunk, mask, full, R_fill=R, area_filter_absolute=thr)
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); r["evals"] += 1; continue
        bad = got != want
        for t in np.unique(np.nonzero(bad)[0])[:2]:
            r["viol"].append({"what": f"cells {enc(big[t, 8:])} (ocean {enc(mask[8:])}) became {enc(got[t, 8:])}, expected {enc(want[t, 8:])}" +
                              ("" if not bad[t, :8].any() else f" (first chain {enc(big[t, :8])} -> {enc(got[t, :8])})"), "case": dict(case, field=enc(big[t, 8:]))})
        r["evals"] += len(f)
        for k in range(1, len(big)):
            if want[k].any() and not np.array_equal(want[k], big[k]):
                r["distinct"].add((name, R, thr, int(mc), int(codes[k - 1])))
    r["samples"] = [{"mesh": name, "fields": len(f), "masks": [int(m) for m in masks][:3], "R": R, "threshold": thr}]
    return r


def t13_time(name, seqs, masks, R, T, tchunk, full=False, thr=1, **kw):
    """histories: gap filling followed by spatial filling of radius R // 2 hops"""
    r = C.result()
    M = Mesh(name)
    L = len(seqs[0])
    pad = T + 2
    big = np.zeros((2 + len(seqs) * (L + pad), M.N), bool)
    big[0, 0:7] = True
    pos = []
    for i, s in enumerate(seqs):
        t0 = 1 + pad + i * (L + pad)
        big[t0:t0 + L, 8:] = bits(s, M.n)[:big.shape[0] - t0]
        pos.append(t0)
    for mc in masks:
        mask = np.ones(M.N, bool)
        mask[8:] = bits([mc], M.n)[0]
        want = M.filt(M.fill(tclose(M.fill(big, R, mask), T), R // 2, mask), thr)
        case = dict(mesh=name, mask=enc(mask[8:]), R=R, T_fill=T, tchunk=tchunk)
        try:
            got, _ = preproc(big, M, tchunk, mask, full, R_fill=R, T_fill=T, area_filter_absolute=thr, **kw)
        except C.RealCodeError as e:
            r["viol"].append({"what": str(e), "case": case}); r["evals"] += 1; continue
        bad = got != want
        for i, t0 in enumerate(pos):
            if bad[t0 - T:t0 + L + T].any():
                r["viol"].append({"what": f"history {[enc(x[8:]) for x in big[t0:t0 + L]]} (ocean {enc(mask[8:])}) became {[enc(x[8:]) for x in got[t0:t0 + L]]}, "
                                  f"expected {[enc(x[8:]) for x in want[t0:t0 + L]]}", "case": case})
                if len(r["viol"]) > 5:
                    break
        if bad.any() and not r["viol"]:
            r["viol"].append({"what": f"cells added in empty steps {np.unique(np.nonzero(bad)[0])[:5]}", "case": case})
        r["evals"] += len(seqs)
        for i, t0 in enumerate(pos):
            if not np.array_equal(want[t0:t0 + L], big[t0:t0 + L]):
                r["distinct"].add((name, R, T, int(mc), seqs[i]))
    return r


def t13_quart(q, sizes, tchunk):
    """percentile filter on a chain: the percentile is that of the objects of more than 50 cells"""
    r = C.result()
    n = sum(sizes) + len(sizes)
    M = Mesh.__new__(Mesh)
    M.nb = np.array(path(n, False, 0)).T; M.N = n; M.n = n
    big = np.zeros((3, n), bool)
    o, spans = 0, []
    for i, s in enumerate(sizes):
        big[i % 3, o:o + s] = True; spans.append((i % 3, o, s)); o += s + 1
    case = dict(sizes=sizes, quartile=q)
    try:
        got, st = preproc(big, M, tchunk, np.ones(n, bool), R_fill=0, area_filter_absolute=None, area_filter_quartile=q)
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] = 1; return r
    thr = np.percentile([s for s in sizes if s > 50], 100 * q)
    want = np.zeros_like(big)
    for t, o, s in spans:
        want[t, o:o + s] = s >= thr
    r["evals"] = 1; r["distinct"].add((q, tuple(sizes)))
    if (got != want).any():
        r["viol"].append({"what": f"kept sizes {sorted(s for t, o, s in spans if got[t, o])} want those >= {thr}", "case": case})
    return r


def dispatch(kind, *a):
    return {"f": t13_task, "t": t13_time, "q": t13_quart}[kind](*a)


GAPS = [tuple([a, *([0] * g), b]) for g in (1, 2, 3) for a in (1, 0b111, 0b10111, 255) for b in (1, 0b111, 0b11100, 255)]


def foot_tasks():
    """complete runs: fields, land masks, radii, gaps and thresholds together (T01 on a mesh)"""
    t = [("f", "octa", list(range(256)), [m], 1, 2, 90, True) for m in (255, 0b11101111, 0b01111101)]
    t += [("f", "cut", list(range(512)), [m], R, 2, 100, True) for m in (511, 0b101111101) for R in (0, 1)]
    for g in (1, 2, 3):
        s = [q for q in GAPS if len(q) == g + 2]
        t += [("t", "o4", s, [255, 0b11011111, 0b01110111], R, T, ch, True, thr) for R, T, ch, thr in ((0, 2, 4, 1), (1, 2, 7, 2), (2, 4, 3, 1))]
    return t


def gap_tasks():
    """every presence series of a chain's cells: one location per series would need isolated cells, so whole objects come and go (T09 on a mesh)"""
    t = []
    for Tf in (2, 4, 6):
        seqs = [tuple(255 * (v >> k & 1) for k in range(8)) for v in range(1, 256)]
        t += [("t", "octa", seqs[i::2], [255], 0, Tf, ch) for ch in (3, 8) for i in range(2)]
    for g in (1, 2, 3):
        s = [q for q in GAPS if len(q) == g + 2]
        t += [("t", "o4", s, [255, 0b11011111], R, T, 5) for R, T in ((0, 2), (2, 2), (3, 4))]
    return t


def t13(tier):
    th = tier == "thorough"
    tasks = []
    full8 = range(256)

    def sp(name, nf, masks, R, thr, tchunk, per=16, full=False):
        masks = list(masks)
        for i in range(0, len(masks), per):
            tasks.append(("f", name, list(nf), masks[i:i + per], R, thr, tchunk, full))
    allm8 = range(1, 256)
    sp("octa", full8, allm8 if th else [m for m in allm8 if bin(m).count("1") in (3, 5, 6, 7, 8)], 1, 1, 90)
    sp("cut", range(512), [511, 255, 0b101111111, 0b111110111, 0b110111101, 0b010111111], 1, 1, 200, 1)
    sp("cutf", range(512), [511, 0b111110111], 1, 2, 77, 1)
    sp("cut", range(512), [511, 0b110111110], 0, 3, 111, 1)
    sp("o5", range(1024), [1023, 0b1111011110, 0b1011101110], 1, 1, 1024, 1)
    sp("o5", range(1024), [1023, 0b1111111110], 2, 1, 300, 1)
    sp("o5", range(1024), [1023], 0, 4, 256, 1)
    sp("p8", full8, [255, 0b10111111, 0b11101110], 1, 2, 64, 1)
    sp("octa", full8, [255], 0, 3, 64, 1, True)
    sp("o4", full8, [255, 0b11111011], 1, 2, 32, 1, True)
    if th:
        for R in (1, 2, 3):
            sp("l6", range(4096), [4095, 0b111110111111, 0b101111111110], R, 1, 500, 1)
            sp("o4", full8, allm8, R, 1, 300)
            sp("cut", range(512), range(1, 512), R, 1, 513)
            sp("octa", full8, allm8, R, 2, 300)
        for lo in range(0, 1 << 20, 1 << 14):
            sp("ico", range(lo, lo + (1 << 14)), [(1 << 20) - 1], 1, 1, 4096, 1)
    # histories
    pats = [0, 0b00000111, 0b11110000, 0b00010111, 0b11111111]
    seqs = [tuple([a, *([0] * g), b]) for g in (1, 2, 3) for a in (1, 0b111, 0b10111, 255) for b in (1, 0b111, 0b11100, 255)]
    for g in (1, 2, 3):
        s = [q for q in seqs if len(q) == g + 2]
        for R in (0, 1, 2):
            for T in (2, 4) if th or R == 2 else (2,):
                tasks.append(("t", "o4", s, [255, 0b11011111, 0b01110111, 0b11110111], R, T, 7))
    allseq = list(itertools.product(range(16), repeat=3))
    mk = [15 | (0b1111 << 4)]
    tasks.append(("t", "octa", [tuple((v * 17) & 255 for v in q) for q in allseq[:(4096 if th else 1500)]], mk, 0, 2, 1000))
    tasks.append(("t", "octa", [tuple((v | (v << 4)) & 255 for v in q) for q in allseq[::(1 if th else 7)]], [255, 0b11111110, 0b11101011], 2, 2, 501))
    # land wider than the fill radius beside narrow water: land must not spill into the ocean
    bays = [m for m in range(1, 4096) if bin(m).count("1") <= (3 if th else 2)]
    s12 = [(0, 0, 0), (4095, 0, 4095), (0b111, 0, 0b111000000000), (0, 0b11111, 0)]
    for i in range(0, len(bays), 12):
        tasks.append(("t", "p12", s12, bays[i:i + 12], 2, 2, 9))
    lb = [0b0000000100000001, 0b0001000100010001, 0b0000001100000001, 0b1111111100000001, 0b0000000011110000]
    tasks.append(("t", "l8", [(0, 0, 0), (65535, 0, 65535), (0xF0F0, 0, 0xF0F0), (0x0303, 0x0F0F, 0)], lb, 2, 2, 5))
    for q in (0.0, 0.25, 0.5, 0.75, 0.9):
        for sizes in itertools.product((20, 50, 51, 60, 75), repeat=3):
            if max(sizes) > 50 and (th or sorted(sizes) == list(sizes)):
                tasks.append(("q", q, list(sizes) + [55], 2))
    tot = C.run_tasks(dispatch, tasks, budget=840 if not th else 20000)
    return {"level": "exploration", "total": tot,
            "rule": "every cell subset of small meshes (octahedron, open/closed ladders, chains, a strip with dead ends and isolated cells; thorough: icosahedron) under the listed land masks "
                    "(octahedron: most/all masks), radii and thresholds, through run_preprocess (and full runs), plus gap-filling histories; oracle: hop-graph closing/opening, components; "
                    "non-trivial = the input is changed and not emptied"}
