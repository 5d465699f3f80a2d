"""T15: crash points of a checkpoint save (process killed before every file-system mutation, and torn writes)."""
import itertools, os, shutil, sys, tempfile, threading
import numpy as np
from .. import common as C
from ..drive_track import make, BASE_KW
from ..drive_unstruct import path

REC = {"on": False, "dir": None, "shots": None, "n": 0, "busy": False}
_lock = threading.RLock()
_installed = False
MUT = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "shutil.rmtree", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"}


def _hook(event, args):
    if not REC["on"] or REC["busy"]:
        return
    if event == "open":
        p, mode, flags = args
        if not isinstance(p, (str, bytes, os.PathLike)):
            return
        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (mode is None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if not w:
            return
    elif event in MUT:
        p = args[0]
    else:
        return
    try:
        p = os.path.abspath(os.fsdecode(p)) if not isinstance(p, int) else None
    except Exception:  # noqa: BLE001
        return
    q = None
    if event in ("os.rename", "shutil.move") and not isinstance(args[1], int):
        q = os.path.abspath(os.fsdecode(args[1]))
    if p is None or not (p.startswith(REC["dir"] + "/") or (q and q.startswith(REC["dir"] + "/")) or not os.path.isabs(os.fsdecode(args[0]))):
        return
    shot(event, p)


def shot(event, p):
    with _lock:
        if REC["busy"]:
            return
        REC["busy"] = True
        try:
            d = os.path.join(REC["shots"], f"{REC['n']:04d}")
            shutil.copytree(REC["dir"], d)
            REC["events"].append((event, os.path.relpath(p, REC["dir"]) if p else ""))
            REC["n"] += 1
        finally:
            REC["busy"] = False


class Recording:
    """with Recording(dir) as shots: every mutation below dir leaves a copy of the state just before it"""
    def __init__(self, d):
        self.d = os.path.realpath(d)

    def __enter__(self):
        global _installed
        if not _installed:
            sys.addaudithook(_hook); _installed = True
        import zarr
        try:
            zarr.config.set({"async.concurrency": 1, "threading.max_workers": 1})
        except Exception:  # noqa: BLE001
            pass
        self.shots = tempfile.mkdtemp(dir=C.SCRATCH)
        REC.update(dir=self.d, shots=self.shots, n=0, events=[], on=True)
        return self

    def __exit__(self, *a):
        shot("end", None)
        REC["on"] = False
        self.n, self.events = REC["n"], list(REC["events"])
        return False

    def states(self, torn=True):
        """-> (label, directory) of every crash state; torn variants built on the fly"""
        for k in range(self.n):
            d = os.path.join(self.shots, f"{k:04d}")
            yield f"killed before {self.events[k][0]} {self.events[k][1]} (mutation {k})", d
            if not torn or k + 1 >= self.n:
                continue
            nx = os.path.join(self.shots, f"{k + 1:04d}")
            for root, _, files in os.walk(nx):
                for f in files:
                    a = os.path.join(root, f)
                    rel = os.path.relpath(a, nx)
                    b = os.path.join(d, rel)
                    new = open(a, "rb").read()
                    if os.path.exists(b) and open(b, "rb").read() == new:
                        continue
                    for cut in sorted({0, len(new) // 2, max(0, len(new) - 1)}):
                        t = tempfile.mkdtemp(dir=C.SCRATCH)
                        shutil.rmtree(t); shutil.copytree(nx, t)
                        with open(os.path.join(t, rel), "r+b") as fh:
                            fh.truncate(cut)
                        yield f"{rel} torn at byte {cut} of {len(new)} (mutation {k})", t
                        shutil.rmtree(t, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.shots, ignore_errors=True)


def gridded(seed, T, tchunk, d, **kw):
    marEx = C.load()
    a = np.zeros((T, 3, 8), bool)
    a[0, 0, 7] = True
    for t in range(1, T):
        for y in range(3):
            for x in range(8):
                a[t, y, x] = ((seed * 7919 + t * 31 + y * 17 + x * 13) * 2654435761 >> 7) % 5 < 2 + (seed % 2)
    da, m = make(a, tchunk)
    k = dict(BASE_KW, temp_dir=d); k.update(kw)
    return marEx.tracker(da, m, **k)


def unstr(seed, T, tchunk, d, **kw):
    import xarray as xr
    marEx = C.load()
    n = 24
    a = np.zeros((T, n), bool)
    for t in range(T):
        for x in range(n):
            a[t, x] = ((seed * 7919 + t * 31 + x * 13) * 2654435761 >> 7) % 5 < 3
    a[0, 2:12] = True
    nb = np.array(path(n, True)).T
    co = {"lat": ("ncells", np.linspace(-40, 40, n).astype("f4")), "lon": ("ncells", (np.arange(n) * 15.0).astype("f4"))}
    t = (np.datetime64("2000-01-01") + np.arange(T)).astype("datetime64[ns]")
    da = xr.DataArray(a, dims=("time", "ncells"), coords={"time": t, **co}).chunk({"time": tchunk})
    k = dict(R_fill=0, T_fill=0, area_filter_absolute=2, allow_merging=True, quiet=True, coordinate_units="degrees"); k.update(kw)
    return marEx.tracker(da, xr.DataArray(np.ones(n, bool), dims="ncells", coords=co).chunk(), unstructured_grid=True, dimensions={"time": "time", "x": "ncells"},
                         coordinates={"time": "time", "x": "lon", "y": "lat"}, neighbours=xr.DataArray(nb + 1, dims=("nv", "ncells"), coords=co).chunk(),
                         cell_areas=xr.DataArray(np.ones(n, "f4"), dims="ncells", coords=co).chunk(), temp_dir=d, **k)


MAKE = {"grid": gridded, "unstr": unstr}


def pre(out):
    data, st = out
    return (data.dims, data.values.astype(bool).tobytes(), data.shape, tuple(round(float(s), 6) for s in st))


def evs(ev):
    f = ev.ID_field.values
    d = {}
    for c in zip(*np.nonzero(f)):
        d.setdefault(int(f[c]), []).append(tuple(map(int, c)))
    return (frozenset(map(tuple, d.values())), int(ev.attrs["N_events_final"]), int(ev.attrs["N_objects_filtered"]), int(ev.attrs["N_objects_prefiltered"]),
            round(float(ev.attrs["accepted_area_fraction"]), 6), round(float(ev.attrs["preprocessed_area_fraction"]), 6), float(ev.attrs["area_threshold (cells)"]))


A = (1, 6, 2)
B = (2, 5, 3)
B1 = (3, 6, 2)


def tree(d):
    """content hash of a directory: crash states with equal content are one state"""
    out = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        out += [(os.path.relpath(os.path.join(root, x), d), None) for x in dirs]
        for f in sorted(files):
            with open(os.path.join(root, f), "rb") as fh:
                out.append((os.path.relpath(os.path.join(root, f), d), fh.read()))
    return C.h(sorted(out, key=lambda k: k[0]))


_loaded = {}


def load_state(kind, spec, d):
    """load whatever is in d -> ('fail', message) or ('ok', content)"""
    try:
        with C.real("load"):
            return "ok", pre(MAKE[kind](*spec, d).run_preprocess(checkpoint="load"))
    except C.RealCodeError as e:
        return "fail", str(e)


def t15_crash(kind, old, new, both, part=(0, 1)):
    """an older checkpoint (or none), then a save interrupted at every point; optionally the older save interrupted too"""
    r = C.result()
    d0 = tempfile.mkdtemp(dir=C.SCRATCH)
    truth = {}
    starts = [("no older checkpoint", None)]
    keep = []
    if old:
        rec = Recording(d0)
        with rec, C.real("save"):
            truth["old"] = pre(MAKE[kind](*old, d0).run_preprocess(checkpoint="save"))
        keep.append(rec)
        st = list(rec.states(torn=False))
        starts = st if both else st[-1:]
    ref_new = None
    last = starts[-1][0]
    for label0, sd in starts[part[0]::part[1]]:
        w = tempfile.mkdtemp(dir=C.SCRATCH)
        if sd:
            shutil.rmtree(w); shutil.copytree(sd, w)
        rec = Recording(w)
        try:
            with rec, C.real("save"):
                truth["new"] = pre(MAKE[kind](*new, w).run_preprocess(checkpoint="save"))
        except C.RealCodeError as e:
            r["viol"].append({"what": f"saving over [{label0}]: {e}", "case": {"kind": kind, "old": old, "new": new, "start": label0}})
            rec.close(); continue
        plain = pre(MAKE[kind](*new, w).run_preprocess()) if ref_new is None else ref_new
        ref_new = plain
        if truth["new"] != plain:
            r["viol"].append({"what": f"saving over [{label0}] yields other data or statistics than an uninterrupted run without checkpoint", "case": {"kind": kind, "old": old, "new": new, "start": label0}})
        loads = 0
        for label, d in rec.states(torn=not both or label0 == last):
            for spec in (new,):
                key = (kind, spec, tree(d))
                if key not in _loaded:
                    _loaded[key] = load_state(kind, spec, d)
                v, got = _loaded[key]
                r["evals"] += 1; r["traces"] += 1; r["transitions"] += 1
                r["states"].add(C.h(key))
                r["distinct"].add(C.h((kind, old, new, label0, label, v)))
                case = {"kind": kind, "old": old, "new": new, "start": label0, "crash": label}
                if v == "ok":
                    if got == ref_new:
                        loads += 1
                    elif got == truth.get("old"):
                        if label0 != last and old:
                            r["viol"].append({"what": f"an interrupted older save is loaded as complete ({label0}; {label})", "case": case})
                    else:
                        src = "mixes" if truth.get("old") else "differs from"
                        r["viol"].append({"what": f"load succeeds but {src} what any completed save stored: start [{label0}], {label}", "case": case})
        if loads == 0:
            r["viol"].append({"what": f"a completed save over [{label0}] cannot be loaded back", "case": {"kind": kind, "old": old, "new": new, "start": label0}})
        r["notes"]["mutations"] = max(r["notes"].get("mutations", 0), rec.n)
        rec.close(); shutil.rmtree(w, ignore_errors=True)
    for k in keep:
        k.close()
    shutil.rmtree(d0, ignore_errors=True)
    r["samples"] = [{"kind": kind, "old": old, "new": new}]
    return r


def t15_resume(kind, spec, kw, crash):
    """save / load / no checkpoint give the same events; a run killed anywhere after its save resumes to the same events"""
    r = C.result()
    case = {"kind": kind, "spec": spec, "kw": kw}
    rm = kw.get("allow_merging", True)

    def run(d, ck):
        with C.real(f"run(checkpoint={ck})"):
            t = MAKE[kind](*spec, d, **kw)
            out = t.run(return_merges=rm, checkpoint=ck)
            return evs((out[0] if rm else out).load())
    w = tempfile.mkdtemp(dir=C.SCRATCH)
    w0 = tempfile.mkdtemp(dir=C.SCRATCH)
    try:
        ref = run(w0, None)
        rec = Recording(w)
        if crash:
            with rec:
                got = run(w, "save")
        else:
            got = run(w, "save")
        if got != ref:
            r["viol"].append({"what": "a run that saves a checkpoint gives other events or attributes than one that does not", "case": case})
        got = run(w, "load")
        if got != ref:
            r["viol"].append({"what": "resuming from the complete checkpoint gives other events or attributes than an uninterrupted run", "case": case})
        got = run(w, "save")
        if got != ref:
            r["viol"].append({"what": "saving again over a complete checkpoint changes the events", "case": case})
        r["evals"] += 3; r["traces"] += 3
        r["distinct"].add(C.h((kind, spec, sorted(kw.items()))))
        if crash:
            seen = set()
            for label, d in rec.states(torn=False):
                r["evals"] += 1; r["transitions"] += 1
                key = tree(d)
                if key in seen:
                    continue
                seen.add(key)
                r["traces"] += 1
                r["states"].add(C.h((kind, "run", key)))
                try:
                    got = run(d, "load")
                except C.RealCodeError:
                    if "end" in label:
                        r["viol"].append({"what": "checkpoint of a finished run cannot be resumed", "case": dict(case, crash=label)})
                    continue
                r["distinct"].add(C.h((kind, spec, label)))
                if got != ref:
                    r["viol"].append({"what": f"resuming after a crash ({label}) gives other events", "case": dict(case, crash=label)})
            rec.close()
    except C.RealCodeError as e:
        r["viol"].append({"what": str(e), "case": case}); r["evals"] += 1
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w0, ignore_errors=True)
    return r


def dispatch(kind, *a):
    return {"c": t15_crash, "r": t15_resume}[kind](*a)


def t15(tier):
    th = tier == "thorough"
    tasks = []
    for kind in ("grid", "unstr"):
        tasks += [("c", kind, None, A, False), ("c", kind, A, B, False), ("c", kind, A, B1, False), ("c", kind, B, A, True)]
        if th:
            tasks += [("c", kind, A, B, True), ("c", kind, A, B1, True), ("c", kind, (4, 12, 1), (5, 3, 3), True), ("c", kind, (5, 3, 3), (4, 12, 1), True)]
    tasks = [t[:4] + (True, (i, 8)) for t in tasks if t[4] for i in range(8)] + [t for t in tasks if not t[4]]
    kws = [dict(), dict(R_fill=1, T_fill=2), dict(area_filter_absolute=3, nn_partitioning=True)]
    for kw in kws:
        for spec in (A, B) if not th else (A, B, B1, (6, 9, 1), (7, 9, 4)):
            tasks.append(("r", "grid", spec, kw, th and not kw))
            tasks.append(("r", "unstr", spec, dict(kw), not kw and (th or spec == A)))
    if not th:
        tasks = [t if not (t[0] == "r" and t[1] == "unstr" and t[-1]) else ("r", "unstr", (1, 3, 2), {}, True) for t in tasks]
    tasks.append(("r", "grid", A, dict(allow_merging=False), True))
    # every partition of the time axis into chunks, also with gap filling (which leaves uneven chunks behind)
    for k, cuts in enumerate(itertools.product((0, 1), repeat=4 if not th else 5)):
        comp = [1]
        for c in cuts:
            if c:
                comp.append(1)
            else:
                comp[-1] += 1
        for kind in ("grid", "unstr"):
            for Tf in (0, 4) if not th else (0, 2, 4):
                if th or kind == "grid" or (k + Tf // 4) % 3 == 0:
                    tasks.append(("r", kind, (8, sum(comp), tuple(comp)), dict(T_fill=Tf), False))
    tasks.sort(key=lambda t: (not (t[0] == "r" and t[-1] is True), t[0] != "r", t[1] != "unstr"))
    tot = C.run_tasks(dispatch, tasks, budget=840 if not th else 20000)
    return {"level": "fault_enumeration", "total": tot,
            "rule": "process killed before every file-system mutation of a checkpoint save (audit-hook snapshots) plus every file torn at 0, half and last byte, from no/complete/interrupted older checkpoints "
                    "of equal and different shape; each state loaded by a fresh tracker: fails, or equals a completed save in data and statistics; resumed runs equal uninterrupted ones",
            "assumptions": ["process crash: completed writes are durable and ordered (no power-loss reordering)", "one writer at a time"]}
