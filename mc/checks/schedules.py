"""T17, D11: the real code's task graphs under a controlled scheduler - every order of conflicting chunk tasks (mc/sched.py)."""
import itertools, os, shutil, tempfile
import numpy as np
from .. import common as C
from .. import drive_track as D
from .. import drive_unstruct as U
from .. import drive_detect as DD
from .. import sched as S

POL = ("fifo", "lifo", "rev", "layer", "block")


def ds_diff(a, b):
    """complaint or None: two datasets (or None), values, coordinates, dtypes, and attributes"""
    if (a is None) != (b is None):
        return "one result is missing"
    if a is None:
        return None
    if set(a.variables) != set(b.variables):
        return f"variables {sorted(map(str, set(a.variables) ^ set(b.variables)))}"
    for v in a.variables:
        x, y = a[v].values, b[v].values
        if a[v].dims != b[v].dims or x.shape != y.shape or x.dtype != y.dtype:
            return f"{v}: {a[v].dims}{x.shape}{x.dtype} against {b[v].dims}{y.shape}{y.dtype}"
        m = (x != y) & ~((x != x) & (y != y))
        if x.dtype.kind == "f":
            with np.errstate(invalid="ignore"):
                m &= ~(np.abs(x - y) <= 1e-5 * (1 + np.abs(y)))
        if m.any():
            i = tuple(int(k[0]) for k in np.nonzero(m)) if m.ndim else ()
            return f"{v}{list(i)}: {x[i]} against {y[i]} ({int(m.sum())} values differ)"
    ka, kb = ({k: repr(v) for k, v in q.attrs.items()} for q in (a, b))
    return None if ka == kb else f"attributes {[k for k in set(ka) | set(kb) if ka.get(k) != kb.get(k)]}"


def two_diff(a, b):
    return ds_diff(a[0], b[0]) or ds_diff(a[1], b[1])


def record(r, res, case, reruns=1):
    r["evals"] += res["schedules"]; r["traces"] += res["schedules"]; r["transitions"] += res["tasks"]
    n = r["notes"]
    for k in ("schedules", "races", "truncated"):
        n[k] = n.get(k, 0) + res[k]
    n["tasks_run"] = n.get("tasks_run", 0) + res["tasks"]
    for s, d in res["bad"]:
        r["viol"].append({"what": f"result depends on the task order: {d}", "case": dict(case, schedule={k: (v if isinstance(v, str) else [str(x) for x in v] if isinstance(v, set) else v) for k, v in s.items()})})
    r["samples"] = [case]


# histories that merge, split, chain, cross the date line and straddle every chunk boundary
def menu():
    out = []
    z = lambda T, Y, X: np.zeros((T, Y, X), bool)  # noqa: E731
    a = z(6, 5, 8); a[0:3, 0, 1:3] = 1; a[0:3, 4, 1:3] = 1; a[3, :, 1] = 1; a[4, 0, 1] = 1; a[4, 4, 1:3] = 1; a[5, 4, 2] = 1; out.append(a)          # meet, part again
    a = z(7, 3, 8); a[0:2, 1, 0:2] = 1; a[0:2, 1, 3:5] = 1; a[0:2, 1, 6] = 1; a[2:4, 1, 0:7] = 1; a[4, 1, 0:3] = 1; a[4, 1, 4:7] = 1; a[5:, 1, 1:6] = 1; out.append(a)   # three meet, part, meet again
    a = z(5, 2, 8); a[0, 0, [7, 0]] = 1; a[0, 0, 3] = 1; a[1, 0, [7, 0, 1, 2, 3]] = 1; a[2, 0, [7, 0, 1]] = 1; a[2, 0, 3] = 1; a[3, 0, 0:5] = 1; a[4, :, 7] = 1; a[4, 0, 0] = 1; out.append(a)     # across the date line
    a = z(8, 4, 8); a[0:8, 0, 0:2] = 1; a[1, 2, 0:3] = 1; a[3, 2:4, 1] = 1; a[3, 1, 1] = 1; a[5, 2, 1:4] = 1; a[6, 0:3, 1] = 1; a[7, 3, 3] = 1; out.append(a)             # gaps, late meeting
    return out


def t17_task(hs, tchunk, kw, delays=0, scr=None):
    marEx = C.load()
    r = C.result()
    f = 3 if kw.get("R_fill") else 1                 # opening with a disk needs objects wider than it
    b = D.Batch([np.kron(menu()[i], np.ones((1, f, f), bool)) for i in hs], 1)
    keep = b.big.copy()
    case = dict(histories=list(hs), tchunk=tchunk, settings=kw)

    def go():
        return D.track(b.big, tchunk=tchunk, **kw)
    res = S.explore(go, two_diff, POL if not delays else ("fifo",), cap=60 if not delays else 4000, delays=delays)
    if (b.big != keep).any():
        r["viol"].append({"what": "input changed by tracking", "case": case})
    record(r, res, case)
    ev = res["ref"][0]
    r["distinct"].add(C.h([case, ev.ID_field.values.tobytes()])); r["states"].add(C.h([ev.ID_field.values.tobytes(), res["ref"][1] is not None and res["ref"][1].sizes]))
    return r


def umenu(kind, n):
    c = 2 * n if kind == "ladder" else n
    out = []
    a = np.zeros((6, c), bool); a[0:2, 0:2] = 1; a[0:2, 3] = 1; a[2:4, 0:4] = 1; a[4, [0, 1, 3]] = 1; a[5, 0:3] = 1; out.append(a)
    a = np.zeros((5, c), bool); a[0, [0, 1, n - 1]] = 1; a[1, 0:n - 1] = 1; a[2, 0:2] = 1; a[3, 0:n] = 1; a[4, n - 1] = 1; out.append(a)
    return out


def t17_u(kind, n, tchunk, kw, delays=0):
    C.load()
    r = C.result()
    b = U.UBatch(umenu(kind, n), kind, n, True, 2)
    keep = b.big.copy()
    case = dict(mesh=kind, cells=n, tchunk=tchunk, settings=kw)

    def go():
        return U.utrack(b.big, b.nb, b.lat, b.lon, tchunk=tchunk, **kw)
    res = S.explore(go, two_diff, POL if not delays else ("fifo",), cap=60 if not delays else 4000, delays=delays)
    if (b.big != keep).any():
        r["viol"].append({"what": "input changed by tracking", "case": case})
    record(r, res, case)
    ev = res["ref"][0]
    r["distinct"].add(C.h([case, ev.ID_field.values.tobytes()])); r["states"].add(C.h(ev.ID_field.values.tobytes()))
    return r


def selftest(_):
    """the explorer itself: a graph whose task scribbles on a block another task reads, and one where two tasks append to a file"""
    import dask, dask.array as da
    C.load()
    r = C.result()
    base = np.arange(8)

    def scribble(x):
        x += 1
        return x.sum()

    def f():
        src = dask.delayed(lambda: base.copy(), pure=False)()
        return dask.compute(dask.delayed(scribble)(src), dask.delayed(lambda x: x.sum())(src))
    res = S.explore(f, lambda a, b: None if a == b else f"{a} {b}", policies=("fifo",))
    d = tempfile.mkdtemp(dir=C.SCRATCH)

    def app(k):
        with open(os.path.join(d, "log"), "a") as fh:
            fh.write(str(k))
        return k

    def g():
        p = os.path.join(d, "log")
        if os.path.exists(p):
            os.remove(p)
        dask.compute(*[dask.delayed(app)(k) for k in range(3)])
        return open(p).read()
    res2 = S.explore(g, lambda a, b: None if a == b else f"{a} {b}", policies=("fifo",))
    # and a graph of commuting tasks must need no further schedule
    x = da.arange(12, chunks=3)
    res3 = S.explore(lambda: ((x + 1) * (x - 1)).sum().compute(), lambda a, b: None if a == b else "differs", policies=("fifo",))
    if not res["bad"] or not res2["bad"] or res3["bad"] or res3["schedules"] != 1 or not res["races"] or not res2["races"]:
        raise RuntimeError(f"schedule explorer self-test failed: {res} {res2} {res3}")
    r["evals"] = 3; r["traces"] = 3; r["distinct"].add("selftest")
    return r


def t17_dispatch(kind, *a):
    return {"g": t17_task, "u": t17_u, "s": selftest}[kind](*a)


def t17(tier):
    th = tier == "thorough"
    tasks = [("s", 0)]
    for tc in (1, 2, 3, 5):
        for nn, R, T in itertools.product((False, True), (0, 1), (0, 2)):
            if not th and (tc, R, T) in ((1, 1, 2), (5, 1, 0), (3, 0, 2)):
                continue
            for hs in ((0, 2), (1, 3)):
                tasks.append(("g", hs, tc, dict(nn_partitioning=nn, R_fill=R, T_fill=T)))
        for hs in ((0, 1), (2, 3)):
            tasks.append(("g", hs, tc, dict(allow_merging=False, T_fill=2 if tc == 2 else 0, area_filter_absolute=2)))
        for kind, n in (("ladder", 4), ("path", 6)):
            for nn in (False, True):
                tasks.append(("u", kind, n, tc, dict(nn_partitioning=nn)))
    if th:
        for tc in (2, 3):
            tasks.append(("g", (0,), tc, dict(), 1)); tasks.append(("g", (1,), tc, dict(nn_partitioning=True), 1))
            tasks.append(("u", "ladder", 4, tc, dict(), 2))
    tasks.sort(key=lambda t: (t[0] != "u", -len(t)))
    tot = C.run_tasks(t17_dispatch, tasks, budget=850 if not th else 5000, hang=800 if not th else 4000)
    return {"level": "model_checking", "total": tot, "exhaustive": not tot["notes"].get("truncated"),
            "rule": "every dask graph of a real tracking run executed by a controlled scheduler: five extreme orders plus both orders of every race (two unordered tasks, one changing a block or file the other uses), repeated until no new race "
                    "(dynamic partial-order reduction; task effects observed by block digests and file audit events); thorough also delays each single task as far as possible. menu of merging/splitting/date-line/gap histories x chunk sizes x settings, gridded and unstructured"}


# ---------------------------------------------------------------- D11
def d11_task(lay, ma, me, mp, pr, chunks, ck, delays=0):
    from . import detect_pipe as P
    mx = C.load()
    r = C.result()
    t = P.taxis("winters")
    x = P.field(t, 2, 3, (4,))
    keep = x.copy()
    case = dict(layout=lay, method_anomaly=ma, method_extreme=me, method_percentile=mp, params=pr, chunks=chunks, use_temp_checkpoints=ck)
    again = []

    def go():
        da, kw = P.build(x, t, lay, chunks)
        with C.real("preprocess_data"):
            ds = mx.preprocess_data(da, method_anomaly=ma, method_extreme=me, method_percentile=mp, use_temp_checkpoints=ck, **pr, **kw)
            one = ds.compute(); two = ds.compute()
        d = ds_diff(one, two)
        if d:
            again.append(d)
        return one
    res = S.explore(go, ds_diff, POL if not delays else ("fifo",), cap=40 if not delays else 4000, delays=delays)
    if not np.array_equal(x, keep, equal_nan=True):
        r["viol"].append({"what": "input changed by detection", "case": case})
    if again:
        r["viol"].append({"what": f"computing the returned dataset again gives something else: {again[0]}", "case": case})
    record(r, res, case)
    o = res["ref"]
    r["distinct"].add(C.h([case, o.extreme_events.values.tobytes()])); r["states"].add(C.h([o.extreme_events.values.tobytes(), o.thresholds.values.tobytes()]))
    return r


def d11_dispatch(kind, *a):
    return d11_task(*a) if kind == "d" else selftest(*a)


def d11(tier):
    from . import detect_pipe as P
    th = tier == "thorough"
    tasks = [("s", 0)]
    CHS = [{"time": 20, "lat": 1, "lon": 2}, {"time": 33, "lat": -1, "lon": 1}, {"time": -1, "lat": 1, "lon": 1}]
    for i, (ma, (me, mp)) in enumerate(itertools.product(P.AN, (("global_extreme", "approximate"), ("global_extreme", "exact"), ("hobday_extreme", "approximate"), ("hobday_extreme", "exact")))):
        for lay in "gu":
            pr = dict(threshold_percentile=80, window_year_baseline=1, smooth_days_baseline=3, window_days_hobday=3)
            if ma.startswith("detrend"):
                pr["detrend_orders"] = [1]
            if ma == "detrend_harmonic":
                pr["std_normalise"] = True
            if mp == "approximate":
                pr["precision"] = 0.1
                if lay == "g" and me == "hobday_extreme":
                    pr["window_spatial_hobday"] = 3
            for ci, ch in enumerate(CHS):
                if not th and (ci != (i + (lay == "u")) % 3):
                    continue
                for ck in (False, True) if th else ((i % 2 == 0) == (lay == "g"),):
                    tasks.append(("d", lay, ma, me, mp, pr, ch, ck))
    tasks.sort(key=lambda t: (len(t) > 2 and t[3] != "hobday_extreme", len(t) > 2 and t[4] != "exact"))
    tot = C.run_tasks(d11_dispatch, tasks, warm=DD.plain, budget=850 if not th else 5000, hang=800 if not th else 4000)
    return {"level": "model_checking", "total": tot, "exhaustive": not tot["notes"].get("truncated"),
            "rule": "every dask graph of a real detection run (all method combinations, both layouts, irregular chunks, temporary checkpoints on and off) executed by a controlled scheduler: five extreme orders plus both orders of every race observed "
                    "(block digests, file audit events) until none is new; the returned lazy dataset computed twice in each"}
