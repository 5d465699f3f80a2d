"""S06: cluster helpers under recording stand-ins, all operation sequences; S07: logging helpers are transparent."""
import contextlib, gc, io, itertools, json, logging, os, shutil, subprocess, sys, tempfile
from .. import common as C

# ---------------------------------------------------------------- S06
# runs in a child process: every cluster class is replaced by a recording stand-in before marEx is imported
CHILD = r'''
import sys, json, os, io, gc, contextlib, warnings, tempfile, shutil, copy, itertools
warnings.simplefilter("ignore")
repo, job = sys.argv[1], json.loads(sys.argv[2])
sys.path.insert(0, repo)
REC = []
class Cluster:
    kind = "?"
    def __init__(self, *a, **k):
        REC.append((self.kind, a, copy.deepcopy(k)))
        self.scheduler_address = "tcp://127.0.0.1:1"
        self.dashboard_link = "http://127.0.0.1:8787/status"
    def scale(self, *a, **k): REC.append(("scale", a, k))
    def adapt(self, *a, **k): REC.append(("adapt", a, k))
    def close(self, *a, **k): pass
class Local(Cluster): kind = "local"
class Slurm(Cluster): kind = "slurm"
class StandClient:
    def __init__(self, cluster=None, *a, **k):
        REC.append(("client", (getattr(cluster, "kind", cluster),), k)); self.cluster = cluster
        self.dashboard_link = "http://127.0.0.1:8787/status"
    def nthreads(self): return {"w": 1}
    def close(self): pass
import distributed, dask.distributed, dask, psutil
for m in (distributed, dask.distributed):
    m.LocalCluster, m.Client = Local, StandClient
hide = len(sys.argv) > 3
if hide:
    sys.modules["dask_jobqueue"] = None
try:
    import dask_jobqueue
    dask_jobqueue.SLURMCluster = Slurm
except Exception:
    pass
real_count, real_vm = psutil.cpu_count, psutil.virtual_memory
machine = {"phys": 4, "log": 8}
psutil.cpu_count = lambda logical=True: machine["log"] if logical else machine["phys"]
with contextlib.redirect_stdout(io.StringIO()):
    import marEx, marEx.helper as H
assert os.path.realpath(marEx.__file__).startswith(os.path.realpath(repo) + "/")
base_cfg = copy.deepcopy(dask.config.config)
BASE = tempfile.mkdtemp(prefix="mc_s06_")
gc.collect(); gc.freeze()

def tmpdir(): return dask.config.get("temporary-directory", None)

def run(steps):
    """-> list of observations, one per step"""
    dask.config.config.clear(); dask.config.config.update(copy.deepcopy(base_cfg))
    with contextlib.redirect_stdout(io.StringIO()):
        marEx.configure_logging(verbose=False, quiet=False)
    held, obs, root = [], [], tempfile.mkdtemp(dir=BASE)
    known = set()
    for st in steps:
        del REC[:]
        op, kw = st["op"], json.loads(json.dumps(st.get("kw", {})))
        machine.update(st.get("machine", {"phys": 4, "log": 8}))
        if kw.get("scratch_dir"): kw["scratch_dir"] = os.path.join(root, kw["scratch_dir"])
        keep = copy.deepcopy(kw)
        o = {"op": op}
        before = (tmpdir(), json.dumps(dask.config.config, sort_keys=True, default=str), marEx.get_verbosity_level())
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                if op == "configure":
                    held.append(("cfg", marEx.configure_dask(**kw)))
                elif op == "local":
                    held.append(("cl", H.start_local_cluster(**kw)))
                elif op == "slurm":
                    held.append(("cl", H.start_distributed_cluster(**kw)))
                elif op == "drop-first":
                    if held: held.pop(0)
                elif op == "drop-last":
                    if held: held.pop()
        except BaseException as e:
            o["error"] = [type(e).__name__, isinstance(e, marEx.MarExError), str(e)]
        gc.collect()
        o["rec"] = json.loads(json.dumps([[k, list(a), b] for k, a, b in REC], default=str))
        o["mutated"] = kw != keep
        t = tmpdir()
        o["tmp"] = None if t is None else os.path.relpath(t, root)
        o["tmp_exists"] = bool(t) and os.path.isdir(t)
        o["same_tmp"] = t == before[0]
        o["same_cfg"] = json.dumps(dask.config.config, sort_keys=True, default=str) == before[1]
        o["verbosity"] = marEx.get_verbosity_level()
        o["verb_before"] = before[2]
        o["dirs"] = sorted(os.path.relpath(os.path.join(d, x), root) for d, ds, _ in os.walk(root) for x in ds)
        o["held"] = len(held)
        o["cfg"] = {k: dask.config.get(k, None) for k in ("distributed.worker.memory.target", "distributed.scheduler.work-stealing", "array.chunk-size", "mc.custom")}
        obs.append(o)
    held.clear(); gc.collect()
    left = [os.path.relpath(os.path.join(d, x), root) for d, ds, fs in os.walk(root) for x in ds + fs]
    shutil.rmtree(root, ignore_errors=True)
    return {"obs": obs, "left": sorted(left)}
try:
    print("\n@@" + json.dumps([run(s) for s in job]))
finally:
    shutil.rmtree(BASE, ignore_errors=True)
'''
DEFAULTS = {"distributed.worker.memory.target": 0.4, "distributed.scheduler.work-stealing": False, "array.chunk-size": "24MiB", "mc.custom": None}
MEM = {256: "250GB", 512: "500GB", 1024: "1000GB"}


def judge(steps, got, hide=False):
    """the reference model walks along the observations: complaint or None"""
    held = []            # the directory of each live holder, newest last
    cur = None           # what dask's temporary directory must be (None: unknown/foreign)
    cfg = None
    roots = {"a", "b", "c", "s", "deep", "deep/er"}
    for st, o in zip(steps, got["obs"]):
        kw, op = st.get("kw", {}), st["op"]
        where = f"step {st}: "
        if o["mutated"]:
            return where + "the caller's arguments were changed"
        if op in ("drop-first", "drop-last"):
            if held:
                held.pop(0 if op == "drop-first" else -1)
        else:
            refuse = op == "slurm" and (hide or kw.get("node_memory", 256) not in MEM)
            if refuse:
                if "error" not in o:
                    return where + "accepted"
                if hide and (o["error"][0] not in ("ImportError", "DependencyError", "ConfigurationError") or o["error"][0] != "ConfigurationError" and "dask_jobqueue" not in o["error"][2]):
                    return where + f"without dask_jobqueue refused with {o['error']}"
                if not hide and not (o["error"][0] == "ConfigurationError" and o["error"][1]):
                    return where + f"refused with {o['error']}"
                if o["rec"]:
                    return where + f"refused after {o['rec']}"
                if not o["same_tmp"]:
                    return where + "a refused start changed Dask's temporary directory"
            else:
                if "error" in o:
                    return where + f"raised {o['error']}"
                if o["same_tmp"] or o["tmp"] is None or not o["tmp_exists"]:
                    return where + f"no fresh temporary directory: {o['tmp']}"
                if os.path.dirname(o["tmp"]) != kw["scratch_dir"]:
                    return where + f"temporary directory {o['tmp']} is not in the scratch directory {kw['scratch_dir']}"
                held.append(o["tmp"]); cur = o["tmp"]
                cfg = dict(DEFAULTS); cfg["mc.custom"] = o["cfg"]["mc.custom"] if cfg is None else cfg["mc.custom"]
                cfg.update(kw.get("config") or {})
                want_custom = (kw.get("config") or {}).get("mc.custom")
                if want_custom is not None and o["cfg"]["mc.custom"] != want_custom:
                    return where + f"requested Dask setting not applied: {o['cfg']}"
                for k in DEFAULTS:
                    if k != "mc.custom" and o["cfg"][k] != cfg[k]:
                        return where + f"Dask setting {k} is {o['cfg'][k]}, expected {cfg[k]}"
                bad = request(op, kw, o["rec"])
                if bad:
                    return where + bad
            if op != "configure":
                v = "quiet" if kw.get("quiet") else "verbose" if kw.get("verbose") else "normal" if ("quiet" in kw or "verbose" in kw) else o["verb_before"]
                if not refuse and o["verbosity"] != v:
                    return where + f"verbosity is {o['verbosity']}, expected {v}"
        if cur is not None and o["tmp"] != cur:
            return where + f"Dask's temporary directory is {o['tmp']}, expected that of the last start, {cur}"
        have = [d for d in o["dirs"] if d not in roots]
        if sorted(have) != sorted(held):
            return where + f"temporary directories present: {have}, holders alive: {held}"
    left = [d for d in got["left"] if d not in roots]
    if left:
        return f"left behind after the last holder is gone: {left}"
    return None


def request(op, kw, rec):
    if op == "configure":
        return f"started something: {rec}" if rec else None
    kinds = [r[0] for r in rec]
    rest = {k: v for k, v in kw.items() if k not in ("scratch_dir", "verbose", "quiet", "n_workers", "threads_per_worker", "workers_per_node", "runtime", "node_memory", "dashboard_address", "queue", "account", "scheduler_options")}
    if kinds.count(op) != 1 or kinds.count("client") != 1 or any(r[1][0] != op for r in rec if r[0] == "client") or "adapt" in kinds:
        return f"requests {rec}"
    c = next(r for r in rec if r[0] == op)[2]
    if op == "local":
        want = {"n_workers": kw.get("n_workers", 4), "threads_per_worker": kw.get("threads_per_worker", 1)}
    else:
        rt = kw.get("runtime", 9)
        want = {"cores": kw["workers_per_node"], "processes": kw["workers_per_node"], "memory": MEM[kw.get("node_memory", 256)], "queue": kw.get("queue", "compute"),
                "walltime": f"{rt // 60:02d}:{rt % 60:02d}:00"}
        if "account" in kw:
            want["account"] = kw["account"]
        so = {"dashboard_address": f":{kw.get('dashboard_address', 8889)}"}
        so.update(kw.get("scheduler_options", {}))
        want["scheduler_options"] = so
        mem = kw.get("node_memory", 256)
        extra = " ".join(c.get("job_extra_directives") or [])
        if (f"{mem}G" in extra) != (mem != 256):
            return f"node type of {mem} GB requested with {extra!r}"
        sc = [r for r in rec if r[0] == "scale"]
        if len(sc) != 1 or (list(sc[0][1]) or list(sc[0][2].values())) != [kw["n_workers"]]:
            return f"scaled by {sc}, expected {kw['n_workers']}"
        if os.path.basename(c.get("local_directory", "")) == "":
            return "workers have no local directory"
    want.update(rest)
    for k, v in want.items():
        if c.get(k) != v:
            return f"{k} requested as {c.get(k)!r}, expected {v!r}"
    return None


def s06_task(cases, hide=False):
    r = C.result()
    env = {k: v for k, v in os.environ.items() if not k.startswith("MAREX_")}
    p = subprocess.run([sys.executable, "-c", CHILD, C.REPO, json.dumps(cases)] + (["hide"] if hide else []), capture_output=True, text=True, timeout=600, env=env)
    if p.returncode or "@@" not in p.stdout:
        raise RuntimeError(p.stderr[-2000:])
    for steps, got in zip(cases, json.loads(p.stdout.split("@@")[-1])):
        r["evals"] += 1; r["traces"] += 1; r["transitions"] += len(steps); r["distinct"].add(C.h(steps))
        for o in got["obs"]:
            r["states"].add(C.h([o["held"], o["tmp_exists"], o["verbosity"], len(o["dirs"]), o["cfg"]]))
        bad = judge(steps, got, hide)
        if bad:
            r["viol"].append({"what": bad[:900], "case": {"steps": steps}})
    r["samples"] = cases[:1]
    return r


def s06(tier):
    th = tier == "thorough"
    P = itertools.product
    one = []
    for n, t, mach, kw in P([1, 2, 3, 8, 16], [1, 2, 4], [(4, 8), (8, 8), (1, 2), (16, 32)], [{}, {"processes": False}, {"memory_limit": "8GB", "dashboard_address": ":8790"}]):
        one.append([{"op": "local", "kw": dict(n_workers=n, threads_per_worker=t, scratch_dir="s", **kw), "machine": {"phys": mach[0], "log": mach[1]}}])
    one += [[{"op": "local", "kw": {"scratch_dir": "deep/er"}}]]
    for n, w, rt, mem in P([1, 4, 64], [1, 2, 32], [0, 1, 9, 59, 60, 61, 120, 479, 605], [256, 512, 1024, 0, 128, 255, 2048]):
        one.append([{"op": "slurm", "kw": dict(n_workers=n, workers_per_node=w, runtime=rt, node_memory=mem, scratch_dir="s")}])
    for q, a, d, so, ex in P([None, "debug"], [None, "xy12"], [None, 8890], [None, {}, {"port": 1}, {"dashboard_address": ":7"}], [{}, {"job_name": "j", "silence_logs": True}]):
        kw = dict(n_workers=3, workers_per_node=2, scratch_dir="s", **ex)
        kw.update({k: v for k, v in (("queue", q), ("account", a), ("dashboard_address", d), ("scheduler_options", so)) if v is not None})
        one.append([{"op": "slurm", "kw": kw}])
    for op, v, q in P(["local", "slurm"], [None, True, False], [None, True, False]):
        kw = {k: x for k, x in (("verbose", v), ("quiet", q)) if x is not None}
        one.append([{"op": op, "kw": dict(n_workers=2, scratch_dir="s", **({"workers_per_node": 1} if op == "slurm" else {}), **kw)}])
    ops = [{"op": "configure", "kw": {"scratch_dir": "a"}}, {"op": "configure", "kw": {"scratch_dir": "b", "config": {"distributed.worker.memory.target": 0.25, "mc.custom": 7}}},
           {"op": "configure", "kw": {"scratch_dir": "a", "config": {}}},
           {"op": "local", "kw": {"n_workers": 2, "scratch_dir": "a"}}, {"op": "slurm", "kw": {"n_workers": 2, "workers_per_node": 2, "scratch_dir": "b"}},
           {"op": "slurm", "kw": {"n_workers": 2, "workers_per_node": 2, "node_memory": 300, "scratch_dir": "c"}}, {"op": "drop-first"}, {"op": "drop-last"}]
    seqs = [list(s) for n in range(1, 5 if th else 4) for s in P(ops, repeat=n)]
    allc = one + seqs
    n = 8
    tot = C.run_tasks(s06_task, [(allc[i::n],) for i in range(n)] + [(one + [s for s in seqs if len(s) < 3], True)])
    return {"level": "model_checking", "total": tot, "exhaustive": True,
            "rule": "cluster classes replaced by recording stand-ins in a child process; full products of local (workers, threads, machine, options) and SLURM (workers, per node, run time, node memory, queue, account, port, scheduler options) requests, "
                    "verbosity flags, with and without the job-queue package, and every sequence of configure / start / refused start / release up to depth 3 (thorough 4) against a model of live temporary directories and Dask settings"}


# ---------------------------------------------------------------- S07
class Boom(Exception):
    pass


class Hand(logging.Handler):
    def __init__(self):
        super().__init__(0); self.rows = []

    def emit(self, rec):
        self.rows.append((rec.levelno, rec.getMessage()))


WRAPS = ["timing", "timing-mem", "timing-progress", "timing-warning", "call", "call-info", "bar"]


def wrap(L, lg, kind, name, body):
    """a callable running body() inside one logging helper"""
    if kind.startswith("call"):
        def f(*a, **k):
            return body(*a, **k)
        f.__name__ = f.__qualname__ = name
        return L.log_function_call(lg, **({"level": 20} if kind == "call-info" else {}))(f)

    def g(*a, **k):
        if kind == "bar":
            with L.progress_bar(3, name, logger=lg):
                return body(*a, **k)
        kw = {"timing": {}, "timing-mem": {"log_memory": True}, "timing-progress": {"show_progress": True, "log_memory": True}, "timing-warning": {"level": 30}}[kind]
        with L.log_timing(lg, name, **kw):
            return body(*a, **k)
    return g


def lines(kind, name, mode, ok, special):
    """what the documentation promises to be logged: (level, prefix) before and after the body"""
    call, lvl = kind.startswith("call"), {"timing-warning": 30, "call": 10}.get(kind, 20)
    if kind == "bar":
        return [], ([(20, f"Completed {name}")] if mode != "quiet" else [])
    n = "." + name if call else " " + name
    pre = [(lvl, "Calling", n) if call else (lvl, "Starting", n)]
    if ok:
        post = [(10 if mode == "verbose" and not call else lvl, "Completed", n)]
    else:
        post = [] if special else [(40, "Failed", n)]
    return pre, post


def s07_task(mode, kinds):
    mx = C.load()
    import marEx.logging_config as L
    r = C.result()
    logging.disable(logging.NOTSET)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            mx.configure_logging(verbose=mode == "verbose", quiet=mode == "quiet")
            lg = logging.getLogger("mc_s07"); lg.propagate = False; lg.setLevel(1); hd = Hand(); lg.handlers[:] = [hd]
            val = object()
            outcomes = [("value", val), ("none", None), ("raise", Boom("the reason")), ("raise", KeyError("k")), ("raise", StopIteration(3)), ("raise", KeyboardInterrupt()), ("raise", SystemExit(2)), ("raise", L.xr.MergeError("m"))]
            for oc, v in outcomes:
                hd.rows.clear()
                seen = []

                def body(*a, **k):
                    seen.append((a, k)); lg.info("BODY")
                    if oc == "raise":
                        raise v
                    return v
                f = body
                for i, k in enumerate(reversed(kinds)):
                    f = wrap(L, lg, k, f"op{len(kinds) - 1 - i}", f)
                args, kw = (1, [2], "x" * 400, 4), {"a": 1, "b": None, "c": (), "d": 4}
                res = err = None
                try:
                    res = f(*args, **kw)
                except BaseException as e:  # noqa: BLE001
                    err = e
                r["evals"] += 1; r["traces"] += 1; r["transitions"] += len(kinds) + 1
                case = {"mode": mode, "helpers": list(kinds), "outcome": oc + ":" + type(v).__name__}
                r["distinct"].add(C.h(case)); r["states"].add(C.h([mode, kinds, oc]))
                bad = None
                if oc == "raise" and err is not v:
                    bad = f"body raised {v!r}, caller got {err!r}"
                elif oc != "raise" and (err is not None or res is not v):
                    bad = f"body returned {v!r}, caller got {res!r} / {err!r}"
                elif seen != [(args, kw)]:
                    bad = f"body was run {len(seen)} times with {seen}"
                else:
                    special = isinstance(v, BaseException) and not isinstance(v, Exception)
                    pl = [lines(k, f"op{i}", mode, oc != "raise", special) for i, k in enumerate(kinds)]
                    want = [x for p, _ in pl for x in p] + [(20, "BODY")] + [x for _, p in reversed(pl) for x in p]
                    got = [x for x in hd.rows if not x[1].startswith(("Memory Usage", "Before ", "After ", "Initializing "))]
                    if len(got) != len(want) or any(g[0] != w[0] or not all(t in g[1] for t in w[1:]) for g, w in zip(got, want)):
                        bad = f"logged {got}, expected {want}"
                    elif oc == "raise" and isinstance(v, Boom) and any(g[0] == 40 and "the reason" not in g[1] for g in got):
                        bad = f"failure logged without its reason: {got}"
                    elif "timing-mem" in kinds and mode != "quiet" and oc != "raise":
                        i = kinds.index("timing-mem")
                        mem = [x[1] for x in hd.rows if "Memory Usage" in x[1] and f"op{i}" in x[1]]
                        if len(mem) != 2 or not mem[0].startswith("Before") or not mem[1].startswith("After"):
                            bad = f"memory logged as {mem}"
                if bad:
                    r["viol"].append({"what": bad[:800], "case": case})
    finally:
        logging.disable(logging.CRITICAL)
    r["samples"] = [{"mode": mode, "helpers": list(kinds)}]
    return r


def s07_misc(mode):
    """progress lines, Dask summaries and wrapped functions' identity"""
    mx = C.load()
    import numpy as np, xarray as xr
    import marEx.logging_config as L
    r = C.result()
    logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mx.configure_logging(verbose=mode == "verbose", quiet=mode == "quiet")
            lg = logging.getLogger("mc_s07"); lg.propagate = False; lg.setLevel(1); hd = Hand(); lg.handlers[:] = [hd]
            for total in list(range(-1, 41)) + [100, 1000]:
                for fr in (1, 5, 10, 20, 25, 50, 100):
                    for cur in range(0, max(total, 0) + 1):
                        hd.rows.clear()
                        with C.real("log_progress"):
                            L.log_progress(lg, cur, total, "Work", frequency=fr)
                        r["evals"] += 1
                        want = mode != "quiet" and total > 0 and ((cur * 100) % (total * fr) == 0 or cur == total)
                        if bool(hd.rows) != want or len(hd.rows) > 1 or (want and f"{cur}/{total}" not in hd.rows[0][1]):
                            r["viol"].append({"what": f"log_progress({cur}, {total}, frequency={fr}) in {mode} mode logged {hd.rows}", "case": {"current": cur, "total": total, "frequency": fr, "mode": mode}})
            for ch, kind, msg in itertools.product([None, {"t": 2}, {"t": 1, "x": 2}], ["array", "dataset", "number", "list"], ["", "Here"]):
                a = xr.DataArray(np.arange(12.0).reshape(4, 3), dims=("t", "x"))
                o = a if kind == "array" else a.to_dataset(name="v") if kind == "dataset" else 3 if kind == "number" else [1, 2]
                if ch and kind in ("array", "dataset"):
                    o = o.chunk(ch)
                hd.rows.clear(); r["evals"] += 1
                with C.real("log_dask_info"):
                    res = L.log_dask_info(lg, o, msg)
                if res is not None or any(x[0] != 10 for x in hd.rows):
                    r["viol"].append({"what": f"log_dask_info logged {hd.rows}", "case": {"kind": kind, "chunks": str(ch)}})

            def plain(x, y=10):
                "doc of plain"
                return x + y
            g = L.log_function_call()(plain)
            r["evals"] += 1
            if (g.__name__, g.__doc__, g.__wrapped__) != ("plain", "doc of plain", plain) or g(1) != 11 or g(1, y=2) != 3:
                r["viol"].append({"what": "a logged function lost its name, documentation or defaults", "case": {}})
    finally:
        logging.disable(logging.CRITICAL)
    return r


def s07_dispatch(k, *a):
    return s07_task(*a) if k == "t" else s07_misc(*a)


def s07(tier):
    d = 4 if tier == "thorough" else 3
    seqs = [s for n in range(1, d + 1) for s in itertools.product(WRAPS, repeat=n)]
    tot = C.run_tasks(s07_dispatch, [("t", m, s) for m in ("normal", "verbose", "quiet") for s in seqs] + [("m", m) for m in ("normal", "verbose", "quiet")], warm=lambda: None)
    return {"level": "exploration", "total": tot, "exhaustive": True,
            "rule": "every nesting of the timing / call / progress helpers up to depth 3 (thorough 4) x mode x outcome of the wrapped body (values, errors, interrupts): result or exception object, arguments, number of runs, and the exact sequence of start/finish/failure lines; "
                    "all progress counts of totals up to 40 (and 100, 1000) x frequency"}
