"""S01: the logging state machine, explored over all operation sequences and environments."""
import contextlib, importlib, io, itertools, logging, os, re, shutil, sys, tempfile
import numpy as np
from .. import common as C

LV = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
ENVV = ("MAREX_LOG_LEVEL", "MAREX_LOG_FILE", "MAREX_VERBOSE", "MAREX_QUIET")


class LogModel:
    """what the documentation promises; state = (mode, level, format, destinations)"""
    def __init__(self, env):
        self.env = env
        self.configured = False
        self.mode, self.level, self.fmt, self.console, self.file = "normal", None, None, None, None

    def configure(self, level=None, format_str=None, date_format=None, log_file=None, console_output=True, verbose=None, quiet=None):
        e = self.env
        verbose = e.get("MAREX_VERBOSE", "").lower() in ("true", "1", "yes") if verbose is None else verbose
        quiet = e.get("MAREX_QUIET", "").lower() in ("true", "1", "yes") if quiet is None else quiet
        self.mode = "quiet" if quiet else "verbose" if verbose else "normal"
        if level is None:
            level = {"quiet": 30, "verbose": 10}.get(self.mode, LV.get(e.get("MAREX_LOG_LEVEL", "INFO").upper(), 20))
        elif isinstance(level, str):
            level = LV.get(level.upper(), 20)
        self.level = level
        self.fmt = format_str or self.mode
        self.console = console_output
        self.file = log_file if log_file is not None else e.get("MAREX_LOG_FILE")
        self.configured = True

    def state(self):
        return (self.configured, self.mode, self.level, self.fmt, self.console, self.file)


CUSTOM = "<%(name)s|%(levelname)s|%(message)s>"
DATED = "%(asctime)s %(levelname)s %(message)s"
# op name -> (how to call the real module, keyword arguments of the equivalent configure call)
OPS = {
    "configure()": {}, "configure(verbose)": dict(verbose=True), "configure(quiet)": dict(quiet=True),
    "configure(verbose,quiet)": dict(verbose=True, quiet=True), "configure(level=ERROR)": dict(level=40), "configure(level='debug')": dict(level="debug"),
    "configure(level='nonsense')": dict(level="nonsense"), "configure(quiet,level=INFO)": dict(quiet=True, level=20),
    "configure(file)": dict(log_file="A"), "configure(file2,no console)": dict(log_file="sub/dir/B", console_output=False),
    "configure(date)": dict(format_str=DATED, date_format="at %d/%m"), "configure(no console)": dict(console_output=False), "configure(verbose,level=WARNING)": dict(verbose=True, level=30),
    "configure(format)": dict(format_str=CUSTOM), "setup_logging(verbose,file)": dict(verbose=True, log_file="A"),
    "set_verbose_mode()": dict(verbose=True, quiet=False), "set_verbose_mode(False)": dict(verbose=False, quiet=False),
    "set_quiet_mode()": dict(quiet=True, verbose=False), "set_quiet_mode(False)": dict(quiet=False, verbose=False),
    "set_normal_logging()": dict(verbose=False, quiet=False), "get_logger()": None, "get_logger(child)": None,
    "tracker(quiet)": dict(verbose=None, quiet=True), "tracker(verbose)": dict(verbose=True, quiet=None),
}
BASIC = [o for o in OPS if not o.startswith("tracker")]


def a_tracker(mx, **kw):
    import xarray as xr
    a = np.zeros((2, 2, 4), bool); a[:, 0, 0] = True
    co = {"time": np.array(["2000-01-01", "2000-01-02"], "datetime64[ns]"), "lat": [0.0, 10.0], "lon": np.arange(4) * 90.0}
    da = xr.DataArray(a, dims=("time", "lat", "lon"), coords=co).chunk({"time": 1})
    m = xr.DataArray(np.ones((2, 4), bool), dims=("lat", "lon"), coords={k: co[k] for k in ("lat", "lon")})
    return mx.tracker(da, m, R_fill=0, area_filter_absolute=1, coordinate_units="degrees", **kw)


def apply_op(mx, L, op, d):
    kw = dict(OPS[op] or {})
    if isinstance(kw.get("log_file"), str):
        kw["log_file"] = os.path.join(d, kw["log_file"])
    if op.startswith("configure("):
        mx.configure_logging(**kw)
    elif op.startswith("setup_logging"):
        L.setup_logging(**kw)
    elif op.startswith("set_verbose_mode"):
        mx.set_verbose_mode(*([False] if "False" in op else []))
    elif op.startswith("set_quiet_mode"):
        mx.set_quiet_mode(*([False] if "False" in op else []))
    elif op == "set_normal_logging()":
        mx.set_normal_logging()
    elif op == "get_logger()":
        mx.get_logger()
    elif op == "get_logger(child)":
        mx.get_logger("marEx.some.module")
    else:
        a_tracker(mx, **{k: v for k, v in kw.items() if v})


class Root(logging.Handler):
    def __init__(self):
        super().__init__(0); self.seen = []

    def emit(self, rec):
        self.seen.append(rec.getMessage())


def line_ok(line, fmt, name, level, msg):
    if fmt == CUSTOM:
        return line == f"<{name}|{level}|{msg}>"
    if fmt == DATED:
        return re.fullmatch(rf"at \d\d/\d\d {level} " + re.escape(msg), line) is not None
    if fmt == "quiet":
        return line == f"{level} - {msg}"
    head = rf"\d{{4}}-\d\d-\d\d \d\d:\d\d:\d\d - {re.escape(name)} - {level} - \[PID:{os.getpid()}\] - "
    if fmt == "normal":
        return re.fullmatch(head + re.escape(msg), line) is not None
    return re.fullmatch(head + r"\w+:\d+ - " + re.escape(msg), line) is not None


def probe(mx, L, m, d, out, root):
    """-> None or what is wrong in this state"""
    for q, v in (("get_verbosity_level", m.mode), ("is_verbose_mode", m.mode == "verbose"), ("is_quiet_mode", m.mode == "quiet")):
        got = getattr(mx, q)()
        if got != v:
            return f"{q}() is {got!r}, expected {v!r}"
    if not m.configured:
        return None
    lg = logging.getLogger("marEx")
    if lg.getEffectiveLevel() != m.level or logging.getLogger("marEx.x").getEffectiveLevel() != m.level:
        return f"effective level {lg.getEffectiveLevel()}, expected {m.level}"
    path = m.file if m.file is None or os.path.isabs(m.file) else os.path.join(d, m.file)
    old = {}
    for f in ("A", "sub/dir/B", "E"):
        p = os.path.join(d, f)
        old[p] = os.path.getsize(p) if os.path.exists(p) else 0
    out.seek(0); out.truncate(0); root.seen.clear()
    sent = []
    for name in ("marEx", "marEx.track"):
        for lv, n in LV.items():
            msg = f"probe {name} {lv}"
            mx.get_logger(name).log(n, msg)
            if n >= m.level:
                sent.append((name, lv, msg))
    with contextlib.suppress(KeyError):
        with L.log_timing(mx.get_logger("marEx.t"), "an operation"):
            raise KeyError("k")
    if m.level <= 20:
        sent.append(("marEx.t", "INFO", "Starting an operation"))
    tail = m.level <= 40
    for h in lg.handlers:
        h.flush()
    dest = {"console": out.getvalue()} if m.console else {}
    if not m.console and out.getvalue():
        return "console output although it is switched off"
    for p, n in old.items():
        txt = open(p).read()[n:] if os.path.exists(p) else ""
        if p == path:
            dest["file"] = txt
        elif txt:
            return f"messages written to {os.path.basename(p)}, which is no longer a destination"
    if path is not None and not os.path.exists(path):
        return f"log file {m.file} was not created"
    for w, txt in dest.items():
        lines = txt.splitlines()
        if tail:
            if not lines or "Failed an operation after" not in lines[-1]:
                return f"{w}: failure of a timed operation is not reported"
            lines = lines[:-1]
        if len(lines) != len(sent):
            return f"{w}: {len(lines)} messages for {len(sent)} sent at level {m.level} or above"
        for ln, s in zip(lines, sent):
            if not line_ok(ln, m.fmt, *s):
                return f"{w}: line {ln!r} is not message {s} in {m.fmt} format"
    if root.seen:
        return f"messages also reach the root logger: {root.seen[:2]}"
    out.seek(0); out.truncate(0)
    L.log_progress(mx.get_logger("marEx"), 5, 10, "Op")
    vis = m.mode == "normal" and m.level <= 20 or m.mode == "verbose" and m.level <= 10
    if m.console and bool(out.getvalue()) != vis:
        return f"log_progress shown={bool(out.getvalue())} in mode {m.mode} at level {m.level}"
    with contextlib.redirect_stderr(io.StringIO()):
        bar = L.create_progress_bar(total=3)
        if bar is not None:
            bar.close()
    if (bar is None) != (m.mode == "quiet") and L.HAS_TQDM:
        return f"progress bar {'absent' if bar is None else 'shown'} in mode {m.mode}"
    return None


def s01_task(env, first, depth, ops):
    mx = C.load()
    import marEx.logging_config as L
    r = C.result()
    logging.disable(logging.NOTSET)
    saved = {k: os.environ.get(k) for k in ENVV}
    out, root = io.StringIO(), Root()
    lg = logging.getLogger("marEx")
    logging.getLogger().addHandler(root)
    real_stdout = sys.stdout
    last = logging.lastResort
    logging.lastResort = last_out = Root()
    last_out.setLevel(last.level)               # what the logging module would print for want of a handler
    d = tempfile.mkdtemp(dir=C.SCRATCH)
    try:
        for rest in itertools.chain.from_iterable(itertools.product(ops, repeat=k) for k in range(depth)):
            seq = (first,) + rest
            for k in ENVV:
                os.environ.pop(k, None)
            e = dict(env)
            if e.get("MAREX_LOG_FILE"):
                e["MAREX_LOG_FILE"] = os.path.join(d, "E")
            os.environ.update(e)
            # fresh interpreter state of the module
            for h in list(lg.handlers):
                lg.removeHandler(h); h.close()
            lg.setLevel(0); lg.propagate = True
            for f in os.listdir(d):
                p = os.path.join(d, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            sys.stdout = out
            try:
                importlib.reload(L)
                for k in ("configure_logging", "get_logger", "set_verbose_mode", "set_quiet_mode", "set_normal_logging", "get_verbosity_level", "is_quiet_mode", "is_verbose_mode"):
                    setattr(mx, k, getattr(L, k))
                mx.track.configure_logging = L.configure_logging
                m = LogModel(e)
                bad = None
                for i, op in enumerate(seq):
                    try:
                        apply_op(mx, L, op, d)
                    except Exception as x:  # noqa: BLE001
                        bad = f"{op} raised {type(x).__name__}: {x}"; break
                    if OPS[op] is not None:
                        m.configure(**OPS[op])
                    elif op == "get_logger()" and not m.configured:
                        m.configure()
                    r["transitions"] += 1
                    r["states"].add(C.h((sorted(env.items()), m.state()[:5], bool(m.file))))
                    if i == len(seq) - 1:
                        last_out.seen.clear()
                        bad = probe(mx, L, m, d, out, root)
                        if not bad and m.configured and last_out.seen:
                            bad = f"messages reach the console although no destination is configured: {last_out.seen[:2]}"
                        r["states"].add(C.h((sorted(env.items()), m.state()[:5], bool(m.file))))
            finally:
                sys.stdout = real_stdout
            r["evals"] += 1; r["traces"] += 1
            r["distinct"].add((str(env), seq[-2:], m.mode))
            if bad:
                r["viol"].append({"what": f"after {' ; '.join(seq)} (environment {env}): {bad}", "case": {"env": env, "ops": seq}})
                if len(r["viol"]) > 10:
                    break
    finally:
        sys.stdout = real_stdout
        logging.lastResort = last
        logging.getLogger().removeHandler(root)
        for h in list(lg.handlers):
            lg.removeHandler(h); h.close()
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        logging.disable(logging.CRITICAL)
        shutil.rmtree(d, ignore_errors=True)
    r["samples"] = [{"env": env, "ops": [first]}]
    return r


def s01(tier):
    th = tier == "thorough"
    envs = [{}, {"MAREX_LOG_LEVEL": "error"}, {"MAREX_LOG_LEVEL": "bogus"}, {"MAREX_VERBOSE": "1"}, {"MAREX_QUIET": "Yes"}, {"MAREX_VERBOSE": "true", "MAREX_QUIET": "true"},
            {"MAREX_LOG_FILE": "E"}, {"MAREX_LOG_FILE": "E", "MAREX_QUIET": "1"}]
    tasks = [({}, f, 4 if th else 3, BASIC) for f in BASIC]
    tasks += [(e, f, 3 if th else 2, BASIC) for e in envs[1:] for f in BASIC]
    tasks += [(e, f, 3 if th else 2, list(OPS)) for e in envs[:1] for f in OPS]
    tot = C.run_tasks(s01_task, tasks)
    return {"level": "model_checking", "total": tot,
            "rule": "every sequence of logging operations up to the depth, from a freshly imported module, in every environment of the menu, replayed on the real module and on the explicit-state model; "
                    "in the reached state the mode queries, level, destinations, format, delivery exactly once, progress output are probed"}
