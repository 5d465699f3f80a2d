"""S03: the library's errors as objects with a history (construct, extend, ship between processes), and S05: dependency reporting."""
import copy, importlib, importlib.util, itertools, pickle, re, subprocess, sys, warnings
from .. import common as C

MAP = {"ValueError": "DataValidationError", "RuntimeError": "ProcessingError", "TypeError": "DataValidationError", "KeyError": "ConfigurationError",
       "AttributeError": "ConfigurationError", "ImportError": "DependencyError", "ModuleNotFoundError": "DependencyError"}
CODES = {"DataValidationError": "DATA_VALIDATION", "CoordinateError": "COORDINATE_ERROR", "ProcessingError": "PROCESSING_ERROR", "ConfigurationError": "CONFIGURATION_ERROR",
         "DependencyError": "DEPENDENCY_ERROR", "TrackingError": "TRACKING_ERROR", "VisualisationError": "VISUALISATION_ERROR", "MarExError": None}
OPS = ["sugg", "ctx", "ctx-over", "pickle", "copy"]


def probe(err, m):
    """complaint or None: err against model m (message, details, suggestions, code, context)"""
    if (err.message, err.details, list(err.suggestions), err.error_code, dict(err.context)) != (m["message"], m["details"], m["suggestions"], m["code"], m["context"]):
        return f"fields are {(err.message, err.details, err.suggestions, err.error_code, err.context)}, expected {m}"
    s = str(err)
    parts = [m["message"], m["details"] or "", m["code"] or ""] + list(m["suggestions"]) + [str(k) for k in m["context"]] + [str(v) for v in m["context"].values()]
    for p in parts:
        if p not in s:
            return f"text lacks {p!r}: {s!r}"
    for stale in m["gone"]:
        if stale in s:
            return f"text still shows the replaced {stale!r}: {s!r}"
    return None


def s03_task(classes, depth):
    C.load()
    import marEx.exceptions as X
    import marEx
    r = C.result()
    for cn in classes:
        cls = getattr(X, cn)
        if not issubclass(cls, X.MarExError) or not issubclass(cls, Exception) or getattr(marEx, cn) is not cls:
            r["viol"].append({"what": f"{cn} is not in the hierarchy", "case": {"class": cn}}); continue
        if cls.__mro__[1] is not (X.MarExError if cn != "MarExError" else Exception):
            r["viol"].append({"what": f"{cn} derives from {cls.__mro__[1].__name__}", "case": {"class": cn}})
        maker = {"DataValidationError": ("create_data_validation_error", "data_info"), "CoordinateError": ("create_coordinate_error", None),
                 "ProcessingError": ("create_processing_error", "computation_info")}.get(cn)
        for det, sg, code, cx, via in itertools.product([None, "the details"], [None, [], ["do A", "do B"]], [None, "X17"], [None, {}, {"shape": (3, 4), "n": 0}], ["class", "maker"] if maker else ["class"]):
            for ops in itertools.chain.from_iterable(itertools.product(OPS, repeat=n) for n in range(depth + 1)):
                kw = {}
                if det is not None:
                    kw["details"] = det
                s0 = None if sg is None else list(sg)
                c0 = None if cx is None else dict(cx)
                if s0 is not None:
                    kw["suggestions"] = s0
                if code is not None:
                    kw["error_code"] = code
                if c0 is not None:
                    kw["context"] = c0
                m = dict(message="it broke", details=det, suggestions=list(sg or []), code=code or CODES[cn], context=dict(cx or {}), gone=[])
                case = {"class": cn, "kwargs": repr(kw), "via": via, "ops": list(ops)}
                r["evals"] += 1; r["traces"] += 1; r["transitions"] += len(ops) + 1
                with C.real(f"{cn} {case}"):
                    if via == "maker":
                        fn = getattr(X, maker[0])
                        if maker[1]:
                            err = fn("it broke", **{maker[1]: {"mem": "12 GB"}}, **kw); m["context"]["mem"] = "12 GB"
                        else:
                            err = fn("it broke", coordinate_ranges={"lat": (-91, 5)}, detected_system="polar", **kw)
                            m["context"].update(coordinate_ranges={"lat": (-91, 5)}, detected_system="polar")
                    else:
                        err = cls("it broke", **kw)
                    orig = None
                    for i, op in enumerate(ops):
                        if op == "sugg":
                            err.add_suggestion(f"later {i}"); m["suggestions"].append(f"later {i}")
                        elif op == "ctx":
                            err.add_context(f"k{i}", f"v{i}"); m["context"][f"k{i}"] = f"v{i}"
                        elif op == "ctx-over":
                            old = m["context"].get("over")
                            err.add_context("over", f"value-{i}-"); m["context"]["over"] = f"value-{i}-"
                            if old:
                                m["gone"].append(old)
                        elif op == "pickle":
                            err = pickle.loads(pickle.dumps(err))
                        else:
                            err = copy.copy(err)
                    bad = probe(err, m)
                    if not bad and type(err) is not cls:
                        bad = f"type {type(err).__name__}"
                    if not bad and (s0 != (None if sg is None else list(sg)) or c0 != (None if cx is None else dict(cx))):
                        bad = f"caller's objects changed to {s0}, {c0}"
                    if not bad:   # a fresh error of the same kind knows nothing of this one
                        bad = probe(cls("it broke"), dict(message="it broke", details=None, suggestions=[], code=CODES[cn], context={}, gone=[]))
                        bad = bad and "a new error after this one: " + bad
                r["states"].add(C.h([cn, m["suggestions"], m["context"], m["details"], m["code"]]))
                r["distinct"].add(C.h(case))
                if bad:
                    r["viol"].append({"what": bad[:600], "case": case})
        r["samples"] = [case]
    return r


def s03_wrap(_):
    C.load()
    import marEx.exceptions as X
    r = C.result()

    class Odd(ValueError):
        pass
    for exc in [ValueError("v"), RuntimeError("r"), TypeError("t"), KeyError("k"), AttributeError("a"), ImportError("i"), ModuleNotFoundError("mnf"), OSError("o"), ZeroDivisionError("z"), Odd("odd"), X.TrackingError("tr")]:
        for msg, typ in itertools.product([None, "friendly"], [None] + [getattr(X, k) for k in CODES]):
            with C.real("wrap_exception"):
                w = X.wrap_exception(exc, msg, typ)
            r["evals"] += 1
            n = type(exc).__name__
            want = typ or getattr(X, MAP.get(n, "MarExError"))
            case = {"original": n, "message": msg, "type": typ and typ.__name__}
            r["distinct"].add(C.h(case))
            bad = None
            if type(w) is not want:
                bad = f"wrapped as {type(w).__name__}, expected {want.__name__}"
            elif w.__cause__ is not exc:
                bad = "original is not the cause"
            elif (msg or str(exc)) not in str(w) or n not in str(w) or str(exc) not in str(w):
                bad = f"text {str(w)!r} lacks the message or the original"
            if bad:
                r["viol"].append({"what": bad, "case": case})
    return r


def s03_dispatch(kind, *a):
    return s03_task(*a) if kind == "t" else s03_wrap(*a)


def s03(tier):
    d = 4 if tier == "thorough" else 3
    tot = C.run_tasks(s03_dispatch, [("t", [c], d) for c in CODES] + [("w", 0)])
    return {"level": "model_checking", "total": tot, "exhaustive": True,
            "rule": "every error class x optional parts (details, suggestions, code, context; absent, empty, given) x constructor helper x every sequence of later operations (add suggestion, add/replace context, pickle round trip, copy) "
                    "up to depth 3 (thorough 4) against a model of its fields: attributes, text, type, caller's objects, independence of later errors; every wrapping of built-in errors by type and message"}


# ---------------------------------------------------------------- S05 dependencies
MODS = {"jax": "jax", "jaxlib": "jaxlib", "dask_jobqueue": "dask_jobqueue", "psutil": "psutil", "matplotlib": "matplotlib", "cartopy": "cartopy", "seaborn": "seaborn", "cmocean": "cmocean", "pillow": "PIL"}
CHILD = r'''
import sys, json, itertools, importlib.util, importlib.machinery, builtins, io, contextlib, warnings
warnings.simplefilter("ignore")
path, spec_lo, spec_hi = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
MODS = json.loads(sys.argv[4])
names = list(MODS)
hidden = set()
class Block(importlib.machinery.PathFinder):
    pass
present = set()
class Finder:
    """answers for the nine optional modules only: present ones are empty modules, hidden ones are not found"""
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in MODS.values():
            if top in hidden:
                raise ModuleNotFoundError("No module named %r (hidden)" % name, name=name)
            return importlib.machinery.ModuleSpec(name, Loader(), is_package=True)
        return None
class Loader:
    def create_module(self, spec): return None
    def exec_module(self, module): pass
sys.meta_path.insert(0, Finder())
real_find = importlib.util.find_spec
def find_spec(name, package=None):
    if name.split(".")[0] in hidden: return None
    return real_find(name, package)
importlib.util.find_spec = find_spec
out = []
for code in range(spec_lo, spec_hi):
    hidden.clear(); hidden.update(MODS[n] for i, n in enumerate(names) if not code >> i & 1)
    for m in list(sys.modules):
        if m.split(".")[0] in MODS.values(): del sys.modules[m]
    s = importlib.util.spec_from_file_location("deps_under_test", path)
    d = importlib.util.module_from_spec(s)
    row = {"code": code}
    try:
        s.loader.exec_module(d)
        row["has"] = [bool(d.has_dependency(n)) for n in names]
        row["unknown"] = bool(d.has_dependency("no_such_thing"))
        row["profile"] = d.get_installation_profile()
        b = io.StringIO()
        with contextlib.redirect_stdout(b): d.print_dependency_status()
        row["status"] = b.getvalue()
        req = []
        for k in (0, 1, 2, 3, len(names)):
            for c in itertools.combinations(names, k):
                try: d.require_dependencies(list(c), "Feature"); req.append((c, None))
                except ImportError as e: req.append((c, str(e)))
        for c in (("no_such_thing",), ("matplotlib", "no_such_thing"), ("no_such_thing", "jax", "cartopy")):
            try: d.require_dependencies(list(c), "Feature"); req.append((c, None))
            except ImportError as e: req.append((c, str(e)))
        row["req"] = req
        row["warned"] = []
        for n in names:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                d.warn_missing_dependency(n, "Plots")
            row["warned"].append([str(x.message) for x in w])
    except Exception as e:
        row["error"] = repr(e)
    out.append(row)
print(json.dumps(out))
'''


def s05_task(lo, hi):
    import json, os
    r = C.result()
    names = list(MODS)
    p = subprocess.run([sys.executable, "-c", CHILD, os.path.join(C.REPO, "marEx", "_dependencies.py"), str(lo), str(hi), json.dumps(MODS)], capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    for row in json.loads(p.stdout.strip().splitlines()[-1]):
        code = row["code"]
        have = {n: bool(code >> i & 1) for i, n in enumerate(names)}
        case = {"available": [n for n in names if have[n]]}
        r["evals"] += 1; r["distinct"].add(code); r["samples"] = [case]
        bad = None
        if "error" in row:
            bad = "importing the dependency module failed: " + row["error"]
        elif row["has"] != [have[n] for n in names] or row["unknown"]:
            bad = f"reported available: {[n for n, h in zip(names, row['has']) if h]}"
        else:
            full = all(have[n] for n in ("jax", "jaxlib", "dask_jobqueue", "seaborn", "cmocean"))
            want = "full" if full else "plotting" if have["seaborn"] and have["cmocean"] else "hpc" if have["dask_jobqueue"] and have["psutil"] else "performance" if have["jax"] and have["jaxlib"] else "minimal"
            if row["profile"] != want:
                bad = f"profile {row['profile']}, expected {want}"
            for c, e in row["req"]:
                miss = [n for n in c if not have.get(n)]
                named = set(re.findall(r"[A-Za-z_]+", (e or "").split("Install with")[0]))
                if bool(miss) != (e is not None) or (e and "Feature" not in e) or {n for n in c if n in named} != set(miss):
                    bad = f"requiring {c}: {e!r}, missing are {miss}"
            for n, w in zip(names, row["warned"]):
                if bool(w) == have[n] or len(w) > 1 or any(n not in x for x in w):
                    bad = f"warnings about {n} ({'present' if have[n] else 'missing'}): {w}"
            seen = {}
            for line in row["status"].splitlines():
                w = line.split()
                if w and w[0] in have:
                    seen[w[0]] = "Available" in line and "Missing" not in line
            if seen != have:
                bad = f"status report shows {seen}, expected {have}"
        if bad:
            r["viol"].append({"what": bad, "case": case})
    return r


def s05(tier):
    n = 1 << len(MODS)
    tot = C.run_tasks(s05_task, [(i, i + 64) for i in range(0, n, 64)])
    return {"level": "exploration", "total": tot, "exhaustive": True,
            "rule": "all 512 combinations of present/absent optional packages (import system controlled in a child process): availability, required-feature errors naming exactly the missing ones, profile, status report"}
