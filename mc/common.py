"""Shared machinery: environment, real-code loading, worker pool, evidence, replay, known findings.

Importing this module must be the first thing a check does: it fixes every source of
nondeterminism we own (threads, hash seed, scheduler) before marEx is imported from /repo.
"""
import os, sys

ENV = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1", "NUMBA_THREADING_LAYER": "workqueue",
}
if any(os.environ.get(k) != v for k, v in ENV.items()) and not os.environ.get("MC_REEXEC"):
    os.environ.update(ENV); os.environ["MC_REEXEC"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])

import contextlib, io, json, shutil, tempfile, time, traceback, warnings, atexit, signal, hashlib
import multiprocessing as mp

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

_OWNER = os.getpid()
SCRATCH = tempfile.mkdtemp(prefix="marex_mc_")


def _cleanup():
    if os.getpid() == _OWNER:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))

NPROC = int(os.environ.get("MC_PROCS", str(min(8, os.cpu_count() or 1))))
_marex = None


def load():
    """Import the real marEx from /repo with the dask scheduler under our control."""
    global _marex
    if _marex is not None:
        return _marex
    import distributed, dask.distributed
    distributed.wait = lambda *a, **k: None           # no cluster: everything is computed synchronously
    dask.distributed.wait = distributed.wait
    import dask
    dask.config.set(scheduler="synchronous")
    dask.config.set({"temporary-directory": SCRATCH})
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        import marEx, marEx.track, marEx.detect
    assert os.path.realpath(marEx.__file__).startswith(os.path.realpath(REPO) + "/"), marEx.__file__
    import logging
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        marEx.configure_logging(quiet=True)
    logging.disable(logging.CRITICAL)
    if hasattr(marEx.track, "time") and hasattr(marEx.track.time, "sleep"):
        class _T:                                       # the settle time before a checkpoint is not modelled
            def __getattr__(self, k): return getattr(time, k)
            @staticmethod
            def sleep(*_): return None
        marEx.track.time = _T()
    _marex = marEx
    return marEx


class RealCodeError(Exception):
    """The code under test raised where the property says it must not."""


@contextlib.contextmanager
def real(what):
    """Calls into the code under test: stdout hidden, exceptions turned into RealCodeError."""
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc(limit=-4)
            raise RealCodeError(f"{what}: {type(e).__name__}: {str(e)[:300]}\n{tb[-1500:]}") from None


# ---------------------------------------------------------------------------------------------
# results of one task: plain dicts that are merged
def result():
    return {"evals": 0, "traces": 0, "states": set(), "transitions": 0, "distinct": set(), "samples": [],
            "viol": [], "known": [], "inconclusive": 0, "notes": {}}


def merge(a, b):
    for k in ("evals", "traces", "transitions", "inconclusive"):
        a[k] += b[k]
    a["states"] |= b["states"]
    a["distinct"] |= b["distinct"]
    a["samples"] = (a["samples"] + b["samples"])[:6]
    a["viol"] += b["viol"]
    a["known"] += b["known"]
    for k, v in b["notes"].items():
        a["notes"][k] = a["notes"].get(k, 0) + v if isinstance(v, (int, float)) else v
    return a


def h(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


def malformed(e):
    """Did reading a result of the code under test fail because a variable, attribute, dimension or value is not what the public
    interface promises?  (Checks use only the public interface, so this is an answer about the code, not about the harness.)"""
    if isinstance(e, AttributeError):
        return "'Dataset' object" in str(e) or "'DataArray' object" in str(e)
    return isinstance(e, (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError))


def _child(fn, q_in, q_out):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    load()
    while True:
        item = q_in.get()
        if item is None:
            q_out.put(None)
            return
        i, args = item
        q_out.put(("start", i, os.getpid()))
        try:
            r = fn(*args)
            q_out.put(("done", i, r))
        except RealCodeError as e:
            r = result(); r["evals"] = 1
            r["viol"].append({"what": str(e), "case": {"task": fn.__name__, "args": args}})
            q_out.put(("done", i, r))
        except BaseException as e:  # noqa: BLE001
            if malformed(e):
                r = result(); r["evals"] = 1
                r["viol"].append({"what": "the result does not have the documented form: " + traceback.format_exc(limit=-3)[-900:], "case": {"task": fn.__name__, "args": args}})
                q_out.put(("done", i, r))
            else:
                q_out.put(("error", i, traceback.format_exc()))


def run_tasks(fn, tasks, budget=780, hang=400, nproc=None, warm=None):
    """Run fn(*task) for every task on a forked pool; exhaustive: every task must come back.
    warm: called once in the parent before forking, to share just-in-time compilation (its errors are ignored)"""
    tasks = list(tasks)
    total = result()
    if warm is not None:
        load()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                warm()
        except Exception:  # noqa: BLE001
            pass
    if not tasks:
        return total
    if os.environ.get("MC_SERIAL"):
        load()
        for t in tasks:
            try:
                merge(total, fn(*t))
            except RealCodeError as e:
                r = result(); r["evals"] = 1
                r["viol"].append({"what": str(e), "case": {"task": fn.__name__, "args": t}}); merge(total, r)
        return total
    ctx = mp.get_context("fork")
    q_in, q_out = ctx.Queue(), ctx.Queue()
    n = min(nproc or NPROC, len(tasks))
    for i, t in enumerate(tasks):
        q_in.put((i, t))
    for _ in range(n):
        q_in.put(None)
    procs = [ctx.Process(target=_child, args=(fn, q_in, q_out), daemon=True) for _ in range(n)]
    for p in procs:
        p.start()
    t0, left, ended, running, errors = time.time(), set(range(len(tasks))), 0, {}, []
    try:
        while left:
            try:
                m = q_out.get(timeout=2)
            except Exception:  # queue.Empty
                now = time.time()
                for i, (pid, ts) in list(running.items()):
                    dead = not any(p.pid == pid and p.is_alive() for p in procs)
                    if dead or now - ts > hang:
                        r = result(); r["evals"] = 1
                        r["viol"].append({"what": "worker died (crash in the code under test)" if dead else
                                          f"no answer from the code under test within {hang} s",
                                          "case": {"task": fn.__name__, "args": tasks[i]}})
                        merge(total, r); left.discard(i); running.pop(i)
                if now - t0 > budget:
                    print(f"internal: budget of {budget}s exhausted with {len(left)} tasks left"); raise SystemExit(3)
                if not any(p.is_alive() for p in procs) and q_out.empty():
                    if left and not running:
                        print(f"internal: workers gone with {len(left)} tasks left"); raise SystemExit(3)
                continue
            if m is None:
                ended += 1
                continue
            kind, i, payload = m
            if kind == "start":
                running[i] = (payload, time.time())
            elif kind == "done":
                running.pop(i, None); left.discard(i); merge(total, payload)
            else:
                running.pop(i, None); left.discard(i); errors.append(payload)
    finally:
        for p in procs:
            if p.is_alive() and (left or errors):
                p.terminate()
        for p in procs:
            p.join(5)
            if p.is_alive():
                p.kill()
    if errors:
        sys.stderr.write(errors[0])
        raise SystemExit(3)
    return total


# ---------------------------------------------------------------------------------------------
def known_findings(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "known"]


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.generic,)):
        return jsonable(o.item())
    if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
        return repr(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


def finish(pid, tier, level, total, t0, rule, exhaustive=True, assumptions=()):
    """Write evidence, print KNOWN-FINDING / VIOLATION lines, return the exit code."""
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    known = {k["id"]: k for k in known_findings(pid)}
    seen_known, viol = {}, list(total["viol"])
    if os.environ.get("MC_DUMP_KNOWN"):            # development aid: list the inputs of known findings
        with open(os.environ["MC_DUMP_KNOWN"], "w") as f:
            json.dump(sorted({k["input"] for k in total["known"] if "input" in k}), f)
    for k in total["known"]:
        if k["id"] in known and k.get("input") in known[k["id"]].get("inputs", [k.get("input")]):
            seen_known.setdefault(k["id"], []).append(k)
        else:
            viol.append({"what": k["what"], "case": k.get("case")})
    cov = {"rule": rule, "samples": jsonable(total["samples"][:4]), "exhaustive": bool(exhaustive),
           "inconclusive": total["inconclusive"]}
    if level == "model_checking":
        cov.update(states=len(total["states"]), transitions=total["transitions"],
                   traces_validated_against_impl=total["traces"], distinct_outcomes=len(total["distinct"]))
    else:
        cov.update(evaluations=total["evals"], distinct_nontrivial=len(total["distinct"]))
    cov.update(jsonable(total["notes"]))
    if seen_known:
        cov["known_findings_reproduced"] = {k: len(v) for k, v in seen_known.items()}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']} ({len(seen_known[k])} enumerated inputs)")
    n_ev = cov.get("evaluations", cov.get("traces_validated_against_impl"))
    print(f"{pid} [{tier}] cases={n_ev} distinct={len(total['distinct'])} states={len(total['states'])} "
          f"transitions={total['transitions']} inconclusive={total['inconclusive']} "
          f"violations={len(viol)} wall={ev['wall_s']}s notes={jsonable(total['notes'])}")
    if viol:
        viol.sort(key=lambda v: len(repr(v.get("case"))))
        path = os.path.join(EVID, "replay", f"{pid}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "violations": jsonable(viol[:20]), "count": len(viol)}, f, indent=1)
        print(f"  first: {viol[0]['what'][:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if not total["distinct"] or (n_ev or 0) == 0:
        print("internal: vacuous exploration"); return 2
    return 0
