"""A controlled task scheduler for the real code's dask graphs, with dynamic partial-order reduction.

Every graph marEx submits (compute / persist / store) is executed here one task at a time; which ready task runs next is
our choice. While a task runs we record what it writes: blocks of other tasks that change under its hands (digests of every
live block that could have been touched), and files (audit events: opened for writing, renamed, removed). Two tasks that are
not ordered by the graph and where one writes what the other reads or writes are a race; both orders of every race are run.
Tasks without a race commute, so the runs explored stand for every admissible order of the graphs' tasks."""
import contextlib, hashlib, os, re, sys
import numpy as np

HEX = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}|[0-9a-f]{6,}")
_rec = None


def _audit(ev, args):
    if _rec is None:
        return
    try:
        if ev == "open":
            p, mode, flags = args
            if isinstance(p, (str, bytes)) and not os.fsdecode(p).startswith(("/proc", "/sys", "/dev")):
                w = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) else False
                _rec.append((os.fsdecode(p), w))
        elif ev == "os.rename":
            _rec.append((os.fsdecode(args[0]), True)); _rec.append((os.fsdecode(args[1]), True))
        elif ev in ("os.remove", "os.rmdir", "os.truncate"):
            _rec.append((os.fsdecode(args[0]), True))
    except Exception:  # noqa: BLE001
        pass


_hooked = False


def hook():
    global _hooked
    if not _hooked:
        sys.addaudithook(_audit); _hooked = True


def arrays(o, depth=0):
    if isinstance(o, np.ndarray):
        yield o
    elif isinstance(o, (list, tuple)) and depth < 4:
        for x in o:
            yield from arrays(x, depth + 1)
    elif isinstance(o, dict) and depth < 4:
        for x in o.values():
            yield from arrays(x, depth + 1)
    elif type(o).__module__.startswith("xarray") and hasattr(o, "variables") or type(o).__name__ == "DataArray":
        for v in (list(o.variables.values()) if hasattr(o, "variables") else [o.variable] + [c.variable for c in o.coords.values()]):
            d = getattr(v, "_data", None)
            if isinstance(d, np.ndarray):
                yield d


def digest(o):
    hh = hashlib.blake2b(digest_size=8)
    for a in arrays(o):
        if a.dtype == object:
            hh.update(repr(a.tolist()).encode())
        else:
            hh.update(np.ascontiguousarray(a).view(np.uint8).tobytes() if a.ndim else a.tobytes())
        hh.update(str((a.shape, a.dtype)).encode())
    return hh.digest()


def name(key):
    if isinstance(key, tuple):
        return tuple(name(k) for k in key)
    return HEX.sub("#", key) if isinstance(key, str) else key


class Run:
    """policy: 'fifo' | 'lifo' | 'rev' | 'layer' | 'block' ; late / early: sets of task ids (graph number, name, ordinal)"""
    def __init__(self, policy="fifo", late=(), early=(), monitor=True):
        self.policy, self.late, self.early, self.monitor = policy, set(late), set(early), monitor
        self.g = 0
        self.tasks = 0
        self.races = []        # (task id, other id, what)
        self.hit = set()
        self.ids = []
        self.depth = 0
        self.maxready = 0
        self.widest = 0

    # ------------------------------------------------------------------ scheduler entry point
    def get(self, dsk, keys, **kw):
        import dask.local
        if self.depth:
            return dask.local.get_sync(dsk, keys, **kw)
        global _rec
        self.depth += 1
        try:
            return self._get(dsk, keys)
        finally:
            self.depth -= 1
            _rec = None

    def _get(self, dsk, keys):
        global _rec
        from dask._task_spec import convert_legacy_graph, DataNode
        from dask.core import flatten
        dsk = convert_legacy_graph(dict(dsk))
        g = self.g; self.g += 1
        deps = {k: {d for d in t.dependencies if d in dsk} for k, t in dsk.items()}
        need, stack = set(), list(flatten([keys])) if isinstance(keys, list) else [keys]
        while stack:
            k = stack.pop()
            if k not in need:
                need.add(k); stack.extend(deps[k])
        users = {k: set() for k in need}
        for k in need:
            for d in deps[k]:
                users[d].add(k)
        from dask.order import order
        rank = order({k: dsk[k] for k in need})
        seen, ident = {}, {}
        for k in (k for k in dsk if k in need):
            n = name(k)
            ident[k] = (g, n, seen.setdefault(n, 0)); seen[n] += 1
        cache, dig, files = {}, {}, {}
        waiting = {k: len(deps[k]) for k in need}
        ready = [k for k in need if not waiting[k]]
        step = 0
        ready_at = {k: 0 for k in ready}
        writes_mem = {}        # task -> set of keys whose blocks it changed
        lay = {}
        for k in sorted(need, key=lambda k: rank[k]):
            lay.setdefault(name(k[0]) if isinstance(k, tuple) else name(k), len(lay))
        depth = {}
        for k in self._topo(need, deps):
            depth[k] = 1 + max((depth[d] for d in deps[k]), default=0)

        def pref(k):
            i = ident[k]
            b = 2 if i in self.late else 0 if i in self.early or self._feeds_early(k, ident, users) else 1
            if b != 1:
                self.hit.add(i)
            p = self.policy
            if p == "fifo":
                o = rank[k]
            elif p == "rev":
                o = -rank[k]
            elif p == "lifo":
                o = (-ready_at[k], -rank[k])
            elif p == "layer":          # breadth first: every block of a stage before the next stage
                o = (depth[k], rank[k])
            else:                       # "block": depth first, the last block first
                o = (-depth[k], -rank[k])
            return (b, o) if isinstance(o, tuple) else (b, (o,))
        while ready:
            self.maxready = max(self.maxready, len(ready))
            k = min(ready, key=pref)
            ready.remove(k)
            task = dsk[k]
            compute = not isinstance(task, DataNode)
            before = {}
            if compute and self.monitor:
                for d in deps[k]:
                    if d not in dig:
                        dig[d] = digest(cache[d])
                _rec = []
            try:
                cache[k] = task({d: cache[d] for d in deps[k]})
            finally:
                acc, _rec = (_rec or []), None
            if compute:
                self.tasks += 1
                self.ids.append(ident[k])
                if self.monitor:
                    if acc:
                        files[k] = acc
                    changed = {d for d in deps[k] if digest(cache[d]) != dig[d]}
                    if changed:
                        # everything that shares memory with a changed block has changed as well
                        objs = [a for d in changed for a in arrays(cache[d])]
                        for d, v in cache.items():
                            if d != k and any(np.may_share_memory(a, b) for a in arrays(v) for b in objs):
                                changed.add(d)
                        writes_mem[k] = changed
                        for d in changed:
                            dig[d] = digest(cache[d])
            step += 1
            for u in users[k]:
                waiting[u] -= 1
                if not waiting[u]:
                    ready.append(u); ready_at[u] = step
        if self.monitor:
            self._find_races(need, deps, users, ident, writes_mem, files)

        def pick(x):
            return [pick(y) for y in x] if isinstance(x, list) else cache[x]
        return pick(keys)

    def _topo(self, need, deps):
        done, out = set(), []
        for r in need:
            stack = [(r, iter(deps[r]))]
            if r in done:
                continue
            while stack:
                k, it = stack[-1]
                for d in it:
                    if d not in done:
                        stack.append((d, iter(deps[d]))); break
                else:
                    stack.pop()
                    if k not in done:
                        done.add(k); out.append(k)
        return out

    def _feeds_early(self, k, ident, users):
        if not self.early:
            return False
        seen, st = set(), [k]
        while st:
            x = st.pop()
            for u in users[x]:
                if u not in seen:
                    if ident[u] in self.early:
                        return True
                    seen.add(u); st.append(u)
        return False

    def _ancestors(self, k, deps):
        out, st = set(), [k]
        while st:
            for d in deps[st.pop()]:
                if d not in out:
                    out.add(d); st.append(d)
        return out

    def _find_races(self, need, deps, users, ident, wm, files):
        anc = {}

        def ordered(a, b):
            for x, y in ((a, b), (b, a)):
                if x not in anc:
                    anc[x] = self._ancestors(x, deps)
                if y in anc[x]:
                    return True
            return False
        for t, ch in wm.items():
            for u in {u for c in ch for u in users.get(c, ())}:
                if u != t and not ordered(t, u):
                    self.races.append((ident[t], ident[u], "block"))
        by = {}
        for k, acc in files.items():
            for p, w in acc:
                by.setdefault(p, {}).setdefault(k, False)
                by[p][k] |= w
        for p, ks in by.items():
            ws = [k for k, w in ks.items() if w]
            for t in ws:
                for u in ks:
                    if u != t and not ordered(t, u):
                        self.races.append((ident[t], ident[u], "file"))


def explore(fn, same, policies=("fifo", "lifo", "rev", "layer", "block"), cap=40, delays=0):
    """fn(): runs the real code under the current dask configuration and returns a plain result.
    Runs every policy, then both orders of every race found, until no new race appears (or cap, reported).
    delays: additionally delay each single task of the first schedule (stride `delays`), the delay-bound-1 exploration."""
    import dask
    hook()
    ref, bad, n, todo, done = None, [], 0, [dict(policy=p) for p in policies], set()
    tasks, wide, races, truncated = 0, 0, set(), 0
    first_ids = None
    while todo:
        s = todo.pop(0)
        keyed = repr(sorted((k, sorted(map(repr, v)) if isinstance(v, (set, list, tuple)) else v) for k, v in s.items()))
        if keyed in done:
            continue
        done.add(keyed)
        if n >= cap:
            truncated += 1; continue
        r = Run(**s)
        with dask.config.set(scheduler=r.get):
            out = fn()
        n += 1; tasks += r.tasks; wide = max(wide, r.maxready)
        if ref is None:
            ref = out
            first_ids = list(r.ids)
            if delays:
                todo += [dict(policy="fifo", late={i}, monitor=False) for i in first_ids[::delays]]
        else:
            d = same(ref, out)
            if d:
                bad.append((s, d))
        for t, u, what in r.races:
            if (t, u) not in races:
                races.add((t, u))
                todo.append(dict(policy="fifo", early={t}, late={u}))
                todo.append(dict(policy="fifo", early={u}, late={t}))
    return {"ref": ref, "bad": bad, "schedules": n, "tasks": tasks, "wide": wide, "races": len(races), "truncated": truncated}
