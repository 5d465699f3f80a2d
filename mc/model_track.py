"""Boring reference model of gridded tracking (allow_merging=True) on one small history.

Objects are sets of (y, x) cells.  The model follows the documented rules:
  * objects = 8-connected sets of cells in one time step (x periodic unless regional)
  * link(parent, child) iff shared cells / min(sizes) >= overlap_threshold
  * a child linked to >= 2 parents is partitioned between them (nearest parent cell, or nearest parent
    centroid), until no child has >= 2 parents; each such partition is one merge record
  * several children of one parent are consolidated into one object
  * events = connected components of the final link relation
"""
import math


def components(cells, nx, wrap):
    """8-connected components, in raster order of their first cell."""
    cells = set(cells)
    out = []
    for c in sorted(cells):
        if c not in cells:
            continue
        comp, stack = set(), [c]
        cells.discard(c)
        while stack:
            y, x = stack.pop()
            comp.add((y, x))
            for dy in (-1, 0, 1):
                for dx in (-1, 0, 1):
                    xx = x + dx
                    if wrap:
                        xx %= nx
                    n = (y + dy, xx)
                    if n in cells:
                        cells.discard(n); stack.append(n)
        out.append(frozenset(comp))
    return out


def mean_index(xs, ws, nx, wrap):
    """(weighted mean column, unambiguous?) on the periodic axis: cut at the widest gap."""
    if not wrap:
        s = sum(ws)
        return sum(x * w for x, w in zip(xs, ws)) / s, True
    cols = sorted(set(xs))
    gaps = [((cols[(i + 1) % len(cols)] - c) if i + 1 < len(cols) else cols[0] + nx - c) for i, c in enumerate(cols)]
    g = max(gaps)
    # prefer the cut at the grid boundary, as the plain mean does
    i = len(gaps) - 1 if gaps[-1] == g else max(j for j, v in enumerate(gaps) if v == g)
    amb = gaps.count(g) > 1
    cut = cols[i]
    s = sum(ws)
    m = sum(((x - nx) if (i < len(gaps) - 1 and x > cut) else x) * w for x, w in zip(xs, ws)) / s
    return m % nx, not amb


def centroid(cells, nx, wrap):
    ys = [c[0] for c in cells]; xs = [c[1] for c in cells]
    mx, ok = mean_index(xs, [1] * len(xs), nx, wrap)
    return sum(ys) / len(ys), mx, ok


def dist(y0, x0, y1, x1, nx, wrap):
    dx = abs(x0 - x1)
    if wrap and dx > nx / 2:
        dx = nx - dx
    return math.hypot(y0 - y1, dx)


class Ambiguous(Exception):
    pass


class Model:
    def __init__(self, hist, nx, wrap=True, thr=0.5, nn=True, tie=None):
        """hist: list of iterables of (y, x) cells.  tie: callable(list of parent indices)->chosen."""
        self.nx, self.wrap, self.thr, self.nn = nx, wrap, thr, nn
        self.tie = tie or (lambda k: k[0])
        self.ties = 0
        self.merges = []          # (t, [parent objects], [child objects], [overlap sizes])
        self.slices = []          # per t: dict oid -> frozenset(cells)
        self.trace = []           # canonical states, for counting
        self._new = 10 ** 6
        self.amb_centroid = False
        self.nonconverged = False
        n = 1
        prev = {}
        for t, cells in enumerate(hist):
            cur = {}
            for c in components(cells, nx, wrap):
                cur[n] = set(c); n += 1
            cur = self.partition(t, prev, cur)
            cur = self.consolidate(prev, cur)
            self.slices.append({k: frozenset(v) for k, v in cur.items()})
            self.trace.append((tuple(sorted(map(tuple, map(sorted, prev.values())))),
                               tuple(sorted(map(tuple, map(sorted, cur.values()))))))
            prev = cur
        self.events = self.final_events()

    def links(self, prev, cur):
        out = []
        for p in sorted(prev):
            for c in sorted(cur):
                k = len(prev[p] & cur[c])
                if k and k / min(len(prev[p]), len(cur[c])) >= self.thr:
                    out.append((p, c, k))
        return out

    def choose(self, y, x, parents, prev):
        if self.nn:
            big = max(len(prev[p]) for p in parents)
            maxd = max(int(math.sqrt(big) * 3.0), 40)
            ds = [min((dist(y, x, a, b, self.nx, self.wrap) for a, b in prev[p]), default=math.inf) for p in parents]
            ds = [d if d <= maxd else math.inf for d in ds]
            if min(ds) == math.inf:
                ds = self.cdist(y, x, parents, prev)
        else:
            ds = self.cdist(y, x, parents, prev)
        m = min(ds)
        best = [i for i, d in enumerate(ds) if d - m < 1e-9]
        if len(best) > 1:
            self.ties += 1
            return self.tie(best)
        return best[0]

    def cdist(self, y, x, parents, prev):
        out = []
        for p in parents:
            cy, cx, ok = centroid(prev[p], self.nx, self.wrap)
            if not ok:
                self.amb_centroid = True
            out.append(dist(y, x, cy, cx, self.nx, self.wrap))
        return out

    def partition(self, t, prev, cur):
        cur = {k: set(v) for k, v in cur.items()}
        whole = set()                         # objects that a division leaves whole are not divided again
        for it in range(10):
            ov = self.links(prev, cur)
            multi = sorted({c for _, c, _ in ov if sum(1 for o in ov if o[1] == c) > 1} - whole)
            if not multi:
                return cur
            for c in multi:
                parents = [p for p, cc, _ in ov if cc == c]
                sizes = [k for _, cc, k in ov if cc == c]
                ids = [c] + [self._new + i for i in range(len(parents) - 1)]
                self._new += len(parents) - 1
                parts = {i: set() for i in ids}
                for (y, x) in sorted(cur[c]):
                    parts[ids[self.choose(y, x, parents, prev)]].add((y, x))
                whole |= {i for i in ids if len(parts[i]) == len(cur[c])}
                if it == 0 or not whole & set(ids):
                    self.merges.append((t, [frozenset(prev[p]) for p in parents], list(parents), ids, sizes))
                del cur[c]
                for i, s in parts.items():
                    if s:
                        cur[i] = s
        if any(True for c in {c for _, c, _ in self.links(prev, cur)} - whole
               if sum(1 for o in self.links(prev, cur) if o[1] == c) > 1):
            self.nonconverged = True
        return cur

    def consolidate(self, prev, cur):
        ov = self.links(prev, cur)
        alive = set(cur)
        for p in sorted(prev):
            ch = [c for pp, c, _ in ov if pp == p]
            if len(ch) < 2 or ch[0] not in alive:
                continue
            for c in ch[1:]:
                if c in alive:
                    cur[ch[0]] |= cur.pop(c); alive.discard(c)
        return cur

    def final_events(self):
        par = {}

        def find(a):
            while par[a] != a:
                a = par[a]
            return a
        for t, s in enumerate(self.slices):
            for o in s:
                par.setdefault((t, o), (t, o))
        for t in range(1, len(self.slices)):
            for p, c, _ in self.links(self.slices[t - 1], self.slices[t]):
                a, b = find((t - 1, p)), find((t, c))
                if a != b:
                    par[max(a, b)] = min(a, b)
        ev = {}
        for t, s in enumerate(self.slices):
            for o, cells in s.items():
                ev.setdefault(find((t, o)), set()).update((t, y, x) for y, x in cells)
        self.event_of = {(t, o): find((t, o)) for t, s in enumerate(self.slices) for o in s}
        self.event_cells = {k: frozenset(v) for k, v in ev.items()}
        return frozenset(self.event_cells.values())


def events_3d(hist, nx, wrap=True):
    """allow_merging=False: connected components with full 26-neighbourhood in (t, y, x)."""
    cells = {(t, y, x) for t, s in enumerate(hist) for y, x in s}
    out = []
    while cells:
        c = cells.pop(); comp, st = {c}, [c]
        while st:
            t, y, x = st.pop()
            for dt in (-1, 0, 1):
                for dy in (-1, 0, 1):
                    for dx in (-1, 0, 1):
                        xx = (x + dx) % nx if wrap else x + dx
                        n = (t + dt, y + dy, xx)
                        if n in cells:
                            cells.discard(n); comp.add(n); st.append(n)
        out.append(frozenset(comp))
    return frozenset(out)
