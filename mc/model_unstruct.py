"""Reference model of unstructured tracking on one patch history (sequential reading of the rules)."""
import math


def comps(cells, nb):
    cells = set(cells); out = []
    for c in sorted(cells):
        if c not in cells:
            continue
        comp, st = set(), [c]; cells.discard(c)
        while st:
            a = st.pop(); comp.add(a)
            for k in range(3):
                b = int(nb[k][a])
                if b >= 0 and b in cells:
                    cells.discard(b); st.append(b)
        out.append(comp)
    return out


def gc(lat1, lon1, lat2, lon2):
    a, b, c, d = map(math.radians, (lat1, lon1, lat2, lon2))
    s = math.sin((c - a) / 2) ** 2 + math.cos(a) * math.cos(c) * math.sin((d - b) / 2) ** 2
    return 2 * math.atan2(math.sqrt(s), math.sqrt(max(0, 1 - s)))


class UModel:
    def __init__(self, hist, nb, lat, lon, area, thr=0.5, nn=True, tie=None):
        self.nb, self.lat, self.lon, self.area, self.thr, self.nn = nb, lat, lon, area, thr, nn
        self.tie = tie or (lambda k: k[0]); self.ties = 0
        self.merges = []
        n = 1
        S = []
        for cells in hist:
            d = {}
            for c in comps(cells, nb):
                d[n] = c; n += 1
            S.append(d)
        self._new = 10 ** 6
        for t in range(1, len(S)):
            cur = S[t]
            for c in sorted(cur):
                par = [p for p in sorted(S[t - 1]) if self.link(S[t - 1][p], cur[c])]
                if len(par) < 2:
                    continue
                ids = [c] + [self._new + i for i in range(len(par) - 1)]; self._new += len(par) - 1
                self.merges.append((t, list(par), ids, [self.A(S[t - 1][p] & cur[c]) for p in par]))
                parts = self.split([S[t - 1][p] for p in par], cur[c])
                del cur[c]
                for i, p in zip(ids, parts):
                    if p:
                        cur[i] = p
        self.S = S
        self.finish()

    def A(self, s):
        return sum(float(self.area[c]) for c in s)

    def link(self, p, c):
        o = p & c
        return bool(o) and self.A(o) / min(self.A(p), self.A(c)) >= self.thr - 1e-9

    def cent(self, s):
        x = y = z = 0.0
        for c in s:
            la, lo, w = math.radians(self.lat[c]), math.radians(self.lon[c]), float(self.area[c])
            x += w * math.cos(la) * math.cos(lo); y += w * math.cos(la) * math.sin(lo); z += w * math.sin(la)
        r = math.sqrt(x * x + y * y + z * z)
        return math.degrees(math.asin(z / r)), math.degrees(math.atan2(y, x))

    def hops(self, s):
        d = {c: 0 for c in s}; fr = list(s)
        while fr:
            nx = []
            for a in fr:
                for k in range(3):
                    b = int(self.nb[k][a])
                    if b >= 0 and b not in d:
                        d[b] = d[a] + 1; nx.append(b)
            fr = nx
        return d

    def split(self, parents, child):
        parts = [set() for _ in parents]
        if self.nn:
            hs = [self.hops(p) for p in parents]
        else:
            cs = [self.cent(p) for p in parents]
        for c in sorted(child):
            ds = [h.get(c, math.inf) for h in hs] if self.nn else [gc(self.lat[c], self.lon[c], *q) for q in cs]
            m = min(ds)
            best = [i for i, d in enumerate(ds) if d - m < (1e-9 if self.nn else 2e-5)]
            if len(best) > 1:
                self.ties += 1
                parts[self.tie(best)].add(c)
            else:
                parts[best[0]].add(c)
        return parts

    def finish(self):
        par = {(t, o): (t, o) for t, s in enumerate(self.S) for o in s}

        def find(a):
            while par[a] != a:
                a = par[a]
            return a
        self.multi = False
        for t in range(1, len(self.S)):
            for c in self.S[t]:
                k = 0
                for p in self.S[t - 1]:
                    if self.link(self.S[t - 1][p], self.S[t][c]):
                        k += 1
                        a, b = find((t - 1, p)), find((t, c))
                        if a != b:
                            par[max(a, b)] = min(a, b)
                if k > 1:
                    self.multi = True
        ev = {}
        for t, s in enumerate(self.S):
            for o, cells in s.items():
                ev.setdefault(find((t, o)), set()).update((t, c) for c in cells)
        self.event_of = {(t, o): find((t, o)) for t, s in enumerate(self.S) for o in s}
        self.event_cells = {k: frozenset(v) for k, v in ev.items()}
        self.events = frozenset(self.event_cells.values())
