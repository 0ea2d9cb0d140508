"""The groups of one length alone, their best group and best member under any cutoff, and the order of search (TraceSpace.tla)."""
from fractions import Fraction as F

import gen
import series
import simple
from history import hx

INT = {"inf": True, "lo": [], "hi": [], "e": 24}


class SpaceTrace(simple.STrace):
    def __init__(self, tid, u):
        super().__init__(tid)
        self.u = u
        self.groups = []        # of the last "space", as the code said (to ask about groups that exist)

    def ints(self, xs):
        out = []
        for x in xs:
            f = F(float(x)) * self.u
            out.append(int(f) if f.denominator == 1 else None)
        return out

    def ratio(self, rng):
        s, n, d = rng.choice(gen.RATIOS)
        self.add("ratio " + s, {"op": "ratio", "rn": n, "rd": d})

    def data(self, df):
        self.rows = [[int(v * self.u) for v in r] for r in df.rows]
        self.add("data %s %s" % (hx(df.path), hx(df.seps)), {"op": "data", "u": self.u, "rows": self.rows})

    def make(self, length):
        self.length = length
        self.add("make %d" % length, {"op": "make", "len": length, "count": -1}, self.got)

    def got(self, e, r):
        for k in ("count", "k", "i", "s", "e", "order", "member"):
            if k in r:
                e[k] = r[k]
        if "d" in r:
            e["d"] = series.iv(r["d"])

    def empty(self):
        self.add("empty", {"op": "empty", "count": -1}, self.got)

    def space(self, dist, thr):
        rows, u, length = self.rows, self.u, self.length

        def fin(e, r):
            self.got(e, r)
            e["gs"] = []
            for g in r.get("groups", []):
                e["gs"].append({"rep": self.ints(g["rep"]), "cnt": g["cnt"], "mem": sorted(([m["i"], m["s"]] for m in g["mem"]), key=lambda c: (c[1], c[0]))})
                ok = g["len"] == length
                for m in g["mem"]:
                    ok = ok and m["e"] == m["s"] + length and 0 <= m["i"] < len(rows) and 0 <= m["s"] <= len(rows[0]) - length \
                        and self.ints(m["v"]) == rows[m["i"]][m["s"]:m["s"] + length]
                e["whole"] = e["whole"] and ok
        s, tn, td = thr
        self.add("space %s %s" % (dist, s), {"op": "space", "dist": dist, "tn": tn, "td": td, "count": -1, "gs": [], "whole": True}, fin)

    def txt(self, a):
        return " ".join(repr(x / self.u) for x in a)

    def best(self, how, cut, a):
        self.add("best %s %s %s" % (how, cut, self.txt(a)),
                 {"op": "best", "a": a, "k": -9, "d": INT, "cut": INT if cut == "inf" else series.iv(float(cut))}, self.got)

    def inner(self, how, k, a):
        self.add("inner %s %d %s" % (how, k, self.txt(a)), {"op": "inner", "a": a, "k": k, "i": -9, "s": -9, "e": -9, "d": INT, "cut": INT}, self.got)

    def order(self, q, n):
        self.add("order %d %d" % (q, n), {"op": "order", "q": q, "n": n, "order": []}, self.got)


def query(rng, rows, u, lens):
    L = rng.choice(lens)
    r = rng.choice(rows)
    if rng.random() < 0.6 and L <= len(r):
        s = rng.randint(0, len(r) - L)
        q = list(r[s:s + L])
    else:
        q = [rng.randint(min(r) - u, max(r) + u) for _ in range(L)]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        q[rng.randrange(L)] += rng.choice([-1, 1, u, -u, 2 * u])
    return q


def traces(rng, files, pre, count, shapes):
    out = []
    for k in range(count):
        n, L = rng.choice(shapes)
        style = rng.choice(["tiny", "small", "neg", "walk", "walk", "ramp", "spike", "dyadic", "rows", "const"])
        u = 4 if style == "dyadic" else 1
        rows = gen.values(rng, n, L, style)
        df = gen.data_file(rng, files, rows, seps=" ", plain=True)
        df.rows = rows
        t = SpaceTrace("%s%d" % (pre, k), u)
        if rng.random() < 0.7:
            t.ratio(rng)
        t.data(df)
        for _ in range(rng.choice([1, 1, 2])):
            length = rng.randint(2, L)
            t.make(length)
            if rng.random() < 0.2:
                t.best("cascade", "inf", query(rng, t.rows, u, [length]))
            for again in range(rng.choice([1, 1, 1, 2])):
                if again:
                    t.empty()
                t.space(rng.choice(["euclidean", "euclidean", "euclidean_dtw"]), rng.choice(gen.THR_RAW))
                for _ in range(rng.randint(2, 6)):
                    if rng.random() < 0.3:
                        t.ratio(rng)
                    a = query(rng, t.rows, u, [length] * 3 + [max(1, length - 1), length + 1, length + 2])
                    t.best(rng.choice(["cascade", "cascade", "warped"]), rng.choice(["inf", "inf", "inf", "0.3", "0.05", "1", "0", "3"]), a)
                t.add("which 0", {"op": "which", "k": 0, "member": -1}, t.got)
                for j in (-1, 100000, 2 ** 31 - 1, -2 ** 31):
                    if rng.random() < 0.3:
                        t.add("which %d" % j, {"op": "which", "k": j, "member": -1}, t.got)
                for _ in range(3):
                    # only lengths that fit the band: others have no best member
                    t.inner(rng.choice(["cascade", "warped"]), 0, query(rng, t.rows, u, [length]))
        out.append(t)
    return out


def orders(rng, pre, top, ratios):
    out = []
    for k, (s, n, d) in enumerate(ratios):
        t = SpaceTrace("%s%d" % (pre, k), 1)
        t.add("ratio " + s, {"op": "ratio", "rn": n, "rd": d})
        for q in range(2, top):
            for m in range(1, top):
                t.order(q, m)
        out.append(t)
    return out
