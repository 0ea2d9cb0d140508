"""Distances (C15, C16) and series objects (C17, C23)."""
import itertools
import random
from fractions import Fraction as F

import gen
import project
import simple

T = project.Tables()
TIGHT = dict(rel=F(1, 10 ** 9), abst=F(1, 10 ** 11))
LOOSE = dict(rel=F(3, 10 ** 5), abst=F(1, 10 ** 6))       # single precision
INFI = {"inf": True, "lo": [], "hi": [], "e": 24}


def iv(x, scale=1):
    return T.interval(float(x) / scale, **TIGHT)


def fmt(v, u, scale=1):
    return repr(v / u * scale) if u != 1 or scale != 1 else str(v)


class DistTrace(simple.STrace):
    """Series objects that keep their points, and distances between them."""
    def __init__(self, tid, scale=1):
        super().__init__(tid)
        self.k = 0
        self.nb = 0
        self.scale = scale       # the unit of values, a power of two
        self.s = {}
        self.r = (1, 10)

    def own(self, v, u):
        k = self.k
        self.k += 1
        self.add("own %d %s" % (k, " ".join(fmt(x, u, self.scale) for x in v)))
        self.s[k] = (v, u)
        return k

    def views(self, v, u, parts):
        """A buffer and views into it."""
        b = self.nb
        self.nb += 1
        self.add("buf %d %s" % (b, " ".join(fmt(x, u, self.scale) for x in v)))
        out = []
        for s, e in parts:
            k = self.k
            self.k += 1
            self.add("view %d %d %d %d %d" % (k, b, 3, s, e))
            self.s[k] = (v[s:e], u)
            out.append(k)
        return out

    def ratio(self, r):
        self.r = (r[1], r[2])
        self.add("ratio %s" % r[0])

    def dist(self, op, a, b, cut="inf"):
        (va, ua), (vb, ub) = self.s[a], self.s[b]
        u = project.lcm(ua, ub)
        ev = {"op": op, "a": [x * (u // ua) for x in va], "b": [x * (u // ub) for x in vb], "u": u, "rn": self.r[0], "rd": self.r[1],
              "cut": INFI, "res": INFI}

        def fin(e, r):
            if "d" in r:
                e["res"] = iv(r["d"], self.scale)
                e["cut"] = iv(r["cut"], self.scale)
        if self.scale != 1 and cut != "inf" and cut[0] != "*":
            cut = repr(float(cut) * self.scale)
        self.add("%s %d %d %s" % (op, a, b, cut), ev, fin)


OPS15 = ["pw", "wp", "npw", "nwp", "cc"]


def smalls(vals, lmax):
    return [list(v) for l in range(1, lmax + 1) for v in itertools.product(vals, repeat=l)]


def exhaustive(pre, vals, lmax, ratios, ops, cuts=("inf",), u=1, pairs=None, rng=None):
    """All pairs of small series."""
    S = smalls(vals, lmax)
    P = [(a, b) for a in S for b in S]
    if pairs and len(P) > pairs:
        P = rng.sample(P, pairs)
    out, t = [], None
    for n, (a, b) in enumerate(P):
        if n % 25 == 0:
            t = DistTrace("%s%d" % (pre, n // 25))
            out.append(t)
        x, y = t.own(a, u), t.own(b, u)
        for r in ratios:
            t.ratio(r)
            for op in ops:
                for c in cuts:
                    t.dist(op, x, y, c)
    return out


def row(rng, L, style):
    return [int(x * 20) if x.denominator != 1 else int(x) for x in gen.values(rng, 1, L, style)[0]]


STY = ["tiny", "small", "neg", "walk", "walk", "ramp", "spike", "extreme", "big", "rows"]


def related(rng, v):
    """A series like v: shifted, stretched, noisy, equal."""
    k = rng.random()
    w = list(v)
    if k < 0.15:
        return w
    if k < 0.4:
        s = rng.randint(1, 3)
        w = w[s:] + [w[-1]] * s if rng.random() < 0.5 else [w[0]] * s + w[:-s]
    elif k < 0.6:
        i = rng.randrange(len(w))
        w = w[:i] + [w[i]] + w[i:]
    elif k < 0.75 and len(w) > 2:
        i = rng.randrange(len(w))
        w = w[:i] + w[i + 1:]
    for _ in range(rng.randint(0, 2)):
        i = rng.randrange(len(w))
        w[i] += rng.choice([-2, -1, 1, 2, 5])
    return w or [0]


def random_dists(rng, pre, count, lmax, ops, cutting, per=12, scale=1):
    out = []
    for n in range(count):
        t = DistTrace("%s%d" % (pre, n), scale)
        u = rng.choice([1, 1, 1, 2, 4, 10, 8, 3])
        ks = []
        L = rng.randint(1, lmax)
        base = row(rng, L, rng.choice(STY))
        for _ in range(rng.randint(2, 4)):
            k = rng.random()
            if k < 0.5:
                v = related(rng, base)
            else:
                v = row(rng, rng.randint(max(1, L - 3), L + 3) if rng.random() < 0.8 else rng.randint(1, lmax), rng.choice(STY))
            if rng.random() < 0.15:
                # views into one buffer: the same start, the same end, overlapping, one within the other
                w = v + row(rng, rng.randint(1, 4), rng.choice(STY))
                parts = []
                for _ in range(rng.randint(2, 3)):
                    x = rng.choice([0, 0, 1, 2, rng.randrange(len(w))])
                    x = min(x, len(w) - 1)
                    parts.append((x, rng.choice([len(w), min(len(w), x + len(v)), rng.randint(x + 1, len(w))])))
                ks += t.views(w, u, parts)
            elif rng.random() < 0.25:
                pad = row(rng, rng.randint(0, 4), "big") if rng.random() < 0.8 else []
                s = len(pad)
                ks += t.views(pad + v + row(rng, rng.randint(0, 3), "big"), u, [(s, s + len(v))])
            else:
                ks.append(t.own(v, u))
        t.ratio(rng.choice(gen.RATIOS))
        for _ in range(per):
            if rng.random() < 0.3:
                t.ratio(rng.choice(gen.RATIOS))
            a, b = rng.choice(ks), rng.choice(ks)
            if not cutting:
                t.dist(rng.choice(ops), a, b)
                if rng.random() < 0.3:
                    t.dist(t.steps[-1][1]["op"], b, a)
                continue
            # the exact distance first, then cutoffs around it, and those of other pairs
            op = rng.choice(["pw", "wp", "wp", "cc", "cc", "kg", "xk", "xk"])
            if op == "pw" and len(t.s[a][0]) != len(t.s[b][0]):
                op = "cc"
            c, d = (a, b) if rng.random() < 0.6 else (rng.choice(ks), rng.choice(ks))
            ref = "pw" if op == "pw" else "wp"
            if ref == "pw" and len(t.s[c][0]) != len(t.s[d][0]):
                c, d = a, b
            f = rng.choice(["*0.5", "*0.9", "*0.999999", "*1.000001", "*1.1", "*1.5", "*3", "*0.01", "inf", "0", "1e-3", "*1"])
            t.dist(ref, c, d)
            t.dist(op, a, b, f)
            if rng.random() < 0.3:      # the same again, with what is cached now
                t.dist(ref, c, d)
                t.dist(op, b, a, f)
        out.append(t)
    return out


def long_dists(rng, pre, count, lo, hi, ops, cutting):
    out = []
    for n in range(count):
        t = DistTrace("%s%d" % (pre, n))
        L = rng.randint(lo, hi)
        a = t.own(row(rng, L, rng.choice(["walk", "small", "neg"])), 1)
        b = t.own(related(rng, t.s[a][0]) if rng.random() < 0.6 else row(rng, rng.randint(max(1, L - 8), L + 8), "walk"), 1)
        for r in rng.sample([r for r in gen.RATIOS], 2):
            t.ratio(r)
            if cutting:
                t.dist("wp", a, b)
                t.dist(rng.choice(["wp", "cc", "xk", "kg"]), a, b, rng.choice(["*0.9", "*1.1", "*0.999999", "*1.000001"]))
            else:
                t.dist(rng.choice(["wp", "cc"]), a, b)
        out.append(t)
    return out


def names(pre):
    t = simple.STrace(pre + "names")
    for nm, known in [("euclidean", True), ("euclidean_dtw", True), ("", False), ("euclid", False), ("Euclidean", False), ("euclidean_", False),
                      ("dtw", False), ("euclidean_dtw ", False), (" euclidean", False), ("manhattan", False)]:
        t.add("name %s" % (nm.encode().hex() or "-"), {"op": "name", "known": known})
    for r, good in [("0", True), ("0.5", True), ("1e6", True), ("1e300", True), ("-1", False), ("-1e-9", False), ("nan", False)]:
        t.add("ratio %s" % r, {"op": "ratio", "good": good})
    return [t]


# ------------------------------------------------------------------ objects

def nums(xs, scale=1):
    out = []
    for x in xs:
        f = F(float(x) / scale)
        out.append(int(f) if f.denominator == 1 else None)
    return out


class HeapGen:
    """Random programs over series objects.  Knows which slots exist and their lengths, nothing else."""
    def __init__(self, rng, tid, nslots=5, lens=(1, 2, 3, 4, 5), env=0.3, bands=None, scale=1):
        self.rng, self.t = rng, simple.STrace(tid)
        self.scale = scale
        self.slots, self.bufs, self.n, self.lens, self.env = {}, {}, nslots, lens, env
        self.src = {}        # slot -> (buffer, start, end) of a view
        self.bands = bands

    def fin(self, e, r):
        if "slots" in r:
            e["slots"] = [{"k": s["k"], "i": s["i"], "s": s["s"], "e": s["e"], "l": s["l"], "v": nums(s["v"], self.scale)} for s in r["slots"]]
        else:
            e["slots"] = [{"k": -99, "i": 0, "s": 0, "e": 0, "l": 0, "v": []}]
        for f in ("lo", "up"):
            if f in r:
                e[f] = nums(r[f], self.scale)
        if "x" in r:
            e["x"] = nums([r["x"]], self.scale)[0]
        for f in ("lo", "up"):
            e.setdefault(f, [])
        e.setdefault("x", 0)

    def op(self, line, **ev):
        self.t.add(line, ev, self.fin)

    def txt(self, v):
        return " ".join(fmt(x, 1, self.scale) for x in v)

    def vals(self, n):
        rng = self.rng
        st = rng.choice(["small", "neg", "walk", "tiny", "spike", "ramp", "big"])
        return [int(x) for x in gen.values(rng, 1, n, st)[0]] if n else []

    def newslot(self):
        k = 0
        while k in self.slots:
            k += 1
        return k

    def step(self):
        rng = self.rng
        live = sorted(self.slots)
        kinds = []
        if len(live) < self.n:
            kinds += ["own", "own", "zero", "view", "view", "whole"] + (["copy", "copy"] if live else [])
        if live:
            kinds += ["asg", "asg", "mov", "add", "add", "set", "get", "del"] + (["setbuf"] if self.bufs else [])
            if rng.random() < self.env:
                kinds = ["env"]
        k = rng.choice(kinds)
        L = rng.choice(self.lens)
        if k in ("view", "whole") and (not self.bufs or rng.random() < 0.2):
            b = len(self.bufs)
            v = self.vals(max(1, L + rng.choice([0, 1, 2, 3, L])))
            self.bufs[b] = len(v)
            self.op("buf %d %s" % (b, self.txt(v)), op="buf", b=b, v=v)
        if k == "own":
            s = self.newslot()
            v = self.vals(L)
            self.slots[s] = L
            self.src.pop(s, None)
            self.op("own %d %s" % (s, self.txt(v)), op="own", k=s, v=v)
        elif k == "zero":
            s = self.newslot()
            self.slots[s] = L
            self.src.pop(s, None)
            self.op("zero %d %d" % (s, L), op="zero", k=s, n=L)
        elif k == "view":
            s, b = self.newslot(), rng.choice(sorted(self.bufs))
            x = rng.randint(0, self.bufs[b] - 1)
            y = rng.randint(x + 1, self.bufs[b])
            same = [j for j in live if j in self.src and self.src[j][0] == b]
            if same and rng.random() < 0.5:      # beside another view, as long as it
                _, c, d = self.src[rng.choice(same)]
                x, y = rng.choice([(d, 2 * d - c), (2 * c - d, c), (c, d)])
                if x < 0 or y > self.bufs[b]:
                    x, y = c, d
            i = rng.randint(0, 9)
            self.slots[s] = y - x
            self.src[s] = (b, x, y)
            self.op("view %d %d %d %d %d" % (s, b, i, x, y), op="view", k=s, b=b, i=i, s=x, e=y)
        elif k == "whole":
            s, b = self.newslot(), rng.choice(sorted(self.bufs))
            self.slots[s] = self.bufs[b]
            self.src[s] = (b, 0, self.bufs[b])
            self.op("whole %d %d" % (s, b), op="whole", k=s, b=b)
        elif k == "copy":
            s, j = self.newslot(), rng.choice(live)
            self.slots[s] = self.slots[j]
            self.cp(s, j)
            self.op("copy %d %d" % (s, j), op="copy", k=s, j=j)
        elif k in ("asg", "mov"):
            s, j = rng.choice(live), rng.choice(live)
            self.slots[s] = self.slots[j]
            self.cp(s, j)
            band = " %d" % rng.randint(0, self.slots[j] + 1) if k == "mov" and self.slots[j] > 0 and rng.random() < 0.5 else ""
            self.op("%s %d %d%s" % (k, s, j, band), op=k, k=s, j=j)
        elif k == "add":
            s = rng.choice(live)
            same = [j for j in live if self.slots[j] == self.slots[s]]
            j = rng.choice(same) if rng.random() < 0.8 else rng.choice(live)
            # not to partly overlapping views of one buffer: what is added would depend on the order
            if s != j and s in self.src and j in self.src and self.src[s][0] == self.src[j][0] and self.src[s] != self.src[j]:
                (_, a, b), (_, c, d) = self.src[s], self.src[j]
                if a < d and c < b:
                    return
            self.op("add %d %d" % (s, j), op="add", k=s, j=j)
        elif k == "set":
            s = rng.choice(live)
            p = rng.randint(0, max(0, self.slots[s] - 1)) if rng.random() < 0.8 else rng.choice([-1, self.slots[s], self.slots[s] + 3, -5])
            x = rng.randint(-9, 9)
            self.op("set %d %d %s" % (s, p, self.txt([x])), op="set", k=s, p=p, x=x)
        elif k == "get":
            s = rng.choice(live)
            p = rng.choice([-1, 0, self.slots[s] - 1, self.slots[s], -100, 100])
            self.op("get %d %d" % (s, p), op="get", k=s, p=p)
        elif k == "setbuf":
            b = rng.choice(sorted(self.bufs))
            p, x = rng.randrange(self.bufs[b]), rng.randint(-9, 9)
            self.op("setbuf %d %d %s" % (b, p, self.txt([x])), op="setbuf", b=b, p=p, x=x)
        elif k == "del":
            s = rng.choice(live)
            del self.slots[s]
            self.src.pop(s, None)
            self.op("del %d" % s, op="del", k=s)
        elif k == "env":
            s = rng.choice(live)
            r = rng.choice(self.bands(self.slots[s]) if self.bands else [0, 1, 1, 2, 3, self.slots[s] - 1, self.slots[s], 9])
            if self.slots[s] > 0:
                self.op("env %d %d %s" % (s, max(0, r), rng.choice("lu")), op="env", k=s, r=max(0, r))

    def cp(self, s, j):
        if j in self.src:
            self.src[s] = self.src[j]
        else:
            self.src.pop(s, None)


def programs(rng, pre, count, depth, **kw):
    out = []
    for n in range(count):
        g = HeapGen(rng, "%s%d" % (pre, n), **kw)
        while len(g.t.steps) < depth:
            g.step()
        out.append(g.t)
    return out


def envelopes(pre, rows, bands, per=20):
    """Envelopes of given rows for given bands, as owners, and as views into a longer series."""
    out, g = [], None
    for n, v in enumerate(rows):
        if n % per == 0:
            g = HeapGen(random.Random(n), "%s%d" % (pre, n // per))
            out.append(g.t)
        if n % 2 == 0:
            g.op("own 0 %s" % " ".join(map(str, v)), op="own", k=0, v=v)
        else:
            w = [50] * (n % 3) + v + [-50] * (n % 2)
            g.op("buf %d %s" % (n, " ".join(map(str, w))), op="buf", b=n, v=w)
            s = n % 3
            g.op("view 0 %d 0 %d %d" % (n, s, s + len(v)), op="view", k=0, b=n, i=0, s=s, e=s + len(v))
        for r in bands(len(v)):
            g.op("env 0 %d %s" % (r, "lu"[r % 2]), op="env", k=0, r=r)
        g.op("del 0", op="del", k=0)
    return out


def comparisons(pre, rng=None, sample=None):
    """Candidate ordering on all pairs of a small set.  Distances are given as integers in thousandths."""
    C = [(i, s, s + l, d) for i in (0, 1, 3) for s in (0, 1) for l in (1, 2) for d in (0, 1, 400, 999, 1000, 1001, 1500, 2700)]
    P = [(p, q) for p in C for q in C]
    if sample and len(P) > sample:
        P = rng.sample(P, sample)
    out, t = [], None
    for n, (p, q) in enumerate(P):
        if n % 200 == 0:
            t = simple.STrace("%s%d" % (pre, n // 200))
            out.append(t)

        def fin(e, r):
            e["lt"], e["gt"] = r["lt"], r["gt"]
        f = lambda c: {"i": c[0], "s": c[1], "l": c[2] - c[1], "d": c[3]}
        t.add("cmp %d %d %d %r %d %d %d %r" % (p[0], p[1], p[2], p[3] / 1000, q[0], q[1], q[2], q[3] / 1000),
              {"op": "cmp", "p": f(p), "q": f(q)}, fin)
    return out
