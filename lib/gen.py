"""Random tables and random histories."""
import os
import random
from fractions import Fraction as F

import history
from history import Files, Trace

# Band ratios with the doubles that mean them; for every length used, floor(length * double) is the exact floor.
RATIOS = [("0", 0, 1), ("0.125", 1, 8), ("0.25", 1, 4), ("0.375", 3, 8), ("0.5", 1, 2), ("0.625", 5, 8), ("0.75", 3, 4),
          ("1", 1, 1), ("1.25", 5, 4), ("2.5", 5, 2), ("10", 10, 1), ("0.49999999999999", 499999, 1000000), ("0.33333333333", 333333, 1000000), ("0.66666666667", 666667, 1000000),
          ("0.9999999999999", 999999, 1000000), ("0.1", 1, 10), ("0.2", 1, 5), ("0.3", 3, 10), ("0.4", 2, 5)]
import math
RATIOS = [r for r in RATIOS if all(math.floor(n * float(r[0])) == (n * r[1]) // r[2] for n in range(0, 1200))]


def text_of(rng, v, plain=False, scale=1):
    """Some way of writing the rational v (a finite decimal), in units of scale."""
    if scale != 1:
        return repr(float(v) * scale)
    if v.denominator == 1:
        s = str(v.numerator)
        if plain:
            return s
        k = rng.random()
        if k < 0.75:
            return s
        if k < 0.85:
            return s + ".0"
        if k < 0.9 and v != 0:
            return s + "e0"
        if k < 0.95 and v >= 0:
            return "+" + s
        return s + "."
    d = v.denominator
    p = 0
    while (10 ** p) % d:
        p += 1
    n = abs(v.numerator) * (10 ** p // d)
    s = str(n).rjust(p + 1, "0")
    return ("-" if v < 0 else "") + s[:-p] + "." + s[-p:]


def values(rng, n, L, style):
    """n rows of L rationals."""
    if style == "tiny":
        return [[F(rng.randint(0, 2)) for _ in range(L)] for _ in range(n)]
    if style == "small":
        return [[F(rng.randint(0, 6)) for _ in range(L)] for _ in range(n)]
    if style == "neg":
        return [[F(rng.randint(-5, 4)) for _ in range(L)] for _ in range(n)]
    if style == "big":
        return [[F(rng.choice([-900, -70, 0, 3, 55, 400, 1000])) for _ in range(L)] for _ in range(n)]
    if style == "dyadic":
        return [[F(rng.randint(-8, 8), 4) for _ in range(L)] for _ in range(n)]
    if style == "decimal":
        return [[F(rng.randint(-20, 20), 10) for _ in range(L)] for _ in range(n)]
    if style == "const":
        c = F(rng.choice([0, 1, -3, 7]))
        return [[c] * L for _ in range(n)]
    if style == "rows":      # constant rows, rows repeated
        base = [[F(rng.randint(0, 4)) for _ in range(L)] for _ in range(2)]
        return [list(rng.choice(base)) for _ in range(n)]
    if style == "ramp":
        return [[F((i + j * rng.choice([1, 1, 2])) % 9) for j in range(L)] for i in range(n)]
    if style == "walk":
        out = []
        for _ in range(n):
            x = rng.randint(0, 5)
            r = []
            for _ in range(L):
                r.append(F(x))
                x = max(-4, min(9, x + rng.choice([-1, 0, 1, 2, -2])))
            out.append(r)
        return out
    if style == "spike":
        out = [[F(0)] * L for _ in range(n)]
        for _ in range(max(1, n * L // 5)):
            out[rng.randrange(n)][rng.randrange(L)] = F(rng.choice([1, 5, -5, 9]))
        return out
    if style == "extreme":   # extremes at the ends and corners
        out = [[F(rng.randint(2, 4)) for _ in range(L)] for _ in range(n)]
        out[rng.choice([0, n - 1])][rng.choice([0, L - 1])] = F(8)
        out[rng.choice([0, n - 1])][rng.choice([0, L - 1])] = F(0)
        return out
    raise ValueError(style)


STYLES = ["tiny", "small", "small", "neg", "big", "dyadic", "decimal", "const", "rows", "ramp", "walk", "walk", "spike", "extreme"]
DYADIC_STYLES = ["tiny", "small", "neg", "dyadic", "rows", "ramp", "walk", "spike", "extreme"]


class DataFile:
    def __init__(self, path, rows, seps, lead=0, nlines=None):
        self.path, self.rows, self.seps, self.lead = path, rows, seps, lead
        self.n, self.L = len(rows), len(rows[0]) if rows else 0


def data_file(rng, files, rows, seps=None, lead=0, plain=False, trailing=None, scale=1):
    """A well formed file holding rows, after lead other columns."""
    seps = seps or rng.choice([" ", " ", ",", ";", " ,", "\t", ", ;"])
    toks, lines = [], []
    for r in rows:
        line = [(False, None) if rng.random() < 0.5 else (True, F(rng.randint(0, 9))) for _ in range(lead)]
        txt = [("x%d" % rng.randint(0, 9)) if not k else text_of(rng, v, plain) for k, v in line]
        line += [(True, v) for v in r]
        txt += [text_of(rng, v, plain, scale) for v in r]
        toks.append(line)
        s = ""
        for i, t in enumerate(txt):
            if i:
                s += "".join(rng.choice(seps) for _ in range(rng.choice([1, 1, 1, 2])))
            s += t
        if (rng.random() < 0.2 if trailing is None else trailing):
            s += seps[0]
        lines.append(s)
    end = "\n" if rng.random() < 0.8 else ""
    p = files.add("\n".join(lines) + end, toks)
    return DataFile(p, rows, seps, lead)


def raw_value(rng, wide):
    """Any finite double."""
    k = rng.random()
    if k < 0.1:
        return 0.0
    if k < 0.2:
        return float(rng.randint(-5, 5))
    if k < 0.35:
        return rng.uniform(-1, 1)
    if k < 0.5:
        return rng.uniform(-1e6, 1e6)
    if k < 0.6:
        return rng.choice([0.1, 1 / 3, 2 / 3, 1e-13, -1e-12, 1e-9, 123456789.123456789, 1e15 + 0.125, 0.1 + 0.2, 1 - 2.0 ** -53, 1 + 2.0 ** -52, 5e-5, 1e16, 4503599627370497.5])
    if wide and k < 0.68:        # next to zero, where doubles lose digits
        return rng.choice([-1, 1]) * rng.choice([5e-324, 1e-310, 2.5e-315, 2.2250738585072014e-308, 1.1e-308])
    e = rng.randint(-300, 300) if wide else rng.randint(-40, 40)
    x = rng.choice([-1, 1]) * rng.uniform(1, 10)
    return x * 10.0 ** e


def raw_pool(rng, files, k, nmax=4, lmax=5, wide=True):
    """Files of arbitrary doubles, whose contents the specification only knows by identity."""
    out = []
    for _ in range(k):
        n, L = rng.randint(1, nmax), rng.randint(1, lmax)
        seps = rng.choice([" ", ",", "\t"])
        rows = [[raw_value(rng, wide) for _ in range(L)] for _ in range(n)]
        p = files.add("".join(seps.join(repr(x) for x in r) + "\n" for r in rows))
        out.append(DataFile(p, rows, seps))
    return out


def bad_files(rng, files):
    """Files that must be refused: [(path, seps, max, col)]."""
    out = []
    N = lambda *v: [(True, F(x)) for x in v]
    out.append((files.missing(), " ", 0, 0))
    out.append((files.add("1 2 3\n4 5\n", [N(1, 2, 3), N(4, 5)]), " ", 0, 0))
    out.append((files.add("1 2\n3 x\n", [N(1, 2), N(3) + [(False, None)]]), " ", 0, 0))
    out.append((files.add("1 2 3\n4 5 6\n7 8y 9\n", [N(1, 2, 3), N(4, 5, 6), N(7) + [(False, None)] + N(9)]), " ", 0, 0))
    out.append((files.add("", []), " ", 0, 0))
    out.append((files.add("1 2\n3 4\n", [N(1, 2), N(3, 4)]), " ", 0, 2))
    out.append((files.add("1 2\n3 4\n", [N(1, 2), N(3, 4)]), " ", 0, -1))
    out.append((files.add("1 2\n1e999 4\n", [N(1, 2), [(False, None)] + N(4)]), " ", 0, 0))
    out.append((files.add("5 5\n5 5\n5 5\n\n", [N(5, 5), N(5, 5), N(5, 5), []]), " ", 0, 0))
    return out


THR_RAW = [("0", 0, 1), ("0.5", 1, 2), ("1", 1, 1), ("1.5", 3, 2), ("2", 2, 1), ("3", 3, 1), ("4", 4, 1), ("6", 6, 1), ("10", 10, 1), ("2.4", 12, 5), ("40", 40, 1)]
THR_NORM = [("0", 0, 1), ("0.05", 1, 20), ("0.1", 1, 10), ("0.2", 1, 5), ("0.25", 1, 4), ("0.3", 3, 10), ("0.5", 1, 2), ("0.75", 3, 4), ("1", 1, 1), ("2", 2, 1)]

# Thresholds with all their digits, for what does not depend on their value (tn/td is not exact)
THR_DIGITS = [("0.123456789", 1, 8), ("0.30000000000000004", 3, 10), ("2.0000001", 2, 1), ("1e-17", 0, 1), ("3.3333333333333335", 10, 3), ("12345.678901234567", 12345, 1), ("0.1", 1, 10)]

# A little above or below a distance that integers or halves have, or next to nothing
THR_NEAR = [(s, int(s.replace(".", "")), 10 ** len(s.split(".")[1])) for s in
            ("0.99999999", "1.00000001", "1.99999999", "2.00000001", "3.99999999", "4.00000001", "2.99999999", "3.00000001", "5.99999999", "0.00000001",
             "1.41421356", "1.41421357", "2.82842712", "2.82842713", "1.15470053", "1.15470054", "1.63299316", "1.63299317")]

BAD_RATIOS = ("-0.5", "-1", "nan", "-0.0001", "-inf", "-1e300")


class Sim:
    """The generator's own idea of what is loaded (to choose mostly sensible arguments; nothing is judged by it)."""
    def __init__(self):
        self.ds = {}

    def free(self):
        i = 0
        while i in self.ds:
            i += 1
        return i


def pick_query(rng, d):
    """(i, s, e) of a query in a dataset of shape d, mostly inside."""
    i = rng.randrange(d["n"])
    k = rng.random()
    if k < 0.35 or d["len"] < 2:
        return i, -1, -1
    s = rng.randrange(d["len"] - 1)
    e = rng.randint(s + 2, d["len"]) if s + 2 <= d["len"] else d["len"]
    return i, s, e


def pick_bad_query(rng, d):
    n, L = d["n"], d["len"]
    i = rng.randrange(n)
    return rng.choice([(n, -1, -1), (-1, -1, -1), (n + 3, 0, 1), (i, 0, L + 1), (i, -1, L), (i, 0, 0), (i, 1, 0), (i, L, L + 1),
                       (i, L, L), (i, 0, -1), (i, -2, 1), (i, 0, 1), (i, L - 1, L)])


class HistoryGen:
    def __init__(self, rng, files, pool, outdir, mode="api", weights=None, maxlive=4, ratios=RATIOS, dists=("euclidean", "euclidean_dtw"),
                 thr_raw=THR_RAW, thr_norm=THR_NORM, bads=None, badness=0.12, groupfiles=(), paan=(1, 2, 2, 3, 4, 5, 9), norm_ok=True, scale=1):
        self.rng, self.files, self.pool, self.outdir, self.mode = rng, files, pool, outdir, mode
        self.asked, self.asked_in = [], None
        self.w = dict(load=3, unload=1.0, unloadall=0.1, norm=1.2, paa=1.0, group=2.5, match=3, save=0.7, reload=0.7, sgroup=0.8, lgroup=0.8,
                      ratio=0.9, info=0.3, list=0.2, count=0.2, side=0.5)
        if weights:
            self.w.update(weights)
        self.maxlive, self.ratios, self.dists, self.thr_raw, self.thr_norm = maxlive, ratios, dists, thr_raw, thr_norm
        self.bads, self.badness, self.paan = bads, badness, paan
        self.norm_ok = norm_ok
        self.scale = scale

    def start(self, tid):
        self.t = Trace(tid)
        self.sim = Sim()
        self.saved = {}      # path -> (kind, n, len, seps)
        self.npath = 0
        self.unit_budget = {}
        return self.t

    def path(self):
        if self.saved and self.rng.random() < 0.25:
            return self.rng.choice(sorted(self.saved))
        self.npath += 1
        return os.path.join(self.outdir, "%s_%d" % (self.t.tid, self.npath))

    def live(self):
        return self.rng.choice(sorted(self.sim.ds))

    def dead(self):
        c = [x for x in [-1, -7, 0, 1, 2, 3, 4, 7, 100] if x not in self.sim.ds]
        return self.rng.choice(c)

    def op_load(self, df=None):
        rng, t = self.rng, self.t
        df = df or rng.choice(self.pool)
        mx = rng.choice([0, 0, 0, -1, df.n, df.n + 5, max(1, df.n - 1), 1])
        col = df.lead
        if rng.random() < 0.2 and df.L > 3:
            col += rng.choice([1, 1, 2])
        n = df.n if mx <= 0 else min(mx, df.n)
        L = df.L - (col - df.lead)
        if self.mode == "api":
            i = self.sim.free()
            t.add("load", _path=df.path, max=mx, col=col, _seps=df.seps)
        else:
            if self.sim.ds and rng.random() < 0.3:
                i = self.live()
            else:
                i = self.sim.free()
                t.add("new", obs=False, id=i)
            t.add("load", id=i, _path=df.path, max=mx, col=col, _seps=df.seps)
        self.sim.ds[i] = dict(n=n, len=L, norm=False, grp=False, paa=0, dist="euclidean")
        return i

    def step(self):
        rng, t, sim = self.rng, self.t, self.sim
        if not sim.ds:
            if rng.random() < 0.15 and self.mode == "api":
                return self.bad()
            return self.op_load()
        if rng.random() < self.badness:
            return self.bad()
        ops = sorted(self.w)
        op = rng.choices(ops, [self.w[o] for o in ops])[0]
        getattr(self, "do_" + op)()

    def do_load(self):
        if len(self.sim.ds) >= self.maxlive:
            return self.do_unload()
        self.op_load()

    def do_unload(self):
        i = self.live()
        del self.sim.ds[i]
        self.t.add("unload" if self.mode == "api" else "del", id=i)

    def do_unloadall(self):
        if self.mode == "api":
            self.sim.ds = {}
            self.t.add("unloadall")

    def do_norm(self):
        i = self.live()
        d = self.sim.ds[i]
        if not self.norm_ok:
            return
        d.update(norm=True, grp=False)
        self.t.add("norm", id=i)

    def do_paa(self):
        i = self.live()
        d = self.sim.ds[i]
        if d["paa"] >= 2:
            return self.do_match()
        n = self.rng.choice(self.paan)
        d.update(grp=False, paa=d["paa"] + 1, len=(d["len"] - 1) // n + 1)
        self.t.add("paa", id=i, n=n)

    def thr(self, d):
        return self.rng.choice(self.thr_norm if d["norm"] else self.thr_raw)

    def do_group(self, i=None):
        i = self.live() if i is None else i
        d = self.sim.ds[i]
        s, n, den = self.thr(d)
        dist = "euclidean" if self.mode == "api" else self.rng.choice(self.dists)
        d.update(grp=True, dist=dist)
        if self.scale != 1 and not d["norm"]:
            s = repr(float(s) * self.scale)
        self.t.add("group", id=i, _thr=s, tn=n, td=den, _dist=dist, dist=dist)

    def do_match(self):
        g = [i for i in sorted(self.sim.ds) if self.sim.ds[i]["grp"]]
        if not g:
            i = self.live()
            self.do_group(i)
            g = [i]
        r = self.rng.choice(g)
        q = self.rng.choice(sorted(self.sim.ds))
        i, s, e = pick_query(self.rng, self.sim.ds[q])
        # sometimes what was asked before
        old = [a for a in self.asked[-3:] if a[0] in g and a[1] in self.sim.ds] if self.asked_in is self.t else []
        if old and self.rng.random() < 0.35:
            r, q, i, s, e = self.rng.choice(old)
        elif self.asked_in is not self.t:
            self.asked, self.asked_in = [], self.t
        self.asked.append((r, q, i, s, e))
        self.t.add("match", id=r, q=q, i=i, s=s, e=e, obs=self.rng.random() < 0.5)
        if self.rng.random() < 0.25:
            self.t.add("match", id=r, q=q, i=i, s=s, e=e, obs=False)

    def do_save(self):
        i = self.live()
        p = self.path()
        seps = self.rng.choice([" ", ",", ";", "\t", "|"])
        self.t.add("save", id=i, _path=p, _seps=seps, good=True)
        self.saved[p] = ("data", self.sim.ds[i]["n"], self.sim.ds[i]["len"], seps)

    def do_reload(self):
        c = [p for p in sorted(self.saved) if self.saved[p][0] == "data"]
        if not c or len(self.sim.ds) >= self.maxlive + 1:
            return self.do_save()
        p = self.rng.choice(c)
        _, n, L, seps = self.saved[p]
        i = self.sim.free()
        if self.mode == "api":
            self.t.add("load", _path=p, max=0, col=0, _seps=seps)
        else:
            self.t.add("new", obs=False, id=i)
            self.t.add("load", id=i, _path=p, max=0, col=0, _seps=seps)
        self.sim.ds[i] = dict(n=n, len=L, norm=False, grp=False, paa=2, dist="euclidean")
        # values may be normalized ones
        self.sim.ds[i]["norm"] = self.scale == 1

    def do_sgroup(self):
        g = [i for i in sorted(self.sim.ds) if self.sim.ds[i]["grp"]]
        if not g:
            return self.do_group()
        i = self.rng.choice(g)
        p = self.path()
        short = self.rng.random() < 0.25
        self.t.add("sgroup", id=i, _path=p, short=short, good=True)
        self.saved[p] = ("short" if short else "groups", self.sim.ds[i]["n"], self.sim.ds[i]["len"], "")

    def do_lgroup(self):
        c = [p for p in sorted(self.saved) if self.saved[p][0] == "groups"]
        if not c:
            return self.do_sgroup()
        p = self.rng.choice(c)
        _, n, L, _ = self.saved[p]
        fit = [i for i in sorted(self.sim.ds) if self.sim.ds[i]["n"] == n and self.sim.ds[i]["len"] == L]
        i = self.rng.choice(fit) if fit and self.rng.random() < 0.85 else self.live()
        if self.sim.ds[i]["n"] == n and self.sim.ds[i]["len"] == L:
            self.sim.ds[i]["grp"] = True
        self.t.add("lgroup", id=i, _path=p, edited=False, tok=False)

    def do_ratio(self):
        s, n, d = self.rng.choice(self.ratios)
        self.t.add("ratio", _ratio=s, rn=n, rd=d)

    def do_info(self):
        if self.mode == "api":
            self.t.add("info", id=self.live(), obs=False)

    def do_list(self):
        if self.mode == "api":
            self.t.add("list", obs=False)

    def do_count(self):
        if self.mode == "api":
            self.t.add("count", obs=False)

    def do_side(self):
        """Something done with another object of the interface (dropped in the end): nothing that is the matter of this one."""
        rng, i = self.rng, self.rng.choice([0, 0, 1])
        if self.mode != "api":
            return
        df = rng.choice(self.pool)
        load = dict(op="load", _path=df.path, max=0, col=df.lead, _seps=df.seps)
        todo = rng.choice([[load], [load, dict(op="group", id=0, _thr="0.5")], [dict(op="norm", id=i)], [dict(op="paa", id=i, n=2)],
                           [dict(op="group", id=i, _thr=rng.choice(["0", "0.5", "2"]))], [dict(op="unload", id=i)], [dict(op="unloadall")],
                           [dict(op="match", id=i, q=rng.choice([0, 1]), i=0, s=-1, e=-1)], [dict(op="list")], [None],
                           [load, dict(op="match", id=0, q=i, i=0, s=0, e=2)], [dict(op="save", id=i, _path=os.path.join(self.outdir, self.t.tid + "_side"), _seps=" ")]])
        for o in todo:
            self.t.add("side", _o=o, obs=o is todo[-1] and rng.random() < 0.5)

    def bad(self, kind=None, value=None):
        """An operation that must be refused."""
        rng, t, sim = self.rng, self.t, self.sim
        n0 = len(t.ops)
        live = sorted(sim.ds)
        kinds = ["load"] + (["id"] * 3 if self.mode == "api" else []) + (["paa", "ratio", "thr", "query", "ungrouped", "lgroup", "save", "sgroup", "wrongshape"] if live else [])
        if self.mode == "lib" and live:
            kinds += ["dist"]
        if self.mode == "lib":
            kinds.remove("load")
            if not kinds:
                return self.op_load()
        k = kind or rng.choice(kinds)
        if k == "load":
            if self.bads:
                p, s, m, c = rng.choice(self.bads)
                t.add("load", _path=p, _seps=s, max=m, col=c)
        elif k == "id":
            i = self.dead()
            q = rng.choice(live) if live else self.dead()
            o = rng.choice(["unload", "info", "norm", "paa", "group", "sgroup", "lgroup", "save", "match", "match2"])
            if o in ("unload", "info", "norm"):
                t.add(o, id=i)
            elif o == "paa":
                t.add("paa", id=i, n=2)
            elif o == "group":
                t.add("group", id=i, _thr="1", tn=1, td=1, dist="euclidean")
            elif o == "sgroup":
                t.add("sgroup", id=i, _path=self.path() + "x", short=False, good=True)
            elif o == "lgroup":
                t.add("lgroup", id=i, _path=self.files.missing(), edited=False, tok=False)
            elif o == "save":
                t.add("save", id=i, _path=self.path() + "x", _seps=" ", good=True)
            elif o == "match":
                t.add("match", id=i, q=q, i=0, s=-1, e=-1)
            else:
                t.add("match", id=q, q=i, i=0, s=-1, e=-1)
        elif k == "paa":
            t.add("paa", id=self.live(), n=rng.choice([0, -1, -5]))
        elif k == "ratio":
            t.add("ratio", _ratio=value or rng.choice(BAD_RATIOS), rn=0, rd=1)
        elif k == "thr":
            s = rng.choice(["-1", "-0.5", "-0.0000001", "nan", "inf", "-inf", "-1e300"])
            t.add("group", id=self.live(), _thr=s, tn=-1, td=1, _dist="euclidean", dist="euclidean")
        elif k == "query":
            g = [i for i in live if sim.ds[i]["grp"]]
            if g:
                q = self.live()
                i, s, e = pick_bad_query(rng, sim.ds[q])
                t.add("match", id=rng.choice(g), q=q, i=i, s=s, e=e)
        elif k == "ungrouped":
            g = [i for i in live if not sim.ds[i]["grp"]]
            if g:
                i = rng.choice(g)
                if rng.random() < 0.5:
                    t.add("match", id=i, q=self.live(), i=0, s=-1, e=-1)
                else:
                    t.add("sgroup", id=i, _path=self.path() + "x", short=rng.random() < 0.5, good=True)
        elif k == "lgroup":
            c = [self.files.missing(), self.outdir, self.pool[0].path] + [p for p in sorted(self.saved) if self.saved[p][0] in ("data", "short") and self.saved[p][2] > 1]
            t.add("lgroup", id=self.live(), _path=rng.choice(c), edited=False, tok=False)
        elif k == "wrongshape":
            for p in sorted(self.saved):
                if self.saved[p][0] == "groups":
                    c = [i for i in live if (sim.ds[i]["n"], sim.ds[i]["len"]) != self.saved[p][1:3]]
                    if c:
                        t.add("lgroup", id=rng.choice(c), _path=p, edited=False, tok=False)
                        break
        elif k == "save":
            t.add("save", id=self.live(), _path=os.path.join(self.outdir, "nodir", "x"), _seps=" ", good=False)
        elif k == "sgroup":
            t.add("sgroup", id=self.live(), _path=os.path.join(self.outdir, "nodir", "x"), short=False, good=False)
        elif k == "dist":
            t.add("group", id=self.live(), _thr="1", tn=1, td=1, _dist=rng.choice(["manhattan", "euclid", "euclideandtw", "dtw"]), dist="none")
        for o in t.ops[n0:]:
            o["_bad"] = True


FAILING = {"api": ("load", "id", "paa", "ratio", "thr", "query", "ungrouped", "lgroup", "save", "sgroup", "wrongshape"),
           "lib": ("paa", "ratio", "thr", "dist", "query", "ungrouped", "lgroup", "save", "sgroup", "wrongshape")}


def after_failures(g, count):
    """One failure in the middle of a settled state, and then everything is asked."""
    rng, out = g.rng, []
    kinds = FAILING[g.mode]
    todo = [(kinds[n % len(kinds)], g.ratios[(n // len(kinds)) % len(g.ratios)], None) for n in range(count)]
    todo += [("ratio", r, b) for r in g.ratios[:1] * 4 + g.ratios[1:] for b in BAD_RATIOS]
    for n, (kind, (s, a, b), value) in enumerate(todo):
        t = g.start("F%s%d" % (g.mode, n))
        for _ in range(rng.randint(2, 3)):
            g.op_load()
        for _ in range(rng.randint(0, 2)):
            g.do_norm() if rng.random() < 0.5 else g.do_paa()
        t.add("ratio", _ratio=s, rn=a, rd=b)
        some = sorted(g.sim.ds)
        for i in some[:rng.randint(1, len(some))]:
            g.do_group(i)
        for op in rng.sample(["match", "sgroup", "lgroup", "save", "unload"], 3):
            if len(g.sim.ds) > (op == "unload"):
                getattr(g, "do_" + op)()
        for _ in range(rng.choice([1, 1, 1, 2, 12])):
            g.bad(kind, value)
        for op in rng.sample(["match", "match", "match", "list", "info", "sgroup", "save"], 5) + rng.sample(["load", "unload", "group", "match", "norm", "paa", "lgroup"], 4):
            if g.sim.ds or op == "load":
                getattr(g, "do_" + op)()
        out.append(t)
    return out


def pool(rng, files, k, styles=STYLES, nmax=4, lmax=6, lead=True, plain=False, scale=1):
    out = []
    for _ in range(k):
        n, L = rng.randint(1, nmax), rng.choice([1] + list(range(2, lmax + 1)) * 3)
        out.append(data_file(rng, files, values(rng, n, L, rng.choice(styles)), lead=rng.choice([0, 0, 0, 1, 2]) if lead else 0, plain=plain, scale=scale))
    return out
