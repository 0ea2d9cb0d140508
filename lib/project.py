"""Projection of what the code printed to the values of the specification: exact rationals, handles, intervals."""
import math
import struct
from fractions import Fraction as F

LIMIT_INT = 2 ** 31 - 1


def lcm(a, b):
    return a // math.gcd(a, b) * b


class Tables:
    """Contents seen in a run, numbered from 1; equal numbers iff exactly equal contents."""
    def __init__(self, single=False, scale=1, raw=False):
        self.single = single
        self.raw = raw              # any doubles: known by identity only, not as rationals
        self.scale = scale          # the unit of values, a power of two: everything is divided by it
        self.den = 256 if single else 4000
        self.tol = 2e-6 if single else 1e-10        # far below the distance of two such fractions
        self.umax = 200 if single else 4000
        self.data, self.grps = [], []
        self._d, self._g, self._n, self._r = {}, {}, {}, {}

    # -- numbers
    def frac(self, x):
        if self.raw or math.isnan(x) or math.isinf(x):
            return None
        f = F(x).limit_denominator(self.den)
        if abs(F(x) - f) > F(self.tol) * max(1, abs(F(x))):
            return None
        return f

    def canon(self, rows):
        """(u, integer rows) or None"""
        u, out = 1, []
        for r in rows:
            o = []
            for x in r:
                f = self.frac(x)
                if f is None:
                    return None
                o.append(f)
                u = lcm(u, f.denominator)
                if u > (self.umax if self.single else 200000):
                    return None
            out.append(o)
        res = [[int(f * u) for f in r] for r in out]
        if any(abs(v) > 1000000000 for r in res for v in r):
            return None
        return u, res

    def unscale(self, rows, unit=True):
        k = self.scale if unit else 1
        return [[self.held(x / k + 0.0) for x in r] for r in rows]        # -0 is 0

    def held(self, x):
        """A number in the precision of the build."""
        if self.single:
            try:
                return struct.unpack("f", struct.pack("f", x))[0]
            except OverflowError:
                return math.copysign(math.inf, x)
        return x

    # -- handles
    def table(self, rows, unit=True):
        """Handle of a table of floats (unit: they are in the unit of values)."""
        rows = self.unscale(rows, unit)
        key = tuple(tuple(r) for r in rows)
        k = tuple(tuple(v.hex() for v in r) for r in key)
        if k not in self._d:
            c = self.canon(rows)
            n = len(rows)
            ln = len(rows[0]) if rows else 0
            rect = all(len(r) == ln for r in rows)
            ok = c is not None and rect
            self.data.append({"ok": ok, "u": c[0] if ok else 1, "rows": c[1] if ok else [], "n": n, "len": ln if rect else -1, "x": self.extremes(key)})
            self._d[k] = len(self.data)
        return {"h": self._d[k]}

    def extremes(self, rows):
        """Facts about exact values: handles of the least and the greatest, whether they can be subtracted, and how they lie to 0 and 1."""
        vs = [v for r in rows for v in r]
        if not vs or any(math.isnan(v) for v in vs):
            return {"mn": 0, "mx": 0, "fit": False, "within": False, "at0": False, "at1": False, "rk": []}
        a, b = min(vs), max(vs)
        return {"mn": self.token(a.hex())["h"], "mx": self.token(b.hex())["h"], "fit": abs(b - a) < (1e38 if self.single else 1e300),
                "within": a >= 0 and b <= 1, "at0": 0.0 in vs, "at1": 1.0 in vs,
                "rk": [sorted(set(vs)).index(v) for v in vs] if self.raw and len(vs) <= 40 else []}

    def groups(self, text, unit=True):
        """Handle of the contents of a full group file."""
        p = parse_groups(text)
        if p is not None:
            thx = self.threshold(p["thr"])
            p["thr"] = self.unscale([[p["thr"]]], unit)[0][0]
            for ls in p["ls"]:
                for g in ls:
                    g["rep"] = self.unscale([g["rep"]], unit)[0]
        if p is None:
            key = text
        else:
            key = (p["n"], p["len"], p["thr"].hex(), p["dist"],
                   tuple(tuple((tuple(v.hex() for v in g["rep"]), g["cnt"], tuple(g["mem"])) for g in ls) for ls in p["ls"]))
        if key not in self._g:
            e = {"form": p is not None, "thx": thx if p is not None else 0, "ok": False, "tn": 0, "td": 1, "dist": "", "gu": 1, "span": 0, "ls": []}
            if p is not None:
                e["dist"] = p["dist"]
                c = self.canon([g["rep"] for ls in p["ls"] for g in ls])
                t = self.frac(p["thr"])
                small = all(abs(x) < LIMIT_INT for ls in p["ls"] for g in ls for m in g["mem"] for x in m)
                if c is not None and small:
                    e["ok"] = True
                    if t is not None and t.numerator < 100000 and t.denominator < 1000:
                        e["tn"], e["td"] = t.numerator, t.denominator
                    e["gu"] = c[0]
                    e["span"] = max([abs(v) for r in c[1] for v in r] or [0])
                    reps = iter(c[1])
                else:
                    reps = iter([[0] * len(g["rep"]) for ls in p["ls"] for g in ls])
                e["form"] = small
                if small:
                    e["ls"] = [[{"rep": next(reps), "cnt": g["cnt"], "mem": [list(m) for m in g["mem"]]} for g in ls] for ls in p["ls"]]
            self.grps.append(e)
            self._g[key] = len(self.grps)
        return {"h": self._g[key]}

    def name(self, s):
        return self._n.setdefault(s, len(self._n) + 1)

    def token(self, obj):
        """Handle of anything, by exact equality."""
        return {"h": self._r.setdefault(repr(obj), len(self._r) + 1)}

    def threshold(self, x):
        """Handle of a threshold exactly as it is held (in the precision of the build)."""
        x = self.held(float(x))
        return self.token(x.hex())["h"]

    # -- square roots
    def interval(self, d, rel=None, abst=None):
        d = d / self.scale
        if math.isinf(d) and d > 0:
            return {"inf": True, "lo": [], "hi": [], "e": 24}
        if math.isnan(d) or d < 0 or math.isinf(d):
            return {"inf": False, "lo": [1], "hi": [], "e": 24}      # an empty interval
        rel = F(rel if rel is not None else (3e-5 if self.single else 1e-9))
        abst = F(abst if abst is not None else (5e-6 if self.single else 1e-11))
        f = F(d)
        lo = max(F(0), f * (1 - rel) - abst) ** 2
        hi = (f * (1 + rel) + abst) ** 2
        e = 24
        return {"inf": False, "lo": limbs(math.floor(lo * 10 ** e)), "hi": limbs(math.ceil(hi * 10 ** e)), "e": e}

    def minmax(self, mn, mx, unit=True):
        r = self.unscale([[mn, mx]], unit)
        c = self.canon(r)
        x = {"mnx": self.token(r[0][0].hex())["h"], "mxx": self.token(r[0][1].hex())["h"]}
        if c is None:
            return dict(x, ok=False, u=1, mn=0, mx=0)
        return dict(x, ok=True, u=c[0], mn=c[1][0][0], mx=c[1][0][1])


def limbs(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def parse_groups(text):
    """A full group file by its documented format, or None."""
    try:
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        h = lines[0].split()
        if len(h) != 4 or h[0] != "1":
            return None
        thr, n, ln = float(h[1]), int(h[2]), int(h[3])
        r = lines[1].split()
        if len(r) != 2 or int(r[0]) != 2 or int(r[1]) != ln + 1:
            return None
        dist = lines[2].strip()
        p, out = 3, []
        for l in range(2, ln + 1):
            cnt = int(lines[p])
            p += 1
            gs = []
            for _ in range(cnt):
                rep = [float(x) for x in lines[p].split()]
                m = [int(x) for x in lines[p + 1].split()]
                p += 2
                if len(rep) != l or len(m) % 2 != 1:
                    return None
                mem = sorted([(m[i], m[i + 1]) for i in range(1, len(m), 2)], key=lambda c: (c[1], c[0]))
                gs.append({"rep": rep, "cnt": m[0], "mem": mem})
            gs.sort(key=lambda g: [(c[1], c[0]) for c in g["mem"]])
            out.append(gs)
        if p != len(lines):
            return None
        return {"thr": thr, "n": n, "len": ln, "dist": dist, "ls": out}
    except (ValueError, IndexError):
        return None


def parse_sizes(text, order=None):
    """A size-only group file: list per length of the list of sizes, or None."""
    try:
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        h = lines[0].split()
        if len(h) != 4 or h[0] != "1":
            return None
        float(h[1])
        ln = int(h[3])
        r = lines[1].split()
        if len(r) != 2 or int(r[0]) != 2 or int(r[1]) != ln + 1:
            return None
        p, out = 3, []
        for l in range(2, ln + 1):
            cnt = int(lines[p])
            sizes = [int(x) for x in lines[p + 1].split()]
            p += 2
            if len(sizes) != cnt:
                return None
            out.append(sizes)
        if p != len(lines):
            return None
        return out
    except (ValueError, IndexError):
        return None


def tokens_of(text):
    """Whitespace separated tokens of a group file, as the specification's records."""
    out = []
    for w in text.split():
        try:
            v = int(w) if not any(c in w for c in "_") else None
            if v is None:
                raise ValueError
            out.append({"k": "i", "v": v, "w": ""} if abs(v) <= LIMIT_INT else {"k": "f", "v": 0, "w": ""})
            continue
        except ValueError:
            pass
        try:
            if any(c in w for c in "_nN") or "inf" in w.lower():
                raise ValueError
            float(w)
            out.append({"k": "f", "v": 0, "w": ""})
        except ValueError:
            out.append({"k": "w", "v": 0, "w": w})
    return out


def parse_data(text):
    """What saveData wrote with the space as separator: rows of floats, or None."""
    try:
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        rows = [[float(x) for x in l.split()] for l in lines]
        return rows
    except ValueError:
        return None
