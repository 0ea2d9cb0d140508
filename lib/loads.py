"""Loading of files, character by character (C05)."""
import itertools
import os
import random
from fractions import Fraction as F

import gen
import history
import simple


def dec(x):
    """The shortest-enough decimal of a double, as the specification writes decimals."""
    x = float(x)
    if x == 0:
        return {"neg": False, "dig": [], "ex": 0}
    m, e = ("%.14e" % abs(x)).split("e")
    ds = [int(c) for c in m if c != "."]
    while ds and ds[-1] == 0:
        ds.pop()
    return {"neg": x < 0, "dig": ds, "ex": int(e) + 1}


class Texts:
    def __init__(self, files):
        self.files, self.texts, self.ids = files, [], {}

    def add(self, s):
        if s not in self.ids:
            self.texts.append(list(s))
            self.ids[s] = (len(self.texts), self.files.add(s))
        return self.ids[s]


def load_step(t, mode, texts, s, seps, mx, col, scratch, path=None):
    """One load into a new set (or of a missing file), and what it holds."""
    if s is None:
        tid, p = 1, path
    else:
        tid, p = texts.add(s)
        if path:    # the file at this path is replaced by it
            t.add("put %s %s" % (history.hx(p), history.hx(path)))
            p = path
    ev = {"op": "load", "text": tid, "seps": list(seps), "max": mx, "col": col, "exists": s is not None, "rows": [], "n": 0, "len": 0, "same": True}
    rec = {}

    def got_load(e, r):
        rec["info"] = r.get("info")
        rec["e"] = e

    def fill(e, rows, n, ln, name):
        rec["e"]["rows"] = [[dec(x) for x in r] for r in rows]
        rec["e"]["n"], rec["e"]["len"], rec["e"]["same"] = n, ln, name == p
    if mode == "lib":
        t.add("new 0")
        t.add("load 0 %s %d %d %s" % (history.hx(p), mx, col, history.hx(seps)), ev, got_load)

        def got_obs(e, r):
            d = r["obs"]["ds"][0]
            if rec["e"]["ok"]:
                fill(e, d["rows"], d["n"], d["len"], d["name"])
        t.add("obs %s" % history.hx(scratch), {"op": "obs"}, got_obs)
    else:
        t.add("load %s %d %d %s" % (history.hx(p), mx, col, history.hx(seps)), ev, got_load)

        def got_obs2(e, r):
            if rec["e"]["ok"]:
                i = rec["info"]
                k = [x["id"] for x in r["obs"]["list"]].index(i["id"])
                d = r["obs"]["ds"][k]["data"]
                rows = [ln.split() for ln in d.split("\n")[:-1]] if d is not None else []
                fill(e, rows, i["n"], i["len"], i["name"])
        t.add("obs %s" % history.hx(scratch), {"op": "obs"}, got_obs2)
        t.add("unloadall")


class Loads:
    def __init__(self, c):
        self.c = c
        self.texts = Texts(c.files)
        self.scratch = os.path.join(c.work, "obsload")

    def validate(self, name, cases, mode, per=60, shared=False):
        """cases: (text or None for a missing file, separators, max, col); shared: they are, one after the other, the content of one file"""
        if self.c.rep.violations:
            return
        out, t = [], None
        for n, (s, seps, mx, col) in enumerate(cases):
            if n % per == 0:
                t = simple.STrace("%s%d" % (name, n // per))
                out.append(t)
            load_step(t, mode, self.texts, s, seps, mx, col, self.scratch + t.tid, path=os.path.join(self.c.files.dir, "shared%s" % t.tid) if shared and s is not None else self.c.files.missing() if s is None else None)
        for t in out:   # observations are only read, they are not events
            t.steps = [(a, b, f) for a, b, f in t.steps]
        simple.validate(self.c.rep, self.c.prop, self.c.exe("drv_" + mode), out, self.c.work, name, "TraceLoad",
                        extra={"texts": self.texts.texts}, drop=("obs",))


def exhaustive(alphabet, upto, variants):
    for n in range(0, upto + 1):
        for v in itertools.product(alphabet, repeat=n):
            for seps, mx, col in variants:
                yield "".join(v), seps, mx, col


NUMS = ["0", "-0", "1", "12", "007", "+3", "-4", "1.5", ".5", "5.", "-.25", "+0.125", "1e3", "1E3", "1e+2", "25e-1", "1.5e-3", "123456789012345",
        "0.000123456789012345", "1e300", "-1e-290", "3.14159265358979", "99999999", "1e22", "0e5", "0.1", "0.30", "100", "1e0", "-1E-1", "2e05"]
NOTNUMS = ["x", "1x", "x1", "1.2.3", "--1", "+-2", "-", "+", ".", "e5", "1e", "1e+", "1e5.5", "1,5", "a b", "12abc", "1 2", "1_000", "'1'", "\"1\"", "1e999", "-1e400", "1-2", "1e5x", "%"]


def random_file(rng):
    """A file with a few oddities, and how to load it."""
    seps = rng.choice([" ", ",", ";", "\t", " ,", ",;", "\t ", "|", ":,"])
    n, L = rng.randint(1, 6), rng.randint(1, 6)
    lead = rng.choice([0, 0, 0, 1, 2])
    odd = rng.random()
    bad = rng.choice(NOTNUMS) if odd < 0.25 else None
    bad_at = (rng.randrange(n), rng.randrange(L + lead))
    ragged = rng.randrange(n) if 0.25 <= odd < 0.4 else None
    ws = rng.random() < 0.15        # blanks around numbers
    lines = []
    for i in range(n):
        toks = [rng.choice(NUMS + NOTNUMS[:6]) for _ in range(lead)]
        toks += [rng.choice(NUMS) if rng.random() < 0.5 else str(rng.randint(-999, 999)) for _ in range(L)]
        if bad and bad_at[0] == i:
            toks[bad_at[1]] = bad
        if ragged == i:
            if rng.random() < 0.5 and len(toks) > 1:
                toks.pop()
            else:
                toks.append("7")
        toks = [x if not (set(x) & set(seps)) else "9" for x in toks]
        if ws and " " not in seps:
            toks = [rng.choice(["", " ", "  "]) + x + rng.choice(["", " "]) for x in toks]
        sep = lambda: "".join(rng.choice(seps) for _ in range(rng.choice([1, 1, 1, 1, 2, 3])))
        s = rng.choice(["", "", "", sep()]) + toks[0]
        for x in toks[1:]:
            s += sep() + x
        s += rng.choice(["", "", "", sep()])
        lines.append(s)
    nl = "\r\n" if rng.random() < 0.1 else "\n"
    k = rng.random()
    if k < 0.08:
        lines.insert(rng.randrange(len(lines) + 1), "")
    text = nl.join(lines) + (nl if rng.random() < 0.7 else "")
    mx = rng.choice([0, 0, -1, -5, n, n - 1, n + 1, 1, 2, 100, max(1, bad_at[0]), bad_at[0] + 1])
    col = rng.choice([lead, lead, lead, 0, lead + 1, L + lead - 1, L + lead, L + lead + 1, -1])
    use = seps if rng.random() < 0.85 else rng.choice([" ", ",", seps + "x", seps[0]])
    return text, use, mx, col


def replaced(rng, count):
    """Files of one size and age, each different from the one before."""
    for _ in range(count):
        s, seps, mx, col = random_file(rng)
        yield s, seps, mx, col
        for _ in range(rng.randint(1, 5)):
            k, v = rng.random(), list(s)
            at = [i for i, ch in enumerate(v) if ch in seps + "\n"]
            digits = [i for i, ch in enumerate(v) if ch.isdigit()]
            if k < 0.35 and at:
                i = rng.choice(at)
                v[i] = rng.choice(seps) if v[i] == "\n" else "\n"
            elif k < 0.7 and digits:
                i = rng.choice(digits)
                v[i] = rng.choice("0123456789")
            elif k < 0.85:
                v = list("\n".join(rng.sample(s.split("\n"), s.count("\n") + 1)))
            elif at:
                i, j = rng.choice(at), rng.choice(at)
                v[i], v[j] = v[j], v[i]
            s = "".join(v)
            if rng.random() < 0.3:
                mx = rng.choice([0, 1, 2, 3, 100])
            yield s, seps, mx, col
