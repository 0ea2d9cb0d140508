"""Saves to places that take everything, nothing, or only so many bytes (C21)."""
import os
import random

import gen
import history
import project
import simple
from history import hx


def rows_of(text, sep):
    try:
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        return [[float(x).hex() for x in l.split(sep) if x] for l in lines]
    except ValueError:
        return None


def says(kind, text, sep):
    if text is None:
        return None
    if kind == "data":
        return rows_of(text, sep)
    if kind == "full":
        return project.parse_groups(text)
    z = project.parse_sizes(text)
    return None if z is None else [sorted(x) for x in z]


class Writes:
    def __init__(self, mode, scratch):
        self.mode, self.scratch = mode, scratch
        self.T = project.Tables()

    def tok(self, x):
        return self.T.token(x)["h"]

    def view(self, o):
        return self.tok(("view", o))

    def holds(self, o, i, kind):
        """What a save of the kind should say, from the observation."""
        k = [x["id"] for x in (o["list"] if self.mode == "api" else o["ds"])].index(i)
        d = o["ds"][k]
        if kind == "data":
            return rows_of(d["data"], " ") if self.mode == "api" else [[float(x).hex() for x in r] for r in d["rows"]]
        g = project.parse_groups(d["groups"]) if d["groups"] is not None else None
        if kind == "full":
            return g
        return None if g is None else [sorted(x["cnt"] for x in ls) for ls in g["ls"]]

    def step(self, t, line):
        """An operation that may change something."""
        rec = {}
        t.add(line)
        t.add("obs %s" % hx(self.scratch + t.tid), {"op": "step"}, lambda e, r: e.update(view=self.view(r["obs"])))

    def save(self, t, i, kind, path, sep=" ", cap=-1, opens=True, cat=True):
        ev = {"op": "save", "key": "%d %s %s" % (i, kind, hx(sep) if kind == "data" else ""), "cap": cap, "open": opens, "cat": cat, "tok": 0, "len": 0,
              "says": 0, "holds": 0, "view": 0}
        rec = {}
        if cap >= 0 and path != "/dev/full":
            t.add("flimit %d" % cap)
        t.add("save %d %s %s" % (i, hx(path), hx(sep)) if kind == "data" else "sgroup %d %s %d" % (i, hx(path), kind == "short"), ev, lambda e, r: rec.update(e=e))
        if cap >= 0 and path != "/dev/full":
            t.add("flimit -1")

        def got_file(e, r):
            f = r["file"]
            if rec["e"]["ok"]:
                rec["e"].update(tok=self.tok(("file", f)), len=len(f) if f is not None else 0, says=self.tok(("says", says(kind, f, sep))))
        if cat:
            t.add("cat %s" % hx(path), {"op": "cat"}, got_file)

        def got_obs(e, r):
            rec["e"].update(view=self.view(r["obs"]))
            if rec["e"]["ok"]:
                rec["e"].update(holds=self.tok(("says", self.holds(r["obs"], i, kind))))
        t.add("obs %s" % hx(self.scratch + t.tid), {"op": "obs"}, got_obs)


def traces(rng, files, W, outdir, pre, count, nmax, lmax, caps):
    """caps(rng, about how long): the numbers of bytes to try, besides each of the last ones"""
    out = []
    mode = W.mode
    for k in range(count):
        t = simple.STrace("%s%d" % (pre, k))
        nds = rng.choice([1, 1, 2])
        shape = []
        for i in range(nds):
            n, L = rng.randint(1, nmax), rng.choice([1] + list(range(2, lmax + 1)) * 3)
            df = gen.data_file(rng, files, gen.values(rng, n, L, rng.choice(gen.STYLES)))
            if mode == "lib":
                t.add("new %d" % i)
                t.add("load %d %s 0 0 %s" % (i, hx(df.path), hx(df.seps)))
            else:
                t.add("load %s 0 0 %s" % (hx(df.path), hx(df.seps)))
            shape.append((n, L))
        grouped = set()
        good = os.path.join(outdir, t.tid + "_g")
        for rnd in range(rng.choice([1, 2, 3])):
            i = rng.randrange(nds)
            for _ in range(rng.randint(0, 2)):
                op = rng.choice(["norm", "group", "group", "paa"])
                if op == "group":
                    W.step(t, ("group %d %s" if mode == "api" else "group %d euclidean %s") % (i, rng.choice(["0", "0.2", "1", "3"])))
                    grouped.add(i)
                else:
                    W.step(t, "norm %d" % i if op == "norm" else "paa %d 2" % i)
                    grouped.discard(i)
            kinds = ["data"] + (["full", "short"] if i in grouped else [])
            for kind in rng.sample(kinds, len(kinds)):
                sep = rng.choice([" ", ",", ";"]) if kind == "data" else " "
                W.save(t, i, kind, good, sep)
                bad = os.path.join(outdir, t.tid + "_b")
                for c in caps(rng, kind, shape[i]):
                    W.save(t, i, kind, bad, sep, cap=c)
                    if rng.random() < 0.1:
                        W.save(t, i, kind, rng.choice([good, bad]), sep)
                if rng.random() < 0.5:
                    W.save(t, i, kind, "/dev/full", sep, cap=0, cat=False)
                for p in [os.path.join(outdir, "none", "x"), outdir, ""]:
                    if rng.random() < 0.3:
                        W.save(t, i, kind, p, sep, opens=False, cat=False)
                W.save(t, i, kind, bad, sep)
        out.append(t)
    return out
