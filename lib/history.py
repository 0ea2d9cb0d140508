"""Histories of operations on OnexAPI ("api") or on library objects ("lib"): scripts, their results as events of TraceOnex."""
import json
import os
from fractions import Fraction as F

import core
import project


def hx(s):
    return s.encode("latin-1").hex() or "-"


class Files:
    """Input files of a run, written once into a directory."""
    def __init__(self, work, blanks=True):
        self.blanks = blanks    # names may have blanks
        self.dir = os.path.join(work, "in")
        os.makedirs(self.dir, exist_ok=True)
        self.known = {}
        self.count = 0

    def add(self, text, lines=None, name=None):
        """lines: the tokens [[(is number, Fraction)]] of the file; None if it is not to be modelled."""
        self.count += 1
        p = os.path.join(self.dir, name or self.style())
        with open(p, "wb") as f:
            f.write(text.encode("latin-1"))
        if lines is not None:
            self.known[p] = [[{"k": k, "n": int(v.numerator) if k else 0, "d": int(v.denominator) if k else 1}
                              for k, v in line] for line in lines]
        return p

    def style(self):
        """A name of a file; they are of all kinds, since a dataset's name is the path it was loaded from."""
        k = "f%d" % self.count
        if self.count % 9 == 3:
            return "./" + k
        if not self.blanks:
            return k + ("-" + "long" * 45 if self.count % 9 == 4 else ".txt" if self.count % 9 == 5 else "")
        if self.count % 9 == 2:
            return k + " of, several; words"
        if self.count % 9 == 4:
            return k + "-" + "long" * 45
        if self.count % 9 == 5:
            os.makedirs(os.path.join(self.dir, "some.dir", "another dir"), exist_ok=True)
            return os.path.join("some.dir", "another dir", k + ".txt.data")
        if self.count % 9 == 7:
            return "." + k + "\\\t\"'%s~" + "#" * 8
        return k

    def missing(self):
        return os.path.join(self.dir, "missing")


class Trace:
    """A script: operations are dictionaries with the fields of TraceOnex events."""
    def __init__(self, tid):
        self.tid = tid
        self.ops = []
        self.tag = ""

    def add(self, op, obs=True, **kw):
        d = {"op": op, "_obs": obs}
        d.update(kw)
        self.ops.append(d)
        return d

    # -- driver lines
    def lines(self, mode, scratch):
        out = ["T %s" % self.tid]
        for o in self.ops:
            if "_from" in o:    # the file is first replaced by another one
                out.append("put %s %s" % (hx(o["_from"]), hx(o["_path"])))
            out.append(line(o, mode))
            if o["op"] == "sgroup" and o.get("_cat", True):
                out.append("cat %s" % hx(o["_path"]))
            if o["_obs"]:
                out.append("obs %s" % hx(os.path.join(scratch, "obs_%s" % self.tid)))
        return "\n".join(out) + "\n"


def printed(T, text):
    """Handle of the values in a printed series."""
    try:
        return T.table([[float(w) for w in text.split()]])
    except ValueError:
        return T.table([])


def line(o, mode):
    op = o["op"]
    g = lambda *ks: " ".join(str(o[k]) for k in ks)
    if op == "load":
        if mode == "api":
            return "load %s %d %d %s" % (hx(o["_path"]), o["max"], o["col"], hx(o["_seps"]))
        return "load %d %s %d %d %s" % (o["id"], hx(o["_path"]), o["max"], o["col"], hx(o["_seps"]))
    if op in ("unloadall", "count", "list"):
        return op
    if op in ("unload", "info", "norm", "new", "del", "clear", "reset"):
        return "%s %d" % (op, o["id"])
    if op == "paa":
        return "paa %d %d" % (o["id"], o["n"])
    if op == "save":
        return "save %d %s %s" % (o["id"], hx(o["_path"]), hx(o["_seps"]))
    if op == "group":
        return ("group %d %s" % (o["id"], o["_thr"])) if mode == "api" else "group %d %s %s" % (o["id"], o["_dist"], o["_thr"])
    if op == "sgroup":
        return "sgroup %d %s %d" % (o["id"], hx(o["_path"]), 1 if o["short"] else 0)
    if op == "lgroup":
        return "lgroup %d %s" % (o["id"], hx(o["_path"]))
    if op == "ratio":
        return "ratio %s" % o["_ratio"]
    if op == "match":
        return "match %d %d %d %d %d" % (o["id"], o["q"], o["i"], o["s"], o["e"])
    if op == "matchv":
        return "matchv %d %d %s" % (o["id"], len(o["_v"]), " ".join(repr(float(x)) for x in o["_v"]))
    if op == "sub":
        return "sub %d %d %d %d" % (o["id"], o["i"], o["s"], o["e"])
    if op == "pt":
        return "pt %d %d %d %d %d" % (o["id"], o["i"], o["s"], o["e"], o["k"])
    if op == "dist":
        return "dist %d %d %d %d %d %d %d %d %s" % (o["id"], o["i"], o["s"], o["l"], o["q"], o["qi"], o["qs"], o["qe"], o["dist"])
    if op == "side":
        return "side " + (line(o["_o"], mode) if o["_o"] else "drop")
    if op == "flimit":
        return "flimit %d" % o["_bytes"]
    raise ValueError(op)


def crash(o, at, rec):
    """The call of o, or observing the state after it, did not end as any operation of the specification does."""
    return {"op": "crash", "of": o["op"], "at": at, "bad": bool(o.get("_bad")), "ok": False, "seen": False,
            "tw": {"h": 0}, "rx": {"h": 0}, "how": str(rec.get("crash", rec.get("exc", "")))}


class Merger:
    """Turns driver output into events."""
    def __init__(self, mode, files, single=False, scale=1, raw=False):
        self.mode, self.files = mode, files
        self.tab = project.Tables(single, scale, raw)
        self.counts = {}
        self.read_fail = 0

    def info(self, i):
        return {"id": i["id"], "name": self.tab.name(i["name"]), "n": i["n"], "len": i["len"], "norm": i["norm"], "grp": i["grp"]}

    def obs(self, o):
        T = self.tab
        if self.mode == "api":
            ds = []
            for li, d in zip(o["list"], o["ds"]):
                e = self.info(li)
                e["same"] = d["info"] is not None and self.info(d["info"]) == self.info(li)
                rows = project.parse_data(d["data"]) if d["data"] is not None else None
                e["d"] = T.table(rows, not li["norm"]) if rows is not None else {"h": 0}
                e["g"] = T.groups(d["groups"], not li["norm"]) if d["groups"] is not None else {"h": 0}
                ds.append(e)
            return {"count": o["count"], "ds": ds}
        ds = []
        for d in o["ds"]:
            rows = [[float(x) for x in r] for r in d["rows"]]
            ds.append({"id": d["id"], "name": T.name(d["name"]), "n": d["n"], "len": d["len"], "norm": d["norm"], "grp": d["grp"],
                       "same": True, "d": T.table(rows, not d["norm"]), "g": T.groups(d["groups"], not d["norm"]) if d["groups"] is not None else {"h": 0}})
        return {"count": len(ds), "ds": ds}

    def match(self, m):
        T = self.tab
        d = float(m["d"])
        return {"i": m["i"], "s": m["s"], "e": m["e"], "l": m["l"], "d": T.interval(d), "dx": T.token(d.hex())["h"],
                "vd": T.table([[float(x) for x in m["v"]]])}

    def events(self, trace, recs):
        """recs: driver output of this trace"""
        T = self.tab
        ev, p = [], 0
        normed = set()      # identifiers last seen as normalized: their values are no longer in the unit of values
        for o in trace.ops:
            e = {k: v for k, v in o.items() if not k.startswith("_")}
            if "_path" in o:
                e["path"] = T.name(o["_path"])
            e["tw"], e["rx"] = {"h": 0}, {"h": 0}
            e["seen"] = False
            p += "_from" in o
            if p >= len(recs) or "crash" in recs[p]:
                if p < len(recs):
                    ev.append(crash(o, "call", recs[p]))
                return ev
            r = recs[p]
            p += 1
            if "exc" in r:      # not an OnexException: no operation of the specification does this
                ev.append(crash(o, "call", r))
                return ev
            e["ok"] = "err" not in r
            key = "%s_%s" % (o["op"], "ok" if e["ok"] else "err")
            self.counts[key] = self.counts.get(key, 0) + 1
            op = o["op"]
            if op == "load":
                known = self.files.known.get(o.get("_from", o["_path"]))
                e["file"] = 1 if known is not None else (0 if o["_path"] == self.files.missing() else -1)
                e["lines"] = known or []
                e["sep"] = o["_seps"]
                if "info" in r:
                    e["info"] = self.info(r["info"])
                elif self.mode == "lib":
                    e["info"] = {"id": o["id"], "name": e["path"], "n": 0, "len": 0, "norm": False, "grp": False}
            elif "info" in r:
                e["info"] = self.info(r["info"])
            if op == "save":
                e["sep"] = o["_seps"]
            if "count" in r:
                e["count"] = r["count"]
            if "list" in r:
                e["list"] = [self.info(i) for i in r["list"]]
            if "min" in r:
                e["res"] = T.minmax(float(r["min"]), float(r["max"]), o["id"] not in normed)
            if "m" in r:
                e["m"] = self.match(r["m"])
            if "sub" in r:
                s = r["sub"]
                e["sub"] = {"i": s["i"], "s": s["s"], "e": s["e"], "l": s["l"], "vd": T.table([[float(x) for x in s["v"]]]),
                            # how it is shown: its values in full, and its position
                            "pd": printed(T, s["text"]), "ident": s["ident"]}
            if "pt" in r:
                e["vd"] = T.table([[float(r["pt"])]])
            if "d" in r:
                e["d"] = T.interval(float(r["d"]))
            if op == "matchv":
                e["qd"] = T.table([[float(x) for x in o["_v"]]])
                e["qlen"] = len(o["_v"])
            if op == "group":
                e["dist"] = o.get("_dist", "euclidean")
                e["thx"] = T.threshold(o["_thr"])
                e["gthr"] = 0 <= float(o["_thr"]) < float("inf")
            stop = False
            full = [e["ok"], {k: v for k, v in r.items() if k not in ("err",)}]
            if op == "sgroup" and o.get("_cat", True):
                e["shape"], e["sizes"], e["g"] = 0, [], {"h": 0}
                if p < len(recs) and "crash" not in recs[p]:
                    f = recs[p].get("file")
                    p += 1
                    if e["ok"]:
                        full.append(f)
                        if e["short"]:
                            sz = project.parse_sizes(f) if f is not None else None
                            e["shape"] = 1 if sz is not None else 2
                            e["sizes"] = sz or []
                        else:
                            e["shape"] = 1 if f is not None and project.parse_groups(f) is not None else 2
                            e["g"] = T.groups(f) if f is not None else {"h": 0}
                else:
                    stop = True
            elif op == "sgroup":
                e["shape"], e["sizes"], e["g"] = 0, [], {"h": 0}
            if o["_obs"] and not stop:
                if p < len(recs) and "crash" not in recs[p]:
                    x = recs[p]
                    p += 1
                    if "obs" in x:
                        e["seen"] = True
                        e["obs"] = self.obs(x["obs"])
                        normed = {d["id"] for d in e["obs"]["ds"] if d["norm"]}
                        full.append(x["obs"])
                        ev_obs_ok = True
                    else:
                        stop = True     # observing failed in a foreign way
                else:
                    stop = True
            e["_full"] = full
            ev.append(e)
            if stop:
                ev.append(crash(o, "obs", recs[p] if p < len(recs) else {}))
                return ev
        return ev


def run(exe, mode, traces, work, name, seconds=20):
    """Runs traces in parallel; returns their output records by trace id."""
    parts = core.divide(traces)
    scratch = os.path.join(work, "scratch_" + name)
    os.makedirs(scratch, exist_ok=True)

    def one(k):
        text = "".join(t.lines(mode, scratch) for t in parts[k][1])
        return core.run_driver(exe, text, work, "%s_%d" % (name, k), seconds, reuse=parts[k][0])
    out = {}
    for recs in core.pmap(one, range(len(parts))):
        cur = None
        for r in recs:
            if "trace" in r:
                cur = out.setdefault(r["trace"], [])
            else:
                cur.append(r)
    return out


def write_tab(work, name, mode, merger, evs):
    for t in evs:
        for e in t["ev"]:
            e.pop("_full", None)
    p = os.path.join(work, name + ".json")
    with open(p, "w") as f:
        json.dump({"mode": mode, "umax": merger.tab.umax, "data": merger.tab.data or [{"ok": False, "u": 1, "rows": [], "n": 0, "len": 0, "x": merger.tab.extremes([])}],
                   "grps": merger.tab.grps or [{"form": False, "thx": 0, "ok": False, "tn": 0, "td": 1, "dist": "", "gu": 1, "span": 0, "ls": []}],
                   "traces": evs}, f)
    return p


TRACE_CFG = """SPECIFICATION Spec
INVARIANT Conforms
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Focus = "%s"
  DataOf <- TDataOf
  GrpOf <- TGrpOf
  UMax <- TUMax
"""


def validate(focus, tabfile, work, module="TraceOnex", cfg=None, timeout=800):
    """None, or (trace number from 0, event number from 0, verdict) of a rejected step; and the TLC result."""
    import re
    res = core.tlc(module, (cfg or TRACE_CFG) % focus, work, env={"TRACE_FILE": tabfile}, timeout=timeout)
    if res.clean:
        return None, res
    last = res.out[res.out.rindex("State "):]
    tid = int(re.search(r"tid = (\d+)", last).group(1))
    l = int(re.search(r"\bl = (\d+)", last).group(1))
    v = re.search(r'verdict = "([^"]*)"', last).group(1)
    return (tid - 1, l - 2, v), res
