"""Model checking of the specification itself, and behaviours generated from it."""
import json
import os
import random
import re
from fractions import Fraction as F

import core
import history

# ---------------------------------------------------------------- the system

ONEX = """SPECIFICATION Spec
INVARIANT HasAllProperties
%(view)s
CHECK_DEADLOCK FALSE
CONSTANTS
 UMax = 4000
 DataOf <- MDataOf
 GrpOf <- MGrpOf
 FileIds = {%(files)s}
 FileLines <- MCFileLines
 MaxLive = %(live)d
 MaxDepth = %(depth)d
 MaxTrans = 1
 Thrs <- %(thrs)s
 Ratios <- %(ratios)s
 PAAs = {%(paas)s}
 MatchQueries <- %(queries)s
 Emit = "%(emit)s"
"""
SMALL = dict(files='"a", "c", "bad"', live=2, depth=4, thrs="MCThrs", ratios="MCRatios", paas="0, 2", queries="MCQueries", view="VIEW View")
WALK = dict(files='"a", "b", "c", "e", "bad"', live=3, depth=16, thrs="MCThrs3", ratios="MCRatios3", paas="0, 1, 2, 3", queries="MCQueries3",
            view="")


def histories(out):
    """The behaviours printed by MCOnex, and its files."""
    files, hs = {}, []
    for line in out.split("\n"):
        if line.startswith('"@F'):
            files = json.loads(json.loads(line)[2:])
        elif line.startswith('"@['):
            hs.append(json.loads(json.loads(line)[1:]))
    return files, hs


def maximal(hs):
    """Without those that are the beginning of another one."""
    keys = [json.dumps(h, sort_keys=True) for h in hs]
    pre = set()
    for h in hs:
        for k in range(1, len(h)):
            pre.add(json.dumps(h[:k], sort_keys=True))
    seen, out = set(), []
    for h, k in zip(hs, keys):
        if k not in pre and k not in seen:
            seen.add(k)
            out.append(h)
    return out


class Replay:
    """Behaviours of MCOnex as scripts."""
    def __init__(self, ctx, files, out=None):
        self.c = ctx
        self.out = out or ctx.outdir
        self.paths = {}
        for name, lines in files.items():
            text, toks = "", []
            for line in lines:
                text += " ".join(("%d" % x["n"] if x["d"] == 1 else repr(x["n"] / x["d"])) if x["k"] else "x" for x in line) + "\n"
                toks.append([(x["k"], F(x["n"], x["d"]) if x["k"] else None) for x in line])
            self.paths[name] = ctx.files.add(text, toks)

    def path(self, p, tid):
        if p == "none":
            return self.c.files.missing()
        return self.paths.get(p) or os.path.join(self.out, "%s_%s" % (tid, p))

    def trace(self, tid, ops):
        t = history.Trace(tid)
        for o in ops:
            o = dict(o)
            op = o.pop("op")
            if "path" in o:
                o["_path"] = self.path(o.pop("path"), tid)
            if "sep" in o:
                o["_seps"] = o.pop("sep")
            if op == "group":
                o.pop("gthr"), o.pop("thx")
                o["_thr"] = repr(o["tn"] / o["td"])
            if op == "ratio":
                o["_ratio"] = repr(o["rn"] / o["rd"])
            t.add(op, **o)
        return t


def system(c, relevant=None, count=1200, walks=120):
    """Model checks the system, and replays its transitions and random walks of it into the code.
    relevant: operations the property is about; transitions by others are replayed only as part of what leads there."""
    if c.rep.violations:
        return
    rng = random.Random(c.seed())
    cfg = dict(SMALL, emit="all")
    if core.THOROUGH:
        cfg.update(depth=5, files='"a", "b", "c", "bad"', thrs="MCThrs1")
        count, walks = 30000, 2500
    res = core.tlc("MCOnex", ONEX % cfg, c.work, timeout=3000)
    model(c, "MCOnex", res)
    if not c.rep.violations:
        files, hs = histories(res.out)
        n = len(hs)
        hs = maximal([h for h in hs if relevant is None or h[-1]["op"] in relevant])
        m = len(hs)
        if len(hs) > count:
            hs = rng.sample(hs, count)
        R = Replay(c, files)
        c.rep.extra["generated"] = {"transitions of the model": n, "behaviours to the relevant ones": m, "replayed": len(hs)}
        c.traces("transitions", [R.trace("tr%d" % k, h) for k, h in enumerate(hs)])
    if not c.rep.violations:
        res = core.tlc("MCOnex", ONEX % dict(WALK, emit="walk"), c.work, timeout=3000, workers=1,      # each worker would take the same walks
                       extra=["-simulate", "num=%d" % walks, "-depth", "17", "-seed", str(c.seed())])
        model(c, "MCOnex walks", res)
        files, hs = histories(res.out)
        R = Replay(c, files)
        c.traces("walks", [R.trace("wk%d" % k, h) for k, h in enumerate(hs)])


def typed(c, walks=60):
    """Random walks of the system model, typed into the command line."""
    import cli
    if c.rep.violations:
        return []
    rng = random.Random(c.seed())
    res = core.tlc("MCOnex", ONEX % dict(WALK, emit="walk"), c.work, timeout=3000, workers=1,
                   extra=["-simulate", "num=%d" % c.scale(walks, 20 * walks), "-depth", "17", "-seed", str(c.seed())])
    model(c, "MCOnex walks", res)
    files, hs = histories(res.out)
    R = Replay(c, files, ".")
    out = []
    for k, h in enumerate(hs):
        ls = [cli.line_of(rng, o) for o in R.trace("wk%d" % k, h).ops]
        end = ["list dataset"] + [x % (i, i) for i in range(4) for x in ("save %d ./z%d", "saveGroup %d ./y%d")]
        out.append(cli.Session("wk%d" % k, [" ".join(ws) for ws in ls if ws] + end))
    return out


def model(c, name, res):
    """A model that lacks its properties is a mistake of the specification: no verdict about the code."""
    if res.invariant:
        raise core.CheckError("%s violates %s\n%s" % (name, res.invariant, res.out[-3000:]))
    c.rep.model(name, res)
    core.log("model", name, res.distinct, "states", res.generated, "transitions")


# ---------------------------------------------------------------- the parts

def part(c, module, invariants, constants, name=None, prop=()):
    if c.rep.violations:
        return None
    res = core.tlc(module, "SPECIFICATION Spec\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n %s\n"
                   % (" ".join(invariants), "PROPERTIES %s\n" % " ".join(prop) if prop else "", "\n ".join(constants)), c.work, timeout=3000)
    model(c, name or module, res)
    return res


DIST_INV = {"C15": ["DPIsDefinition", "InfiniteIffNoAlignment", "Symmetric", "ZeroOnSelf", "MonotoneInBand", "Pairwise", "BandInRange"],
            "C16": ["KeoghIsBound", "CutoffsHideNothing"], "C17": ["EnvelopesByDeque"]}


def distances(c):
    part(c, "MCDist", DIST_INV[c.prop], ["Vals = {0, 1, 3}", "MaxLen = %d" % c.scale(3, 4), "Cuts = {0, 1, 2, 4, 5, 9}", "Ratios <- MCRatios"])


def dumped(out):
    return [json.loads(json.loads(x)[1:]) for x in out.split("\n") if x.startswith('"@{')]


def tables(c, states):
    """States of MCGroup by table, with the file of each."""
    by = {}
    for s in states:
        by.setdefault(json.dumps(s["rows"]), []).append(s)
    for rows, ss in sorted(by.items()):
        rows = json.loads(rows)
        p = c.files.add("".join(" ".join(map(str, r)) + "\n" for r in rows), [[(True, F(x)) for x in r] for r in rows])
        yield p, sorted(ss, key=lambda s: (s["ratio"], s["dist"], s["thr"], s["q"]))


def groupings(c):
    """Every state of the grouping model: the model's properties, and the code's groups."""
    cst = ["Vals = {0, 1, 3}", "Shapes <- MCShapes", "Thrs <- MCThrs", "Ratios <- MCRatios", "Queried <- MCQ1", 'Dists = {"euclidean", "euclidean_dtw"}']
    res = part(c, "MCGroup", ["GroupingIsRight"] + (["FileRoundTrip"] if c.prop in ("C18", "C19") else []), cst + ["Emit = TRUE"])
    if core.THOROUGH:
        part(c, "MCGroup", ["GroupingIsRight"] + (["FileRoundTrip"] if c.prop in ("C18", "C19") else []),
             [cst[0], "Shapes <- MCShapes2"] + cst[2:] + ["Emit = FALSE"], name="MCGroup larger")
    if res is None:
        return
    ts = []
    for k, (p, ss) in enumerate(tables(c, dumped(res.out))):
        t = history.Trace("gm%d" % k)
        t.add("new", obs=False, id=0)
        t.add("load", id=0, _path=p, max=0, col=0, _seps=" ")
        last = None
        for s in ss:
            if s["ratio"] != last:
                last = s["ratio"]
                t.add("ratio", obs=False, rn=last[0], rd=last[1], _ratio=repr(last[0] / last[1]))
            t.add("group", id=0, tn=s["thr"][0], td=s["thr"][1], _thr=repr(s["thr"][0] / s["thr"][1]), _dist=s["dist"], dist=s["dist"])
            if c.prop in ("C18", "C19"):
                g = os.path.join(c.outdir, "gm%d" % k)
                t.add("sgroup", id=0, _path=g, short=False, good=True)
                t.add("group", obs=False, id=0, tn=7, td=1, _thr="7", _dist="euclidean", dist="euclidean")
                t.add("lgroup", id=0, _path=g, edited=False, tok=False)
        ts.append(t)
    c.traces("groupmodel", ts, mode="lib")


def searches(c):
    """Every state of the search model: table, threshold, ratio and query."""
    cst = ["Vals = {0, 1, 3}", "Shapes <- MCShapes1", "Thrs <- MCThrs1", "Ratios <- MCRatios2", "Queried <- MCQ3", 'Dists = {"euclidean"}', "Emit = TRUE"]
    res = part(c, "MCGroup", ["SearchIsRight", "OrderIsRight"], cst)
    if core.THOROUGH:
        part(c, "MCGroup", ["SearchIsRight", "OrderIsRight"], [cst[0], "Shapes <- MCShapes4"] + cst[2:6] + ["Emit = FALSE"], name="MCGroup larger")
    if res is None:
        return
    ts = []
    for k, (p, ss) in enumerate(tables(c, dumped(res.out))):
        t = history.Trace("sm%d" % k)
        t.add("new", obs=False, id=0)
        t.add("load", id=0, _path=p, max=0, col=0, _seps=" ")
        last = None
        for s in ss:
            key = (s["thr"], s["ratio"])
            if key != last:
                t.add("ratio", obs=False, rn=s["ratio"][0], rd=s["ratio"][1], _ratio=repr(s["ratio"][0] / s["ratio"][1]))
                t.add("group", id=0, tn=s["thr"][0], td=s["thr"][1], _thr=repr(s["thr"][0] / s["thr"][1]), _dist="euclidean", dist="euclidean")
                last = key
            t.add("matchv", obs=False, id=0, _v=s["q"])
        ts.append(t)
    c.traces("searchmodel", ts, mode="lib")


def texts(c):
    inv = ["RoundTrip", "PartsOfTables"] if c.prop == "C06" else ["PartsOfTables", "Rectangular", "FinalNewline", "Limits", "Skipping", "NegativeColumn"]
    for ch in ("MCChars", "MCChars2"):
        part(c, "MCLoad", inv, ["Chars <- " + ch, "MaxText = %d" % (0 if c.prop == "C06" else c.scale(4, 6)), "Vals <- MCVals",
                                "MaxRows = %d" % c.scale(2, 3), "MaxCols = 2"], name="MCLoad " + ch)
        if c.prop == "C06":
            break


def writer(c):
    part(c, "MCWriter", ["AsRequired", "APrefix"], ["MaxLen = %d" % c.scale(9, 24), "Bs = {0, 1, 3, 4, 20}", "Pieces = {1, 2, 5}"], prop=["Ends"])


def lines(c):
    inv = ["Understood", "OnlyWellTyped", "AndEveryWellTyped", "Placed", "Comments", "OnlyTimerTimes", "OnlyQuitEnds", "OneModeAtATime"]
    prop = ["AskedBeforeTheEnd", "NeverBack"]
    part(c, "MCCli", inv, ["MaxWords = %d" % c.scale(4, 5), "Args <- MCArgs"], name="MCCli", prop=prop)
    part(c, "MCCli", inv, ["MaxWords = %d" % c.scale(6, 7), "Args <- MCArgs2"], name="MCCli longer lines", prop=prop)


# ---------------------------------------------------------------- series

def heapline(e):
    op = e["op"]
    if op in ("own",):
        return "own %d %s" % (e["k"], " ".join(map(str, e["v"])))
    if op == "buf":
        return "buf %d %s" % (e["b"], " ".join(map(str, e["v"])))
    f = {"zero": "kn", "view": "kbise", "whole": "kb", "copy": "kj", "asg": "kj", "mov": "kj", "add": "kj", "set": "kpx", "get": "kp",
         "setbuf": "bpx", "del": "k", "env": "kr"}[op]
    return " ".join([op] + [str(e[x]) for x in f] + (["l"] if op == "env" else []))


def heap(c, relevant=None, count=4000):
    import series
    import simple
    if c.rep.violations:
        return
    rng = random.Random(c.seed())
    cfg = ("SPECIFICATION Spec\nINVARIANTS ValuesAreValues OwnersAlone NothingDangles NothingLeaks StaleOnlyIfAsked\nVIEW View\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS\n K = {0, 1, 2}\n MaxDepth = %d\n Emit = %s\n")
    res = core.tlc("MCHeap", cfg % (5, "TRUE"), c.work, timeout=3000)
    model(c, "MCHeap", res)
    if core.THOROUGH:
        model(c, "MCHeap deeper", core.tlc("MCHeap", cfg % (7, "FALSE"), c.work, timeout=3000))
        count = 60000
    _, hs = histories(res.out)
    n = len(hs)
    hs = maximal([h for h in hs if relevant is None or h[-1]["op"] in relevant])
    m = len(hs)
    if len(hs) > count:
        hs = rng.sample(hs, count)
    c.rep.extra["generated"] = {"transitions of the model": n, "behaviours to the relevant ones": m, "replayed": len(hs)}
    ts = []
    for k, h in enumerate(hs):
        g = series.HeapGen(rng, "tr%d" % k)
        for e in h:
            g.op(heapline(e), **e)
        ts.append(g.t)
    simple.validate(c.rep, c.prop, c.exe("drv_ts"), ts, c.work, "transitions", "TraceHeap", view=True)
