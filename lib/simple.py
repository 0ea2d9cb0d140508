"""Traces of single calls: each step is a driver line and the event it becomes."""
import json
import os

import core
import history


class STrace:
    def __init__(self, tid):
        self.tid = tid
        self.steps = []     # (line, event, finish or None)

    def add(self, line, ev=None, fin=None):
        """ev None: not an event (setting up)."""
        self.steps.append((line, ev, fin))

    def text(self):
        return "T %s\n" % self.tid + "".join(s[0] + "\n" for s in self.steps)


def run(exe, traces, work, name, seconds=20):
    parts = core.divide(traces)

    def one(k):
        return core.run_driver(exe, "".join(t.text() for t in parts[k][1]), work, "%s_%d" % (name, k), seconds, reuse=parts[k][0])
    out = {}
    for recs in core.pmap(one, range(len(parts))):
        cur = None
        for r in recs:
            if "trace" in r:
                cur = out.setdefault(r["trace"], [])
            else:
                cur.append(r)
    return out


def events(t, recs):
    ev = []
    for k, (line, e, fin) in enumerate(t.steps):
        if k >= len(recs) or "crash" in recs[k] or "exc" in recs[k]:
            if k < len(recs):
                ev.append({"op": "crash", "of": (e or {}).get("op", line.split()[0]), "line": line})
            return ev
        if e is None:
            continue
        x = dict(e)
        x["ok"] = "err" not in recs[k]
        x["line"] = line
        if fin:
            fin(x, recs[k])
        ev.append(x)
    return ev


CFG = """SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
%s
CONSTANT Focus = "%%s"
"""


def validate(rep, focus, exe, traces, work, name, module, extra=None, view=False, seconds=20, outs=None, const="", drop=()):
    """Runs and validates; reports a violation that repeats."""
    outs = outs or run(exe, traces, work, name, seconds)
    evs = [[e for e in events(t, outs.get(t.tid, [])) if e["op"] not in drop] for t in traces]

    def check(evl, nm):
        tab = {"traces": [{"ev": [{k: v for k, v in e.items() if k != "line"} for e in ev]} for ev in evl]}
        tab.update(extra or {})
        p = os.path.join(work, nm + ".json")
        with open(p, "w") as f:
            json.dump(tab, f)
        r = history.validate(focus, p, work, module=module, cfg=CFG % (("VIEW View\n" if view else "") + const))
        os.unlink(p)
        return r
    bad, res = check(evs, name)
    counts = {}
    for ev in evs:
        for e in ev:
            k = e["op"] + ("" if e.get("ok", True) else "_err")
            counts[k] = counts.get(k, 0) + 1
    rep.conformance(name, len(traces), sum(map(len, evs)), res, results=dict(sorted(counts.items())))
    if traces:
        rep.sample({"campaign": name, "script": traces[len(traces) // 2].text().split("\n")[1:12]})
    core.log(name, len(traces), "traces", sum(map(len, evs)), "events ->", bad)
    if bad is None:
        return
    t = traces[bad[0]]
    outs2 = run(exe, [t], work, name + "_again", seconds)
    ev2 = [e for e in events(t, outs2.get(t.tid, [])) if e["op"] not in drop]
    bad2, _ = check([ev2], name + "_again")
    if bad2 is None:
        raise core.CheckError("rejection of trace %s did not repeat" % t.tid)
    e = ev2[bad2[1]]
    rp = core.save_replay(rep.prop, name, {"property": rep.prop, "focus": focus, "module": module, "verdict": bad2[2],
                                           "failing_event": bad2[1], "event": e, "script": t.text().split("\n")})
    rep.violation("%s at event %d (%s) of trace %s in %s" % (bad2[2], bad2[1], e.get("line"), t.tid, name), rp)
