"""Campaigns over histories: generate, run, validate, confirm, report."""
import os
import random
import shutil

import core
import gen
import history
import project


def script_text(t, mode):
    return "".join(t.lines(mode, "SCRATCH").splitlines(True))


def run_and_validate(rep, focus, exe, mode, traces, files, work, name, single=False, twins=None, module="TraceOnex", seconds=20, scale=1, raw=False):
    """Runs traces, validates them for the focus property; reports a rejected step after repeating it.
    twins: {trace id: (other trace, [index of the other's operation or None, for each operation], project function)}"""
    allt = list(traces) + ([x[0] for x in twins.values()] if twins else [])
    outs = history.run(exe, mode, allt, work, name, seconds)
    m = history.Merger(mode, files, single, scale, raw)
    evs, nev = [], 0
    order = []
    for t in traces:
        ev = m.events(t, outs.get(t.tid, []))
        if twins and t.tid in twins:
            other, mp, proj = twins[t.tid]
            oev = m.events(other, outs.get(other.tid, []))
            link(m, t, ev, other, oev, mp, proj)
        nev += len(ev)
        evs.append({"ev": ev})
        order.append(t)
    if not evs:
        return
    tab = history.write_tab(work, name, mode, m, evs)
    bad, res = history.validate(focus, tab, work, module=module)
    rep.conformance(name, len(evs), nev, res, results=dict(sorted(m.counts.items())),
                    tables=len(m.tab.data), groupings=len(m.tab.grps))
    if evs and evs[0]["ev"]:
        rep.sample({"campaign": name, "script": [history.line(o, mode) for o in order[len(order) // 2].ops][:12]})
    core.log(name, len(evs), "traces", nev, "events", res.distinct, "states", "->", bad)
    if bad is None:
        os.unlink(tab)
        return
    t = order[bad[0]]
    # repeat this trace alone: only a rejection that repeats is a violation
    sub = [t]
    tw = {t.tid: twins[t.tid]} if twins and t.tid in twins else None
    outs2 = history.run(exe, mode, sub + ([x[0] for x in tw.values()] if tw else []), work, name + "_again", seconds)
    m2 = history.Merger(mode, files, single, scale, raw)
    ev2 = m2.events(t, outs2.get(t.tid, []))
    if tw:
        other, mp, proj = tw[t.tid]
        link(m2, t, ev2, other, m2.events(other, outs2.get(other.tid, [])), mp, proj)
    tab2 = history.write_tab(work, name + "_again", mode, m2, [{"ev": ev2}])
    bad2, _ = history.validate(focus, tab2, work, module=module)
    if bad2 is None:
        # state left behind by earlier traces cannot matter: each trace has its own process
        core.log("rejection did not repeat", bad)
        raise core.CheckError("rejection of trace %s did not repeat" % t.tid)
    e = ev2[bad2[1]] if bad2[1] < len(ev2) else {}
    inputs = {}
    for o in t.ops:
        if "_path" in o and o["_path"].startswith(files.dir) and os.path.isfile(o["_path"]):
            inputs[o["_path"]] = open(o["_path"], "rb").read(20000).decode("latin-1")
    rp = core.save_replay(rep.prop, name, {
        "property": rep.prop, "focus": focus, "mode": mode, "single": single, "verdict": bad2[2], "failing_event": bad2[1],
        "event": {k: v for k, v in e.items() if k not in ("lines", "toks")}, "script": script_text(t, mode).split("\n"), "inputs": inputs,
        "twin": script_text(tw[t.tid][0], mode).split("\n") if tw else None})
    rep.violation("%s at event %d (%s %s) of trace %s in %s" % (bad2[2], bad2[1], e.get("op"), e.get("of", ""), t.tid, name), rp)


def link(m, t, ev, other, oev, mp, proj):
    """Marks events of a trace with what the corresponding event of its twin gave."""
    for i, e in enumerate(ev):
        if e["op"] == "crash" or i >= len(mp) or mp[i] is None:
            continue
        j = mp[i]
        if j >= len(oev) or oev[j]["op"] == "crash":
            continue
        a, b = proj(e, t.ops[i]), proj(oev[j], other.ops[j])
        e["rx"] = m.tab.token(a)
        e["tw"] = m.tab.token(b)


def histories(seed, files, outdir, count, depth, mode="api", npool=14, nmax=4, lmax=6, styles=gen.STYLES, pre="h", pool_kw=None, given=None, scale=1, **kw):
    rng = random.Random(seed)
    pool = given or gen.pool(rng, files, npool, styles=styles, nmax=nmax, lmax=lmax, scale=scale, **(pool_kw or {}))
    bads = gen.bad_files(rng, files)
    g = gen.HistoryGen(rng, files, pool, outdir, mode=mode, bads=bads, scale=scale, **kw)
    out = []
    for k in range(count):
        t = g.start("%s%d" % (pre, k))
        n = rng.randint(max(3, depth // 2), depth)
        while len(t.ops) < n:
            g.step()
        out.append(t)
    return out
