"""Twins: a second history that must give the same answers (self-composition)."""
import copy

import history


def retarget(o, outdir):
    """A copy of an operation that writes to the twin's own files."""
    o = dict(o)
    if "_path" in o and o["_path"].startswith(outdir + "/"):
        o["_path"] = outdir + "/tw/" + o["_path"][len(outdir) + 1:]
    return o


def whole(e, o):
    return repr(e["_full"]).replace("/tw/", "/")


def subset(t, keep, outdir, suffix):
    """The twin with only the operations keep(o), and where each operation of t is in it."""
    x = history.Trace(t.tid + suffix)
    mp = []
    for o in t.ops:
        if keep(o):
            mp.append(len(x.ops))
            x.ops.append(retarget(o, outdir))
        else:
            mp.append(None)
    return x, mp


def without_bad(rng, t, outdir):
    x, mp = subset(t, lambda o: not o.get("_bad"), outdir, "tw")
    return x, mp, whole


QUERIES = {"list", "info", "count", "save", "sgroup", "match", "matchv"}


def without_queries(rng, t, outdir):
    """Half of the queries removed, the others must be answered alike."""
    x, mp = subset(t, lambda o: o["op"] not in QUERIES or (o["op"] == "match" and rng.random() < 0.3), outdir, "tw")
    return x, mp, whole


class Lineage:
    """Which load each identifier comes from, by the operations' meaning."""
    def __init__(self, mode):
        self.ids = {}
        self.mode = mode

    def step(self, k, o):
        op = o["op"]
        if o.get("_bad"):
            return
        if op == "load":
            i = o.get("id")
            if i is None:
                i = 0
                while i in self.ids:
                    i += 1
            self.ids[i] = k
        elif op in ("unload", "del"):
            self.ids.pop(o["id"], None)
        elif op == "unloadall":
            self.ids = {}


def strip(rec):
    """An observation or result without identifiers and names."""
    if isinstance(rec, dict):
        return {k: strip(v) for k, v in sorted(rec.items()) if k not in ("id",)}
    if isinstance(rec, list):
        return [strip(x) for x in rec]
    return rec


def alone(rng, t, outdir):
    """One dataset's own history: everything that concerns only other datasets is removed."""
    lin = Lineage("api")
    loads = [k for k, o in enumerate(t.ops) if o["op"] == "load" and not o.get("_bad")]
    if not loads:
        return None
    # the dataset with most operations of its own, usually
    owner = []
    for k, o in enumerate(t.ops):
        lin.step(k, o)
        owner.append({lin.ids.get(o.get("id")), lin.ids.get(o.get("q", o.get("id")))} if "id" in o else
                     ({k} if o["op"] == "load" else set()))
    cnt = {k: sum(1 for w in owner if w == {k}) for k in loads}
    v = max(loads, key=lambda k: (cnt[k], k)) if rng.random() < 0.7 else rng.choice(loads)
    x = history.Trace(t.tid + "tw")
    mp = []
    if any(o["op"] == "new" for o in t.ops):
        x.ops.append({"op": "new", "_obs": False, "id": 0})
    for k, o in enumerate(t.ops):
        own = (o["op"] == "ratio" or owner[k] == {v}) and not o.get("_bad")
        if own and o["op"] in ("unload", "unloadall", "new", "del"):
            own = False
        if own:
            mp.append(len(x.ops))
            y = retarget(o, outdir)
            for f in ("id", "q"):
                if f in y:
                    y[f] = 0
            x.ops.append(y)
        else:
            mp.append(None)

    twinops = {id(o) for o in x.ops}

    def proj(e, o):
        full = e["_full"]
        if o["op"] == "ratio":
            return repr(full[0])
        r = {a: b for a, b in full[1].items() if a in ("count", "min", "max", "m", "info")}
        out = [full[0], r]
        # the dataset itself as observed afterwards
        if len(full) > 2 and isinstance(full[-1], dict) and "list" in full[-1]:
            i = 0 if id(o) in twinops else o["id"] if "id" in o else e["info"]["id"] if "info" in e else -1
            for a, b in zip(full[-1]["list"], full[-1]["ds"]):
                if a["id"] == i:
                    out += [a, b]
        elif len(full) > 2 and isinstance(full[-1], dict) and "ds" in full[-1] and "id" in o:
            out += [d for d in full[-1]["ds"] if d["id"] == (0 if id(o) in twinops else o["id"])]
        return repr(strip(out)).replace("/tw/", "/")
    return x, mp, proj


def fresh(rng, t, outdir):
    """One grouping repeated from scratch: only the load, the transformations before it, the band ratio, the grouping, and
    what the dataset was asked about itself while it had these groups."""
    mode = "lib" if any(o["op"] == "new" for o in t.ops) else "api"
    lin = Lineage(mode)
    hist, ratio, cands, ok = {}, None, [], {}
    for k, o in enumerate(t.ops):
        lin.step(k, o)
        if o.get("_bad"):
            continue
        op = o["op"]
        if op == "load":
            i = [a for a, b in lin.ids.items() if b == k][0]
            hist[k] = [o]
            ok[k] = not o["_path"].startswith(outdir)
        elif op in ("norm", "paa") and o["id"] in lin.ids:
            hist[lin.ids[o["id"]]].append(o)
        elif op == "ratio":
            ratio = o
        elif op == "group" and o["id"] in lin.ids and o["_obs"]:
            v = lin.ids[o["id"]]
            if ok[v]:
                cands.append((k, v, list(hist[v]), ratio))
    if not cands:
        return None
    k, v, ops, ratio = cands[-1] if rng.random() < 0.7 else rng.choice(cands)
    x = history.Trace(t.tid + "tw")
    if ratio:
        x.ops.append(retarget(ratio, outdir))
    if mode == "lib":
        x.ops.append({"op": "new", "_obs": False, "id": 0})
    for o in ops + [t.ops[k]]:
        y = retarget(o, outdir)
        if "id" in y:
            y["id"] = 0
        x.ops.append(y)
    mp = [None] * len(t.ops)
    mp[k] = len(x.ops) - 1
    lin = Lineage(mode)
    made, todo = {v: 0}, {}        # datasets the queries are from: their identifiers, and what is still to be done to them
    for j, o in enumerate(t.ops):
        lin.step(j, o)
        if o.get("_bad"):
            continue
        if o["op"] == "load":
            todo[next(b for b in lin.ids.values() if b == j)] = [o]
        elif o["op"] in ("norm", "paa") and o["id"] in lin.ids:
            todo[lin.ids[o["id"]]].append(o)
        if j <= k:
            continue
        i = next((a for a, b in lin.ids.items() if b == v), None)
        if i is None or o["op"] in ("norm", "paa", "group", "lgroup", "reset", "clear") and o["id"] == i:
            break
        if o["op"] == "ratio":
            x.ops.append(retarget(o, outdir))
        elif o["op"] == "match" and o["id"] == i and ok.get(lin.ids.get(o["q"])):
            w = lin.ids[o["q"]]
            if w != v:
                if w not in made:
                    made[w] = len(made)
                    if mode == "lib":
                        x.ops.append({"op": "new", "_obs": False, "id": made[w]})
                for y in todo[w]:
                    y = retarget(y, outdir)
                    if "id" in y:
                        y["id"] = made[w]
                    x.ops.append(y)
                todo[w] = []
            x.ops.append(dict(retarget(o, outdir), id=0, q=made[w]))
            mp[j] = len(x.ops) - 1
    twinops = {id(o) for o in x.ops}

    def proj(e, o):
        full = e["_full"]
        if o["op"] == "match":
            return repr([full[0], full[1].get("m")])
        i = 0 if id(o) in twinops else o["id"]
        out = [full[0], full[1].get("count")]
        if len(full) > 2:
            ob = full[-1]
            if "list" in ob:
                out += [b["groups"] for a, b in zip(ob["list"], ob["ds"]) if a["id"] == i]
            else:
                out += [d["groups"] for d in ob["ds"] if d["id"] == i]
        return repr(out)
    return x, mp, proj
