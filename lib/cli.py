"""Sessions of the command line (C20), against the same operations performed on the library."""
import json
import os
import pty
import random
import re
import select
import shutil
import struct
import termios
import fcntl
import time
import zlib
import subprocess
from fractions import Fraction as F

import core
import gen
import history
import project

T = project.Tables()
INT = re.compile(r"[ \t\n\v\f\r]*[+-]?\d+")
NUM = re.compile(r"[ \t\n\v\f\r]*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")


def word(w):
    isint = bool(INT.fullmatch(w)) and abs(int(w)) < 2 ** 31
    isnum = bool(NUM.fullmatch(w)) and abs(float(w)) < 1e300 and (float(w) == 0 or abs(float(w)) > 1e-300)
    return {"w": w, "c1": w[0], "com": w.startswith("//"), "i": isint, "v": int(w) if isint else 0, "f": isnum}


def translate(ws):
    """What the harness performs on the library for a line: (driver line, fields)."""
    if not ws or ws[0].startswith("//"):
        return None
    k, a, n = ws[0], [word(w) for w in ws], len(ws)
    ints = lambda *ix: all(a[i]["i"] for i in ix)
    v = lambda i: a[i]["v"]
    if k == "list" and ws[1:] == ["dataset"]:
        return "list", dict(op="list")
    if k == "load" and 2 <= n <= 5 and ints(*range(2, min(n, 4))):
        o = dict(op="load", path=ws[1], max=v(2) if n > 2 else 0, col=v(3) if n > 3 else 0, seps=ws[4] if n > 4 else " ")
        return "load %s %d %d %s" % (history.hx(o["path"]), o["max"], o["col"], history.hx(o["seps"])), o
    if k == "save" and 3 <= n <= 4 and ints(1):
        o = dict(op="save", id=v(1), path=ws[2], seps=ws[3][0] if n > 3 else " ")
        return "save %d %s %s" % (o["id"], history.hx(o["path"]), history.hx(o["seps"])), o
    if k == "unload" and n == 2 and ints(1):
        return "unload %d" % v(1), dict(op="unload", id=v(1))
    if k == "normalize" and n == 2 and ints(1):
        return "norm %d" % v(1), dict(op="norm", id=v(1))
    if k == "paa" and n == 3 and ints(1, 2):
        return "paa %d %d" % (v(1), v(2)), dict(op="paa", id=v(1), n=v(2))
    if k == "group" and n == 3 and ints(1) and a[2]["f"]:
        return "group %d %s" % (v(1), ws[2]), dict(op="group", id=v(1), thr=ws[2])
    if k == "saveGroup" and 3 <= n <= 4 and ints(1, *range(3, n)):
        o = dict(op="sgroup", id=v(1), path=ws[2], short=n == 4 and v(3) != 0)
        return "sgroup %d %s %d" % (o["id"], history.hx(o["path"]), o["short"]), o
    if k == "loadGroup" and n == 3 and ints(1):
        return "lgroup %d %s" % (v(1), history.hx(ws[2])), dict(op="lgroup", id=v(1), path=ws[2])
    if k == "match" and n in (4, 6) and ints(*range(1, n)):
        o = dict(op="match", id=v(1), q=v(2), i=v(3), s=v(4) if n == 6 else -1, e=v(5) if n == 6 else -1)
        return "match %d %d %d %d %d" % (o["id"], o["q"], o["i"], o["s"], o["e"]), o
    return None


def wide(x, digits):
    """An interval of the square of a distance printed with so many digits."""
    f = F(x)
    e = abs(f) * F(1, 10 ** (digits - 1)) + F(1, 10 ** 12)
    return T.interval(float(f), rel=F(1, 10 ** (digits - 1)), abst=F(1, 10 ** 11))


def read_out(text):
    """What was printed for a line: kind and fields."""
    out = {"err": any(x.startswith("Error!") for x in text.split("\n")), "k": "other"}
    timed = "Command executed in" in text
    t = "\n".join(x for x in text.split("\n") if not x.startswith(("Command executed in", "Processing time series", "  Grouping progress", "Saved groups are compatible")))
    if not t.strip():
        out["k"] = "nothing"
        return out, timed

    def m(rx):
        return re.search(rx, t, re.S)
    r = m(r"^\s*Dataset (?:loaded|PAA-ed)\s+Name:\s+(\S+)\s+ID:\s+(\d+)\s+Item count:\s+(-?\d+)\s+Item length:\s+(-?\d+)\s*$")
    if r:
        out.update(k="info", name=r.group(1), id=int(r.group(2)), n=int(r.group(3)), len=int(r.group(4)))
        return out, timed
    r = m(r"^\s*Saved (dataset|groups of dataset) (-?\d+) to (\S+)\s*$")
    if r:
        out.update(k="saved" if r.group(1) == "dataset" else "savedgroups", id=int(r.group(2)), path=r.group(3))
        return out, timed
    r = m(r"^\s*Dataset (-?\d+) is unloaded\s*$")
    if r:
        out.update(k="unloaded", id=int(r.group(1)))
        return out, timed
    r = m(r"^\s*Dataset (-?\d+) is now normalized\s*$")
    if r:
        out.update(k="normalized", id=int(r.group(1)))
        return out, timed
    r = m(r"^\s*Dataset (-?\d+) is now grouped\s+Number of Groups: (-?\d+)\s*$")
    if r:
        out.update(k="grouped", id=int(r.group(1)), count=int(r.group(2)))
        return out, timed
    r = m(r"^\s*(-?\d+) groups loaded for dataset (-?\d+)\s*$")
    if r:
        out.update(k="loadedgroups", id=int(r.group(2)), count=int(r.group(1)))
        return out, timed
    r = m(r"^\s*Best Match is timeseries (-?\d+) starting at (-?\d+) with length (-?\d+)\. Distance = (\S+)\s*$")
    if r:
        try:
            x = float(r.group(4))
            out.update(k="match", i=int(r.group(1)), s=int(r.group(2)), l=int(r.group(3)), d=wide(x, 4) if abs(x) < 1e300 else T.interval(x))
        except ValueError:
            pass
        return out, timed
    r = m(r"^\s*Timer is (ON|OFF)\s*$")
    if r:
        out.update(k="timer", on=r.group(1) == "ON")
        return out, timed
    r = m(r"^\s*There are (\d+) loaded datasets\s*\n(.*)$")
    if r:
        rows = []
        for x in r.group(2).split("\n"):
            if x.strip():
                f = x.split()
                if len(f) >= 2 and re.fullmatch(r"-?\d+", f[0]) and all(y in ("Normalized", "Grouped") for y in f[2:]):
                    rows.append({"id": int(f[0]), "name": f[1], "norm": "Normalized" in f[2:], "grp": "Grouped" in f[2:]})
                else:
                    rows.append({"id": -1, "name": x, "norm": False, "grp": False})
        out.update(k="list", count=int(r.group(1)), list=rows)
        return out, timed
    if t.split() == ["euclidean", "euclidean_dtw"]:
        out["k"] = "distances"
        return out, timed
    named = lambda x: sorted(set(re.findall(r"\w+", x)) & set(COMMANDS))
    r = re.search(r"(?m)^\s*Usage:(.*)$", t)
    if r:
        # the usage of what is the topic; the help of everything names everything
        out.update(k="usage", of=named(r.group(1)))
    elif set(named(t)) == set(COMMANDS):
        out.update(k="topics")
    return out, timed


class Session:
    """lines holds what is typed: text, and at a terminal also ["eof"] and ["answer", word]."""

    def __init__(self, tid, lines, tty=False):
        self.tid, self.lines, self.tty = tid, lines, tty


def run_cli(exe, text, cwd, seconds=20, env=core.ENV):
    try:
        r = subprocess.run([exe], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, timeout=seconds,
                           env=dict(env, HOME=cwd, TERM="dumb", INPUTRC="/dev/null", COLUMNS="100000"))
        return r.returncode, r.stdout.decode("latin-1")
    except subprocess.TimeoutExpired:
        return -999, ""


def segments(out):
    """Output after each prompt, without the line typed."""
    parts = re.split(r"(?m)^>> ", out)[1:]
    return [(p.split("\n", 1) + [""])[:2] for p in parts]


ASKING = "([y]/n)? "


def run_tty(exe, typed, cwd, seconds=30):
    """The same at a terminal: typed holds lines, ["eof"] (Ctrl-D) and ["answer", word]; each is typed at the prompt it is
    meant for.  Returns (exit status, [(prompt it was typed at, output)], prompt in the end)."""
    master, slave = pty.openpty()
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", 50, 4000, 0, 0))
    p = subprocess.Popen([exe], stdin=slave, stdout=slave, stderr=subprocess.DEVNULL, cwd=cwd, start_new_session=True,
                         env=dict(core.ENV, HOME=cwd, TERM="dumb", INPUTRC="/dev/null"))
    os.close(slave)

    def wait():
        buf, end = b"", time.time() + seconds
        while time.time() < end:
            r, _, _ = select.select([master], [], [], 0.5)
            if not r:
                if p.poll() is not None:
                    break
                continue
            try:
                x = os.read(master, 65536)
            except OSError:
                break
            if not x:
                break
            buf += x
            t = buf.decode("latin-1").replace("\r\n", "\n").replace("\r", "")
            if t == ">> " or t.endswith("\n>> "):
                return "main", t[:-3]
            if t.endswith("\nDo you really want to exit " + ASKING):
                return "ask", t[:t.rindex("Do you really")]
        return "end", buf.decode("latin-1").replace("\r\n", "\n")
    got = []
    at, _ = wait()
    for x in typed:
        kind = "main" if isinstance(x, str) else "ask" if x[0] == "answer" else at
        if at == "end" or kind != at:
            got.append((at, ""))
            continue
        here = at
        os.write(master, b"\x04" if x == ["eof"] else ((x if isinstance(x, str) else x[1]) + "\n").encode("latin-1"))
        at, out = wait()
        got.append((here, out if x == ["eof"] else (out.split("\n", 1) + [""])[1]))
    rc = 0
    if at == "end":
        try:
            rc = p.wait(timeout=seconds)
        except subprocess.TimeoutExpired:
            rc = -999
    if p.poll() is None:
        p.kill()
        p.wait()
    os.close(master)
    return rc, got, at


def contents(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), "rb") as h:
                out[os.path.relpath(os.path.join(b, f), d)] = h.read()
    return out


def events(cliexe, apiexe, sessions, work, name):
    base = os.path.join(work, "cli_" + name)
    os.makedirs(base, exist_ok=True)

    def one(s):
        d = os.path.join(base, s.tid)
        c, a = os.path.join(d, "c"), os.path.join(d, "a")
        os.makedirs(c)
        os.makedirs(a)
        if s.tty:
            rc, got, last = run_tty(cliexe, s.lines, c)
        else:
            rc, out = run_cli(cliexe, ("".join(x + "\n" for x in s.lines)).encode("latin-1"), c,
                              env=core.REUSE if zlib.crc32(s.tid.encode()) % 2 else core.ENV)
        script = ["T x", "cd " + history.hx(a)]
        over = False
        plan = []
        for x in s.lines:
            if not isinstance(x, str):
                plan.append((x, None))
                continue
            ws = [w for w in x.split(" ") if w]
            tr = None if over else translate(ws)
            plan.append((ws, tr))
            if tr:
                script.append(tr[0])
            over = over or (ws[:1] in (["quit"], ["exit"]))
        recs = core.run_driver(apiexe, "\n".join(script) + "\n", d, "api", 20)[2:]
        segs = [] if s.tty else segments(out)
        ev, p = [], 0
        for k, (ws, tr) in enumerate(plan):
            if not isinstance(s.lines[k], str):
                ev.append({"op": ws[0], "at": got[k][0], "w": ws[1] if len(ws) > 1 else ""})
                continue
            e = {"op": "line", "ran": got[k][0] == "main" if s.tty else k < len(segs), "words": [word(w) for w in ws], "api": {"op": "none"}, "out": {"k": "nothing", "err": False}, "timed": False}
            if tr:
                api = dict(tr[1])
                r = recs[p] if p < len(recs) else {"crash": "?"}
                p += 1
                if "crash" in r or "exc" in r:
                    ev.append(None)     # the library itself does not end properly: no session to compare with
                    break
                api["ok"] = "err" not in r
                for f in ("info", "count", "list"):
                    if f in r:
                        api[f] = r[f]
                if "m" in r:
                    api["m"] = dict(i=r["m"]["i"], s=r["m"]["s"], l=r["m"]["l"], d=T.interval(float(r["m"]["d"])))
                e["api"] = api
            if e["ran"]:
                e["out"], e["timed"] = read_out(got[k][1] if s.tty else segs[k][1])
            ev.append(e)
        if None in ev:
            ev = []
        else:
            # asked whether to exit as the input ended; at a terminal, not ended at all
            asked = last != "end" if s.tty else len(segs) > len(s.lines) and "really want to exit" in segs[len(s.lines)][1]
            ev.append({"op": "end", "rc": rc, "asked": asked, "files": contents(c) == contents(a)})
        shutil.rmtree(d)
        return ev
    return core.pmap(one, sessions)


CFG = """SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANT Focus = "%s"
"""


def validate(rep, evs, sessions, work, name, again=None):
    tab = os.path.join(work, name + ".json")
    with open(tab, "w") as f:
        json.dump({"traces": [{"ev": e} for e in evs]}, f)
    bad, res = history.validate(rep.prop, tab, work, module="TraceCli", cfg=CFG)
    os.unlink(tab)
    if again is None:
        counts = {}
        for ev in evs:
            for e in ev:
                if e["op"] == "line":
                    k = e["words"][0]["w"] if e["words"] else ""
                    k = k if k in COMMANDS else "other"
                    k += "_err" if e["out"]["err"] else ""
                    counts[k] = counts.get(k, 0) + 1
                elif e["op"] in ("eof", "answer"):
                    counts[e["op"]] = counts.get(e["op"], 0) + 1
        rep.conformance(name, len(evs), sum(map(len, evs)), res, results=dict(sorted(counts.items())))
        rep.sample({"campaign": name, "lines": sessions[len(sessions) // 2].lines[:12]})
        core.log(name, len(evs), "sessions", sum(map(len, evs)), "events ->", bad)
    return bad


def check(rep, cliexe, apiexe, sessions, work, name):
    evs = events(cliexe, apiexe, sessions, work, name)
    bad = validate(rep, evs, sessions, work, name)
    if bad is None:
        return
    s = sessions[bad[0]]
    ev2 = events(cliexe, apiexe, [s], work, name + "_again")
    bad2 = validate(rep, ev2, [s], work, name + "_again", again=True)
    if bad2 is None or bad2[2] == "harness":
        raise core.CheckError("session %s: %s then %s" % (s.tid, bad, bad2))
    e = ev2[0][bad2[1]]
    rp = core.save_replay(rep.prop, name, {"property": rep.prop, "verdict": bad2[2], "failing_event": bad2[1], "event": e, "session": s.lines})
    rep.violation("%s at line %d (%s) of session %s in %s" % (bad2[2], bad2[1], s.lines[bad2[1]] if bad2[1] < len(s.lines) else "end", s.tid, name), rp)


# ------------------------------------------------------------------ generation

COMMANDS = ["load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match", "help", "quit", "exit"]


def line_of(rng, o):
    """A way of typing an operation of the history generator, or None."""
    op = o["op"]
    g = lambda *ks: [str(o[k]) for k in ks]
    if op == "load":
        ws = ["load", o["_path"], str(o["max"]), str(o["col"]), o["_seps"]]
        if o["_seps"] == " ":
            ws.pop()
            if o["col"] == 0 and rng.random() < 0.7:
                ws.pop()
                if o["max"] == 0 and rng.random() < 0.7:
                    ws.pop()
        elif any(c in " \t" for c in o["_seps"]):
            return None
        return ws
    if op == "save":
        if o["_seps"] == " ":
            return ["save"] + g("id", "_path")
        if o["_seps"] == "\t":
            return None
        return ["save"] + g("id", "_path") + [o["_seps"] + ("x" if rng.random() < 0.1 else "")]
    if op in ("unload", "norm"):
        return [{"unload": "unload", "norm": "normalize"}[op]] + g("id")
    if op == "paa":
        return ["paa"] + g("id", "n")
    if op == "group":
        return ["group"] + g("id", "_thr")
    if op == "sgroup":
        return ["saveGroup"] + g("id", "_path") + (["1"] if o["short"] else rng.choice([[], [], ["0"]]))
    if op == "lgroup":
        return ["loadGroup"] + g("id", "_path")
    if op == "match":
        return ["match"] + g("id", "q", "i") + ([] if o["s"] == -1 and o["e"] == -1 and rng.random() < 0.8 else g("s", "e"))
    if op == "list":
        return ["list", "dataset"]
    return None


def spoil(rng, ws):
    """The same line with an argument too many, too few, or text for a number."""
    ws = list(ws)
    k = rng.random()
    if k < 0.3:
        ws += [rng.choice(["1", "x", "0", "//", ","]) for _ in range(rng.choice([1, 1, 2, 4]))]
    elif k < 0.55 and len(ws) > 1:
        del ws[rng.randint(1, len(ws) - 1)]
    elif k < 0.9 and len(ws) > 1:
        ws[rng.randint(1, len(ws) - 1)] = rng.choice(["abc", "x1", "1x", "-", "--1", "99999999999", "1.5", "one", "0.5.5", "+", "1e", "1,"])
    else:
        ws[0] = rng.choice([ws[0].upper() if ws[0] != "//" else "X", ws[0] + "s", "lod", ws[0][:-1] or "q", "Quit", "EXIT", ">>", ";", "savegroup"])
    # nothing that would be a sensible path to write to
    if ws[0] in ("save", "saveGroup") and len(ws) > 2 and not ws[2].startswith("./"):
        ws[2] = "./" + ws[2].replace("/", "_")
    return ws


EXTRA = ["", " ", "// load x", "//", "//quit", "help", "help load", "help quit", "help help", "help nothing", "help load save", "help Load",
         "list distance", "list dataset", "list", "list datasets", "list dataset distance", "timer", "timer on", "timer off", "timer ON", "timer on off",
         "timer 1", "group 0 -1", "group 0 inf", "group 0 nan", "group 0 -0.25", "foo", "quitt", "? ", "load", "save", "match", "group", "paa", "unload", "normalize", "saveGroup", "loadGroup", "exits", "load nosuchfile",
         "x" * 300, "load " + "y" * 500, "list " + "z " * 200, "\"load a\"", "'", "!!", "$HOME", "%s%s%n", "match 0 0", "match 0 0 0 1", "unload 0 1", "paa 0"]


def sessions(seed, files, count, depth, pre="s", nmax=4, lmax=6):
    rng = random.Random(seed)
    pool = [d for d in gen.pool(rng, files, 30, nmax=nmax, lmax=lmax)]
    pool = [d for d in pool if d.seps == " " or not any(c in " \t" for c in d.seps)]
    g = gen.HistoryGen(rng, files, pool, ".", bads=gen.bad_files(rng, files), badness=0.12,
                       weights=dict(ratio=0, info=0, count=0, unloadall=0, side=0, list=1.0, group=3, match=4, save=1.5, sgroup=1.2, lgroup=1))
    out = []
    for k in range(count):
        t = g.start("%s%d" % (pre, k))
        n = rng.randint(depth // 2, depth)
        while len(t.ops) < n:
            g.step()
        lines = []
        for o in t.ops:
            ws = line_of(rng, o)
            if ws is None:
                if o["op"] == "load":
                    break
                continue
            while rng.random() < 0.15:
                lines.append(" ".join(spoil(rng, ws)))
            if rng.random() < 0.15:
                lines.append(rng.choice(EXTRA))
            sp = rng.choice([" ", " ", " ", "  "])
            lines.append((" " if rng.random() < 0.05 else "") + sp.join(ws) + (" " if rng.random() < 0.1 else ""))
        # everything there is, in the end
        lines.append("list dataset")
        for i in range(6):
            lines += ["save %d ./z%d" % (i, i), "saveGroup %d ./y%d" % (i, i)]
        k = rng.random()
        if k < 0.5:
            lines.append(rng.choice(["quit", "exit", " quit "]))
            if rng.random() < 0.5:
                lines += ["save 0 ./after", "list dataset"]
        out.append(Session(t.tid, lines))
    return out


def terminal(seed, files, count):
    """Sessions typed at a terminal, where the end of the input is a key and exiting is asked about."""
    try:
        for fd in pty.openpty():
            os.close(fd)
    except OSError:
        return []
    rng = random.Random(seed)
    out = []
    for s in sessions(seed, files, count, 8, pre="t"):
        typed, mode = [], "main"

        def ask(until=None):
            """Ctrl-D and an answer or several: whether the session goes on."""
            typed.append(["eof"])
            while True:
                w = until or rng.choice(["n", "n", "n", "n", "no", "N", "x", "yes", " n", "n ", "nn", "quit", "y n", "Y", "0"])
                typed.append(["answer", w])
                if w == "n":
                    return True
                if w in ("y", ""):
                    return False
        for x in s.lines:
            if any(not 32 <= ord(ch) < 127 for ch in x) or len(x) > 200:
                continue
            if mode == "main":
                while rng.random() < 0.2:
                    ask()
            typed.append(x)
        k = rng.random()
        if k < 0.35:
            typed += [["eof"], ["eof"]]
        elif k < 0.9:
            ask(rng.choice(["y", ""]))
        typed += ["list dataset"] * (rng.random() < 0.3) + [["eof"], ["eof"]]
        out.append(Session(s.tid, typed, tty=True))
    return out


def edges(files, rng):
    """Every command with every small number of arguments, sensible or not, on two loaded datasets."""
    df = gen.data_file(rng, files, [[F(1), F(2), F(4)], [F(3), F(3), F(0)]], seps=" ", plain=True, trailing=False)
    dc = gen.data_file(rng, files, [[F(5), F(6)], [F(7), F(0)], [F(2), F(2)]], seps=",", plain=True, trailing=False)
    setup = ["load " + df.path, "load %s 0 0 ," % dc.path, "group 0 0.5", "saveGroup 0 ./g", "save 0 ./d"]
    dump = ["list dataset", "save 0 ./p0", "save 1 ./p1", "saveGroup 0 ./q0", "saveGroup 1 ./q1", "timer"]
    A = ["0", "1", "2", "-1", "x", "0.5", "1e2", "./d", "./g", "./new", ",", "dataset", "on", "3000000000", "0x", "+1", "01", "1.0"]
    out, n = [], 0
    lines = []
    for c in COMMANDS[:12]:
        lines.append(c)
        lines += ["%s %s" % (c, a) for a in A]
        lines += ["%s %s %s" % (c, a, b) for a in A for b in A]
        for _ in range(250):
            lines.append(" ".join([c] + [rng.choice(A) for _ in range(rng.randint(3, 6))]))
        for _ in range(60):
            k = {"match": 5, "load": 4, "save": 3, "saveGroup": 3}.get(c, 2)
            lines.append(" ".join([c] + [rng.choice(["0", "1", "0", "2", "3"]) for _ in range(k)]))
    lines += ["help"] + ["help " + k for k in COMMANDS]
    rng.shuffle(lines)
    # no operation may write to a place outside
    lines = [x for x in lines if x.split()[0] not in ("save", "saveGroup") or len(x.split()) < 3 or x.split()[2].startswith("./")]
    return setup, lines, dump


def edge_sessions(files, rng, per=25):
    setup, lines, dump = edges(files, rng)
    return [Session("e%d" % k, setup + lines[a:a + per] + dump) for k, a in enumerate(range(0, len(lines), per))]


def noise(rng, count):
    """Arbitrary lines: only survival is judged.  Nothing in them can name a file outside the scratch directory."""
    out = []
    for _ in range(count):
        ls = []
        for _ in range(rng.randint(3, 20)):
            k = rng.random()
            if k < 0.4:
                ls.append(bytes(rng.choice(range(32, 127)) for _ in range(rng.randint(0, 60))).replace(b"/", b"_").replace(b"~", b"_"))
            elif k < 0.5:
                ls.append(bytes(rng.choice(range(33, 127)) for _ in range(rng.choice([1000, 5000, 20000]))).replace(b"/", b"_").replace(b"~", b"_"))
            else:
                ws = [rng.choice(COMMANDS[:12])] + [rng.choice(["0", "1", "-1", "a", "b", "2147483647", "-2147483648", "999999999999999999999",
                      "1e308", "1e999", "nan", "-nan", "inf", "0.1", ".", "..", ",", "dataset", "-0", "1e-320", "\xe9\xff"]) for _ in range(rng.randint(0, 6))]
                ls.append(" ".join(ws).encode("latin-1"))
        out.append(b"\n".join(ls) + rng.choice([b"\n", b"", b"\nquit\n"]))
    return out


def survive(rep, cliexe, texts, work, name):
    base = os.path.join(work, "noise_" + name)

    def one(kt):
        k, t = kt
        d = os.path.join(base, str(k))
        os.makedirs(d)
        with open(os.path.join(d, "a"), "w") as f:
            f.write("1 2 3\n4 5 6\n7 8 8\n")
        with open(os.path.join(d, "b"), "w") as f:
            f.write("1 0.5\n4 5\n")
        rc, _ = run_cli(cliexe, b"load a\nload b\ngroup 1 0.1\n" + t, d)
        shutil.rmtree(d)
        return [{"op": "survive", "rc": rc}]
    evs = core.pmap(one, list(enumerate(texts)))
    ss = [Session("n%d" % k, [x.decode("latin-1") for x in t.split(b"\n")]) for k, t in enumerate(texts)]
    bad = validate(rep, evs, ss, work, name)
    if bad is not None:
        k = bad[0]
        if one(("again", texts[k]))[0]["rc"] != 0:
            rp = core.save_replay(rep.prop, name, {"property": rep.prop, "verdict": "crash", "session": ss[k].lines})
            rep.violation("crash in session %s of %s" % (ss[k].tid, name), rp)
        else:
            raise core.CheckError("crash did not repeat")
