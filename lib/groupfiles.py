"""Group files, good and damaged, written by the harness."""
import os
import random
from fractions import Fraction as F

import gen
import history
import project


def partition(rng, n, L, l):
    cells = [(i, s) for s in range(L - l + 1) for i in range(n)]
    rng.shuffle(cells)
    k = rng.randint(1, max(1, min(len(cells), 4)))
    gs = [[] for _ in range(k)]
    for j, c in enumerate(cells):
        gs[j if j < k else rng.randrange(k)].append(c)
    return gs


def good_lines(rng, n, L, dist="euclidean", thr="0.5"):
    """Lines of tokens of a complete group file with an arbitrary partition."""
    out = [["1", thr, str(n), str(L)], ["2", str(L + 1)], [dist]]
    for l in range(2, L + 1):
        gs = partition(rng, n, L, l)
        out.append([str(len(gs))])
        for g in gs:
            out.append([str(rng.choice([0, 1, 2, -3, "0.5", "1e-3", "2.25"])) for _ in range(l)])
            out.append([str(len(g))] + [str(x) for c in g for x in c])
    return out


def text(lines, sep=" ", end="\n"):
    return end.join(sep.join(x) for x in lines) + end


def edits(rng, lines, k=None):
    """Files with one or two tokens changed: every token, or k random changes."""
    pos = [(a, b) for a in range(len(lines)) for b in range(len(lines[a]))]
    todo = []
    for a, b in pos:
        w = lines[a][b]
        alts = ["-1", "0", "1", "2", "99999", "x", "999999999999", None, (w,), "-" + w, w + "x"]
        try:
            v = int(w)
            alts += [str(v + k) for k in (1, -1, 256, 65536, 1 << 32, -(1 << 32))] + ["+" + w, "0" + w, w + ".0", w + "e0"]
        except ValueError:
            alts += ["nan", "1e999", "euclidean", "euclidean_dtw", "Euclidean", "manhattan"]
        todo += [(a, b, x) for x in alts if x != w]
    if k is not None and len(todo) > k:
        todo = rng.sample(todo, k)
    for a, b, x in todo:
        y = [list(z) for z in lines]
        if x is None:
            del y[a][b]
        elif isinstance(x, tuple):
            y[a].insert(b, x[0])
        else:
            y[a][b] = x
        yield y


def members(base):
    """The lines with numbers of groups, and those with members."""
    cnt, mem, p = [], [], 3
    while p < len(base):
        g = int(base[p][0])
        cnt.append(p)
        mem += range(p + 2, p + 2 * g + 1, 2)
        p += 2 * g + 1
    return cnt, mem


def aliases(lines):
    """Members written as the position before the first or behind the last of the neighbouring series."""
    for a in members(lines)[1]:
        starts = int(lines[0][3]) - len(lines[a - 1]) + 1
        for j in range(1, len(lines[a]), 2):
            for d in (-1, 1):
                y = [list(z) for z in lines]
                y[a][j:j + 2] = [str(int(y[a][j]) + d), str(int(y[a][j + 1]) - d * starts)]
                yield y


def structure(rng, lines, n, L):
    """Whole lines lost, repeated, exchanged; members moved, repeated or exchanged; sizes only; other counts."""
    for a in range(len(lines)):
        yield lines[:a] + lines[a + 1:]
        yield lines[:a] + [lines[a]] + lines[a:]
        if a + 1 < len(lines):
            yield lines[:a] + [lines[a + 1], lines[a]] + lines[a + 2:]
    mem = [a for a in range(3, len(lines)) if len(lines[a]) % 2 == 1 and len(lines[a]) > 1 and a >= 5]
    for _ in range(12):
        if len(mem) >= 2:
            a, b = rng.sample(mem, 2)
            y = [list(z) for z in lines]
            i, j = rng.randrange(1, len(y[a]), 2), rng.randrange(1, len(y[b]), 2)
            if rng.random() < 0.5:      # exchanged
                y[a][i:i + 2], y[b][j:j + 2] = y[b][j:j + 2], y[a][i:i + 2]
            else:                       # copied over
                y[a][i:i + 2] = y[b][j:j + 2]
            yield y
    for n2, L2 in [(n + 1, L), (n - 1, L), (n, L + 1), (n, L - 1), (L, n)]:
        if n2 > 0 and L2 > 0:
            yield good_lines(rng, n2, L2)
            z = good_lines(rng, n2, L2)
            z[0][2], z[0][3] = str(n), str(L)
            yield z
    z = [list(x) for x in lines[:3]]
    for l in range(2, L + 1):
        z += [["1"], [str(n * (L - l + 1))]]
    yield z
    # an empty group more
    if L >= 2:
        z = [list(x) for x in lines]
        z[3][0] = str(int(z[3][0]) + 1)
        z[4:4] = [["0", "0"], ["0"]]
        yield z
        z = [list(x) for x in lines]
        z[3][0] = "0"
        yield z
        yield lines[:3] + [["0"]] * (L - 1)
    # longer than it should be
    yield lines + [["1", "2", "3"]]
    yield lines + [["x"]]


def texts(rng, n, L, every=True):
    base = good_lines(rng, n, L, thr=rng.choice(["0.5", "1", "0", "2.25", "1e-1"]), dist=rng.choice(["euclidean", "euclidean_dtw"]))
    t = text(base)
    out = [t, text(base, " ", " "), text(base, "\n", "\n"), text(base, "\t", " \n\n"), text([x + [""] for x in base])]
    cuts = range(len(t)) if every else sorted(rng.sample(range(len(t)), min(len(t), 60)))
    out += [t[:k] for k in cuts]
    out += [text(y) for y in edits(rng, base, None if every else 120)]
    out += [text(y) for y in structure(rng, base, n, L)]
    al = list(aliases(base))
    out += [text(y) for y in (al if every else rng.sample(al, min(len(al), 40)))]
    for _ in range(10 if every else 5):
        y = base
        for _ in range(2):
            y = next(iter(edits(rng, y, 1)))
        out.append(text(y))
    out += ["", "\n", " ", "\0\1\2", "1", "\xff\xfe 1", "x" * 5000, "1 " * 3000, "9" * 3000]
    return out


def dropped(rng, base, k):
    """One member less (its group smaller, or gone), or twice; in a file with many."""
    cnt, mem = members(base)
    for _ in range(k):
        y = [list(z) for z in base]
        a = rng.choice(mem)
        j = rng.randrange(1, len(y[a]), 2)
        c = rng.random()
        if c < 0.4 and len(y[a]) > 3:
            del y[a][j:j + 2]
            y[a][0] = str(int(y[a][0]) - 1)
        elif c < 0.6:
            y[a] += y[a][j:j + 2]
            y[a][0] = str(int(y[a][0]) + 1)
        elif c < 0.8:
            at = max(b for b in cnt if b < a)
            if int(y[at][0]) == 1:
                continue
            del y[a - 1:a + 1]
            y[at][0] = str(int(y[at][0]) - 1)
        else:       # one group's member given to another as well as kept
            b = rng.choice(mem)
            y[b] += y[a][j:j + 2]
            y[b][0] = str(int(y[b][0]) + 1)
        yield y


def many_texts(rng, n, L):
    base = good_lines(rng, n, L)
    out = [text(base)]
    out += [text(y) for y in dropped(rng, base, 25)]
    out += [text(y) for y in edits(rng, base, 15)]
    al = list(aliases(base))
    out += [text(y) for y in rng.sample(al, min(len(al), 15))]
    out += [text(base)[:k] for k in rng.sample(range(len(text(base))), 5)]
    return out


def traces(rng, files, shapes, mode, pre, every=True, per=30, many=False):
    out, k = [], 0
    for n, L in shapes:
        rows = gen.values(rng, n, L, rng.choice(["small", "neg", "walk", "dyadic"]))
        df = gen.data_file(rng, files, rows)
        ts = many_texts(rng, n, L) if many else texts(rng, n, L, every)
        rng.shuffle(ts)
        for a in range(0, len(ts), per):
            t = history.Trace("%s%d" % (pre, k))
            k += 1
            if mode == "lib":
                t.add("new", obs=False, id=0)
                t.add("load", id=0, _path=df.path, max=0, col=df.lead, _seps=df.seps)
            else:
                t.add("load", _path=df.path, max=0, col=df.lead, _seps=df.seps)
            if rng.random() < 0.6:
                s, tn, td = rng.choice(gen.THR_RAW)
                t.add("group", id=0, _thr=s, tn=tn, td=td, _dist="euclidean", dist="euclidean")
            t.add("lgroup", id=0, _path=files.missing(), edited=True, tok=True, toks=[])
            shared = os.path.join(files.dir, "shared%s" % t.tid) if rng.random() < 0.5 else None     # one file with all these contents in turn
            for x in ts[a:a + per]:
                p = files.add(x)
                kw = dict(_path=shared, _from=p) if shared else dict(_path=p)
                t.add("lgroup", id=0, edited=True, tok=True, toks=project.tokens_of(x), **kw)
                if rng.random() < 0.1 and L > 1:
                    t.add("match", id=0, q=0, i=0, s=-1, e=-1, obs=False)
            out.append(t)
    return out
