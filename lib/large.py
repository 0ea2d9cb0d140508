"""Larger datasets: many series, long series, many groups; and groupings written by hand."""
import os
import random
from fractions import Fraction as F

import gen
import groupfiles
import history
import project


def begin(tid, mode, df, i=0):
    t = history.Trace(tid)
    add_load(t, mode, df, i)
    return t


def add_load(t, mode, df, i):
    if mode == "lib":
        t.add("new", obs=False, id=i)
        t.add("load", id=i, _path=df.path, max=0, col=df.lead, _seps=df.seps)
    else:
        t.add("load", _path=df.path, max=0, col=df.lead, _seps=df.seps)


def add_group(t, rng, thr, mode, i=0, dist=None, obs=True):
    s, tn, td = thr
    d = "euclidean" if mode == "api" else dist or rng.choice(["euclidean", "euclidean_dtw"])
    t.add("group", obs=obs, id=i, _thr=s, tn=tn, td=td, _dist=d, dist=d)


def add_ratio(t, rng):
    s, n, d = rng.choice(gen.RATIOS)
    t.add("ratio", obs=False, _ratio=s, rn=n, rd=d)


def tight(rng, n, L):
    """Tables in which many subsequences differ: distinct small integers."""
    k = rng.choice([3, 7, 20, 60])
    return [[F(rng.randint(0, k)) for _ in range(L)] for _ in range(n)]


def groupings(rng, files, mode, pre, shapes, thrs=None):
    """Every shape grouped with a small and a larger threshold."""
    out = []
    for k, (n, L) in enumerate(shapes):
        rows = rng.choice([tight, lambda r, n, L: gen.values(r, n, L, r.choice(["walk", "small", "neg", "ramp", "spike"]))])(rng, n, L)
        df = gen.data_file(rng, files, rows, seps=" ", plain=True)
        t = begin("%s%d" % (pre, k), mode, df)
        if rng.random() < 0.5:
            add_ratio(t, rng)
        long = n * L * L > 3000
        for thr in rng.sample(thrs or [("0", 0, 1), ("0.5", 1, 2), ("1", 1, 1), ("2", 2, 1), ("4", 4, 1), ("10", 10, 1)], 2):
            add_group(t, rng, thr, mode, dist="euclidean" if long else None)
        out.append(t)
    return out


def many_groups(rng, files, pre, shapes):
    """Hundreds of groups of one length: hardly any two subsequences are near each other."""
    out = []
    for k, (n, L) in enumerate(shapes):
        rows = [[F(rng.randint(0, 60)) for _ in range(L)] for _ in range(n)]
        t = begin("%s%d" % (pre, k), "lib", gen.data_file(rng, files, rows, seps=" ", plain=True))
        add_group(t, rng, rng.choice([("0", 0, 1), ("0.5", 1, 2), ("1", 1, 1)]), "lib", dist="euclidean")
        out.append(t)
    return out


def many_members(rng, files, pre, n, outdir=None, ask=False):
    """Tens of thousands of members of one group, and one series apart, the last; saved and loaded, or asked."""
    rows = [[F(rng.randint(0, 3)), F(rng.randint(0, 3))] for _ in range(n - 1)] + [[F(200), F(201)]]
    df = gen.data_file(rng, files, rows, seps=" ", plain=True)
    t = begin(pre, "lib", df)
    add_group(t, rng, ("10", 10, 1), "lib", dist="euclidean")
    if outdir:
        p = os.path.join(outdir, pre)
        t.add("sgroup", id=0, _path=p, short=False, good=True, obs=False)
        t.add("sgroup", id=0, _path=p + "s", short=True, good=True)
        t.add("lgroup", id=0, _path=p, edited=False, tok=False)
    if ask:
        t.add("match", obs=False, id=0, q=0, i=n - 1, s=-1, e=-1)
        t.add("match", obs=False, id=0, q=0, i=n - 2, s=-1, e=-1)
    return [t]


def near_thresholds(rng, files, pre, count):
    """Series that differ by constants, so that distances are round, and thresholds next to twice such a distance."""
    out = []
    for k in range(count):
        n, L = rng.randint(2, 6), rng.randint(2, 5)
        base = gen.values(rng, 1, L, rng.choice(["ramp", "small", "walk"]))[0] if rng.random() < 0.6 else [F(0)] * L
        step = rng.choice([F(1), F(2), F(1, 2), F(3), F(4)])
        ks = rng.sample(range(-4, 5), n)
        t = begin("%s%d" % (pre, k), "lib", gen.data_file(rng, files, [[v + step * j for v in base] for j in ks], seps=" ", plain=True))
        for _ in range(2):
            add_group(t, rng, rng.choice(gen.THR_NEAR), "lib", dist=rng.choice(["euclidean", "euclidean", "euclidean_dtw"]))
        out.append(t)
    return out


def near_ties(rng, files, mode, pre, count):
    """A series between two others that are nearly, not exactly, equally far from it: their squared distances differ in the ninth digit."""
    out = []
    for k in range(count):
        L = rng.choice([2, 2, 3])
        top = rng.choice([40, 300, 4500])
        while True:
            a, b, x = rng.randint(top // 2, top), rng.randint(0, top), rng.randint(0, top)
            y = round(max(0, a * a + b * b - x * x) ** 0.5) + rng.choice([0, 0, 0, 1])
            if y <= 5000 and 0 < abs(a * a + b * b - x * x - y * y) and (a, b) != (x, y):
                break
        at = [rng.randint(-20, 20) for _ in range(L)]
        pad = [0] * (L - 2)
        p = [u + v for u, v in zip(at, [a, rng.choice([b, -b])] + pad)]
        q = [u - v for u, v in zip(at, rng.choice([[x, y], [y, x]]) + pad)]
        rows = [p, q] if rng.random() < 0.5 else [q, p]
        rows.append(at)
        if mode == "api" and rng.random() < 0.5:
            rng.shuffle(rows)
        df = gen.data_file(rng, files, [[F(v) for v in r] for r in rows], seps=" ", plain=True)
        t = begin("%s%d" % (pre, k), mode, df)
        thr = 2 * (int((max(a * a + b * b, x * x + y * y) / 2) ** 0.5) + 1)
        add_group(t, rng, (str(thr), thr, 1), mode, dist="euclidean")
        t.add("ratio", obs=False, _ratio="0", rn=0, rd=1)
        for d in ("euclidean", "euclidean_dtw") if mode == "lib" else ("euclidean",):
            add_group(t, rng, rng.choice([("0", 0, 1), ("1", 1, 1)]), mode, dist=d)
            i = rows.index(at)
            add_load(t, mode, df, 1) if len([o for o in t.ops if o["op"] == "load"]) < 2 else None
            t.add("match", obs=False, id=0, q=0, i=i, s=-1, e=-1)
        # the two alone in one group and as representatives of another dataset
        two = gen.data_file(rng, files, [[F(v) for v in r] for r in rows if r is not at], seps=" ", plain=True)
        add_load(t, mode, two, 2)
        for thr in (("0", 0, 1), ("40000", 40000, 1)):
            add_group(t, rng, thr, mode, i=2, dist="euclidean")
            t.add("match", obs=False, id=2, q=0, i=i, s=-1, e=-1)
            t.add("match", obs=False, id=2, q=0, i=i, s=0, e=2)
        out.append(t)
    return out


def query(rng, files, rows):
    """Values like a part of rows, or others."""
    r = rng.choice(rows)
    l = rng.randint(2, len(r))
    s = rng.randint(0, len(r) - l)
    v = list(r[s:s + l])
    k = rng.random()
    if k < 0.3:
        return v
    if k < 0.6:
        for _ in range(rng.randint(1, 3)):
            v[rng.randrange(len(v))] += rng.choice([-1, 1, 2, F(1, 2), -3])
        return v
    if k < 0.8 and len(v) > 2:
        i = rng.randrange(len(v))
        return v[:i] + [v[i]] + v[i:] if rng.random() < 0.5 else v[:i] + v[i + 1:]
    st = rng.choice(["small", "neg", "walk", "extreme", "dyadic"])
    return gen.values(rng, 1, rng.randint(1, len(r) + 3), st)[0]


def matches(rng, files, mode, pre, count, shapes, per=8, hand=False, scale=1):
    """Grouped datasets (or hand-made groups) asked for many queries, from themselves, from other datasets, and by value."""
    out = []
    for k in range(count):
        n, L = rng.choice(shapes)
        rows = gen.values(rng, n, L, rng.choice(["walk", "walk", "small", "neg", "ramp", "spike", "dyadic", "rows", "tiny"]))
        df = gen.data_file(rng, files, rows, scale=scale)
        t = begin("%s%d" % (pre, k), mode, df)
        qrows = [query(rng, files, rows) for _ in range(3)]
        m = max(map(len, qrows))
        qrows = [q + [q[-1]] * (m - len(q)) for q in qrows]
        qf = gen.data_file(rng, files, qrows, scale=scale)
        add_load(t, mode, qf, 1)
        if hand:
            p = files.add(groupfiles.text(hand_lines(rng, rows, scale)))
            t.add("lgroup", id=0, _path=p, edited=True, tok=False)
        else:
            s, a, b = rng.choice([("0", 0, 1), ("0.5", 1, 2), ("1", 1, 1), ("2", 2, 1), ("3", 3, 1), ("6", 6, 1)])
            add_group(t, rng, (repr(float(s) * scale) if scale != 1 else s, a, b), mode)
        for j in range(per):
            if j == 0 or rng.random() < 0.4:
                add_ratio(t, rng)
            c = rng.random()
            if mode == "lib" and c < 0.4:
                v = query(rng, files, rows)
                t.add("matchv", obs=False, id=0, _v=[float(x) * scale for x in v])
            elif c < 0.75:
                s = rng.randint(0, max(0, m - 2))
                e = rng.randint(min(m, s + 2), m)
                t.add("match", obs=False, id=0, q=1, i=rng.randrange(3), **(dict(s=s, e=e) if rng.random() < 0.7 else dict(s=-1, e=-1)))
            else:
                i, s, e = gen.pick_query(rng, dict(n=n, len=L))
                t.add("match", obs=False, id=0, q=0, i=i, s=s, e=e)
        t.ops[-1]["_obs"] = True
        out.append(t)
    return out


def hand_lines(rng, rows, scale=1, thr=None, dist=None):
    """Groups by hand: any partition, any representatives."""
    n, L = len(rows), len(rows[0])
    out = [["1", thr or rng.choice(["0.5", "1", "0"]), str(n), str(L)], ["2", str(L + 1)], [dist or rng.choice(["euclidean", "euclidean_dtw"])]]
    lo, hi = int(min(map(min, rows))) - 2, int(max(map(max, rows))) + 2
    for l in range(2, L + 1):
        gs = groupfiles.partition(rng, n, L, l)
        out.append([str(len(gs))])
        for g in gs:
            if rng.random() < 0.4:
                i, s = rng.choice(g)
                rep = rows[i][s:s + l]
            else:
                rep = [F(rng.randint(lo * 2, hi * 2), 2) for _ in range(l)]
            out.append([repr(float(x) * scale) for x in rep])
            out.append([str(len(g))] + [str(x) for c in g for x in c])
    return out


def tables(rng, files, mode, pre, shapes, outdir, kinds=("norm", "paa", "both", ""), paan=(2, 3, 7, 16, 100, 1000)):
    """Tables of many rows or of many columns: loaded (whole and in part), normalized, aggregated, saved and loaded back."""
    out = []
    for k, (n, L) in enumerate(shapes):
        top = rng.choice([4, 9, 50])
        rows = [[F(rng.randint(-2, top)) for _ in range(L)] for _ in range(n)]
        # the extremes somewhere in the middle, once
        rows[rng.randrange(n)][rng.randrange(L)] = F(top + 1)
        rows[rng.randrange(n)][rng.randrange(L)] = F(-3)
        seps = rng.choice([" ", ","])
        df = gen.data_file(rng, files, rows, seps=seps, plain=True, trailing=False)
        t = begin("%s%d" % (pre, k), mode, df)
        a = os.path.join(outdir, "%s%d" % (pre, k))
        save = lambda i, p: t.add("save", obs=False, id=i, _path=p, _seps=seps, good=True)

        def load(i, path, m=0, c=0, obs=True):
            if mode == "lib":
                t.add("new", obs=False, id=i)
                t.add("load", obs=obs, id=i, _path=path, max=m, col=c, _seps=seps)
            else:
                t.add("load", obs=obs, _path=path, max=m, col=c, _seps=seps)
        load(1, df.path, rng.choice([n // 2 + 1, n - 1, n, n + 1]) if n > 1 else 1, rng.choice([0, L // 2, L - 1]))
        save(0, a)
        kind = rng.choice(kinds)
        if kind in ("norm", "both"):
            t.add("norm", id=0)
        if kind in ("paa", "both"):
            t.add("paa", id=0, n=rng.choice(paan))
        if kind:
            save(0, a + "p")
            load(2, a + "p")
        load(3, a)
        out.append(t)
    return out


def extremes(rng, files, mode, pre, shapes):
    """The least and the greatest value in every row, column after column: no value is overlooked in normalizing."""
    out = []
    for n, L in shapes:
        for i in range(max(n, L)):
            rows = [[F(rng.randint(0, 8)) for _ in range(L)] for _ in range(n)]
            c = i % L if L >= n else rng.choice([0, 0, L - 1, i % L])
            a, b = (i % n, c), ((n - 1 - i) % n, (c + rng.randrange(L)) % L)
            if a != b:
                rows[a[0]][a[1]] = F(-3)
            rows[b[0]][b[1]] = F(13)
            if rng.random() < 0.5:
                rows = [[-v for v in r] for r in rows]
            t = begin("%s%d_%d_%d" % (pre, n, L, i), mode, gen.data_file(rng, files, rows, seps=" ", plain=True, trailing=False))
            t.add("norm", id=0)
            out.append(t)
    return out


def long_searches(rng, files, mode, pre, shapes, per=3):
    """Long series: queries far longer than in other campaigns, against few groups a length."""
    out = []
    for k, (n, L) in enumerate(shapes):
        df = gen.data_file(rng, files, gen.values(rng, n, L, rng.choice(["walk", "small", "ramp"])))
        t = begin("%s%d" % (pre, k), mode, df)
        add_group(t, rng, ("40", 40, 1) if L > 70 else rng.choice([("2", 2, 1), ("4", 4, 1), ("6", 6, 1)]), mode, dist="euclidean")
        for _ in range(per):
            add_ratio(t, rng)
            i, s, e = gen.pick_query(rng, dict(n=n, len=L))
            t.add("match", obs=False, id=0, q=0, i=i, s=s, e=e)
        t.ops[-1]["_obs"] = True
        out.append(t)
    return out


def group_files(rng, files, mode, pre, shapes, outdir):
    """Large groupings saved, in full and sizes only, and loaded into another dataset of the same shape, which is then asked."""
    out = []
    for k, (n, L) in enumerate(shapes):
        many = n >= 250
        rows = ([[F(rng.randint(0, 60)) for _ in range(L)] for _ in range(n)] if many else
                tight(rng, n, L) if rng.random() < 0.5 else gen.values(rng, n, L, rng.choice(["walk", "small", "dyadic", "decimal", "neg"])))
        df = gen.data_file(rng, files, rows, seps=" ", plain=True)
        t = begin("%s%d" % (pre, k), mode, df)
        if not many and rng.random() < 0.3:
            t.add("norm", id=0)
        long = n * L * L > 3000
        add_group(t, rng, ("0.5", 1, 2) if many else rng.choice([("0", 0, 1), ("0.5", 1, 2), ("2", 2, 1), ("10", 10, 1)]), mode,
                  dist="euclidean" if long or k % 3 == 0 else "euclidean_dtw")
        p = os.path.join(outdir, "%s%d" % (pre, k))
        t.add("sgroup", id=0, _path=p, short=False, good=True)
        t.add("sgroup", id=0, _path=p + "s", short=True, good=True)
        add_load(t, mode, df, 1)
        if rng.random() < 0.5:
            add_group(t, rng, ("1", 1, 1), mode, i=1, dist="euclidean", obs=False)
        t.add("lgroup", id=1, _path=p, edited=False, tok=False)
        t.add("lgroup", id=1, _path=p + "s", edited=False, tok=False)
        t.add("sgroup", id=1, _path=p + "t", short=False, good=True)
        if not long:
            for d in (0, 1):
                t.add("match", obs=d == 1, id=d, q=0, i=n - 1, s=-1, e=-1)
        out.append(t)
    return out


def regroups(rng, files, mode, pre, count, outdir, shapes=((2, 4), (3, 4), (4, 3), (2, 6))):
    """Groupings over groupings: the same thresholds and distances come back after other groupings, group files, other band
    ratios, transformations and failures, on several datasets in turn."""
    out = []
    for k in range(count):
        t = history.Trace("%s%d" % (pre, k))
        n, L = rng.choice(shapes)
        shape = {}
        tables = []
        for i in range(rng.choice([1, 2, 2])):
            rows = gen.values(rng, n, L, rng.choice(["walk", "small", "neg", "ramp", "spike", "dyadic"]))
            df = gen.data_file(rng, files, rows, seps=" ")
            tables.append(df)
            add_load(t, mode, df, i)
            shape[i] = (n, L)
        thrs = rng.sample([("0", 0, 1), ("0.5", 1, 2), ("1", 1, 1), ("2", 2, 1), ("4", 4, 1)], 2)
        dists = ["euclidean"] if mode == "api" else ["euclidean", "euclidean_dtw"]
        saved = []

        def ask(i, q, b):
            """The same question each time."""
            t.add("match", obs=False, id=i, q=q, i=0, s=0 if b else -1, e=b or -1)
        b = rng.choice([0, 2, 2])
        for j in range(rng.randint(6, 14)):
            i = rng.choice(sorted(shape))
            c = rng.random()
            if c < 0.5:
                add_group(t, rng, rng.choice(thrs), mode, i=i, dist=rng.choice(dists))
                if rng.random() < 0.3:
                    ask(i, rng.choice(sorted(shape)), b)
            elif c < 0.65 and shape[i] == (n, L):
                p = files.add(groupfiles.text(hand_lines(rng, tables[i].rows, thr=rng.choice(thrs)[0], dist=rng.choice(dists))))
                t.add("lgroup", id=i, _path=p, edited=True, tok=False)
            elif c < 0.75:
                add_ratio(t, rng)
            elif c < 0.8:
                t.add("norm", id=i)
            elif c < 0.85 and shape[i][1] > 2:
                t.add("paa", id=i, n=2)
                shape[i] = (shape[i][0], (shape[i][1] + 1) // 2)
            elif c < 0.9:
                t.add("match", obs=False, id=i, q=i, i=0, s=-1, e=-1)
            elif c < 0.95:
                t.add("group", id=i, _thr="-1", tn=-1, td=1, _dist="euclidean", dist="euclidean", _bad=True)
            else:
                t.add("load" if mode == "api" else "lgroup", **(dict(_path=files.missing(), _seps=" ", max=0, col=0) if mode == "api" else
                                                                dict(id=i, _path=files.missing(), edited=True, tok=False)), _bad=True)
        i = rng.choice(sorted(shape))
        # the same question about the last groups and those before
        q = rng.choice(sorted(shape))
        again = rng.random() < 0.7
        if again:
            ask(i, q, b)
            c = rng.random()
            if c < 0.4:
                add_group(t, rng, rng.choice(thrs), mode, i=i, dist=rng.choice(dists))
            elif c < 0.7:
                t.add("norm", id=i)
        add_group(t, rng, rng.choice(thrs), mode, i=i, dist=rng.choice(dists))
        if again:
            ask(i, q, b)
        out.append(t)
    return out


def steps(rng, n, L):
    """Plateaus whose jumps are shifted against each other, with a little noise: near in the warped distance without being near."""
    base = []
    while len(base) < L + 4:
        base += [rng.choice([0, 4, 8, 12])] * rng.randint(1, 4)
    out = []
    for _ in range(n):
        s = rng.randint(0, 2)
        r = base[s:s + L]
        out.append([F(v * 4 + rng.choice([0, 0, 0, 1, -1, 2]), 4) for v in r])
    return out


def warped_groupings(rng, files, pre, count, shapes=((4, 5), (6, 4), (8, 5), (3, 8), (5, 6))):
    """Groupings by the warped distance, which knows no triangle inequality."""
    out = []
    for k in range(count):
        n, L = rng.choice(shapes)
        df = gen.data_file(rng, files, steps(rng, n, L), seps=" ")
        t = begin("%s%d" % (pre, k), "lib", df)
        for _ in range(3):
            s, a, b = rng.choice([r for r in gen.RATIOS if r[1] * 2 <= r[2] * 3])
            t.add("ratio", obs=False, _ratio=s, rn=a, rd=b)
            add_group(t, rng, rng.choice([("0.1", 1, 10), ("0.2", 1, 5), ("0.25", 1, 4), ("0.5", 1, 2), ("0.75", 3, 4), ("1", 1, 1), ("2", 2, 1)]), "lib", dist="euclidean_dtw")
        out.append(t)
    return out


def many_ids(rng, files, pre, count, top):
    """More identifiers than fit small integers; observed through listing, counting and asking."""
    out = []
    dfs = [gen.data_file(rng, files, gen.values(rng, n, 2, "small"), seps=" ", plain=True) for n in (1, 2, 3)]
    for k in range(count):
        t = history.Trace("%s%d" % (pre, k))
        live, n = set(), 0
        for _ in range(top):
            df = rng.choice(dfs)
            t.add("load", obs=False, _path=df.path, max=0, col=df.lead, _seps=df.seps)
            live.add(min(i for i in range(len(live) + 1) if i not in live))
            if rng.random() < 0.04:
                t.add("list", obs=False)
        for _ in range(60):
            c = rng.random()
            i = rng.choice(sorted(live)) if rng.random() < 0.7 else max(live)
            if c < 0.35:
                t.add("unload", obs=False, id=i)
                live.discard(i)
            elif c < 0.6:
                df = rng.choice(dfs)
                t.add("load", obs=False, _path=df.path, max=0, col=df.lead, _seps=df.seps)
                live.add(min(i for i in range(len(live) + 1) if i not in live))
            elif c < 0.75:
                t.add("info", obs=False, id=rng.choice([i, i, max(live) + 1, i + 256, i - 256, i + 65536]))
            elif c < 0.85:
                t.add("norm" if c < 0.8 else "paa", obs=False, id=i, **({} if c < 0.8 else {"n": 1}))
            else:
                t.add(rng.choice(["list", "count"]), obs=False)
        if k % 2 == 0 or top < 100:
            # down to a few, wherever they are
            down = sorted(live)
            rng.shuffle(down)
            if k % 4 == 3:
                down.sort(reverse=rng.random() < 0.5)
            for j, i in enumerate(down[:-rng.choice([1, 1, 1, 2, 3])]):
                t.add("unload", obs=False, id=i)
                live.discard(i)
                if len(live) < 6:
                    t.add(rng.choice(["list", "count"]), obs=False)
                    t.add("info", obs=False, id=rng.choice(sorted(live)))
            for _ in range(4):
                df = rng.choice(dfs)
                t.add("load", obs=False, _path=df.path, max=0, col=df.lead, _seps=df.seps)
                live.add(min(i for i in range(len(live) + 1) if i not in live))
        t.ops[-1]["_obs"] = True
        t.add("list", obs=False)
        t.add("unloadall", obs=False)
        t.add("list", obs=False)
        out.append(t)
    return out
