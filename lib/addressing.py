"""Exhaustive addressing of parts of small datasets, and match queries by address against the same queries by value."""
from fractions import Fraction as F

import gen
import history

BIG = 2 ** 31 - 1
LOW = -2 ** 31


def table(files, rng, n, L, base=0):
    rows = [[F(base + 10 * i + j) for j in range(L)] for i in range(n)]
    return gen.data_file(rng, files, rows, seps=" ", plain=True, trailing=False)


def start(tid, files, df):
    t = history.Trace(tid)
    t.add("new", obs=False, id=0)
    t.add("load", obs=True, id=0, _path=df.path, max=0, col=0, _seps=df.seps)
    return t


def subs(rng, files, shapes, per=60):
    """getTimeSeries and its points, every combination of arguments around the bounds."""
    out, k = [], 0
    for n, L in shapes:
        df = table(files, rng, n, L, rng.randint(1, 5))
        xs = [LOW, -3, -2, -1] + list(range(0, L + 3)) + [BIG]
        combos = [(i, b, z) for i in [LOW, -2, -1] + list(range(0, n + 2)) + [BIG] for b in xs for z in xs]
        ops = [("sub", dict(i=i, s=b, e=z)) for i, b, z in combos]
        ops += [("pt", dict(i=i, s=b, e=z, k=p)) for i in range(n) for b in range(-1, L) for z in list(range(b + 1, L + 1))
                if (b < 0) == (z < 0) or b >= 0 for p in [LOW, -2, -1] + list(range(0, L + 2)) + [BIG]]
        ops += [("pt", dict(i=i, s=-1, e=-1, k=p)) for i in range(n) for p in range(-2, L + 2)]
        for a in range(0, len(ops), per):
            t = start("s%d" % k, files, df)
            k += 1
            for op, kw in ops[a:a + per]:
                t.add(op, obs=False, id=0, **kw)
            t.ops[-1]["_obs"] = True
            out.append(t)
    return out


def dists(rng, files, shapes, count, per=40):
    """Distances to a part of a dataset, arguments around the bounds of both."""
    out = []
    for k in range(count):
        (n, L), (m, M) = rng.choice(shapes), rng.choice(shapes)
        a, b = table(files, rng, n, L, rng.randint(0, 3)), table(files, rng, m, M, rng.randint(0, 9))
        t = start("d%d" % k, files, a)
        t.add("new", obs=False, id=1)
        t.add("load", obs=True, id=1, _path=b.path, max=0, col=0, _seps=b.seps)
        s, rn, rd = rng.choice(gen.RATIOS)
        t.add("ratio", obs=False, _ratio=s, rn=rn, rd=rd)
        for _ in range(per):
            i, qi = rng.choice([-1] + list(range(n)) * 2 + [n]), rng.choice([-1] + list(range(m)) * 3 + [m])
            b0 = rng.randint(-2, L)
            l = rng.choice([-b0 + L, 1, 2, rng.randint(-1, L + 1)])
            if rng.random() < 0.05:
                i, qi = rng.choice([LOW, BIG, i]), rng.choice([LOW, BIG, qi])
            qs, qe = rng.choice([(LOW, LOW), (BIG, BIG), (0, BIG), (LOW, 0), (-1, -1)] if rng.random() < 0.05 else [(-1, -1), (0, M), (lambda x: (x, x + l))(rng.randint(0, M - 1)), (rng.randint(-1, M), rng.randint(-1, M + 1))])
            t.add("dist", obs=False, id=0, i=i, s=b0, l=l, q=1, qi=qi, qs=qs, qe=qe, dist=rng.choice(["euclidean", "euclidean", "euclidean_dtw", "dtw"]))
        out.append(t)
    return out


def matches(rng, files, count, lmax=6):
    """Queries by address; twins ask for the same values as a dataset of their own.  api only."""
    out, tw = [], {}
    for k in range(count):
        n, L, m = rng.randint(1, 3), rng.randint(2, lmax), rng.randint(1, 3)
        M = rng.randint(1, lmax)
        rows = gen.values(rng, n, L, rng.choice(["small", "neg", "walk", "dyadic"]))
        qrows = gen.values(rng, m, M, rng.choice(["small", "neg", "walk", "dyadic"]))
        a = gen.data_file(rng, files, rows)
        b = gen.data_file(rng, files, qrows)
        s, tn, td = rng.choice(gen.THR_RAW)
        r, rn, rd = rng.choice(gen.RATIOS)
        t, x, mp = history.Trace("m%d" % k), history.Trace("m%dv" % k), []

        def both(op, obs=False, **kw):
            t.add(op, obs=obs, **kw)
            x.add(op, obs=obs, **kw)
            mp.append(None)
        both("ratio", _ratio=r, rn=rn, rd=rd)
        both("load", obs=True, _path=a.path, max=0, col=a.lead, _seps=a.seps)
        t.add("load", obs=True, _path=b.path, max=0, col=b.lead, _seps=b.seps)
        mp.append(None)
        both("group", obs=True, id=0, _thr=s, tn=tn, td=td, dist="euclidean")
        qs = [(i, -1, -1) for i in range(-1, m + 1)] + [(i, z, e) for i in range(-1, m + 1) for z in range(-2, M + 2) for e in range(-2, M + 2)]
        far = [(rng.choice([LOW, BIG, 0, m - 1]), rng.choice([LOW, BIG, 0, 1]), rng.choice([LOW, BIG, 0, M])) for _ in range(4)]
        for i, z, e in rng.sample(qs, min(30, len(qs))) + far:
            t.add("match", obs=False, id=0, q=1, i=i, s=z, e=e)
            if 0 <= i < m and ((z < 0 and e < 0) or 0 <= z < e <= M):
                row = qrows[i] if z < 0 else qrows[i][z:e]
                f = gen.data_file(rng, files, [row], seps=" ", plain=True, trailing=False)
                x.add("load", obs=False, _path=f.path, max=0, col=0, _seps=" ")
                mp.append(len(x.ops))
                x.add("match", obs=False, id=0, q=1, i=0, s=-1, e=-1)
                x.add("unload", obs=False, id=1)
            else:
                mp.append(None)
        t.ops[-1]["_obs"] = True
        out.append(t)
        tw[t.tid] = (x, mp, answer)
    return out, tw


def answer(e, o):
    m = e.get("m")
    return repr((e["ok"], m and (m["i"], m["s"], m["e"], m["l"], m["dx"], m["vd"])))
