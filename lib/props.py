"""What is run for each property."""
import os
import random

import campaign
import core
import gen
import history
import large
import models
import simple
import spaces
import twins

HUGE = 2 ** 31 - 1
CHECKS = {}
DOC = {}


def check(*ids):
    def deco(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return deco


class Ctx:
    def __init__(self, prop, rep, work):
        self.prop, self.rep, self.work = prop, rep, work
        self.files = history.Files(work, prop != "C20")
        self.outdir = os.path.join(work, "out")
        os.makedirs(os.path.join(self.outdir, "tw"), exist_ok=True)
        self.exes = {}
        self.k = 0

    def exe(self, driver, **kw):
        key = (driver, tuple(sorted(kw.items())))
        if key not in self.exes:
            self.exes[key] = core.build(self.work, driver, **kw)
            core.log("built", driver, kw)
        return self.exes[key]

    def seed(self):
        self.k += 1
        return core.SEED * 1000003 + self.k * 7919 + int(self.prop[1:])

    def scale(self, quick, thorough):
        return thorough if core.THOROUGH else quick

    def more(self):
        """In the thorough tier: whether there is time for another round."""
        return core.THOROUGH and not self.rep.violations

    def histories(self, name, count, depth, mode="api", twin=None, focus=None, single=False, scale=1, raw=False, **kw):
        """Random histories validated for the property."""
        if self.rep.violations:
            return
        exe = self.exe("drv_" + mode, single=single)
        ts = campaign.histories(self.seed(), self.files, self.outdir, count, depth, mode=mode, pre=name, scale=scale, **kw)
        tw = None
        if twin:
            rng = random.Random(self.seed())
            tw = {}
            for t in ts:
                x = twin(rng, t, self.outdir)
                if x:
                    tw[t.tid] = x
        campaign.run_and_validate(self.rep, focus or self.prop, exe, mode, ts, self.files, self.work, name, twins=tw, single=single, scale=scale, raw=raw)

    def after_failures(self, name, count, mode):
        rng = random.Random(self.seed())
        g = gen.HistoryGen(rng, self.files, gen.pool(rng, self.files, 10), self.outdir, mode=mode, bads=gen.bad_files(rng, self.files))
        ts = gen.after_failures(g, count)
        self.traces(name, ts, mode=mode, twins={t.tid: twins.without_bad(rng, t, self.outdir) for t in ts})

    def traces(self, name, traces, mode="api", focus=None, **kw):
        """Given traces validated for the property."""
        if self.rep.violations:
            return
        campaign.run_and_validate(self.rep, focus or self.prop, self.exe("drv_" + mode, single=kw.get("single", False)), mode, traces,
                                  self.files, self.work, name, **kw)


def run(prop, rep, work):
    CHECKS[prop](Ctx(prop, rep, work))


# ------------------------------------------------------------------ histories

def big_tables(c, *kinds):
    """Tables with many rows (more than 2^16), many columns, or much text in a line."""
    rng = random.Random(c.seed())
    c.traces("bigtables", large.tables(rng, c.files, "lib", "B", [(70000, 1), (2, 18000), (130, 90), (600, 9), (1, 5000)] * c.scale(1, 3), c.outdir, kinds),
             mode="lib", seconds=60)
    c.traces("bigtablesapi", large.tables(rng, c.files, "api", "C", [(1100, 3), (257, 17), (3, 1030)] * c.scale(1, 4), c.outdir, kinds), seconds=60)


@check("C01")
def c01(c):
    models.system(c)
    c.histories("ids", c.scale(500, 4000), 30, weights=dict(load=6, unload=4, unloadall=0.6, info=2, list=2, count=2, norm=.5, paa=.5, group=.6,
                match=.3, save=.3, sgroup=.2, lgroup=.2), maxlive=8, badness=0.25, nmax=2, lmax=3)
    c.histories("mixed", c.scale(250, 2500), 20)
    c.histories("crowd", c.scale(16, 160), 220, weights=dict(load=9, unload=4, unloadall=0.05, info=1, list=.5, count=.5, norm=.3, paa=.3, group=.4,
                match=.3, save=.1, sgroup=.1, lgroup=.1), maxlive=60, badness=0.15, nmax=2, lmax=2)
    c.traces("manyids", large.many_ids(random.Random(c.seed()), c.files, "N", c.scale(2, 12), c.scale(290, 700)), seconds=60)
    c.traces("fewids", large.many_ids(random.Random(c.seed()), c.files, "P", c.scale(12, 120), 18) + large.many_ids(random.Random(c.seed()), c.files, "Q", c.scale(6, 60), 40))


@check("C02")
def c02(c):
    models.system(c)
    c.histories("fail", c.scale(500, 4000), 20, badness=0.4, twin=twins.without_bad)
    c.histories("failgrp", c.scale(250, 2500), 20, badness=0.4, twin=twins.without_bad, weights=dict(group=4, sgroup=2, lgroup=2, match=5))
    c.histories("faillib", c.scale(200, 1500), 16, mode="lib", badness=0.4, twin=twins.without_bad, weights=dict(group=4, sgroup=2, lgroup=2, match=5))
    c.after_failures("after", c.scale(440, 4400), "api")
    c.after_failures("afterlib", c.scale(200, 2000), "lib")


@check("C03")
def c03(c):
    models.system(c)
    c.histories("iso", c.scale(400, 4000), 24, maxlive=5, weights=dict(load=5, norm=2, paa=2, group=3, match=3, unload=1.5))
    c.histories("alone", c.scale(400, 4000), 24, maxlive=5, badness=0.05, twin=twins.alone,
                weights=dict(load=5, norm=2, paa=2, group=4, match=5, unload=1.0, lgroup=0, reload=0, sgroup=.3, save=.3))
    c.histories("isolib", c.scale(200, 2000), 24, mode="lib", maxlive=5, weights=dict(load=5, norm=2, paa=2, group=3, match=3, unload=1.5))
    c.histories("alonelib", c.scale(200, 2000), 24, mode="lib", maxlive=5, badness=0.05, twin=twins.alone,
                weights=dict(load=5, norm=2, paa=2, group=4, match=5, unload=1.0, lgroup=0, reload=0, sgroup=.3, save=.3))
    c.histories("crowd", c.scale(10, 100), 120, weights=dict(load=8, unload=2, unloadall=0, norm=1, paa=1, group=2, match=3, save=.1, sgroup=.2, lgroup=.3),
                maxlive=25, badness=0.1, nmax=2, lmax=3, npool=5)


@check("C04")
def c04(c):
    models.system(c, {"list", "info", "count", "save", "sgroup", "match"})
    c.histories("query", c.scale(400, 4000), 24, weights=dict(match=10, info=2, list=2, count=2, save=2, sgroup=2, group=3))
    c.histories("without", c.scale(400, 4000), 24, twin=twins.without_queries,
                weights=dict(match=8, info=1, list=1, count=1, save=2, sgroup=2, lgroup=0, reload=0, group=4))
    c.histories("querylib", c.scale(200, 2000), 24, mode="lib", weights=dict(match=10, save=2, sgroup=2, group=3))
    c.histories("withoutlib", c.scale(200, 2000), 24, mode="lib", twin=twins.without_queries,
                weights=dict(match=8, save=2, sgroup=2, lgroup=0, reload=0, group=4))


@check("C06")
def c06(c):
    models.texts(c)
    models.system(c, {"load", "save"})
    c.histories("saveload", c.scale(400, 4000), 24, mode="lib", weights=dict(save=4, reload=5, norm=2, paa=2, group=.3, match=.2, sgroup=.1, lgroup=.1))
    rng = random.Random(c.seed())
    w = dict(save=4, reload=5, norm=0, paa=1, group=0, match=0, sgroup=0, lgroup=0)
    c.histories("anyvalue", c.scale(200, 2000), 20, mode="lib", weights=w, badness=0.05, given=gen.raw_pool(rng, c.files, 60), raw=True)
    c.histories("anyvaluewide", c.scale(100, 1000), 20, mode="lib", weights=dict(w, norm=2), badness=0.05, given=gen.raw_pool(rng, c.files, 60), raw=True)
    c.histories("anyvaluenorm", c.scale(200, 2000), 20, mode="lib", weights=dict(w, norm=2), badness=0.05, given=gen.raw_pool(rng, c.files, 60, wide=False), raw=True)
    c.histories("saveloadapi", c.scale(300, 3000), 24, weights=dict(save=4, reload=5, norm=2, paa=2, group=.3, match=.2, sgroup=.1, lgroup=.1))
    big_tables(c, "norm", "paa")


@check("C07")
def c07(c):
    models.system(c, {"norm", "load"})
    c.histories("normlib", c.scale(500, 4000), 16, mode="lib", weights=dict(norm=5, group=.5, match=.3), lmax=9, nmax=5)
    w = dict(norm=5, group=0, match=0, sgroup=0, lgroup=0, save=0, reload=0)
    c.histories("normtiny", c.scale(100, 1000), 12, mode="lib", weights=w, lmax=7, nmax=4, styles=gen.DYADIC_STYLES, scale=2.0 ** -45)
    c.histories("normhuge", c.scale(100, 1000), 12, mode="lib", weights=w, lmax=7, nmax=4, styles=gen.DYADIC_STYLES, scale=2.0 ** 60)
    c.histories("norm", c.scale(300, 3000), 16, weights=dict(norm=5, group=.5, match=.3), lmax=9, nmax=5)
    rng = random.Random(c.seed())
    c.histories("normany", c.scale(200, 2000), 12, mode="lib", weights=dict(w, paa=1), badness=0.05, given=gen.raw_pool(rng, c.files, 60, wide=False), raw=True)
    big_tables(c, "norm")
    c.traces("extremes", large.extremes(rng, c.files, "lib", "X", [(130, 1), (130, 3), (66, 2), (3, 130), (1, 67)] + [(260, 3), (3, 260), (130, 5)] * c.scale(0, 1)), mode="lib")


@check("C08")
def c08(c):
    models.system(c, {"paa"})
    c.histories("paalib", c.scale(500, 4000), 16, mode="lib", weights=dict(paa=6, group=.5, match=.3, norm=.7), lmax=13, nmax=4, paan=(1, 2, 3, 4, 5, 6, 7, 9, 12, 13, 14, 100, HUGE, HUGE - 1, HUGE // 2 + 1))
    c.histories("paascale", c.scale(100, 1000), 16, mode="lib", weights=dict(paa=6, norm=0), lmax=13, nmax=4, styles=gen.DYADIC_STYLES, scale=2.0 ** -45)
    c.histories("paa", c.scale(300, 3000), 16, weights=dict(paa=6, group=.5, match=.3, norm=.7), lmax=13, nmax=4, paan=(1, 2, 3, 4, 5, 6, 7, 9, 12, 13, 14, 100, HUGE, HUGE - 1))
    big_tables(c, "paa")


@check("C09", "C10", "C11")
def c09(c):
    models.groupings(c)
    models.system(c, {"group"})
    w = dict(group=8, norm=1.5, paa=.8, match=.5, load=3, unload=2, sgroup=.1, lgroup=.1, save=.1, reload=.1, info=.1, list=.1, count=.1)
    c.histories("group", c.scale(300, 3000), 14, weights=w, lmax=8, nmax=6, npool=60)
    c.histories("grouplib", c.scale(300, 3000), 14, mode="lib", weights=w, lmax=7, nmax=5, npool=60)
    c.histories("groupscale", c.scale(80, 800), 14, mode="lib", weights=dict(w, norm=0), lmax=6, nmax=4, npool=30, styles=gen.DYADIC_STYLES, scale=2.0 ** -45)
    c.histories("near", c.scale(80, 800), 10, mode="lib", weights=dict(w, norm=0, paa=0), lmax=5, nmax=6, npool=30, styles=gen.DYADIC_STYLES, thr_raw=gen.THR_NEAR)
    rng = random.Random(c.seed())
    shapes = [(150, 2), (300, 2), (60, 4), (130, 3), (12, 9), (5, 16), (2, 24), (1, 36), (3, 20), (40, 5), (1, 2), (17, 7)]
    c.traces("large", large.groupings(rng, c.files, "lib", "L", shapes * c.scale(1, 6)), mode="lib")
    c.traces("largeapi", large.groupings(rng, c.files, "api", "A", [(250, 2), (10, 11), (2, 20), (35, 5), (1, 30)] * c.scale(1, 6)))
    c.traces("nearer", large.near_thresholds(rng, c.files, "K", c.scale(150, 1500)), mode="lib")
    if c.prop == "C09":
        c.traces("members", large.many_members(rng, c.files, "M", c.scale(66000, 66000)), mode="lib")
    c.traces("nearties", large.near_ties(rng, c.files, "lib", "Y", c.scale(60, 600)), mode="lib")
    c.traces("many", large.many_groups(rng, c.files, "G", [(300, 2), (600, 2), (140, 3)] + [(1100, 2), (300, 4), (70, 8)] * c.scale(0, 1)), mode="lib")
    c.traces("warped", large.warped_groupings(rng, c.files, "W", c.scale(150, 1500)), mode="lib")
    alone(c)
    c.traces("longest", large.groupings(rng, c.files, "lib", "M", [(1, 80)] * c.scale(1, 6), [("40", 40, 1), ("60", 60, 1)]), mode="lib")


def alone(c, *pre):
    """The groups of one length alone."""
    rng = random.Random(c.seed())
    ts = spaces.traces(rng, c.files, "s", c.scale(200, 2000), [(1, 3), (2, 4), (3, 3), (4, 5), (6, 6), (2, 9), (12, 3), (30, 2)])
    for name, traces in (("spaces", ts),) + pre:
        if not c.rep.violations:
            simple.validate(c.rep, c.prop, c.exe("drv_grp"), traces, c.work, name, "TraceSpace", view=True)


@check("C12")
def c12(c):
    models.system(c, {"load", "norm", "paa", "group", "sgroup", "lgroup", "match"})
    c.histories("current", c.scale(400, 4000), 22, twin=twins.fresh, weights=dict(group=5, norm=1.5, paa=1.5, match=4, sgroup=1, lgroup=1.5))
    c.histories("currentlib", c.scale(400, 4000), 22, mode="lib", twin=twins.fresh, weights=dict(group=5, norm=1.5, paa=1.5, match=4, sgroup=1, lgroup=1.5))
    for mode in ("lib", "api"):
        rng = random.Random(c.seed())
        ts = large.regroups(rng, c.files, mode, "R", c.scale(300, 3000), c.outdir)
        c.traces("regroup" + mode, ts, mode=mode, twins={t.tid: x for t in ts for x in [twins.fresh(rng, t, c.outdir)] if x})
    c.histories("digits", c.scale(100, 1000), 20, mode="lib", twin=twins.fresh, thr_raw=gen.THR_DIGITS, thr_norm=gen.THR_DIGITS,
                weights=dict(group=6, match=1, sgroup=1, lgroup=1.5))


@check("C13", "C14")
def c13(c):
    models.searches(c)
    models.system(c, {"match"})
    w = dict(group=3, match=12, norm=1, paa=.5, ratio=2.5, load=3)
    c.histories("match", c.scale(300, 3000), 24, weights=w, npool=40)
    c.histories("matchlib", c.scale(300, 3000), 24, mode="lib", weights=w, npool=40)
    rng = random.Random(c.seed())
    small, wide = [(1, 4), (2, 5), (3, 4), (4, 3), (2, 7), (1, 9)], [(12, 5), (5, 9), (2, 14), (1, 20), (30, 3), (3, 12)]
    c.traces("handmade", large.matches(rng, c.files, "lib", "H", c.scale(150, 1500), small, hand=True), mode="lib")
    c.traces("handmadeapi", large.matches(rng, c.files, "api", "I", c.scale(60, 600), small, hand=True))
    c.traces("larger", large.matches(rng, c.files, "lib", "L", c.scale(30, 300), wide), mode="lib")
    c.traces("long", large.long_searches(rng, c.files, "lib", "Q", [(1, 60), (2, 45), (1, 130)] * c.scale(1, 4)), mode="lib")
    c.traces("members", large.many_members(rng, c.files, "M", c.scale(40000, 66000), ask=True), mode="lib")
    c.traces("nearties", large.near_ties(rng, c.files, "lib", "Y", c.scale(60, 600)), mode="lib")
    c.traces("neartiesapi", large.near_ties(rng, c.files, "api", "Z", c.scale(40, 400)))
    c.traces("longapi", large.long_searches(rng, c.files, "api", "R", [(1, 90), (2, 40)] * c.scale(1, 4)))
    alone(c, ("orders", spaces.orders(rng, "o", c.scale(14, 30), gen.RATIOS)))
    c.traces("scaled", large.matches(rng, c.files, "lib", "S", c.scale(60, 600), small, scale=2.0 ** -45), mode="lib", scale=2.0 ** -45)


@check("C18")
def c18(c):
    models.groupings(c)
    models.system(c, {"sgroup", "lgroup", "match"})
    w = dict(group=3, match=3, norm=1.2, paa=1, ratio=1, sgroup=4, lgroup=5)
    c.histories("groupfile", c.scale(300, 3000), 24, weights=w)
    c.histories("groupfilelib", c.scale(300, 3000), 24, mode="lib", weights=w)
    c.histories("digits", c.scale(120, 1200), 20, thr_raw=gen.THR_DIGITS, thr_norm=gen.THR_DIGITS, weights=dict(w, match=1))
    c.histories("digitslib", c.scale(120, 1200), 20, mode="lib", thr_raw=gen.THR_DIGITS, thr_norm=gen.THR_DIGITS, weights=dict(w, match=1))
    for n, sc in (("tiny", 2.0 ** -45), ("huge", 2.0 ** 60)):
        c.histories("groupfile" + n, c.scale(70, 700), 16, mode="lib", weights=dict(w, norm=0), lmax=6, nmax=4, npool=30, styles=gen.DYADIC_STYLES, scale=sc)
    rng = random.Random(c.seed())
    c.traces("members", large.many_members(rng, c.files, "M", c.scale(40000, 66000), outdir=c.outdir), mode="lib")
    c.traces("large", large.group_files(rng, c.files, "lib", "G", [(300, 2), (60, 4), (2, 24), (1, 34), (20, 7), (1, 2), (1, 12), (3, 9), (2, 10), (1, 16), (4, 8), (2, 3)] * c.scale(1, 5), c.outdir), mode="lib")
    c.traces("largeapi", large.group_files(rng, c.files, "api", "K", [(260, 2), (12, 9), (3, 16)] * c.scale(1, 5), c.outdir))


# ------------------------------------------------------------------ distances and series

import series
import itertools

SMALL_RATIOS = [("0", 0, 1), ("0.25", 1, 4), ("0.4", 2, 5), ("0.5", 1, 2), ("0.75", 3, 4), ("1", 1, 1), ("10", 10, 1)]


def dists(c, name, traces):
    if not c.rep.violations:
        simple.validate(c.rep, c.prop, c.exe("drv_ts"), traces, c.work, name, "TraceDist")


def heap(c, name, traces):
    if not c.rep.violations:
        simple.validate(c.rep, c.prop, c.exe("drv_ts"), traces, c.work, name, "TraceHeap", view=True)


@check("C15")
def c15(c):
    models.distances(c)
    rng = random.Random(c.seed())
    dists(c, "names", series.names("n"))
    dists(c, "small", series.exhaustive("x", (0, 1, 3), 3, SMALL_RATIOS, ["wp"]) +
          series.exhaustive("y", (0, 1), 4, SMALL_RATIOS[1:6:2], ["wp"]) + series.exhaustive("z", (0, 2, 5), 3, SMALL_RATIOS[:1], ["pw", "npw", "nwp", "cc"]))
    dists(c, "random", series.random_dists(rng, "r", c.scale(300, 3000), 12, series.OPS15, False))
    dists(c, "tiny", series.random_dists(rng, "t", c.scale(60, 600), 8, series.OPS15, False, scale=2.0 ** -45))
    dists(c, "huge", series.random_dists(rng, "u", c.scale(60, 600), 8, series.OPS15, False, scale=2.0 ** 40))
    dists(c, "long", series.long_dists(rng, "l", c.scale(16, 100), 40, 90, series.OPS15, False) +
          series.long_dists(rng, "m", c.scale(4, 24), 200, 530, series.OPS15, False))


@check("C16")
def c16(c):
    models.distances(c)
    rng = random.Random(c.seed())
    cuts = ("inf", "0", "0.125", "0.25", "0.34", "0.5", "1", "2")
    dists(c, "small", series.exhaustive("x", (0, 1, 3), 3, SMALL_RATIOS, ["xk", "cc", "kg", "wp"], cuts, pairs=c.scale(60, 1521), rng=rng) +
          series.exhaustive("y", (0, 2, 5), 3, SMALL_RATIOS, ["cc", "xk"], ("inf", "0.3"), pairs=c.scale(250, 1521), rng=rng))
    dists(c, "random", series.random_dists(rng, "r", c.scale(500, 5000), 12, series.OPS15, True))
    dists(c, "tiny", series.random_dists(rng, "t", c.scale(60, 600), 8, series.OPS15, True, scale=2.0 ** -30))
    dists(c, "huge", series.random_dists(rng, "u", c.scale(60, 600), 8, series.OPS15, True, scale=2.0 ** 40))
    dists(c, "long", series.long_dists(rng, "l", c.scale(16, 100), 40, 90, series.OPS15, True) +
          series.long_dists(rng, "m", c.scale(4, 24), 200, 530, series.OPS15, True))
    alone(c)


@check("C17")
def c17(c):
    models.distances(c)
    models.heap(c, {"env"})
    rng = random.Random(c.seed())
    heap(c, "small", series.envelopes("x", [list(v) for l in range(1, 6) for v in itertools.product((0, 1, 2), repeat=l)], lambda n: list(range(0, n + 2))) +
         series.envelopes("p", [list(v) for v in itertools.permutations(range(6))], lambda n: [1, 2, 3, 5]))
    heap(c, "long", series.envelopes("l", [series.row(rng, rng.randint(6, 120), rng.choice(series.STY)) for _ in range(c.scale(150, 1500))],
                                     lambda n: sorted({0, 1, 2, 3, n // 10, n // 3, n // 2, n - 2, n - 1, n, n + 5}), per=5))
    heap(c, "verylong", series.envelopes("v", [series.row(rng, rng.randint(200, 800), rng.choice(series.STY)) for _ in range(c.scale(3, 30))],
                                         lambda n: sorted({1, 3, 17, n // 3, n - 1, n + 5}), per=1))
    heap(c, "programs", series.programs(rng, "h", c.scale(400, 4000), 25, env=0.5))
    heap(c, "programslong", series.programs(rng, "g", c.scale(100, 1000), 25, env=0.5, lens=(6, 9, 14, 30)))
    heap(c, "tiny", series.programs(rng, "t", c.scale(60, 600), 25, env=0.5, lens=(3, 6, 14), scale=2.0 ** -45))


@check("C23")
def c23(c):
    models.heap(c)
    rng = random.Random(c.seed())
    heap(c, "order", series.comparisons("c"))
    heap(c, "programs", series.programs(rng, "h", c.scale(600, 6000), 30, env=0.08))
    heap(c, "programslong", series.programs(rng, "g", c.scale(150, 1500), 30, env=0.1, lens=(0, 1, 6, 9, 14, 30), nslots=8))
    heap(c, "tiny", series.programs(rng, "t", c.scale(60, 600), 25, env=0.1, scale=2.0 ** -45))


# ------------------------------------------------------------------ loading

import loads


@check("C05")
def c05(c):
    models.texts(c)
    models.system(c, {"load"})
    rng = random.Random(c.seed())
    L = loads.Loads(c)
    V = [(" ", 0, 0), (",", 0, 0), (" ,", 0, 1), (" ", 1, 0), (" ", 2, 1)]
    ex = list(loads.exhaustive(["1", "2", " ", "\n", ",", "x"], 4, V)) + list(loads.exhaustive(["1", "-", ".", "e", " "], 5, [(" ", 0, 0)]))
    if not core.THOROUGH:
        ex = rng.sample(ex, 5000)
    L.validate("chars", ex, "lib")
    L.validate("files", [loads.random_file(rng) for _ in range(c.scale(2500, 20000))], "lib")
    L.validate("filesapi", [loads.random_file(rng) for _ in range(c.scale(1000, 10000))] + [(None, " ", 0, 0)], "api")
    L.validate("replaced", list(loads.replaced(rng, c.scale(400, 4000))), "lib", per=7, shared=True)
    L.validate("replacedapi", list(loads.replaced(rng, c.scale(200, 2000))), "api", per=7, shared=True)
    c.histories("histories", c.scale(200, 2000), 16, weights=dict(load=6, unload=4), badness=0.3, lmax=9, nmax=6, npool=60)
    c.histories("historieslib", c.scale(200, 2000), 16, mode="lib", weights=dict(load=6, unload=4), lmax=9, nmax=6, npool=60)
    big_tables(c, "")


# ------------------------------------------------------------------ addressing

import addressing


@check("C22")
def c22(c):
    models.system(c, {"match"})
    rng = random.Random(c.seed())
    c.traces("parts", addressing.subs(rng, c.files, [(1, 1), (2, 3), (3, 2), (1, 5)] + c.scale([], [(4, 4), (2, 8)])), mode="lib")
    c.traces("dists", addressing.dists(rng, c.files, [(1, 1), (2, 3), (3, 2), (1, 5), (3, 6)], c.scale(120, 1200)), mode="lib")
    ts, tw = addressing.matches(rng, c.files, c.scale(150, 1500))
    c.traces("queries", ts, twins=tw)
    c.histories("histories", c.scale(150, 1500), 20, badness=0.3, weights=dict(group=4, match=8))


# ------------------------------------------------------------------ group files

import groupfiles


@check("C19")
def c19(c):
    models.groupings(c)
    models.system(c, {"lgroup"})
    rng = random.Random(c.seed())
    c.traces("smalllib", groupfiles.traces(rng, c.files, [(1, 2), (2, 3), (3, 2)] + c.scale([], [(2, 4), (1, 5), (3, 3), (2, 5)] * 3), "lib", "s"), mode="lib")
    c.traces("smallapi", groupfiles.traces(rng, c.files, [(2, 2), (1, 3), (1, 1)] + c.scale([], [(2, 4), (1, 5), (3, 3), (2, 5)] * 3), "api", "t"))
    c.traces("larger", groupfiles.traces(rng, c.files, [(5, 4), (3, 6), (12, 3)] * c.scale(1, 8), "lib", "l", every=False), mode="lib")
    c.traces("many", groupfiles.traces(rng, c.files, [(20, 4), (8, 9), (70, 2), (1, 40), (2, 20)] * c.scale(1, 6), "lib", "n", many=True), mode="lib")
    c.histories("histories", c.scale(150, 1500), 20, weights=dict(group=4, sgroup=3, lgroup=5), badness=0.3)


# ------------------------------------------------------------------ single precision

def dyadic(rng, files, k, nmax, lmax):
    """Tables of values that single precision holds exactly, over a range of at most 8."""
    out = []
    for _ in range(k):
        n, L = rng.randint(1, nmax), rng.choice([1] + list(range(2, lmax + 1)) * 3)
        rows = gen.values(rng, n, L, rng.choice(["tiny", "small", "dyadic", "rows", "ramp", "walk", "extreme"]))
        lo = min(map(min, rows))
        rows = [[min(v, lo + 8) for v in r] for r in rows]
        out.append(gen.data_file(rng, files, rows))
    return out


@check("C24")
def c24(c):
    ratios = [r for r in gen.RATIOS if r[2] in (1, 2, 4, 8)] + gen.RATIOS[-3:]
    w = dict(load=3, norm=2, paa=1.5, group=4, match=5, save=1, reload=1, sgroup=1, lgroup=1, ratio=1)
    for mode in ("api", "lib"):
        rng = random.Random(c.seed())
        ts = campaign.histories(c.seed(), c.files, c.outdir, c.scale(350, 3500), 24, mode=mode, pre=mode, weights=w, paan=(1, 2, 4, 8),
                                ratios=ratios, given=dyadic(rng, c.files, c.scale(30, 200), 4, 7))
        unless_double(c, lambda single: c.traces(mode, ts, mode=mode, single=single))
    rng = random.Random(c.seed())
    simple_single(c, "envelopes", series.programs(rng, "h", c.scale(150, 1500), 20, env=0.5, lens=(1, 3, 6, 9, 14)), "TraceHeap", "C17", True)
    simple_single(c, "distances", series.random_dists(rng, "r", c.scale(150, 1500), 8, series.OPS15, False), "TraceDist", "C15", False)


def simple_single(c, name, traces, module, focus, view):
    def go(single):
        tight = series.TIGHT
        series.TIGHT = series.LOOSE if single else tight
        simple.validate(c.rep, focus, c.exe("drv_ts", single=single), traces, c.work, name, module, view=view)
        series.TIGHT = tight
    if not c.rep.violations:
        unless_double(c, go)


def unless_double(c, go):
    """What the double-precision build does wrong too is no matter of precision (but of other properties)."""
    go(True)
    if c.rep.violations and "crash" not in c.rep.violations[-1][0].split(" at event")[0]:
        v = c.rep.violations.pop()
        go(False)
        if c.rep.violations:
            core.log("the double-precision build does so too:", c.rep.violations.pop()[0])
        else:
            c.rep.violations.append(v)


# ------------------------------------------------------------------ command line

import cli


@check("C20")
def c20(c):
    models.lines(c)
    rng = random.Random(c.seed())
    exe = core.build(c.work, None, cli=True)
    api = c.exe("drv_api")
    go = lambda f, *a: c.rep.violations or f(c.rep, exe, *a)
    go(cli.check, api, cli.sessions(c.seed(), c.files, c.scale(250, 3000), 30), c.work, "sessions")
    go(cli.check, api, models.typed(c), c.work, "walks")
    go(cli.check, api, cli.edge_sessions(c.files, rng), c.work, "edges")
    go(cli.survive, cli.noise(rng, c.scale(150, 1500)), c.work, "noise")
    ss = cli.terminal(c.seed() + 7, c.files, c.scale(60, 600))
    if ss:
        go(cli.check, api, ss, c.work, "terminal")


# ------------------------------------------------------------------ saving

import writes


@check("C21")
def c21(c):
    models.writer(c)
    rng = random.Random(c.seed())

    def go(name, mode, count, nmax, lmax, caps):
        if not c.rep.violations:
            W = writes.Writes(mode, os.path.join(c.work, "obsw"))
            simple.validate(c.rep, c.prop, c.exe("drv_" + mode), writes.traces(rng, c.files, W, c.outdir, name, count, nmax, lmax, caps), c.work, name,
                            "TraceWriter", view=True, drop=("cat", "obs"), seconds=60)
    every = lambda rng, kind, shape: sorted(rng.sample(range(0, 260), 60) if not core.THOROUGH else range(0, 400))
    go("bytes", "lib", c.scale(60, 200), 3, 4, every)
    go("bytesapi", "api", c.scale(60, 200), 3, 4, every)
    around = lambda rng, kind, shape: sorted({rng.choice([0, 1, 511, 512, 1023, 1024, 4095, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 32768, rng.randint(0, 40000)])
                                              for _ in range(12)})
    go("blocks", "api", c.scale(8, 80), 24, 36, around)
