"""C04: the report object shows the database completely and faithfully"""
from vx import gen, oracle, rpt, sut, work
from vx.core import sut as must

PROP = "C04"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "db", "insts"]
QUICK = 30000
REQUIRED = ["report_items_compared", "map_lookups", "hit_flags"]
RULE = ("Generated databases (also merged, read from XML, with duplicate and hostile names, empty scopes) are "
        "reported by the real builder; every covergroup, instance, coverpoint, cross and bin of the report (name, order, weight, "
        "kind, count, threshold, hit flag) is compared with the database's model and every name map with the lists. "
        "Non-trivial: the database has at least one bin.")
ASSUMPTIONS = ["instances are direct children of the database (nested ones: see known findings)"]


def maps(ctx, lst, m, what):
    """A map from names to items: the keys are the names, and each name leads to an item of that name"""
    ctx.equal(sorted({x.name for x in lst}), sorted(m.keys()), "names in the map of " + what)
    for k, v in m.items():
        ctx.count("map_lookups")
        ctx.check(v.name == k and any(v is x for x in lst), "the map of %s leads %r to another item", what, k)


def check_cg(ctx, cg):
    maps(ctx, cg.coverpoints, cg.coverpoint_m, "coverpoints of %r" % cg.name)
    maps(ctx, cg.crosses, cg.cross_m, "crosses of %r" % cg.name)
    maps(ctx, cg.covergroups, cg.covergroup_m, "instances of %r" % cg.name)
    for c in cg.coverpoints + cg.crosses:
        for lst in (c.bins, getattr(c, "ignore_bins", []), getattr(c, "illegal_bins", [])):
            for b in lst:
                ctx.count("hit_flags")
                ctx.check(bool(b.hit) == (b.count >= b.goal), "bin %r with count %r and goal %r has hit=%r",
                          b.name, b.count, b.goal, b.hit)
    for i in cg.covergroups:
        check_cg(ctx, i)


def check(ctx, model, db, what):
    with must("building the report"):
        r = rpt.build(db)
    exp = oracle.report(model)
    got = rpt.observe(r)
    ctx.equal(rpt.strip_cov(exp), rpt.strip_cov(got), what)
    for (p, e), (_, g) in zip(rpt.covs(exp), rpt.covs(got)):
        ctx.check(rpt.close(g, e), "%s: coverage of %s is %r, by definition %s", what, p, g, float(e))
    ctx.count("report_items_compared", len(rpt.covs(exp)))
    maps(ctx, r.covergroups, r.covergroup_m, "covergroups")
    for cg in r.covergroups:
        check_cg(ctx, cg)
    return r


def case(ctx):
    rng = ctx.rng
    o = gen.Opts(unique=rng.random() < 0.7, scale=4 if rng.random() < 0.05 else 1)
    model = gen.gen_db(rng, o)
    db, model = work.materialize(ctx, model, rng)
    if rng.random() < 0.15:
        with must("merging"):
            db = work.merge([db])
        model = sut.snap(db)
    ctx.note(model)
    s = gen.count_db(ctx, model)
    check(ctx, model, db, "report of a generated database")
    ctx.seen(model, s[5] > 0)
    if rng.random() < 0.2:
        # a report built later shows the later state; the earlier one is not affected
        with must("building the report"):
            r1 = rpt.build(db)
        o1 = rpt.observe(r1)
        for inst in db.scopes(sut.ScopeTypeT.INSTANCE):
            for g in inst.scopes(sut.ScopeTypeT.COVERGROUP):
                for c in g.scopes(sut.ScopeTypeT.COVERPOINT | sut.ScopeTypeT.CROSS):
                    for ci in c.coverItems(sut.ALLBINS):
                        ci.incrementCover(rng.choice([1, 5]))
                    c.createBin("later", None, 1, 1, "")
                g.createCoverpoint("added", None, 1, sut.UCIS_OTHER)
            inst.createCovergroup("added", None, 1, sut.UCIS_OTHER)
        check(ctx, sut.snap(db), db, "report after changes")
        ctx.equal(rpt.strip_cov(o1), rpt.strip_cov(rpt.observe(r1)), "a report that was built before the changes")
        ctx.count("later_reports")


def known():
    def nested(ctx):
        from ucis import UCIS_OTHER, UCIS_INSTANCE, UCIS_INST_ONCE, UCIS_DU_MODULE
        db = sut.MemFactory.create()
        du = db.createScope("m", None, 1, UCIS_OTHER, UCIS_DU_MODULE, sut.DU_FLAGS)
        top = db.createInstance("top", None, 1, UCIS_OTHER, UCIS_INSTANCE, du, UCIS_INST_ONCE)
        sub = top.createInstance("sub", None, 1, UCIS_OTHER, UCIS_INSTANCE, du, UCIS_INST_ONCE)
        cp = sub.createCovergroup("cg", None, 1, UCIS_OTHER).createCoverpoint("cp", None, 1, UCIS_OTHER)
        cp.createBin("b", None, 1, 5, "b")
        return len(rpt.build(db).covergroups) == 0
    return [("covergroups of an instance inside another instance are missing from reports", nested)]
