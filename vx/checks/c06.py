"""C06: what is written as XML reads back as the same coverage"""
import io

from vx import gen, oracle, rpt, sut, work
from vx.core import sut as must

PROP = "C06"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "db", "insts"]
QUICK = 8000
REQUIRED = ["round_trips", "rewrites", "reports_compared", "bins_compared", "source_unchanged", "legacy_locale"]
RULE = ("Generated databases within what the interchange format represents (hostile names, all bin kinds, crosses, "
        "cover instances, zero and huge weights, thresholds and counts) are written through each of the writing entry points and "
        "read back through each of the reading ones; every scope and bin (name, order, kind, weight, threshold, count, "
        "crossed coverpoints) of the observed result is compared with the reference image of the model. The result is "
        "written and read once more and merged copies take the same path. Non-trivial: at least one bin.")
ASSUMPTIONS = ["names of siblings are distinct, every covergroup has a coverpoint, every coverpoint and cross a bin, and "
               "one threshold per coverpoint or cross: the format cannot represent anything else",
               "instances are direct children of the database (nested ones: see known findings)"]


def write(ctx, db, how):
    """Returns the document's bytes and the path of a file that holds it"""
    p = ctx.path(".xml")
    with work.legacy_locale(ctx), must("writing XML (%s)" % how):
        if how == "path":
            work.xml_write(db, p)
        elif how == "stream":
            from ucis.xml.xml_factory import XmlFactory
            with open(p, "w", encoding="utf-8", newline="") as fp:
                XmlFactory.write(db, fp)
        elif how == "writer":
            from ucis.xml.xml_writer import XmlWriter
            s = io.StringIO()
            XmlWriter().write(s, db)
            with open(p, "w", encoding="utf-8", newline="") as fp:
                fp.write(s.getvalue())
        else:
            db.write(p)
    ctx.count("written_by_" + how)
    return p


def read(ctx, p, how):
    with work.legacy_locale(ctx), must("reading XML (%s)" % how):
        if how == "path":
            return work.xml_read(p)
        if how == "file":
            with open(p, "rb") as fp:
                return work.xml_read(fp)
        if how == "registry":
            from ucis.rgy.format_rgy import FormatRgy
            return FormatRgy.inst().getDatabaseDesc("xml").fmt_if().read(p)
        from ucis.xml.xml_reader import XmlReader
        with open(p, encoding="utf-8", newline="") as fp:
            return XmlReader().loads(fp.read())


def options(rng):
    return gen.Opts(xmlable=True, uniform_al=True, scale=3 if rng.random() < 0.05 else 1)


def same(ctx, exp, db, what):
    n = lambda m: oracle.norm(m, nonbin_al=True, kind_order=True)
    ctx.equal(n(exp), n(sut.snap(db)), what)
    ctx.count("bins_compared", gen.stats(exp)[5])


def case(ctx):
    rng = ctx.rng
    model = gen.gen_db(rng, options(rng))
    ctx.note(model)
    s = gen.count_db(ctx, model)
    ctx.seen(model, s[5] > 0)
    xmldb = rng.random() < 0.4
    with must("building a database"):
        db = sut.build(model, rng, sut.new_xml_db() if xmldb else None)
    whow = rng.choice(["path", "stream", "writer"] + (["method"] * 3 if xmldb else []))
    rhow = rng.choice(["path", "file", "registry", "loads"])
    before = sut.deep(db)
    p = write(ctx, db, whow)
    ctx.check(sut.deep(db) == before, "writing changed the database")
    ctx.count("source_unchanged")
    rd = read(ctx, p, rhow)
    exp = oracle.xml_image(model)
    same(ctx, exp, rd, "read back (%s, %s)" % (whow, rhow))
    ctx.count("round_trips")
    er = oracle.report(exp)
    with must("report of what was read"):
        r = rpt.observe(rpt.build(rd))
    ctx.equal(rpt.strip_cov(er), rpt.strip_cov(r), "report of what was read")
    for (q, e), (_, g) in zip(rpt.covs(er), rpt.covs(r)):
        ctx.check(rpt.close(g, e), "coverage of %s read back is %r, should be %s", q, g, float(e))
    # without cover instances nothing is reconstructed: the report is that of the original
    if all(not cg["insts"] for i in model for cg in i["cgs"]):
        with must("report of the original"):
            o1 = rpt.build(db)
        ctx.check(rpt.close(o1.coverage, rpt.build(rd).coverage), "coverage changed from %r to %r on the way through XML",
                  o1.coverage, r["cov"])
        ctx.count("coverage_preserved")
    ctx.count("reports_compared")
    if rng.random() < 0.4:
        # the image is a fixed point
        p2 = write(ctx, rd, rng.choice(["path", "stream", "writer"]))
        same(ctx, exp, read(ctx, p2, rng.choice(["path", "loads"])), "read back a second time")
        ctx.count("rewrites")
    if rng.random() < 0.15:
        # on the way through a merge
        with must("merging"):
            m = work.merge([rd, db], sut.new_xml_db())
        mm = sut.snap(m)
        if work.representable(mm):
            p3 = write(ctx, m, "method")
            mi = oracle.xml_image(mm)
            same(ctx, mi, read(ctx, p3, "path"), "read back after a merge")
            ctx.count("merged_round_trips")


def directed():
    def one(n):
        def f(ctx):
            # each hostile name in every position
            b = [("bin", n, 3, 5), ("ignore", n, 3, 7), ("illegal", n, 3, 9)]
            cp = {"name": n, "weight": 2, "bins": b}
            cp2 = {"name": n + "2", "weight": 0, "bins": b[:1]}
            cr = {"name": n, "weight": 4, "bins": b, "cps": [1, 0]}
            cg = {"name": n, "weight": 6, "cps": [cp, cp2], "crs": [cr], "insts": []}
            cgi = dict(cg, insts=[dict(cg, name=n, weight=3), dict(cg, name=n + "x", weight=0)], name=n + "3")
            model = [{"name": n, "du": n, "weight": 1, "cgs": [cg, cgi]}]
            ctx.note(model)
            with must("building a database"):
                db = sut.build(model)
            for w in ("path", "stream", "writer"):
                p = write(ctx, db, w)
                for r in ("path", "file", "registry", "loads"):
                    same(ctx, oracle.xml_image(model), read(ctx, p, r), "name %r (%s, %s)" % (n, w, r))
            ctx.seen(model)
            ctx.count("hostile_names")
        return f
    return [("name%d" % i, one(n)) for i, n in enumerate(gen.HOSTILE)] + [("large", large)]


def large(ctx):
    model = [{"name": "i%d" % i, "du": "m", "weight": 1, "cgs": [
        {"name": "g%d" % g, "weight": g, "cps": [
            {"name": "p%d" % c, "weight": c, "bins": [("bin", "b%d" % b, 2, b * 7 % 5) for b in range(40)]}
            for c in range(8)], "crs": [], "insts": []} for g in range(6)]} for i in range(6)]
    db = sut.build(model)
    p = write(ctx, db, "path")
    same(ctx, oracle.xml_image(model), read(ctx, p, "path"), "a large database")
    ctx.seen("large")


def known():
    def nested(ctx):
        from ucis import UCIS_OTHER, UCIS_INSTANCE, UCIS_INST_ONCE, UCIS_DU_MODULE
        db = sut.MemFactory.create()
        du = db.createScope("m", None, 1, UCIS_OTHER, UCIS_DU_MODULE, sut.DU_FLAGS)
        top = db.createInstance("top", None, 1, UCIS_OTHER, UCIS_INSTANCE, du, UCIS_INST_ONCE)
        sub = top.createInstance("sub", None, 1, UCIS_OTHER, UCIS_INSTANCE, du, UCIS_INST_ONCE)
        cp = sub.createCovergroup("cg", None, 1, UCIS_OTHER).createCoverpoint("cp", None, 1, UCIS_OTHER)
        cp.createBin("b", None, 1, 5, "b")
        return b"coverpoint" not in work.xml_write(db)
    return [("covergroups of an instance inside another instance are missing from the XML written", nested)]
