"""C01: merging conserves bins and counts"""
from vx import gen, oracle, sut, work
from vx.core import sut as must
from vx.gen import KINDS

PROP = "C01"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "db", "insts", "sources"]
QUICK = 16000
REQUIRED = ["merged_bins_compared", "overlapping_merges", "comparisons"]
RULE = ("Generated designs with several runs each (parts missing, reordered, renamed, duplicated, with hostile names "
        "and huge counts) are built through the public API or read from XML, merged by the real merger, and the merged "
        "database is walked and compared, bin by bin, with the sum over the sources. Non-trivial: at least two sources "
        "share a bin. Distinct by hash of the source models.")
ASSUMPTIONS = ["the destination is a fresh in-memory or XML-format database",
               "instances are direct children of the database (nested ones: see known findings)"]


def observe(ctx, models, dbs, dst, what):
    exp = oracle.merge(models)
    got = sut.snap(dst)
    # every bin of the sources with the sum of its counts, and nothing else
    dups = []
    e, g = oracle.flat(exp), oracle.flat(got, dups)
    ctx.check(not dups, "%s: bin occurs twice in the merged database: %r", what, dups[:3])
    # the expectation is the plain sum over sources
    tot = {}
    for m in models:
        for k, v in oracle.flat(m).items():
            tot[k] = tot.get(k, 0) + v
    assert tot == e
    ctx.equal(tot, g, what + ": counts of the merged bins")
    ctx.count("merged_bins_compared", len(tot))
    ctx.check(sum(tot.values()) == sum(g.values()), "%s: total count", what)
    # scopes without bins must not vanish either, nor appear twice
    se, sg = sorted(oracle.scopes(exp), key=repr), sorted(oracle.scopes(got), key=repr)
    ctx.equal(se, sg, what + ": scopes of the merged database")
    ctx.count("merged_scopes_compared", len(se))
    ctx.count("merges")
    if work.nontrivial_merge(models):
        ctx.count("overlapping_merges")


def case(ctx):
    rng = ctx.rng
    o, models = work.gen_sources(ctx)
    dbs, ms = [], []
    for m in models:
        db, mm = work.materialize(ctx, m, rng)
        dbs.append(db)
        ms.append(mm)
        gen.count_db(ctx, mm)
    if rng.random() < 0.08 and dbs:
        # the same database given twice counts twice
        dbs.append(dbs[0])
        ms.append(ms[0])
        ctx.count("same_source_twice")
    ctx.note(ms)
    dst = sut.new_xml_db() if rng.random() < 0.3 else None
    with must("merging"):
        dst = work.merge(dbs, dst)
    observe(ctx, ms, dbs, dst, "merge of %d" % len(dbs))
    ctx.seen(ms, work.nontrivial_merge(ms))
    if rng.random() < 0.3 and len(dbs) >= 1:
        # merge the merged database again with a source, through one merger object
        from ucis.merge.db_merger import DbMerger
        mg = DbMerger()
        k = rng.randrange(len(dbs))
        with must("merging a merged database"):
            d2 = work.merge([dst, dbs[k]], merger=mg)
        observe(ctx, [sut.snap(dst), ms[k]], None, d2, "merge with a merged database")
        with must("merging again with the same merger"):
            d3 = work.merge(dbs, merger=mg)
        observe(ctx, ms, None, d3, "merge by a reused merger")


def directed():
    return [("twins", twins), ("many", many), ("kinds", kinds)]


def cp_(name, bins, w=1):
    return {"name": name, "weight": w, "bins": bins}


def cg_(name, cps, crs=(), insts=(), w=1):
    return {"name": name, "weight": w, "cps": list(cps), "crs": list(crs), "insts": list(insts)}


def inst_(name, cgs, du="m"):
    return {"name": name, "du": du, "weight": 1, "cgs": list(cgs)}


def run(ctx, models):
    dbs = [sut.build(m) for m in models]
    ctx.note(models)
    with must("merging"):
        dst = work.merge(dbs)
    observe(ctx, models, dbs, dst, "directed merge")
    ctx.seen(models)


def twins(ctx):
    """Namesakes in different places must not be mixed up"""
    b = lambda n: [("bin", "x", 1, n), ("ignore", "x", 1, n * 10), ("illegal", "x", 1, n * 100)]
    def db(n):
        cg = lambda k: cg_("a", [cp_("a", b(n + k)), cp_("b", b(n + k + 1))],
                           [dict(cp_("a", b(n + k + 2)), cps=[0, 1])],
                           [cg_("a", [cp_("a", b(n + k + 3))]), cg_("b", [cp_("a", b(n + k + 4))])])
        return [inst_("a", [cg(0), dict(cg(20), name="b")]), inst_("b", [cg(40)])]
    run(ctx, [db(1), db(1000), db(100000)])


def many(ctx):
    """Many sources: every one contributes a power of its own"""
    ms = []
    for i in range(40):
        ms.append([inst_("t%d" % (i % 3), [cg_("g", [cp_("p", [("bin", "b%d" % j, 1, 2 ** i) for j in range(i % 5 + 1)])])])])
    run(ctx, ms)


def kinds(ctx):
    for k in KINDS:
        for what in ("cps", "crs"):
            m = []
            for n in (1, 2, 4):
                cg = cg_("g", [cp_("p", [(k, "b", 1, n)]), cp_("q", [("bin", "b", 1, 0)])],
                         [dict(cp_("p", [(k, "b", 1, n * 16)]), cps=[0, 1])] if what == "crs" else [])
                m.append([inst_("i", [cg])])
            run(ctx, m)


def known():
    def nested(ctx):
        from ucis import UCIS_OTHER, UCIS_INSTANCE, UCIS_INST_ONCE, UCIS_DU_MODULE
        from ucis.mem.mem_factory import MemFactory
        db = MemFactory.create()
        du = db.createScope("m", None, 1, UCIS_OTHER, UCIS_DU_MODULE, sut.DU_FLAGS)
        top = db.createInstance("top", None, 1, UCIS_OTHER, UCIS_INSTANCE, du, UCIS_INST_ONCE)
        sub = top.createInstance("sub", None, 1, UCIS_OTHER, UCIS_INSTANCE, du, UCIS_INST_ONCE)
        cp = sub.createCovergroup("cg", None, 1, UCIS_OTHER).createCoverpoint("cp", None, 1, UCIS_OTHER)
        cp.createBin("b", None, 1, 5, "b")
        dst = work.merge([db])
        top2 = next(dst.scopes(sut.ScopeTypeT.INSTANCE))
        return next(top2.scopes(sut.ScopeTypeT.INSTANCE), None) is None
    return [("covergroups of an instance inside another instance are dropped by a merge", nested)]
