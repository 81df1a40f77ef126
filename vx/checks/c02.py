"""C02: merging is order-insensitive, composable, faithful to structure and leaves its sources alone"""
from vx import gen, oracle, sut, work
from vx.core import sut as must

PROP = "C02"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "db", "insts"]
QUICK = 4500
REQUIRED = ["full_structure_compared", "permutations", "groupings", "single_source_copies", "sources_unchanged",
            "aliasing_probes", "locations_compared", "same_source_twice"]
RULE = ("Runs of a design are merged by the real merger in several orders and groupings (flat, nested, one by one, "
        "alone) and the observed databases compared with each other and with the reference: structure, order of first "
        "appearance, thresholds, weights, crossed coverpoints, counts, coverage. Sources are deep-snapshotted before and "
        "after; later writes to the destination and the sources must not show up on the other side. Non-trivial: at "
        "least two sources share a bin.")
ASSUMPTIONS = ["the destination is a fresh database", "order-insensitivity is judged for sources that agree on "
               "thresholds and weights; where they disagree the first occurrence wins"]


def unordered(db):
    """Structure with all orders removed"""
    def cg_(cg):
        cps = cg["cps"]
        return (cg["name"], cg["weight"],
                sorted((c["name"], c["weight"], sorted((k, n, al, v) for k, n, al, v in c["bins"]))
                       for c in cps),
                sorted((c["name"], c["weight"], [cps[i]["name"] if isinstance(i, int) else i for i in c["cps"]],
                        sorted((k, n, al, v) for k, n, al, v in c["bins"])) for c in cg["crs"]),
                sorted(cg_(i) for i in cg["insts"]))
    return sorted((i["name"], sorted(cg_(c) for c in i["cgs"])) for i in db)


def full(ctx, models, dst, what):
    exp = oracle.norm(oracle.merge(models), nonbin_al=True)
    got = oracle.norm(sut.snap(dst), nonbin_al=True)
    ctx.equal(exp, got, what)
    ctx.count("full_structure_compared")
    return got


def case(ctx):
    rng = ctx.rng
    consistent = rng.random() < 0.7
    o, models = work.gen_sources(ctx, maxn=4, consistent=consistent)
    dbs, ms = [], []
    for m in models:
        db, mm = work.materialize(ctx, m, rng)
        dbs.append(db)
        ms.append(mm)
        gen.count_db(ctx, mm)
    if dbs and rng.random() < 0.1:
        # the same database given twice, next to itself or not
        k = rng.randrange(len(dbs))
        at = rng.choice([k + 1, len(dbs), 0])
        dbs.insert(at, dbs[k])
        ms.insert(at, ms[k])
        ctx.count("same_source_twice")
    ctx.note(ms)
    before = [sut.deep(d) for d in dbs]
    with must("merging"):
        dst = work.merge(dbs, sut.new_xml_db() if rng.random() < 0.2 else None)
    full(ctx, ms, dst, "merge of %d sources" % len(dbs))
    ctx.equal(meta(dbs), meta([dst]), "weights and source locations after merging %d sources" % len(dbs))
    ctx.count("locations_compared")
    ctx.seen(ms, work.nontrivial_merge(ms))

    # Crosses of the merged database must not reach into a source
    got = sut.snap(dst)
    src_agree = agree(ms)
    if src_agree and len(dbs) > 1:
        perm = list(range(len(dbs)))
        for _ in range(2):
            rng.shuffle(perm)
            with must("merging in another order"):
                d2 = work.merge([dbs[i] for i in perm])
            ctx.equal(unordered(got), unordered(sut.snap(d2)), "merge in order %r" % perm)
            ctx.count("permutations")
    if len(dbs) > 1:
        # merging merges is merging everything
        k = rng.randint(1, len(dbs) - 1)
        with must("merging in groups"):
            left, right = work.merge(dbs[:k]), work.merge(dbs[k:])
            d3 = work.merge([left, right])
        ctx.equal(oracle.norm(got, nonbin_al=True), oracle.norm(sut.snap(d3), nonbin_al=True), "merge of (first %d) and (the rest)" % k)
        ctx.count("groupings")
        with must("merging one by one"):
            acc = dbs[0]
            for d in dbs[1:]:
                acc = work.merge([acc, d])
        ctx.equal(oracle.norm(got, nonbin_al=True), oracle.norm(sut.snap(acc), nonbin_al=True), "merge one by one")
        # the empty database is neutral
        with must("merging with an empty database"):
            d4 = work.merge([sut.MemFactory.create()] + dbs + [sut.MemFactory.create()])
        ctx.equal(oracle.norm(got, nonbin_al=True), oracle.norm(sut.snap(d4), nonbin_al=True), "merge with empty databases")
    if dbs:
        # merging a single source copies it
        k = rng.randrange(len(dbs))
        with must("merging a single source"):
            d5 = work.merge([dbs[k]])
        full(ctx, [ms[k]], d5, "merge of a single source")
        if unique(ms[k]):
            e = oracle.norm(ms[k], nonbin_al=True)
            ctx.equal(e, oracle.norm(sut.snap(d5), nonbin_al=True), "copy made by merging a single source")
            ctx.count("single_source_copies")
        report_equal(ctx, dbs[k], d5) if unique(ms[k]) else None
    after = [sut.deep(d) for d in dbs]
    ctx.check(before == after, "a source was changed by merging: %s", first_change(before, after))
    ctx.count("sources_unchanged", len(dbs))
    # No sharing: changes on one side are invisible on the other
    if dbs:
        snap_dst = sut.deep(dst)
        disturb(dbs[rng.randrange(len(dbs))], rng)
        ctx.equal(snap_dst, sut.deep(dst), "the merged database after changes to a source")
        mid = [sut.deep(d) for d in dbs]
        disturb(dst, rng)
        ctx.equal(mid, [sut.deep(d) for d in dbs], "the sources after changes to the merged database")
        ctx.count("aliasing_probes")


def report_equal(ctx, a, b):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    ra, rb = CoverageReportBuilder.build(a), CoverageReportBuilder.build(b)
    f = lambda r: (round(r.coverage, 6), [(g.name, round(g.coverage, 6)) for g in r.covergroups])
    ctx.equal(f(ra), f(rb), "coverage of the copy")


def disturb(db, rng):
    """Changes whatever can be changed in a database"""
    st = list(db.scopes(sut.ScopeTypeT.ALL))
    sis = []
    while st:
        s = st.pop()
        kids = list(s.scopes(sut.ScopeTypeT.ALL))
        st += kids
        if rng.random() < 0.3:
            s.setWeight(s.getWeight() + 1)
            s.setGoal(17)
        t = s.getScopeType()
        sis.append(s.getSourceInfo())
        for ci in s.coverItems(sut.ALLBINS):
            if rng.random() < 0.7:
                ci.incrementCover(7)
            else:
                d = ci.getCoverData()
                d.data, d.at_least, d.goal = d.data + 1, d.at_least + 1, 5
            sis.append(ci.getSourceInfo())
        if t in (sut.ScopeTypeT.COVERPOINT, sut.ScopeTypeT.CROSS):
            s.createBin("added later", None, 1, 1, "")
        if t in (sut.ScopeTypeT.COVERGROUP, sut.ScopeTypeT.COVERINSTANCE) and rng.random() < 0.5:
            c = s.createCoverpoint("added later", None, 1, sut.UCIS_OTHER)
            s.createCross("added later", None, 1, sut.UCIS_OTHER, [c, c])
            s.createCoverInstance("added later", None, 1, sut.UCIS_OTHER)
            s.setComment("changed")
            s.setAtLeast(99)
        if t == sut.ScopeTypeT.INSTANCE:
            s.createCovergroup("added later", None, 1, sut.UCIS_OTHER)
    for si in {id(x): x for x in sis if x is not None}.values():
        si.line, si.token = si.line + 1000, si.token + 3
    h = db.createHistoryNode(None, "added later", None, None)
    h.setTestStatus(sut.ucis.UCIS_TESTSTATUS_FATAL)
    db.createFileHandle("added later", None)


def meta(dbs):
    """Weights of instances and design units, and source locations, of the first occurrence of each scope"""
    out = {}

    def loc(s):
        si = s.getSourceInfo()
        return None if si is None else (si.file.getFileName() if si.file is not None else None, si.line, si.token)

    def walk(path, s, types):
        for t in types:
            for c in s.scopes(t):
                p = path + (int(t), c.getScopeName())
                out.setdefault(p, loc(c))
                if t == sut.ScopeTypeT.COVERGROUP:
                    walk(p, c, CG)
                elif t == sut.ScopeTypeT.COVERINSTANCE:
                    walk(p, c, CG[:2])
    CG = [sut.ScopeTypeT.COVERPOINT, sut.ScopeTypeT.CROSS, sut.ScopeTypeT.COVERINSTANCE]
    for db in dbs:
        for i in db.scopes(sut.ScopeTypeT.INSTANCE):
            du = i.getInstanceDu()
            out.setdefault((i.getScopeName(),), (loc(i), i.getWeight(), du and (du.getScopeName(), du.getWeight(), loc(du))))
            walk((i.getScopeName(),), i, [sut.ScopeTypeT.COVERGROUP])
    return out


def agree(ms):
    """The sources agree on thresholds, weights and crossed coverpoints"""
    seen = {}

    def put(k, v):
        return seen.setdefault(k, v) == v

    def cg_(path, cg):
        if not put(path, cg["weight"]):
            return False
        for what in ("cps", "crs"):
            for c in cg[what]:
                p = path + (what, c["name"])
                if not put(p, c["weight"]):
                    return False
                if what == "crs" and not put(p + ("x",), [cg["cps"][i]["name"] for i in c["cps"]]):
                    return False
                for k, n, al, _ in c["bins"]:
                    if not put(p + (k, n), al):
                        return False
        return all(cg_(path + ("inst", i["name"]), i) for i in cg["insts"])
    return all(cg_((i["name"], c["name"]), c) for m in ms for i in m for c in i["cgs"])


def unique(m):
    dups = []
    oracle.flat(m, dups)
    s = oracle.scopes(m)
    return not dups and len(set(s)) == len(s)


def first_change(a, b):
    from vx.core import diff
    return " | ".join(diff(a, b)[:3])
