"""C13: the object model shows exactly what was put in"""
from vx import gen, mem, sut
from vx.core import sut as must

PROP = "C13"
LEVEL = "exploration"
QUICK = 10000
REQUIRED = ["scopes_observed", "items_observed", "options_observed", "history_observed", "crosses_observed",
            "statements_observed", "rejections_observed", "interleaved_databases", "op_incr", "op_ci", "op_du", "op_toggle",
            "op_testdata", "mutation_during_iteration", "op_bad", "groups_outside_instances", "icov_observed"]
RULE = ("Random programs of creation, update and rejected calls on one to three databases at a time; a shadow of each "
        "database predicts, after every few calls and at the end, every name, type, weight, goal, option, comment, "
        "source location, design unit, crossed coverpoint, cover item, statement index and history node, under several "
        "masks and with iterators running concurrently. Non-trivial: ten or more calls.")
ASSUMPTIONS = ["options that were never set keep the value they had when the scope was created (which value is not specified)"]


def case(ctx):
    rng = ctx.rng
    k = rng.choice([1, 1, 2, 3])
    mk = [mem.MemFactory.create, sut.new_xml_db]
    ms = []
    for _ in range(k):
        m = mk[rng.random() < 0.25]
        with must("creating a database"):
            d = mem.Methods(m)
        ms.append(mem.Machine(ctx, [d], props=rng.choice([0, 0.5, 1])))
        ms[-1].odd_dates = ms[-1].anywhere = True
    if k > 1:
        ctx.count("interleaved_databases")
    n = rng.choice([5, 20, 40, 80, 150])
    every = rng.choice([7, 30, 1000])
    for s in range(n):
        m = rng.choice(ms)
        m.step()
        if s % every == every - 1:
            rng.choice(ms).verify()
    for m in ms:
        m.verify()
    if rng.random() < 0.5:
        live(ctx, rng.choice(ms))
        for m in ms:
            m.verify()
    ctx.seen(ctx.trace, n >= 10)


def live(ctx, m):
    """What exists when an iteration starts is all visited, exactly once and in order, whatever is created meanwhile"""
    rng = m.rng

    def one(old, it, ok, what):
        got = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            m.step()
        for s in it:
            got.append(s)
            if len(got) > 6 * len(old) + 60:
                ctx.fail("an iteration does not end")
            if len(got) <= len(old):
                for _ in range(rng.choice([0, 1, 1, 2])):
                    m.step()
        ctx.count("mutation_during_iteration")
        m.same(old, got[:len(old)], what + " visited while others are created")
        ctx.check(all(ok(x) for x in got), "%s: others are visited as well, when created meanwhile", what)
        ctx.check(len(set(map(id, got))) == len(got), "%s: visited more than once, when others are created meanwhile", what)

    cands = [x for x in m.nodes if x.kids]
    if cands:
        n = rng.choice(cands)
        mask = mem.ST.ALL if rng.random() < 0.5 else rng.choice(n.kids).stype
        one([k.h[0] for k in n.kids if int(k.stype) & int(mask)], n.h[0].scopes(mask),
            lambda x: int(x.getScopeType()) & int(mask), "scopes")
    kind = rng.choice([mem.HistoryNodeKind.ALL, mem.HistoryNodeKind.TEST, mem.HistoryNodeKind.MERGE])
    every = kind == mem.HistoryNodeKind.ALL
    one([k.h[0] for k in m.hists if every or k.kind == kind], iter(m.d[0].db.historyNodes(kind)),
        lambda x: every or x.getKind() == kind, "history nodes")
    cands = [x for x in m.nodes if x.items]
    if cands:
        n = rng.choice(cands)
        mask = mem.CALL if rng.random() < 0.5 else mem.CoverTypeT(int(rng.choice(n.items).f["type"]))
        one([k.h[0] for k in n.items if int(k.f["type"]) & int(mask)], n.h[0].coverItems(mask),
            lambda x: int(x.getCoverData().type) & int(mask), "cover items")


def d_defaults(ctx):
    """Defaults that the language standard gives to coverpoints and crosses"""
    db = mem.MemFactory.create()
    inst = db.createInstance("i", None, 1, mem.SourceT.SV, mem.ST.INSTANCE, None, 0)
    cg = inst.createCovergroup("g", None, 1, mem.SourceT.SV)
    cp = cg.createCoverpoint("p", None, 1, mem.SourceT.SV)
    cr = cg.createCross("c", None, 1, mem.SourceT.SV, [cp])
    for x in (cp, cr):
        ctx.equal([1, 64, False, False, ""], [x.getAtLeast(), x.getAutoBinMax(), bool(x.getDetectOverlap()),
                                              bool(x.getStrobe()), x.getComment()], "defaults of " + x.getScopeName())
    b = cp.createBin("b", None, 3, 4, "b")
    ctx.equal([1, 3, 4], [int(b.getCoverData().type), b.getCoverData().at_least, b.getCoverData().data], "a bin")


def d_database(ctx):
    db = mem.MemFactory.create()
    ctx.equal("1.0", db.getAPIVersion(), "API version")
    db.setWrittenBy("me")
    db.setWrittenTime(17)
    ctx.equal(["me", 17], [db.getWrittenBy(), db.getWrittenTime()], "written by / time")
    a, b = db.createFileHandle("a.sv", "/x"), db.createFileHandle("b.sv", "/x")
    ctx.equal(["a.sv", "b.sv", "a.sv"], [a.getFileName(), b.getFileName(), db.createFileHandle("a.sv", None).getFileName()],
              "file handles")


def directed():
    return [("defaults", d_defaults), ("database", d_database)] + [("many_" + k, many(k, *p)) for k, p in (
        ("du", ["db"]), ("inst", ["db", "inst"]), ("cg", ["inst"]), ("ci", ["cg"]), ("cp", ["cg", "ci"]), ("cr", ["cg", "ci"]),
        ("bin", ["cp", "cr"]), ("cover", ["cp", "cr", "du"]), ("hist", []), ("stmt", []), ("toggle", []))]


def many(kind, *parents):
    """More than a thousand objects of a kind, below one parent"""
    def f(ctx):
        m = mem.Machine(ctx, [mem.Methods(mem.MemFactory.create)])
        for k in ("du", "inst", "cg", "ci"):
            getattr(m, "do_" + k)()
        for g in [n for n in m.nodes if n.kind in ("cg", "ci")]:
            m.only = g
            for k in ("cp", "cp", "cr", "cr"):
                getattr(m, "do_" + k)()
        m.only = None
        m.only = m.pick(*parents) if parents else None
        for i in range(1050):
            getattr(m, "do_" + kind)()
            if i in (255, 256, 999, 1000):
                m.verify()
        m.only = None
        for _ in range(20):
            m.step()
        m.verify()
        ctx.count("many_siblings")
    return f
