"""C03: coverage percentages"""
from fractions import Fraction

from vx import gen, oracle, rpt, sut, work
from vx.core import sut as must

PROP = "C03"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "db", "insts"]
QUICK = 30000
REQUIRED = ["percentages_compared", "fractional_percentages", "threshold_boundary_bins", "zero_weight_items"]
RULE = ("Generated databases (multiple instances, types, coverinstances, crosses; zero and large weights; counts around "
        "the threshold; empty scopes) are built through the API or obtained by merging / reading XML, reported by the real "
        "report builder, and every percentage in the report compared with an exact rational computation from the "
        "definition; counts are then incremented and the report rebuilt (bounds, monotonicity). Non-trivial: some "
        "percentage strictly between 0 and 100.")
ASSUMPTIONS = ["weights are not negative", "percentages are compared within 1e-9"]


def compare(ctx, model, db, what):
    with must("building the report"):
        r = rpt.build(db)
    exp = rpt.covs(oracle.report(model))
    got = rpt.covs(rpt.observe(r))
    ctx.equal([p for p, _ in exp], [p for p, _ in got], what + ": items of the report")
    frac = False
    for (p, e), (_, g) in zip(exp, got):
        ctx.count("percentages_compared")
        ctx.check(isinstance(g, (int, float)) and not isinstance(g, bool), "%s: coverage of %s is %r", what, p, g)
        ctx.check(rpt.close(g, e), "%s: coverage of %s is %r, by definition %s", what, p, g, float(e))
        ctx.check(-1e-9 <= g <= 100 + 1e-9, "%s: coverage of %s is out of range: %r", what, p, g)
        if 0 < e < 100:
            frac = True
            ctx.count("fractional_percentages")
    return frac, got


def watch(ctx, model):
    for inst in model:
        for cg in inst["cgs"]:
            for g in [cg] + cg["insts"]:
                for c in g["cps"] + g["crs"]:
                    if c["weight"] == 0:
                        ctx.count("zero_weight_items")
                    for k, n, al, v in c["bins"]:
                        if k == "bin" and abs(v - al) <= 1:
                            ctx.count("threshold_boundary_bins")


def case(ctx):
    rng = ctx.rng
    o = gen.Opts(unique=rng.random() < 0.8, scale=4 if rng.random() < 0.05 else 1)
    model = gen.gen_db(rng, o)
    db, model = work.materialize(ctx, model, rng)
    if rng.random() < 0.15:
        with must("merging"):
            db = work.merge([db])
        model = sut.snap(db)
    ctx.note(model)
    gen.count_db(ctx, model)
    watch(ctx, model)
    frac, before = compare(ctx, model, db, "generated database")
    ctx.seen(model, frac)
    # hitting more bins never lowers a percentage
    if rng.random() < 0.4:
        for inst in db.scopes(sut.ScopeTypeT.INSTANCE):
            st = list(inst.scopes(sut.ScopeTypeT.COVERGROUP))
            while st:
                g = st.pop()
                st += list(g.scopes(sut.ScopeTypeT.COVERINSTANCE))
                for c in g.scopes(sut.ScopeTypeT.COVERPOINT | sut.ScopeTypeT.CROSS):
                    for ci in c.coverItems(sut.ALLBINS):
                        if rng.random() < 0.4:
                            ci.incrementCover(rng.choice([1, 1, 3, 1000]))
        model = sut.snap(db)
        _, after = compare(ctx, model, db, "after counting")
        for (p, b), (_, a) in zip(before, after):
            ctx.check(a >= b - 1e-9, "coverage of %s fell from %r to %r although counts only grew", p, b, a)
            ctx.count("monotonicity_checks")


def directed():
    return [("weights", weights), ("threshold", threshold), ("fullness", fullness), ("several", several)]


def cg1(bins, w=1, name="g", crs=(), insts=()):
    return {"name": name, "weight": w, "cps": [{"name": "p%d" % i, "weight": pw, "bins": b} for i, (pw, b) in enumerate(bins)],
            "crs": list(crs), "insts": list(insts)}


def one(ctx, model, what):
    ctx.note(model)
    db = sut.build(model)
    compare(ctx, model, db, what)
    ctx.seen(model)


def threshold(ctx):
    """Exhaustive over small thresholds and counts"""
    for al in range(0, 6):
        for cnt in range(0, 8):
            for k in gen.KINDS:
                for cross in (False, True):
                    b = [(k, "x", al, cnt), ("bin", "y", al, 0)]
                    crs = [{"name": "c", "weight": 3, "cps": [0, 0], "bins": b}] if cross else []
                    one(ctx, [{"name": "i", "du": "d", "weight": 1, "cgs": [cg1([(2, [("bin", "z", 1, 1)] if cross else b)], crs=crs)]}],
                        "al=%d count=%d %s" % (al, cnt, k))


def weights(ctx):
    h, m = [("bin", "x", 1, 1)], [("bin", "x", 1, 0)]
    for a in (0, 1, 2, 7):
        for b in (0, 1, 3):
            for x in (0, 1, 5):
                for hits in range(8):
                    pick = lambda i: h if hits >> i & 1 else m
                    cr = {"name": "c", "weight": x, "cps": [0, 1], "bins": pick(2)}
                    one(ctx, [{"name": "i", "du": "d", "weight": 1, "cgs": [cg1([(a, pick(0)), (b, pick(1))], crs=[cr])]}],
                        "weights %d %d cross %d" % (a, b, x))


def several(ctx):
    """Overall coverage spans the covergroups of all instances"""
    h, m = [("bin", "x", 1, 1)], [("bin", "x", 1, 0)]
    for w1 in (0, 1, 4):
        for w2 in (0, 1, 3):
            for hits in range(4):
                pick = lambda i: h if hits >> i & 1 else m
                db = [{"name": "i%d" % i, "du": "d", "weight": 1 + i, "cgs": [cg1([(1, pick(i))], w=w, name="g%d" % i)]}
                      for i, w in enumerate((w1, w2))]
                one(ctx, db, "two instances")
                db = [{"name": "i", "du": "d", "weight": 1, "cgs": [cg1([(1, pick(i))], w=w, name="g%d" % i)
                                                                    for i, w in enumerate((w1, w2))]}]
                one(ctx, db, "two types")
                db = [{"name": "e", "du": "d", "weight": 1, "cgs": []}] + db + [{"name": "f", "du": "d", "weight": 5, "cgs": []}]
                one(ctx, db, "with empty instances")


def fullness(ctx):
    """n hit bins of m, exhaustively"""
    for m in range(0, 12):
        for n in range(0, m + 1):
            bins = [("bin", "b%d" % i, 3, 3 if i < n else 2) for i in range(m)]
            bins += [("ignore", "b0", 3, 9), ("illegal", "b1", 3, 0)]
            insts = [cg1([(1, bins)], name="i")]
            one(ctx, [{"name": "i", "du": "d", "weight": 1, "cgs": [cg1([(1, bins), (2, bins[::-1])], insts=insts)]}],
                "%d of %d" % (n, m))
