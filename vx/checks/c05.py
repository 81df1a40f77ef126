"""C05: text and JSON reports say what the database says"""
import io
import json
import os
from fractions import Fraction

from vx import gen, oracle, rpt, sut, work
from vx.core import SRC, VERIF, sut as must

PROP = "C05"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "db", "insts"]
QUICK = 12000
REQUIRED = ["text_lines", "text_bins", "json_items", "json_bins", "by_hit_reports", "json_schema_valid", "peculiar_percentages"]
RULE = ("Generated databases are rendered by the real formatters (both text formatters with and without details and "
        "ordering by hit, several precisions; JSON), and the output is parsed by an independent reader that knows the "
        "expected items, and compared item by item, digit by digit; JSON is validated against the published schema. Non-trivial: at least one bin. "
        "Formatter objects are also reused.")
ASSUMPTIONS = ["text: indentation is only required to grow with nesting"]


def fmt(name):
    from ucis.rgy.format_rgy import FormatRgy
    return FormatRgy.inst().getReportDesc(name).fmt_if()


def peculiar(rng, r):
    def some():
        return rng.choice([0.0, 100.0, 99.9961, 99.996, 99.994, 99.951, 99.4, 99.6, 0.0049, 0.0051, 0.4, 0.6, 1e-7, 100 - 1e-7,
                           round(rng.uniform(0, 100), 3) + 0.0002, 49.9951, 9.9951, 100 * (1 - 1.0 / rng.randint(2, 10 ** 6))])

    def cg_(cg):
        for c in cg.coverpoints + cg.crosses:
            c.coverage = some()
        cg.coverage = some()
        for i in cg.covergroups:
            cg_(i)
    for cg in r.covergroups:
        cg_(cg)


_val = []


def validators():
    """Of the schema as published, and as pinned"""
    if not _val:
        import jsonschema
        for which, p in (("published", os.path.join(SRC, "ucis", "schema", "covreport.json")),
                         ("pinned", os.path.join(VERIF, "ref", "covreport.json"))):
            with open(p) as fp:
                _val.append((which, jsonschema.Draft4Validator(json.load(fp))))
    return _val


def shown(r):
    def frac(x):
        if isinstance(x, dict):
            return {k: Fraction(v) if k == "cov" else frac(v) for k, v in x.items()}
        if isinstance(x, list):
            return [frac(v) for v in x]
        return x
    return frac(rpt.observe(r))


def case(ctx):
    rng = ctx.rng
    o = gen.Opts(unique=rng.random() < 0.7)
    model = gen.gen_db(rng, o)
    db, model = work.materialize(ctx, model, rng)
    ctx.note(model)
    s = gen.count_db(ctx, model)
    ctx.seen(model, s[5] > 0)
    exp = oracle.report(model)

    # text, by registry
    details, by_hit = rng.random() < 0.7, rng.random() < 0.4
    with must("text report"):
        f = fmt("txt")
        f.details = details
        f.order_bins_by_hit = by_hit
        out = io.StringIO()
        f.report(db, out, [])
    rpt.check_text(ctx, out.getvalue(), exp, details, 2, by_hit)
    if by_hit and details:
        ctx.count("by_hit_reports")
    if rng.random() < 0.2:
        with must("text report by a reused formatter"):
            out2 = io.StringIO()
            f.report(db, out2, [])
        ctx.check(out.getvalue() == out2.getvalue(), "a reused text formatter renders something else")
    # default settings
    with must("text report"):
        out = io.StringIO()
        fmt("txt").report(db, out, [])
    rpt.check_text(ctx, out.getvalue(), exp, False, 2)

    # text, from a report object
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    with must("text report of a report object"):
        out = io.StringIO()
        t = TextCoverageReportFormatter(rpt.build(db), out)
        t.details, t.order_bins_by_hit = details, by_hit
        places = rng.choice([0, 1, 2, 3, 4, 6])
        t.round = places
        t.report()
    rpt.check_text(ctx, out.getvalue(), exp, details, places, by_hit, exact=True)
    with must("text report of a report object"):
        out = io.StringIO()
        TextCoverageReportFormatter(rpt.build(db), out).report()
    rpt.check_text(ctx, out.getvalue(), exp, False, 2)

    if rng.random() < 0.3:
        # percentages that databases of this size do not have
        with must("text report of a report object"):
            r = rpt.build(db)
            peculiar(rng, r)
            out = io.StringIO()
            t = TextCoverageReportFormatter(r, out)
            t.details, t.order_bins_by_hit = details, by_hit
            places = t.round = rng.choice([0, 1, 2, 2, 3, 4])
            t.report()
        rpt.check_text(ctx, out.getvalue(), shown(r), details, places, by_hit, exact=True)
        ctx.count("peculiar_percentages")

    # JSON
    with must("JSON report"):
        out = io.StringIO()
        f = fmt("json")
        f.report(db, out, [])
    rpt.check_json(ctx, out.getvalue(), exp)
    if s[5] < 60 and rng.random() < 0.5:
        # what the published schema says about these documents holds
        j = json.loads(out.getvalue())
        for which, v in validators():
            e = next(v.iter_errors(j), None)
            ctx.check(e is None, "JSON report: not as the schema (%s) has it: %s", which, e and (list(e.path), e.message))
        ctx.count("json_schema_valid")
    if rng.random() < 0.1:
        with must("JSON report by a reused formatter"):
            out2 = io.StringIO()
            f.report(db, out2, [])
        ctx.equal(json.loads(out.getvalue()), json.loads(out2.getvalue()), "a reused JSON formatter")
