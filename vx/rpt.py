"""Observation of reports"""
import json
import re
from fractions import Fraction

from .core import Violation

TOL = Fraction(1, 10 ** 9)      # of computed percentages
SHOWN = Fraction(1, 10 ** 6)    # of shown ones


def build(db):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    return CoverageReportBuilder.build(db)


def close(a, b, tol=TOL):
    try:
        return abs(Fraction(a) - Fraction(b)) <= tol
    except (TypeError, ValueError, OverflowError):
        return False


def observe_bins(bins):
    return [(b.name, b.goal, b.count) for b in bins]


def observe_cg(cg):
    return {
        "name": cg.name, "weight": cg.weight, "cov": cg.coverage,
        "cps": [{"name": c.name, "weight": c.weight, "cov": c.coverage, "bins": observe_bins(c.bins),
                 "ignore": observe_bins(c.ignore_bins), "illegal": observe_bins(c.illegal_bins)}
                for c in cg.coverpoints],
        "crs": [{"name": c.name, "weight": c.weight, "cov": c.coverage, "bins": observe_bins(c.bins)}
                for c in cg.crosses],
        "insts": [observe_cg(i) for i in cg.covergroups]}


def observe(r):
    return {"cov": r.coverage, "cgs": [observe_cg(c) for c in r.covergroups]}


def covs(rep):
    """[(path, coverage, kind)] of all items of a report"""
    out = []

    def cg_(path, cg):
        for what in ("cps", "crs"):
            for i, c in enumerate(cg[what]):
                out.append((path + "/%s[%d]%r" % (what, i, c["name"]), c["cov"]))
        out.append((path, cg["cov"]))
        for i, x in enumerate(cg["insts"]):
            cg_(path + "/inst[%d]%r" % (i, x["name"]), x)
    for i, cg in enumerate(rep["cgs"]):
        cg_("cg[%d]%r" % (i, cg["name"]), cg)
    out.append(("overall", rep["cov"]))
    return out


def strip_cov(rep):
    def s(x):
        if isinstance(x, dict):
            return {k: s(v) for k, v in x.items() if k != "cov"}
        if isinstance(x, list):
            return [s(v) for v in x]
        return x
    return s(rep)


# --- text ---------------------------------------------------------------------------

NUM = re.compile(r"[-+]?[0-9]+(\.[0-9]+)?")


class Cursor(object):
    """Reads a text report; names may contain anything, even line breaks"""

    def __init__(self, text):
        self.t = text
        self.p = 0

    def where(self):
        return "at offset %d: %r" % (self.p, self.t[self.p:self.p + 120])

    def ind(self):
        n = 0
        while self.p < len(self.t) and self.t[self.p] in " \t":
            self.p += 1
            n += 1
        return n

    def lit(self, s, what):
        if not self.t.startswith(s, self.p):
            raise Violation("text report: expected %s %r %s" % (what, s, self.where()))
        self.p += len(s)

    def num(self, what):
        m = NUM.match(self.t, self.p)
        if not m:
            raise Violation("text report: expected %s %s" % (what, self.where()))
        self.p = m.end()
        return m.group(0)

    def peek_lit(self, s):
        q = self.p
        while q < len(self.t) and self.t[q] in " \t":
            q += 1
        return self.t.startswith(s, q)

    def end(self):
        if self.t[self.p:].strip():
            raise Violation("text report: unexpected text " + self.where())


def check_text(ctx, text, rep, details, places=2, by_hit=False, exact=False):
    """text has to show every item of rep, in order, with its percentage rounded to so many places
    (exact: written with that many digits)"""
    c = Cursor(text)
    tol = Fraction(1, 2 * 10 ** places) + Fraction(1, 10 ** 9)

    def head(label, name, cov):
        ind = c.ind()
        # a name that starts with blanks does not matter here: the label comes first
        c.lit("%s %s : " % (label, name), "line")
        s = c.num("a percentage")
        if not close(Fraction(s), cov, tol):
            raise Violation("text report: %s %r shows %s%%, coverage is %s" % (label, name, s, float(cov)))
        if (Fraction(s) * 10 ** places).denominator != 1 or (exact and len(s.partition(".")[2]) != places):
            raise Violation("text report: %s %r shows %s%%, asked for were %d decimals" % (label, name, s, places))
        c.lit("%", "percent sign")
        c.lit("\n", "end of line")
        ctx.count("text_lines")
        return ind

    def bins(title, bs, opt):
        if opt and not bs:
            return
        c.ind()
        c.lit(title + "\n", "section")
        if by_hit:
            bs = [b for b in bs if b[2] >= b[1]] + [b for b in bs if b[2] < b[1]]
        for n, goal, cnt in bs:
            # blanks at the start of a name look like indentation
            c.ind()
            c.lit("%s : " % n.lstrip(" \t"), "bin") if n.lstrip(" \t") else c.lit(": ", "bin")
            s = c.num("a count")
            if s != str(cnt):
                raise Violation("text report: bin %r shows %s, count is %d" % (n, s, cnt))
            c.lit("\n", "end of line")
            ctx.count("text_bins")

    def level(levels, what, ind, name):
        """Things of one kind in one place are indented alike"""
        if levels.setdefault(what, ind) != ind:
            raise Violation("text report: %s %r is not on the level of the others beside it" % (what, name))

    def cg_(cg, label, parent, beside):
        ind = head(label, cg["name"], cg["cov"])
        level(beside, label, ind, cg["name"])
        below = {}
        if parent is not None and ind <= parent:
            raise Violation("text report: %s %r is not nested below its covergroup" % (label, cg["name"]))
        for cp in cg["cps"]:
            i = head("CVP", cp["name"], cp["cov"])
            if i <= ind:
                raise Violation("text report: CVP %r is not nested below its covergroup" % cp["name"])
            level(below, "CVP", i, cp["name"])
            if details:
                bins("Bins:", cp["bins"], False)
                bins("IgnoreBins:", cp["ignore"], True)
                bins("IllegalBins:", cp["illegal"], True)
        for cr in cg["crs"]:
            i = head("CROSS", cr["name"], cr["cov"])
            if i <= ind:
                raise Violation("text report: CROSS %r is not nested below its covergroup" % cr["name"])
            level(below, "CROSS", i, cr["name"])
            if details:
                bins("Bins:", cr["bins"], False)
        for i in cg["insts"]:
            cg_(i, "INST", ind, below)
    top = {}
    for cg in rep["cgs"]:
        cg_(cg, "TYPE", None, top)
    c.end()


# --- JSON -----------------------------------------------------------------------------

def check_json(ctx, text, rep):
    def pairs(ps):
        d = {}
        for k, v in ps:
            if k in d:
                raise Violation("JSON report: key %r occurs twice" % k)
            d[k] = v
        return d
    try:
        j = json.loads(text, object_pairs_hook=pairs)
    except ValueError as e:
        raise Violation("JSON report does not parse: %s" % e)

    def name_cov(what, e, g):
        if g.get("name") != e["name"]:
            raise Violation("JSON report: %s is named %r, should be %r" % (what, g.get("name"), e["name"]))
        if type(g.get("coverage")) not in (int, float) or not close(g["coverage"], e["cov"], SHOWN):
            raise Violation("JSON report: coverage of %s %r is %r, should be %s" % (
                what, e["name"], g.get("coverage"), float(e["cov"])))
        ctx.count("json_items")

    def lst(g, key, n, where):
        v = g.get(key, [])
        if type(v) is not list:
            raise Violation("JSON report: %s of %s is no list but %r" % (key, where, v))
        if len(v) != n:
            raise Violation("JSON report: %s has %d %s, should have %d" % (where, len(v), key, n))
        return v

    def bins(g, key, bs, where):
        v = lst(g, key, len(bs), where)
        for x, (n, goal, cnt) in zip(v, bs):
            ctx.count("json_bins")
            if (x.get("name"), x.get("goal"), x.get("count")) != (n, goal, cnt) or not type(x["goal"]) is type(x["count"]) is int:
                raise Violation("JSON report: %s of %s shows %r, should be name=%r goal=%r count=%r" % (
                    key, where, x, n, goal, cnt))

    def cg_(e, g, what):
        name_cov(what, e, g)
        for x, y in zip(e["cps"], lst(g, "coverpoints", len(e["cps"]), "covergroup %r" % e["name"])):
            name_cov("coverpoint", x, y)
            w = "coverpoint %r" % x["name"]
            bins(y, "bins", x["bins"], w)
            bins(y, "ignorebins", x["ignore"], w)
            bins(y, "illegalbins", x["illegal"], w)
        for x, y in zip(e["crs"], lst(g, "crosses", len(e["crs"]), "covergroup %r" % e["name"])):
            name_cov("cross", x, y)
            bins(y, "bins", x["bins"], "cross %r" % x["name"])
        for x, y in zip(e["insts"], lst(g, "covergroups", len(e["insts"]), "covergroup %r" % e["name"])):
            cg_(x, y, "covergroup instance")
    for x, y in zip(rep["cgs"], lst(j, "covergroups", len(rep["cgs"]), "the report")):
        cg_(x, y, "covergroup")
    if type(j.get("coverage")) not in (int, float) or not close(j["coverage"], rep["cov"], SHOWN):
        raise Violation("JSON report: overall coverage is %r, should be %s" % (j.get("coverage"), float(rep["cov"])))
    return j
