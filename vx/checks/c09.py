"""C09: YAML coverage documents are read for what they say"""
import io

import json

import yaml

from vx import gen, oracle, rpt, sut, work, yamlgen
from vx.core import sut as must

PROP = "C09"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "insts"]
QUICK = 4000
REQUIRED = ["documents_read", "bins_compared", "reader_reused", "types_with_instances", "read_by_registry",
            "read_by_bytes", "encoding_utf-16-le", "encoding_utf-8-sig", "documents_with_additional_keys", "legacy_locale"]
RULE = ("Documents are generated from a model and spelled in many ways (block, flow, JSON, anchors, quoting, key order, "
        "comments, absent optional keys), read by the real reader through its entry points, and the observed database "
        "(structure, kinds, thresholds, weights, counts, crossed coverpoints, type coverage as the sum over instances) is compared "
        "with the content of the model. Non-trivial: at least one bin.")
ASSUMPTIONS = ["names of coverpoints and of crosses within an instance are distinct"]


def read(ctx, text, how):
    with work.legacy_locale(ctx), must("reading a valid document (%s)" % how):
        from ucis.yaml.yaml_reader import YamlReader
        if how == "loads":
            return YamlReader().loads(text)
        if how == "load":
            return YamlReader().load(io.StringIO(text))
        enc, raw = yamlgen.encoded(ctx.rng, text)
        ctx.note({"encoding": enc})
        ctx.count("encoding_" + enc)
        if how == "bytes":
            return YamlReader().load(io.BytesIO(raw))
        p = ctx.infile(".yml", ".yaml", ".json", "")
        with open(p, "wb") as fp:
            fp.write(raw)
        from ucis.rgy.format_rgy import FormatRgy
        return FormatRgy.inst().getDatabaseDesc("yaml").fmt_if().read(p)


def compare(ctx, doc, db, what):
    exp = yamlgen.content(doc)
    ctx.equal(oracle.norm(exp, nonbin_al=True), oracle.norm(sut.snap(db), nonbin_al=True), what)
    ctx.count("bins_compared", gen.stats(exp)[5])
    # counts and thresholds have to be usable as plain integers
    for inst in sut.snap(db):
        for cg in inst["cgs"]:
            for g in [cg] + cg["insts"]:
                for c in g["cps"] + g["crs"]:
                    for b in c["bins"]:
                        ctx.check(type(b[2]) is int and type(b[3]) is int and type(b[1]) is str,
                                  "%s: bin %r has values of type %s, %s", what, b[1], type(b[2]), type(b[3]))
    return exp


def case(ctx):
    rng = ctx.rng
    doc = yamlgen.gen_doc(rng)
    d = yamlgen.data(doc)
    if rng.random() < 0.2:
        d = yamlgen.extras(rng, d)
        ctx.count("documents_with_additional_keys")
    text = yamlgen.text(rng, d)
    if yaml.safe_load(text) != d:
        # JSON escapes of characters beyond the basic plane mean something else in YAML
        text = yaml.safe_dump(d)
        assert yaml.safe_load(text) == d
    ctx.note({"doc": doc, "text": text})
    how = rng.choice(["loads", "load", "registry", "registry", "bytes"])
    db = read(ctx, text, how)
    exp = compare(ctx, doc, db, "document (%s)" % how)
    ctx.count("documents_read")
    ctx.count("read_by_" + how)
    ctx.seen(exp, gen.stats(exp)[5] > 0)
    ctx.count("types_with_instances", sum(1 for i in exp for c in i["cgs"] if len(c["insts"]) > 1))
    if rng.random() < 0.3:
        with must("report of what was read"):
            r = rpt.observe(rpt.build(db))
        er = oracle.report(exp)
        ctx.equal(rpt.strip_cov(er), rpt.strip_cov(r), "report of what was read")
        for (q, e), (_, g) in zip(rpt.covs(er), rpt.covs(r)):
            ctx.check(rpt.close(g, e), "coverage of %s is %r, should be %s", q, g, float(e))
        ctx.count("reports_compared")
    if rng.random() < 0.3:
        from ucis.yaml.yaml_reader import YamlReader
        doc2 = yamlgen.gen_doc(rng)
        rd = YamlReader()
        with must("reading several documents with one reader"):
            a = rd.loads(text)
            b = rd.loads(yaml.safe_dump(yamlgen.data(doc2)))
            c = rd.loads(text)
        compare(ctx, doc, a, "first document of a reader")
        compare(ctx, doc2, b, "second document of a reader")
        compare(ctx, doc, c, "third document of a reader")
        ctx.check(a is not b and b is not c, "a reader returns the same database twice")
        ctx.count("reader_reused")



def d_extra(ctx):
    """Additional keys whose values JSON does not have"""
    from ucis.yaml.yaml_reader import YamlReader
    doc = yamlgen.gen_doc(ctx.rng)
    while not doc["cgs"] or doc["nocov"]:
        doc = yamlgen.gen_doc(ctx.rng)
    d = yamlgen.data(doc)
    text = json.dumps(d)
    assert text[-1] == "}"
    for v in (".nan", "-.inf", "&loop [*loop, {a: *loop}]", "!!set {a, b}", "!!omap [a: 1]", "!!pairs [a: 1, a: 2]", "!!binary aGk=", "2020-01-02",
              "{2020-01-02: 1, 3: 4, ~: 5, .nan: 6}", "{1.5: x}"):
        with must("reading a document with an additional value " + v):
            db = YamlReader().loads("%s, notes: %s}" % (text[:-1], v))
        compare(ctx, doc, db, "document with an additional value " + v)


def directed():
    return [("extra", d_extra)]
