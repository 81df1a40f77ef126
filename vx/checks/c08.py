"""C08: interchange documents of any origin are read for what they say"""
import gzip
import io

from vx import gen, hist, oracle, rpt, sut, work, xmlgen, xmlref
from vx.core import sut as must

PROP = "C08"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "db", "insts", "hist"]
QUICK = 8000
REQUIRED = ["documents_read", "bins_compared", "history_compared", "gzip", "namespaced", "encodings_other", "reader_reused",
            "types_with_instances", "legacy_locale", "internal_entities"]
RULE = ("Documents are generated from a document model by an independent serializer, as other tools write them: namespaces, "
        "encodings, compression, attribute order, comments, CDATA, character references, internal entities, spellings of numbers, ranges "
        "and sequences, absent options, other metrics, several types per section, repeated instances. Each one is first found "
        "valid by libxml2 against the pinned schema, then read by the real reader through different entry points; the "
        "observed database is compared with the content of the model. Non-trivial: at least one bin.")
ASSUMPTIONS = ["a bin has a single range or sequence", "names of coverpoints and of crosses within an instance are distinct"]


def read(ctx, data, st, how):
    p = ctx.infile(".xml", ".xml", ".xml.gz", ".gz", ".lz4", "")
    with open(p, "wb") as fp:
        fp.write(data)
    with work.legacy_locale(ctx), must("reading a valid document (%s)" % how):
        if how == "path":
            return work.xml_read(p)
        if how == "registry":
            from ucis.rgy.format_rgy import FormatRgy
            return FormatRgy.inst().getDatabaseDesc("xml").fmt_if().read(p)
        if how == "file":
            with open(p, "rb") as fp:
                return work.xml_read(fp)
        if how == "bytes":
            return work.xml_read(io.BytesIO(data))
        from ucis.xml.xml_reader import XmlReader
        return XmlReader().loads(data.decode(st.enc))


def compare(ctx, doc, db, what):
    n = lambda m: oracle.norm(m, nonbin_al=True, kind_order=True)
    exp = xmlgen.content(doc)
    ctx.equal(n(exp), n(sut.snap(db)), what)
    ctx.count("bins_compared", gen.stats(exp)[5])
    eh = xmlgen.hist_content(doc)
    gh = hist.observe(sut.snap_hist(db))
    ctx.equal(eh, gh, what + ": history")
    ctx.count("history_compared", len(eh))
    return exp


def case(ctx):
    rng = ctx.rng
    doc = xmlgen.gen_doc(rng)
    st = xmlgen.Style(rng)
    root = xmlgen.tree(rng, doc, st)
    data = xmlgen.serialize(root, st)
    ctx.note({"doc": doc, "style": {k: v for k, v in vars(st).items() if k != "rng"}})
    plain = gzip.decompress(data) if st.gz else data
    v = xmlref.validity(plain, strip=True)
    if v is not None:
        raise AssertionError("generator: " + v)
    hows = ["path", "path", "registry"]
    if not st.gz:
        hows += ["file", "bytes"]
        if st.enc == "utf-8" and not st.decl:
            hows += ["loads"] * 2
    how = rng.choice(hows)
    db = read(ctx, data, st, how)
    exp = compare(ctx, doc, db, "document (%s)" % how)
    ctx.seen(exp, gen.stats(exp)[5] > 0)
    ctx.count("documents_read")
    ctx.count("read_by_" + how)
    ctx.count("types_with_instances", sum(1 for i in exp for c in i["cgs"] if len(c["insts"]) > 1))
    if st.gz:
        ctx.count("gzip")
    if st.ns:
        ctx.count("namespaced")
    if st.ents:
        ctx.count("internal_entities", len(st.ents))
    if st.enc not in ("utf-8",):
        ctx.count("encodings_other")
    if rng.random() < 0.3:
        with must("report of what was read"):
            r = rpt.observe(rpt.build(db))
        er = oracle.report(exp)
        ctx.equal(rpt.strip_cov(er), rpt.strip_cov(r), "report of what was read")
        for (q, e), (_, g) in zip(rpt.covs(er), rpt.covs(r)):
            ctx.check(rpt.close(g, e), "coverage of %s is %r, should be %s", q, g, float(e))
        ctx.count("reports_compared")
    if rng.random() < 0.3:
        # the same content in another style is the same
        st2 = xmlgen.Style(rng)
        d2 = xmlgen.serialize(xmlgen.tree(rng, doc, st2), st2)
        db2 = read(ctx, d2, st2, "path")
        compare(ctx, doc, db2, "same document in another style")
        ctx.count("restyled")
    if rng.random() < 0.25:
        # one reader for several documents
        from ucis.xml.xml_reader import XmlReader
        doc3 = xmlgen.gen_doc(rng)
        st3 = xmlgen.Style(rng)
        st3.gz = False
        d3 = xmlgen.serialize(xmlgen.tree(rng, doc3, st3), st3)
        rd = XmlReader()
        with must("reading several documents with one reader"):
            a = rd.read(io.BytesIO(plain))
            b = rd.read(io.BytesIO(d3))
        compare(ctx, doc, a, "first document of a reader")
        compare(ctx, doc3, b, "second document of a reader")
        ctx.count("reader_reused")
