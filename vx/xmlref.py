"""Independent view of XML documents: the pinned copy of the standard's schema, and a
reader based on expat that shares nothing with the code under test"""
import os
import xml.etree.ElementTree as ET

from lxml import etree

from . import oracle
from .core import VERIF, Violation

_schema = None


def schema():
    global _schema
    if _schema is None:
        _schema = etree.XMLSchema(etree.parse(os.path.join(VERIF, "ref", "ucis.xsd")))
    return _schema


def strip_ns(root):
    for e in root.iter():
        if isinstance(e.tag, str) and "}" in e.tag:
            e.tag = e.tag[e.tag.index("}") + 1:]


def validity(data, strip=False):
    """None, or why the document (bytes) is not a valid interchange document"""
    try:
        doc = etree.fromstring(data)
    except etree.XMLSyntaxError as e:
        return "not well-formed: %s" % e
    if strip:
        strip_ns(doc)
    s = schema()
    if not s.validate(doc):
        return "invalid: %s" % s.error_log.last_error
    return None


def parse(data):
    """The content of a (single-encoding, namespace-free) document as written by the code under test"""
    root = ET.fromstring(data)
    files = [(int(f.get("id")), f.get("fileName")) for f in root.findall("sourceFiles")]
    hist = [dict(h.attrib) for h in root.findall("historyNodes")]
    db = []
    refs = set()
    for e in root.iter():
        if e.tag in ("id", "cginstSourceId", "cgSourceId"):
            refs.add(int(e.get("file")))
    for i in root.findall("instanceCoverages"):
        inst = {"name": i.get("name"), "module": i.get("moduleName", "default"), "secs": []}
        for c in i.findall("covergroupCoverage"):
            sec = {"weight": int(c.get("weight", "1")), "insts": []}
            for g in c.findall("cgInstance"):
                cg = {"name": g.get("name"), "type": g.find("cgId").get("cgName"), "weight": opt(g, "weight"),
                      "cps": [], "crs": []}
                if i.get("moduleName") not in (None, g.find("cgId").get("moduleName")):
                    raise Violation("covergroup %r is said to be of module %r, its instance of %r" % (
                        g.get("name"), g.find("cgId").get("moduleName"), i.get("moduleName")))
                nobins(g)
                for p in g.findall("coverpoint"):
                    nobins(p)
                    bins = []
                    for b in p.findall("coverpointBin"):
                        kids = [k for k in b if k.tag in ("range", "sequence")]
                        if len(kids) != 1:
                            raise Violation("bin %r is written with %d ranges" % (b.get("name"), len(kids)))
                        if k_range(kids[0]) is not None:
                            raise Violation("the range of bin %r is %r: it is documented to be -1..-1" % (b.get("name"), k_range(kids[0])))
                        kind = {"bins": "bin", "default": "bin", "ignore": "ignore", "illegal": "illegal"}[b.get("type")]
                        bins.append((kind, b.get("name"), int(kids[0].find("contents").get("coverageCount"))))
                    cg["cps"].append({"name": p.get("name"), "weight": opt(p, "weight"), "al": opt(p, "at_least"),
                                      "bins": bins})
                for p in g.findall("cross"):
                    bins = []
                    for b in p.findall("crossBin"):
                        kind = {"ignore": "ignore", "illegal": "illegal"}.get(b.get("type"), "bin")
                        if kind != "bin" and any(int(x.text) != -1 for x in b.findall("index")):
                            raise Violation("indices of the %s bin %r: they are documented to be -1" % (kind, b.get("name")))
                        bins.append((kind, b.get("name"), int(b.find("contents").get("coverageCount"))))
                    cg["crs"].append({"name": p.get("name"), "weight": opt(p, "weight"), "al": opt(p, "at_least"),
                                      "exprs": [x.text or "" for x in p.findall("crossExpr")], "bins": bins})
                sec["insts"].append(cg)
            inst["secs"].append(sec)
        db.append(inst)
    return {"attrs": dict(root.attrib), "files": files, "hist": hist, "refs": refs, "db": db}


def indices(data):
    """The indices of each cross bin"""
    return [[x.text for x in b.findall("index")] for b in ET.fromstring(data).iter("crossBin")]


def k_range(e):
    """The range that a bin is said to have, other than the one documented"""
    r = (e.get("from"), e.get("to"))
    return None if e.tag != "range" or r == ("-1", "-1") else r


def nobins(e):
    """No consumer is to create bins: all of them are explicit"""
    o = e.find("options")
    if o is None or o.get("auto_bin_max", "64").lstrip("+0") != "":
        raise Violation("the options of %s %r do not say auto_bin_max=0, as is documented" % (e.tag, e.get("name")))


def opt(e, name):
    o = e.find("options")
    v = o.get(name) if o is not None else None
    return int(v) if v is not None else 1


def expected(model):
    """What parse() has to find for a model"""
    out = []
    for inst in model:
        r = {"name": inst["name"], "module": "default" if inst["du"] is None else inst["du"], "secs": []}
        for cg in inst["cgs"]:
            sec = {"weight": cg["weight"], "insts": []}
            for i in (cg["insts"] or [cg]):
                al = lambda c: oracle.shared_al(c["bins"])
                bins = lambda c: [(k, n, v) for k, n, _, v in c["bins"]]
                sec["insts"].append({
                    "name": i["name"], "type": cg["name"], "weight": i["weight"],
                    "cps": [{"name": c["name"], "weight": c["weight"], "al": al(c), "bins": bins(c)} for c in i["cps"]],
                    "crs": [{"name": c["name"], "weight": c["weight"], "al": al(c),
                             "exprs": [i["cps"][x]["name"] for x in c["cps"]], "bins": bins(c)} for c in i["crs"]]})
            r["secs"].append(sec)
        out.append(r)
    return out
