"""C10: invalid coverage documents are rejected as a whole"""
import copy
import gzip
import io
import json
import os
import xml.etree.ElementTree as ET

import jsonschema
import lxml.etree
import yaml

from vx import gen, oracle, sut, work, xmlgen, xmlref, yamlgen
from vx.core import VERIF, must_raise, sut as must

PROP = "C10"
LEVEL = "exploration"
QUICK = 10000
REQUIRED = ["xml_schema_mutants", "xml_dangling", "xml_bytes_invalid", "xml_truncated", "gzip_damaged", "yaml_schema_mutants",
            "yaml_dangling", "yaml_malformed", "yaml_code", "good_reads_after", "rejections_observed",
            "rejected_by_reader_objects", "long_documents"]
RULE = ("Valid generated XML and YAML documents are damaged: attributes and elements dropped, renamed, repeated, moved, "
        "given bad values; references to coverpoints broken; bytes flipped, cut, duplicated; archives truncated. Those that "
        "an independent validator with the pinned schemas (or the reference check) finds invalid are given to the real readers, "
        "each of which has to raise; then an intact document is read and compared. A document that names Python "
        "code is watched for executing it. Non-trivial: the document was invalid; distinct by its bytes.")
ASSUMPTIONS = ["validity of XML is what libxml2 finds with the pinned schema, that of YAML what jsonschema finds"]

_ys = None
canary_calls = []


def canary(*a):
    canary_calls.append(a)
    return "x"


def yaml_schema():
    global _ys
    if _ys is None:
        with open(os.path.join(VERIF, "ref", "coverage.json")) as fp:
            _ys = json.load(fp)
    return _ys


# --- XML ---------------------------------------------------------------------------

def all_els(e, out=None, parent=None):
    out = [] if out is None else out
    out.append((e, parent))
    for k in e.kids:
        all_els(k, out, e)
    return out


NUMS = ("coverageCount", "weight", "at_least", "id", "file", "line", "inlineCount", "historyNodeId", "simtime",
        "cpuTime", "cost", "sameTests", "from", "to")


def mutate(rng, root):
    """Changes one thing; returns what"""
    els = all_els(root)
    op = rng.choice(["drop_attr", "rename_attr", "add_attr", "bad_num", "bad_enum", "rename_el", "drop_el", "dup_el",
                     "swap", "insert", "text", "root", "drop_all"])
    if op in ("drop_attr", "rename_attr", "bad_num", "bad_enum"):
        c = [(e, i) for e, _ in els for i, (k, v) in enumerate(e.attrs)
             if op in ("drop_attr", "rename_attr") or (op == "bad_num" and k in NUMS)
             or (op == "bad_enum" and k in ("type", "testStatus", "date", "writtenTime", "downto", "detect_overlap"))]
        if not c:
            return None
        # rare attributes as often as frequent ones
        key = rng.choice(sorted({(e.tag, e.attrs[i][0]) for e, i in c}))
        e, i = rng.choice([x for x in c if (x[0].tag, x[0].attrs[x[1]][0]) == key])
        k, v = e.attrs[i]
        if op == "drop_attr":
            del e.attrs[i]
        elif op == "rename_attr":
            e.attrs[i] = (rng.choice([k + "x", k.upper(), k[:-1] or "q"]), v)
            if len({a for a, _ in e.attrs}) != len(e.attrs):
                return None
        elif op == "bad_num":
            e.attrs[i] = (k, rng.choice(["-1", "-5", "x", "", "1,5", "0x10", "--1", "1 2", "None", "1.5", "1e3", " ", "NaN"]))
        else:
            e.attrs[i] = (k, rng.choice(["", "other", "TRUE", "yes", "2020-13-01T00:00:00", "2020-01-01", "bin", "Ignore",
                                         "bins ", "2"]))
        return "%s %s@%s" % (op, e.tag, k)
    e, p = rng.choice(els)
    if op == "add_attr":
        e.attrs.append((rng.choice(["foo", "Name", "coveragecount"]), "1"))
    elif op == "rename_el":
        e.tag = rng.choice([e.tag + "s", e.tag.upper(), "x", e.tag[:-1] or "q"])
    elif op == "root":
        root.tag = rng.choice(["ucis", "UCISDB", "coverage"])
    elif op == "text":
        e.text = "junk"
    elif op == "insert":
        e.kids.insert(rng.randint(0, len(e.kids)), xmlgen.El(rng.choice(["foo", "coverpoint", "contents", "range", "id"])))
    elif op == "drop_all":
        if p is None:
            return None
        p.kids = [k for k in p.kids if k.tag != e.tag]
    else:
        if p is None:
            return None
        i = next(j for j, k in enumerate(p.kids) if k is e)
        if op == "drop_el":
            del p.kids[i]
        elif op == "dup_el":
            p.kids.insert(i, e)
        else:
            j = rng.randrange(len(p.kids))
            p.kids[i], p.kids[j] = p.kids[j], p.kids[i]
    return "%s %s" % (op, e.tag)


def pad(ctx, root):
    """Now and then, a long document: what is wrong with it may come late"""
    rng = ctx.rng
    if rng.random() > 0.04:
        return
    n = rng.choice([80, 300, 1100, 2500])
    what = rng.choice(["sourceFiles", "instanceCoverages", "covergroupCoverage", "coverpointBin", "crossBin", "historyNodes"])
    c = [(e, p) for e, p in all_els(root) if e.tag == what and len(all_els(e)) < 60]
    if not c:
        return
    e, p = rng.choice(c)
    i = next(j for j, k in enumerate(p.kids) if k is e)
    if what == "sourceFiles":
        p.kids[i:i] = [xmlgen.El(what, [("fileName", "f"), ("id", str(10000 + j))]) for j in range(n)]
    elif what == "historyNodes":
        p.kids[i:i] = [xmlgen.El(what, [(k, str(10000 + j) if k == "historyNodeId" else v) for k, v in e.attrs]) for j in range(n)]
    else:
        p.kids[i:i] = [e] * n
    ctx.count("long_documents")


def style(rng):
    st = xmlgen.Style(rng)
    st.gz = False
    return st


def malformed(data):
    """Not well-formed for either of two parsers (they differ on the letters that may begin a name)."""
    try:
        ET.fromstring(data)
        return False
    except (ET.ParseError, ValueError, LookupError):
        pass
    try:
        lxml.etree.fromstring(data, lxml.etree.XMLParser(resolve_entities=False, huge_tree=True))
    except (lxml.etree.XMLSyntaxError, ValueError, LookupError):
        return True
    return False


def reject_xml(ctx, data, what, validators=True):
    rng = ctx.rng
    if rng.random() < 0.4 and (not validators or malformed(data)):
        # a reader object may leave the schema to its caller, but not this
        from ucis.xml.xml_reader import XmlReader
        rd = XmlReader()
        must_raise(ctx, "given to a reader: " + what, rd.read, io.BytesIO(data))
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            text = None
        if text is not None and "encoding=" not in text[:200]:
            must_raise(ctx, "given to a reader as text: " + what, XmlReader().loads, text)
        ctx.count("rejected_by_reader_objects")
    ctx.note({"what": what, "data": data})
    p = ctx.infile(".xml", ".xml", ".xml.gz", ".gz", ".lz4", "")
    how = rng.choice(["path", "registry", "file", "gz"])
    raw = data
    if how == "gz":
        raw = gzip.compress(data)
    with open(p, "wb") as fp:
        fp.write(raw)
    if how == "file":
        with open(p, "rb") as fp:
            must_raise(ctx, what, work.xml_read, fp)
    elif how == "registry":
        from ucis.rgy.format_rgy import FormatRgy
        must_raise(ctx, what, FormatRgy.inst().getDatabaseDesc("xml").fmt_if().read, p)
    else:
        must_raise(ctx, what, work.xml_read, p)
    if validators and how != "gz":
        from ucis.xml import validate_ucis_xml
        from ucis.xml.xml_reader import XmlReader
        must_raise(ctx, "validating: " + what, validate_ucis_xml, p)
        with open(p, "rb") as fp:
            must_raise(ctx, "validating: " + what, XmlReader.validate, fp)
    ctx.seen(data)


def xml_schema(ctx, doc):
    rng = ctx.rng
    for _ in range(20):
        st = style(rng)
        root = xmlgen.tree(rng, doc, st)
        pad(ctx, root)
        m = mutate(rng, root)
        if m is None:
            continue
        data = xmlgen.serialize(root, st)
        v = xmlref.validity(data, strip=True)
        if v is None:
            ctx.count("mutants_still_valid")
            continue
        reject_xml(ctx, data, "XML document, after %s (%s)" % (m, v))
        ctx.count("xml_schema_mutants")
        ctx.count("op_" + m.split()[0])
        return


def xml_dangling(ctx, doc):
    rng = ctx.rng
    doc = copy.deepcopy(doc)
    c = [(sec, g, cr) for i in doc["insts"] for sec in i["secs"] for g in sec["insts"] for cr in g["crs"] if cr["cps"]]
    if not c:
        return xml_schema(ctx, doc)
    sec, g, cr = rng.choice(c)
    k = rng.randrange(len(cr["cps"]))
    names = [x["name"] for x in g["cps"]]
    if rng.random() < 0.5:
        new = rng.choice(["no such coverpoint", "", names[0] + "_", names[0].upper() + "x", "None"])
        if new.strip() in names or new in names:
            new = "no such coverpoint"
        extra = {"name": new, "weight": 1, "al": 1, "bins": []}
        how = "undefined"
    else:
        # a coverpoint that another instance of the covergroup has, but this one does not
        extra = {"name": "only elsewhere", "weight": 1, "al": 1, "bins": [("bin", "b", 1, 1)]}
        twin = copy.deepcopy(g)
        twin["name"] = "twin"
        twin["cps"].append(extra)
        if rng.random() < 0.5:
            twin["crs"] = []
        else:
            # and that is crossed there
            next(x for x, y in zip(twin["crs"], g["crs"]) if y is cr)["cps"][k] = len(twin["cps"]) - 1
        at = next(i for i, x in enumerate(sec["insts"]) if x is g)
        sec["insts"].insert(at + rng.randint(0, 1), twin)
        how = "in another instance only"
        ctx.count("dangling_elsewhere")
    g["cps"].append(extra)
    cr["cps"][k] = len(g["cps"]) - 1
    st = style(rng)
    root = xmlgen.tree(rng, doc, st)
    # take the extra coverpoint out of the document again
    for e, p in all_els(root):
        if e.tag == "cgInstance" and dict(e.attrs).get("name") == g["name"]:
            n = [x for x in e.kids if x.tag == "coverpoint"]
            if n and dict(n[-1].attrs)["name"] == extra["name"] and any(x.tag == "cross" for x in e.kids):
                e.kids = [x for x in e.kids if x is not n[-1]]
    data = xmlgen.serialize(root, st)
    assert xmlref.validity(data, strip=True) is None
    reject_xml(ctx, data, "XML document with a cross of a coverpoint that is %s" % how, validators=False)
    ctx.count("xml_dangling")


def xml_bytes(ctx, doc):
    rng = ctx.rng
    st = style(rng)
    st.enc = rng.choice(["utf-8", "utf-8", "utf-16"])
    st.decl = True
    data = bytearray(xmlgen.serialize(xmlgen.tree(rng, doc, st), st))
    for _ in range(rng.randint(1, 3)):
        i = rng.randrange(len(data))
        r = rng.random()
        if r < 0.3:
            data[i] ^= 1 << rng.randrange(8)
        elif r < 0.5:
            data[i] = rng.choice(b"<>&\"'/=\x00 ]0-")
        elif r < 0.7:
            del data[i:i + rng.randint(1, 20)]
        elif r < 0.85:
            data[i:i] = data[i:i + rng.randint(1, 40)]
        else:
            data[i:i] = bytes([rng.randrange(256)])
    data = bytes(data)
    v = xmlref.validity(data, strip=True)
    if v is None:
        ctx.count("xml_bytes_still_valid")
        return
    if data[:2] == b"\x1f\x8b":
        return
    reject_xml(ctx, data, "XML document with damaged bytes (%s)" % v)
    ctx.count("xml_bytes_invalid")


def xml_cut(ctx, doc):
    rng = ctx.rng
    st = style(rng)
    st.tail = False
    data = xmlgen.serialize(xmlgen.tree(rng, doc, st), st).rstrip()
    if rng.random() < 0.6:
        cut = data[:rng.choice([0, 1, 2, 4, len(data) - 1, rng.randrange(len(data))])]
        if xmlref.validity(cut, strip=True) is None:
            return
        reject_xml(ctx, cut, "XML document cut after %d of %d bytes" % (len(cut), len(data)))
        ctx.count("xml_truncated")
    else:
        gz = bytearray(gzip.compress(data))
        r = rng.random()
        if r < 0.5:
            gz = gz[:rng.randint(2, len(gz) - 1)]
        elif r < 0.6:
            gz += bytes(rng.randint(1, 255) for _ in range(rng.choice([1, 8, 100])))
        elif r < 0.8:
            gz[rng.randint(3, len(gz) - 1)] ^= 1 << rng.randrange(8)
        else:
            # the checksum notices a changed byte of the compressed data
            gz[rng.randint(len(gz) - 8, len(gz) - 1)] ^= 1 << rng.randrange(8)
        try:
            gzip.decompress(bytes(gz))
            return
        except Exception:
            pass
        p = ctx.infile(".xml.gz", ".xml", "")
        with open(p, "wb") as fp:
            fp.write(bytes(gz))
        ctx.note({"gz": bytes(gz)})
        must_raise(ctx, "a damaged compressed document", work.xml_read, p)
        ctx.count("gzip_damaged")
        ctx.seen(bytes(gz))


# --- YAML --------------------------------------------------------------------------------

def yaml_invalid(d):
    try:
        jsonschema.validate(instance=d, schema=yaml_schema())
    except jsonschema.ValidationError as e:
        return e.message[:120]
    return None


def positions(d, path=()):
    yield path, d
    if isinstance(d, dict):
        for k, v in d.items():
            yield from positions(v, path + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from positions(v, path + (i,))


def at(d, path):
    for k in path:
        d = d[k]
    return d


def yaml_mutate(rng, d):
    pos = list(positions(d))
    # rare kinds of places as often as frequent ones
    kind = lambda p: tuple(k for k in p if isinstance(k, str))
    key = rng.choice(sorted({kind(p) for p, _ in pos}))
    path, v = rng.choice([x for x in pos if kind(x[0]) == key])
    op = rng.choice(["drop", "type", "type", "type", "wrap"])
    bad = rng.choice([None, "x", "5", 1.5, True, [], {}, [1], {"a": 1}, -0.5])
    if not path:
        return bad, "document replaced by %r" % (bad,)
    par = at(d, path[:-1])
    if op == "drop":
        del par[path[-1]]
        return d, "%s dropped" % (path,)
    par[path[-1]] = [v] if op == "wrap" else bad
    return d, "%s is %r" % (path, par[path[-1]])


def reject_yaml(ctx, text, what):
    from ucis.yaml.yaml_reader import YamlReader
    from ucis.rgy.format_rgy import FormatRgy
    ctx.note({"what": what, "text": text})
    rng = ctx.rng
    how = rng.choice(["loads", "load", "registry"])
    if how == "loads":
        must_raise(ctx, what, YamlReader().loads, text)
    elif how == "load":
        must_raise(ctx, what, YamlReader().load, io.StringIO(text))
    else:
        p = ctx.infile(".yml", ".yaml", ".json", "")
        with open(p, "w", encoding="utf-8", newline="") as fp:
            fp.write(text)
        must_raise(ctx, what, FormatRgy.inst().getDatabaseDesc("yaml").fmt_if().read, p)
    ctx.seen(text)


def yaml_schema_case(ctx, doc):
    rng = ctx.rng
    for _ in range(20):
        d = copy.deepcopy(yamlgen.data(doc))
        dump = yaml.safe_dump
        if rng.random() < 0.03:
            # a long document
            lists = [x for p, x in positions(d) if isinstance(x, list) and x and p[-1] != "coverpoints" and len(str(x[0])) < 300]
            if lists:
                x = rng.choice(lists)
                j = rng.randint(0, len(x))
                x[j:j] = [copy.deepcopy(x[0]) for _ in range(rng.choice([80, 300, 1100]))]
                dump = lambda d, **kw: json.dumps(d)
                ctx.count("long_documents")
        d, what = yaml_mutate(rng, d)
        v = yaml_invalid(d)
        if v is None:
            ctx.count("mutants_still_valid")
            continue
        reject_yaml(ctx, dump(d, default_flow_style=rng.choice([None, True, False])),
                    "YAML document, %s (%s)" % (what, v))
        ctx.count("yaml_schema_mutants")
        return


def yaml_dangling(ctx, doc):
    rng = ctx.rng
    d = yamlgen.data(doc)
    c = []
    for g in ((d.get("coverage") or {}).get("covergroups") or []):
        for i in g.get("instances") or []:
            for cr in i.get("crosses") or []:
                if cr["coverpoints"]:
                    c.append((g, i, cr))
    if not c:
        d = {"coverage": {"covergroups": [{"name": "g", "instances": [
            {"name": "i", "coverpoints": [{"name": "a", "bins": [{"name": "x", "count": 1}]}],
             "crosses": [{"name": "c", "coverpoints": ["a", "b"]}]}]}]}}
        return reject_yaml(ctx, yaml.safe_dump(d), "YAML document with a cross of an undefined coverpoint")
    g, i, cr = rng.choice(c)
    k = rng.randrange(len(cr["coverpoints"]))
    names = [x["name"] for x in i["coverpoints"]]
    if rng.random() < 0.5:
        cr["coverpoints"][k] = "no such coverpoint"
    else:
        extra = {"name": "only elsewhere", "bins": [{"name": "b", "count": 1}]}
        twin = {"name": "twin", "coverpoints": [extra]}
        if rng.random() < 0.5:
            # and that is crossed there
            twin = dict(copy.deepcopy(i), name="twin")
            twin["coverpoints"].append(extra)
            next(x for x, y in zip(twin["crosses"], i["crosses"]) if y is cr)["coverpoints"][k] = "only elsewhere"
        pos = next(j for j, x in enumerate(g["instances"]) if x is i)
        g["instances"].insert(pos + rng.randint(0, 1), twin)
        cr["coverpoints"][k] = "only elsewhere"
        ctx.count("dangling_elsewhere")
    reject_yaml(ctx, yaml.safe_dump(d), "YAML document with a cross of a coverpoint that its instance does not have")
    ctx.count("yaml_dangling")


def yaml_malformed(ctx, doc):
    rng = ctx.rng
    text = yaml.safe_dump(yamlgen.data(doc), default_flow_style=rng.random() < 0.5)
    r = rng.choice(["unclosed", "tab", "two", "alias", "empty", "scalar", "list", "cut"])
    if r == "unclosed":
        text = "{" + text
    elif r == "tab":
        text = "coverage:\n\tcovergroups: []\n"
    elif r == "two":
        text = text + "\n---\n" + text
    elif r == "alias":
        text = "coverage: *undefined\n"
    elif r == "empty":
        text = rng.choice(["", "\n", "# nothing\n", "---\n", "null\n"])
    elif r == "scalar":
        text = rng.choice(["coverage\n", "5\n", "\"x\"\n"])
    elif r == "list":
        text = "- " + "coverage: {}\n"
    else:
        text = json.dumps(yamlgen.data(doc))
        text = text[:rng.randint(1, len(text) - 1)]
    try:
        d = yaml.safe_load(text)
        if yaml_invalid(d) is None:
            ctx.count("yaml_still_valid")
            return
    except yaml.YAMLError:
        pass
    reject_yaml(ctx, text, "malformed YAML (%s)" % r)
    ctx.count("yaml_malformed")


def yaml_code(ctx, doc):
    rng = ctx.rng
    del canary_calls[:]
    tag = rng.choice(["!!python/object/apply:vx.checks.c10.canary [1]",
                      "!!python/object/new:vx.checks.c10.canary [1]"])
    text = "coverage:\n  covergroups:\n  - name: %s\n" % tag
    reject_yaml(ctx, text, "YAML document that names code to execute")
    ctx.check(not canary_calls, "reading a YAML document executed code that the document names")
    ctx.count("yaml_code")


def case(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.62:
        doc = xmlgen.gen_doc(rng)
        f = rng.choice([xml_schema, xml_schema, xml_schema, xml_dangling, xml_bytes, xml_cut])
        f(ctx, doc)
        if rng.random() < 0.2:
            st = style(rng)
            data = xmlgen.serialize(xmlgen.tree(rng, doc, st), st)
            with must("reading an intact document afterwards"):
                db = work.xml_read(io.BytesIO(data))
                from ucis.xml import validate_ucis_xml
                v = validate_ucis_xml(io.BytesIO(data))
            ctx.check(v is True, "validating a valid document returned %r", v)
            ctx.equal(oracle.norm(xmlgen.content(doc), nonbin_al=True), oracle.norm(sut.snap(db), nonbin_al=True), "intact document afterwards")
            ctx.count("good_reads_after")
    else:
        doc = yamlgen.gen_doc(rng)
        f = rng.choice([yaml_schema_case, yaml_schema_case, yaml_schema_case, yaml_dangling, yaml_malformed, yaml_code])
        f(ctx, doc)
        if rng.random() < 0.2:
            from ucis.yaml.yaml_reader import YamlReader
            with must("reading an intact document afterwards"):
                db = YamlReader().loads(yaml.safe_dump(yamlgen.data(doc)))
            ctx.equal(oracle.norm(yamlgen.content(doc), nonbin_al=True), oracle.norm(sut.snap(db), nonbin_al=True), "intact document afterwards")
            ctx.count("good_reads_after")
