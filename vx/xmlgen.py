"""Generator of interchange documents as other tools write them (independent of the writer under
test), and the database that a document stands for"""
import datetime
import gzip
import io
import struct
import zlib

from . import gen, hist, oracle

XML_BAD = set(chr(c) for c in range(32) if c not in (9, 10, 13)) | {"\ufffe", "\uffff"}


class Style(object):
    """How a document is spelled; none of it matters to its content"""

    def __init__(self, rng):
        self.rng = rng
        self.ns = rng.choice([None, None, "default", "ucis", "p"])
        self.uri = rng.choice(["UCIS", "http://www.w3.org/2001/XMLSchema-instance", "urn:x"])
        self.pretty = rng.choice([None, "", "\n", "\n  ", "\r\n\t"])
        self.noise = rng.random() < 0.4           # comments and processing instructions
        self.quotes = rng.choice(["\"", "'", None])
        self.shuffle = rng.random() < 0.5         # order of attributes
        self.refs = rng.random() < 0.3            # character references
        self.cdata = rng.random() < 0.3
        self.nums = rng.random() < 0.3            # other spellings of integers
        self.enc = rng.choice(["utf-8", "utf-8", "utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii"])
        self.decl = rng.random() < 0.7 or self.enc not in ("utf-8", "utf-8-sig")
        self.gz = rng.random() < 0.25
        self.tail = rng.random() < 0.2
        self.ents = {} if rng.random() < 0.2 else None     # internal entities: text -> name


def entities(st, s):
    """Parts of s as (text, name of the internal entity that stands for it, or None)"""
    rng, out, i = st.rng, [], 0
    while st.ents is not None and i < len(s):
        if rng.random() < 0.15:
            j = i
            while j < len(s) and j - i < 12 and s[j].isalnum() and enc_ok(st, s[j]):
                j += 1
            if j > i:
                out.append((s[i:j], st.ents.setdefault(s[i:j], "vx%d" % len(st.ents))))
                i = j
                continue
        j = i + rng.randint(1, 20)
        out.append((s[i:j], None))
        i = j
    return out if st.ents is not None else [(s, None)]


def esc(st, s, quote=None):
    return "".join("&%s;" % e if e else esc_plain(st, x, quote) for x, e in entities(st, s))


def esc_plain(st, s, quote):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif quote is not None and ch == quote:
            out.append("&quot;" if quote == "\"" else "&#39;")
        elif ch == "\r" or (quote is not None and ch in "\t\n"):
            out.append("&#%d;" % o)
        elif st.refs and o > 32 and st.rng.random() < 0.2:
            out.append(st.rng.choice(["&#%d;" % o, "&#x%x;" % o]))
        else:
            try:
                ch.encode(st.enc)
                out.append(ch)
            except UnicodeEncodeError:
                out.append("&#%d;" % o)
    return "".join(out)


def num(st, n):
    if st.nums and st.rng.random() < 0.4:
        return st.rng.choice(["0%d", "+%d", " %d ", "000%d"]) % n
    return str(n)


class El(object):
    def __init__(self, tag, attrs=(), kids=(), text=None):
        self.tag = tag
        self.attrs = [(k, v) for k, v in attrs if v is not None]
        self.kids = list(kids)
        self.text = text

    def emit(self, st, out, depth=0):
        rng = st.rng
        pre = ""
        if st.ns in ("ucis", "p"):
            pre = st.ns + ":"
        ind = (st.pretty + " " * depth) if st.pretty is not None else ""
        out.append(ind if depth else "")
        if st.noise and depth and rng.random() < 0.1:
            out.append(rng.choice(["<!-- c -->", "<?pi x?>", "<!--<coverpoint name=\"no\"/>-->", "<!-- &no; - -->"]))
            out.append(ind)
        attrs = list(self.attrs)
        if st.shuffle:
            rng.shuffle(attrs)
        if depth == 0 and st.ns is not None:
            attrs.insert(0, ("xmlns" + ("" if st.ns == "default" else ":" + st.ns), st.uri))
        a = ""
        for k, v in attrs:
            q = st.quotes or rng.choice("\"'")
            a += rng.choice([" ", " ", "\n"]) + k + "=" + q + esc(st, v, q) + q
        if not self.kids and self.text is None and rng.random() < 0.7:
            out.append("<%s%s/>" % (pre + self.tag, a))
            return
        out.append("<%s%s>" % (pre + self.tag, a))
        if self.text is not None:
            t = self.text
            ok = all(enc_ok(st, c) for c in t) and "]]>" not in t and "\r" not in t
            cuts = sorted(rng.randint(0, len(t)) for _ in range(rng.choice([0, 1, 2]) if st.noise else 0))
            for n, (x, y) in enumerate(zip([0] + cuts, cuts + [len(t)])):
                if n:
                    out.append(rng.choice(["<!-- c -->", "<?pi x?>", "<!---->", "<!--" + "x" * 40 + "-->"]))
                out.append("<![CDATA[" + t[x:y] + "]]>" if st.cdata and ok and t and rng.random() < 0.8 else esc(st, t[x:y]))
        for k in self.kids:
            k.emit(st, out, depth + 1)
        if self.kids:
            out.append(ind)
        out.append("</%s>" % (pre + self.tag))


def enc_ok(st, c):
    try:
        c.encode(st.enc)
        return True
    except UnicodeEncodeError:
        return False


def serialize(root, st):
    """bytes of the document"""
    out = []
    if st.decl:
        n = {"utf-8-sig": "UTF-8", "utf-16": "UTF-16"}.get(st.enc, st.enc)
        out.append("<?xml version=\"1.0\" encoding=\"%s\"?>\n" % n)
    if st.noise:
        out.append("<!-- top -->\n")
    body = []
    root.emit(st, body)
    if st.ents:
        out.append("<!DOCTYPE UCIS [\n%s]>\n" % "".join("<!ENTITY %s '%s'>\n" % (e, x) for x, e in st.ents.items()))
    out += body
    if st.tail:
        out.append("\n<!-- end -->\n")
    data = "".join(out).encode(st.enc)
    if st.gz:
        # an archive may consist of several members, whose headers may say all sorts of things
        rng, b = st.rng, io.BytesIO()
        cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.choice([0, 0, 1, 3])))
        for x, y in zip([0] + cuts, cuts + [len(data)]):
            if rng.random() < 0.4:
                b.write(member(rng, data[x:y]))
                continue
            with gzip.GzipFile(rng.choice(["", "other.txt"]), fileobj=b, mode="wb", mtime=rng.choice([0, 10 ** 9]),
                               compresslevel=rng.choice([0, 1, 9])) as g:
                g.write(data[x:y])
        data = b.getvalue()
    return data


def member(rng, data):
    """A gzip member with the optional fields of the format"""
    flags = rng.randrange(32)
    head = b"\x1f\x8b\x08" + bytes([flags]) + struct.pack("<L", rng.choice([0, 10 ** 9])) + bytes([rng.choice([0, 2, 4]), rng.choice([0, 3, 255])])
    if flags & 4:
        head += b"\x05\0AB\x01\0x"
    if flags & 8:
        head += b"name.xml\0"
    if flags & 16:
        head += b"a comment\0"
    if flags & 2:
        head += struct.pack("<H", zlib.crc32(head) & 0xffff)
    c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -15)
    return head + c.compress(data) + c.flush() + struct.pack("<LL", zlib.crc32(data), len(data) & 0xffffffff)


# --- documents ------------------------------------------------------------------------

def gen_doc(rng, o=None):
    """A document model: {files, hist, insts: [{name, module, secs: [{weight, insts: [cg + type, al]}]}]}
    weight and threshold None: absent in the document"""
    o = gen.widen(rng, o or gen.Opts(xmlable=True, uniform_al=True))
    nm = gen.Namer(rng, o)
    opt = lambda v: None if rng.random() < 0.25 else v
    insts = []
    used = set()
    for _ in range(gen.size(rng, o, 1, 3, 6, "db")):
        dup = insts and rng.random() < 0.15
        inst = {"name": rng.choice(insts)["name"] if dup else nm.take(used),
                "module": module(rng, nm, insts), "secs": []}
        for _ in range(gen.size(rng, o, 0, 2, 4, "cgs")):
            sec = {"weight": opt(gen.weight(rng, o)), "insts": []}
            types = [nm.take() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            bases = {t: gen.gen_cg(rng, o, nm, t, top=False) for t in types}
            usedi = set()
            for _ in range(gen.size(rng, o, 0, 3, 8, "insts")):
                t = rng.choice(types)
                g = gen.vary_cg(rng, o, bases[t], 0.2) if rng.random() < 0.8 else gen.gen_cg(rng, o, nm, t, top=False)
                g["name"] = nm.take(usedi if rng.random() < 0.8 else None)
                g["type"] = t
                g["weight"] = opt(gen.weight(rng, o))
                seen = set()
                for c in g["cps"] + g["crs"]:
                    c["weight"] = opt(c["weight"])
                    al = next((b[2] for b in c["bins"] if b[0] == "bin"), gen.at_least(rng, o))
                    c["al"] = opt(al)
                for c in g["crs"]:
                    if rng.random() < 0.1:
                        c["bins"] = []
                sec["insts"].append(g)
            inst["secs"].append(sec)
        insts.append(inst)
    ids = rng.sample(range(1, 60), rng.randint(1, 4))
    files = [(i, rng.choice(gen.PLAIN + gen.HOSTILE + gen.PATHS)) for i in ids]
    return {"files": files, "hist": gen_hist(rng), "insts": insts}


def module(rng, nm, insts):
    """A module's name: none, any, or much like that of another instance"""
    old = [i["module"] for i in insts if i["module"]]
    if old and rng.random() < 0.4:
        m = gen.variant(rng, rng.choice(old)) if rng.random() < 0.7 else rng.choice(old)
        if not set(m) & XML_BAD:
            return m
    return rng.choice([None, nm.take()])


def gen_hist(rng):
    out = []
    for h in hist.gen_hist(rng, rng.choice([1, 1, 2, 4])):
        h["Kind"] = rng.choice([None, "test", "merge", "dummy", "regression.MERGE", "12", "tests", ""])
        d = h["set"]["Date"]
        h["date"] = "%s-%s-%sT%s:%s:%s" % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14]) + rng.choice(
            ["", "", ".5", ".123456", "Z", "+02:00", "-11:30"])
        if d[8:] == "000000" and "00010101" != d[:8] and rng.random() < 0.7:
            # the end of the day before
            y = datetime.date(int(d[:4]), int(d[4:6]), int(d[6:8])) - datetime.timedelta(days=1)
            h["date"] = y.isoformat() + "T24:00:00" + rng.choice(["", ".0", "Z", "+02:00"])
        # (white space around it is insignificant)
        h["status"] = rng.choice(["true", "false", "1", "0", " true", "1\t", "\n false ", " 0 "])
        h["set"].pop("TestStatus", None)
        out.append(h)
    return out


def tree(rng, doc, st):
    fid = lambda: str(rng.choice(doc["files"])[0])
    pos = lambda: str(rng.randint(1, 99))
    sid = lambda tag: El(tag, [("file", fid()), ("line", pos()), ("inlineCount", pos())])
    n = lambda v: None if v is None else num(st, v)
    style = rng.choice(["0", "0", "unique", "any"])
    seq = iter(range(1, 10 ** 9))
    key = lambda: "0" if style == "0" else str(next(seq)) if style == "unique" else rng.choice(["", "k", "0", "1", "a b", "name"])
    allcps = set(c["name"] for i in doc["insts"] for s in i["secs"] for g in s["insts"] for c in g["cps"])

    def ua():
        if rng.random() < 0.9:
            return []
        return [El("userAttr", [("key", rng.choice(["k", "name", "coverageCount"])), ("type", "str")],
                   text=rng.choice(["", "1", "coverpoint", "<x>"]))]

    def contents(c):
        k = []
        if rng.random() < 0.1:
            k = [El("historyNodeId", text="0")]
        return El("contents", [("coverageCount", num(st, c)), ("nameComponent", rng.choice([None, "x"])),
                               ("typeComponent", rng.choice([None, "5"]))], k)

    def bin_(tag, c=None):
        return El(tag, [("weight", rng.choice([None, "3"]))], [contents(rng.randint(0, 999))])

    def options(c, extra):
        a = [("weight", n(c["weight"])), ("at_least", n(c.get("al")))]
        for k, v in extra:
            if rng.random() < 0.3:
                a.append((k, v))
        return El("options", a)

    def cp_(c):
        kids = [options(c, [("goal", "90"), ("comment", "c"), ("detect_overlap", "true"), ("auto_bin_max", "64")])]
        for k, name, _, cnt in c["bins"]:
            t = {"bin": rng.choice(["bins", "bins", "default"]), "ignore": "ignore", "illegal": "illegal"}[k]
            if rng.random() < 0.5:
                v = El("range", [("from", str(rng.randint(-5, 5))), ("to", str(rng.randint(5, 9)))], [contents(cnt)])
            else:
                v = El("sequence", [], [contents(cnt)] + [El("seqValue", text=str(rng.randint(-3, 99)))
                                                          for _ in range(rng.randint(1, 3))])
            kids.append(El("coverpointBin", [("name", name), ("type", t), ("key", key()),
                                             ("alias", rng.choice([None, "al"]))], [v] + ua()))
        return El("coverpoint", [("name", c["name"]), ("key", key()), ("alias", rng.choice([None, "other"])),
                                 ("exprString", rng.choice([None, "a+b"]))], kids + ua())

    def cr_(c, cps):
        kids = [options(c, [("goal", "90"), ("comment", "c"), ("cross_num_print_missing", "1")])]
        for i in c["cps"]:
            nme = cps[i]["name"]
            t = nme
            # blanks around the name are insignificant, unless names (of any instance of the type) have them
            if nme and nme == nme.strip() and rng.random() < 0.2:
                w = rng.choice([" %s", "%s ", "\n%s\n", "\t %s"]) % nme if "%" not in nme else nme
                if w not in allcps:
                    t = w
            kids.append(El("crossExpr", text=t))
        for k, name, _, cnt in c["bins"]:
            t = {"bin": rng.choice(["default", "bins", None]), "ignore": "ignore", "illegal": "illegal"}[k]
            kids.append(El("crossBin", [("name", name), ("key", key()), ("type", t)],
                           [El("index", text=str(rng.randint(-1, 9))) for _ in range(rng.randint(1, 3))]
                           + [contents(cnt)] + ua()))
        return El("cross", [("name", c["name"]), ("key", key())], kids + ua())

    def cg_(g):
        kids = [options(dict(weight=g["weight"]), [("at_least", "77"), ("goal", "90"), ("per_instance", "true"),
                                                   ("merge_instances", "false"), ("comment", "zz")]),
                El("cgId", [("cgName", g["type"]), ("moduleName", rng.choice(["mod", "", "default", "a.b"]))], [sid("cginstSourceId"), sid("cgSourceId")])]
        for _ in range(rng.choice([0, 0, 2])):
            kids.append(El("cgParms", [], [El("name", text="n"), El("value", text="v")]))
        kids += [cp_(c) for c in g["cps"]]
        kids += [cr_(c, g["cps"]) for c in g["crs"]]
        return El("cgInstance", [("name", g["name"]), ("key", key()), ("alias", rng.choice([None, "x"])),
                                 ("excluded", rng.choice([None, "false"]))], kids + ua())

    def others():
        """Sections of other metrics: their bins and identifiers are not covergroup coverage"""
        k = []
        if rng.random() < 0.2:
            k.append(El("toggleCoverage", [("weight", "5")], [El("toggleObject", [("name", "t"), ("key", key())], [
                El("dimension", [("left", "7"), ("right", "0"), ("downto", "true")]), sid("id"),
                El("toggleBit", [("name", "t[0]"), ("key", key())], [El("index", text="0"), El(
                    "toggle", [("from", "0"), ("to", "1")], [bin_("bin")])])])]))
        if rng.random() < 0.2:
            k.append(El("blockCoverage", [], [El("statement", [], [sid("id"), bin_("bin")]) for _ in range(2)]))
        if rng.random() < 0.2:
            k.append(El("conditionCoverage", [], [El("expr", [
                ("name", "e"), ("key", key()), ("exprString", "a&&b"), ("index", "0"), ("width", "2")],
                [sid("id"), El("subExpr", text="a"), bin_("bin")])]))
        if rng.random() < 0.2:
            k.append(El("branchCoverage", [], [El("statement", [("statementType", "if")], [
                sid("id"), El("branch", [], [sid("id"), bin_("branchBin")])])]))
        if rng.random() < 0.2:
            k.append(El("fsmCoverage", [], [El("fsm", [("name", "f")], [
                El("state", [("stateName", "S0")], [bin_("stateBin")]),
                El("stateTransition", [], [El("state", text="a"), El("state", text="b"), bin_("transitionBin")])])]))
        if rng.random() < 0.2:
            k.append(El("assertionCoverage", [], [El("assertion", [("name", "a"), ("assertionKind", "assert")],
                                                     [bin_("coverBin"), bin_("failBin")])]))
        return k

    root = El("UCIS", [("ucisVersion", "1.0"), ("writtenBy", "tool"), ("writtenTime", "2020-01-02T03:04:05")])
    for i, f in doc["files"]:
        root.kids.append(El("sourceFiles", [("fileName", f), ("id", str(i))]))
    A = {"SimTime": "simtime", "TimeUnit": "timeunit", "RunCwd": "runCwd", "CpuTime": "cpuTime", "Seed": "seed",
         "Cmd": "cmd", "Args": "args", "Compulsory": "compulsory", "UserName": "userName", "Cost": "cost",
         "SameTests": "sameTests", "Comment": "comment"}
    for i, h in enumerate(doc["hist"]):
        s = h["set"]
        a = [("historyNodeId", str(i)), ("logicalName", h["LogicalName"]), ("physicalName", h["PhysicalName"]),
             ("kind", h["Kind"]), ("testStatus", h["status"]), ("date", h["date"]), ("ucisVersion", "1.0"),
             ("toolCategory", s.get("ToolCategory", "unknown")), ("vendorId", s.get("VendorId", "unknown")),
             ("vendorTool", s.get("VendorTool", "unknown")),
             ("vendorToolVersion", s.get("VendorToolVersion", "unknown"))]
        if i and rng.random() < 0.5:
            a.append(("parentId", "0"))
        for k, x in A.items():
            if k in s:
                a.append((x, s[k] if isinstance(s[k], str) else plain(s[k])))
        root.kids.append(El("historyNodes", a, ua()))
    for inst in doc["insts"]:
        kids = []
        for _ in range(rng.choice([0, 0, 1])):
            kids.append(El("designParameter", [], [El("name", text="W"), El("value", text="8")]))
        kids.append(sid("id"))
        kids += others()
        for sec in inst["secs"]:
            kids.append(El("covergroupCoverage", [("weight", n(sec["weight"])), ("metricMode", rng.choice([None, "m"]))],
                           [cg_(g) for g in sec["insts"]] + ua()))
        root.kids.append(El("instanceCoverages", [
            ("name", inst["name"]), ("key", key()), ("moduleName", inst["module"]),
            ("instanceId", rng.choice([None, "3"])), ("alias", rng.choice([None, "q"]))], kids + ua()))
    return root


def plain(v):
    from decimal import Decimal
    if isinstance(v, float):
        return format(Decimal(repr(v)), "f") if 1e-10 < v < 1e15 or v == 0 else repr(v)
    return str(v)


def content(doc):
    """The database a document stands for"""
    out, by = [], {}
    one = lambda v: 1 if v is None else v
    for inst in doc["insts"]:
        r = by.get(inst["name"])
        if r is None:
            r = {"name": inst["name"], "du": one_name(inst["module"]), "weight": 1, "cgs": []}
            by[inst["name"]] = r
            out.append(r)
        for sec in inst["secs"]:
            types = {}
            for g in sec["insts"]:
                i = {"name": g["name"], "weight": one(g["weight"]), "insts": []}
                for what in ("cps", "crs"):
                    i[what] = []
                    for c in g[what]:
                        x = {"name": c["name"], "weight": one(c["weight"]), "al": one(c["al"]),
                             "bins": [(k, n, one(c["al"]), v) for k, n, _, v in c["bins"]]}
                        if what == "crs":
                            x["cps"] = list(c["cps"])
                        i[what].append(x)
                types.setdefault(g["type"], []).append(i)
            for t, insts in types.items():
                cg = oracle._type_of(insts, t, one(sec["weight"]))
                cg["insts"] = insts
                r["cgs"].append(cg)
    return out


def one_name(v):
    return "default" if v is None else v


def hist_content(doc):
    out = []
    for h in doc["hist"]:
        r = dict(hist.DEFAULTS)
        r.pop("TestStatus")
        r.pop("UCISVersion")
        r.update({k: h[k] for k in ("LogicalName", "PhysicalName", "Kind")})
        r.update(h["set"])
        r["passed"] = h["status"].strip() in ("true", "1")
        out.append(r)
    return out
