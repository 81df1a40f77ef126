"""C07: the XML that is written is a valid interchange document which states the database's content"""
import os
import time

from vx import gen, hist, sut, work, xmlref
from vx.checks import c06
from vx.core import must_raise, sut as must

PROP = "C07"
LEVEL = "exploration"
HUGE = ["bins", "cgs", "cps", "crs", "db", "insts", "hist"]
QUICK = 12000
REQUIRED = ["documents_valid", "documents_compared", "history_compared", "rejections_observed", "zones", "files_compared"]
RULE = ("Generated databases (hostile and duplicate names, all kinds of bins, crosses, cover instances, source files, history "
        "nodes with every attribute, several time zones and user names) are written by the real writer; each document is "
        "validated by libxml2 against a pinned copy of the standard's schema, re-parsed by expat and compared, "
        "element by element, with the model. Names that XML cannot carry have to be refused, leaving the file alone. "
        "Non-trivial: at least one bin.")
ASSUMPTIONS = ["every covergroup has a coverpoint, every coverpoint and cross a bin, the database an instance "
               "(otherwise: see known findings)"]

BAD = ["\x00", "a\x01b", "\x08", "\x0b", "\x1f", "\ufffe", "\uffff", "\ud800", "x\udfff"]
ZONES = ["UTC", "America/New_York", "Australia/Lord_Howe", "Asia/Kolkata", "Pacific/Apia", "CET-1CEST,M3.5.0,M10.5.0/3",
         "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "YYY+12"]


class Files(sut.Builder):
    """Scopes refer to several source files"""

    def __init__(self, rng, db, names):
        super().__init__(rng, db)
        self.fhs = [self.db.createFileHandle(n, "/w") for n in names]
        self.si = bool(names)
        self.used = []
        self.line = 0

    def src(self, line=1):
        if not self.si or self.rng.random() < 0.3:
            return None
        fh = self.rng.choice(self.fhs)
        if len(self.fhs) > 50 and line != 7:
            # each in its turn
            fh = self.fhs[len(self.used) % len(self.fhs)]
        if line != 7 and fh not in self.used:       # (7: bins)
            self.used.append(fh)
        self.line += 1
        return sut.SourceInfo(fh, self.line if self.rng.random() < 0.8 else self.rng.choice([0, -1, 2 ** 31]), self.rng.randint(-1, 3))


def attrs(h):
    """Attributes that a written history node has"""
    from ucis.history_node_kind import HistoryNodeKind
    m = {"LogicalName": "logicalName", "PhysicalName": "physicalName", "SimTime": "simtime", "TimeUnit": "timeunit",
         "RunCwd": "runCwd", "CpuTime": "cpuTime", "Seed": "seed", "Cmd": "cmd", "Args": "args",
         "Compulsory": "compulsory", "UserName": "userName", "Cost": "cost", "ToolCategory": "toolCategory",
         "UCISVersion": "ucisVersion", "VendorId": "vendorId", "VendorTool": "vendorTool",
         "VendorToolVersion": "vendorToolVersion", "SameTests": "sameTests", "Comment": "comment"}
    v = dict(hist.DEFAULTS)
    v.update({k: h[k] for k in ("LogicalName", "PhysicalName")})
    v.update(h["set"])
    out = {}
    for k, a in m.items():
        x = v[k]
        if x is None or (not isinstance(x, str) and x < 0):
            continue
        out[a] = x
    out["testStatus"] = v["TestStatus"] == 1
    d = v["Date"]
    out["date"] = "%s-%s-%sT%s:%s:%s" % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14])
    return out


def read_attrs(e):
    out = dict(e)
    out.pop("historyNodeId", None)
    out.pop("kind", None)
    out.pop("parentId", None)
    for k in ("simtime", "cpuTime", "cost"):
        if k in out:
            out[k] = float(out[k])
    if "sameTests" in out:
        out["sameTests"] = int(out["sameTests"])
    out["testStatus"] = out.get("testStatus") in ("true", "1")
    return out


def check(ctx, data, model, hs, files, what):
    v = xmlref.validity(data)
    ctx.check(v is None, "%s: the document is %s", what, v)
    ctx.count("documents_valid")
    try:
        data.decode("utf-8")
    except UnicodeDecodeError as e:
        ctx.fail("%s: not UTF-8: %s" % (what, e))
    d = xmlref.parse(data)
    ctx.equal(xmlref.expected(model), d["db"], what + ": content")
    ctx.count("documents_compared")
    ids = [i for i, _ in d["files"]]
    ctx.check(len(set(ids)) == len(ids), "%s: file identifiers are not unique: %r", what, d["files"])
    ctx.check(d["refs"] <= set(ids), "%s: undefined file identifiers %r", what, d["refs"] - set(ids))
    names = [n for _, n in d["files"]]
    ctx.check(len(set(names)) == len(names), "%s: file listed twice: %r", what, names)
    miss = [f for f in files if f not in names]
    ctx.check(not miss, "%s: source files missing: %r", what, miss)
    ctx.count("files_compared", len(files))
    hids = [h["historyNodeId"] for h in d["hist"]]
    ctx.check(len(set(hids)) == len(hids), "%s: history node ids are not unique", what)
    if hs:
        ctx.equal([attrs(h) for h in hs], [read_attrs(h) for h in d["hist"]], what + ": history nodes")
        ctx.count("history_compared", len(hs))
    else:
        ctx.check(len(d["hist"]) == 1, "%s: placeholder history node expected", what)


def case(ctx):
    rng = ctx.rng
    o = c06.options(rng)
    o.unique = rng.random() < 0.8
    model = gen.gen_db(rng, o)
    ctx.note(model)
    s = gen.count_db(ctx, model)
    ctx.seen(model, s[5] > 0)
    zone, user = os.environ.get("TZ"), os.environ.get("LOGNAME")
    try:
        os.environ["TZ"] = rng.choice(ZONES)
        time.tzset()
        ctx.count("zones")
        os.environ["LOGNAME"] = rng.choice(["root", "a b", "<u&\"'>", "\u00e9\u4e2d", "x"])
        names = rng.sample(gen.PLAIN + gen.HOSTILE + gen.PATHS if rng.random() < 0.7 else gen.PATHS, rng.choice([0, 0, 1, 3, 6]))
        if gen.HUGE or rng.random() < 0.01:
            # more than a thousand
            names = ["%sf%d.sv" % (rng.choice(["", "", "d/", "/x/"]), i) for i in range(rng.choice([60, 1100]))]
            rng.shuffle(names)
        hs = hist.gen_hist(rng)
        xmldb = rng.random() < 0.4
        with must("building a database"):
            b = Files(rng, sut.new_xml_db() if xmldb else sut.MemFactory.create(), names)
            db = b.build(model)
            hist.apply(db, hs)
        how = rng.choice(["path", "stream", "writer"] + (["method"] * 3 if xmldb else []))
        p = c06.write(ctx, db, how)
        with open(p, "rb") as fp:
            data = fp.read()
        check(ctx, data, model, hs, [f.getFileName() for f in b.used], "written (%s)" % how)
        # the same database written again states the same
        if rng.random() < 0.2:
            p2 = c06.write(ctx, db, how)
            with open(p2, "rb") as fp:
                check(ctx, fp.read(), model, hs, [f.getFileName() for f in b.used], "written again")
        # names that XML cannot carry are refused
        if rng.random() < 0.3:
            refuse(ctx, rng, model, hs)
    finally:
        for k, v in (("TZ", zone), ("LOGNAME", user)):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        time.tzset()


def refuse(ctx, rng, model, hs):
    import copy
    bad = rng.choice(BAD)
    m = copy.deepcopy(model)
    hs = copy.deepcopy(hs)
    pos = []
    for i in m:
        pos.append((i, "name"))
        for cg in i["cgs"]:
            for x in (cg["insts"] or [cg]):
                if cg["insts"]:
                    pos.append((cg, "name"))
                pos.append((x, "name"))
                for c in x["cps"] + x["crs"]:
                    pos.append((c, "name"))
                    for j, (k, n, al, v) in enumerate(c["bins"]):
                        pos.append((c["bins"], (j, (k, bad, al, v))))
    for h in hs:
        pos.append((h, "LogicalName"))
        pos.append((h["set"], "Comment"))
    where, key = rng.choice(pos)
    if isinstance(key, tuple):
        where[key[0]] = key[1]
    else:
        where[key] = bad
    xmldb = rng.random() < 0.5
    db = sut.build(m, None, sut.new_xml_db() if xmldb else None)
    hist.apply(db, hs)
    p = ctx.path(".xml")
    old = b"<keep this/>"
    with open(p, "wb") as fp:
        fp.write(old)
    from ucis.xml.xml_factory import XmlFactory
    what = "writing the name %r" % bad
    if xmldb:
        must_raise(ctx, what, db.write, p)
    else:
        must_raise(ctx, what, XmlFactory.write, db, p)
    with open(p, "rb") as fp:
        ctx.check(fp.read() == old, "%s: refused, but the file was changed", what)
    # the failure leaves nothing behind: a good database can still be written
    with must("writing after a refused one"):
        XmlFactory.write(sut.build(model), ctx.path(".xml"))


def known():
    def probe(model):
        def f(ctx):
            return xmlref.validity(work.xml_write(sut.build(model))) is not None
        return f
    def index(ctx):
        cp = lambda n: {"name": n, "weight": 1, "bins": [("bin", "a", 1, 1), ("bin", "b", 1, 1)]}
        cr = {"name": "x", "weight": 1, "cps": [0, 1], "bins": [("bin", "<b,a>", 1, 1)]}
        m = [dict(inst, cgs=[dict(cg, cps=[cp("p"), cp("q")], crs=[cr])])]
        return xmlref.indices(work.xml_write(sut.build(m))) != [["1", "0"]]
    bin_ = {"name": "p", "weight": 1, "bins": []}
    cg = {"name": "g", "weight": 1, "cps": [], "crs": [], "insts": []}
    inst = {"name": "i", "du": "m", "weight": 1, "cgs": []}
    return [("a coverpoint without bins is written as an invalid document",
             probe([dict(inst, cgs=[dict(cg, cps=[bin_])])])),
            ("a covergroup without coverpoints is written as an invalid document", probe([dict(inst, cgs=[cg])])),
            ("a database without instances is written as an invalid document", probe([])),
            ("the bins that a cross bin crosses are not stated by its indices", index)]
