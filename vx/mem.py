"""A shadow of the object model: random programs of calls, and what must be observed after them.

The shadow is a tree of plain objects.  Programs are executed through one or more drivers
(method calls, the C-style functions); every driver works on a database of its own, and
afterwards all of them have to show exactly what the shadow says.
"""
import ucis
from ucis.cover_data import CoverData
from ucis.cover_type_t import CoverTypeT
from ucis.history_node_kind import HistoryNodeKind
from ucis.int_property import IntProperty as IP
from ucis.mem.mem_factory import MemFactory
from ucis.scope_type_t import ScopeTypeT as ST
from ucis.source_info import SourceInfo
from ucis.source_t import SourceT
from ucis.statement_id import StatementId
from ucis.str_property import StrProperty as SP
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT

from . import gen, hist
from .core import Violation, sut as must

DUS = [ST.DU_MODULE, ST.DU_ARCH, ST.DU_PACKAGE, ST.DU_PROGRAM, ST.DU_INTERFACE]
UNSUPPORTED = [ST.BRANCH, ST.EXPR, ST.FSM, ST.PROCESS, ST.BLOCK, ST.ASSERT, ST.COVER]
CTYPES = [c for c in CoverTypeT if bin(int(c)).count("1") == 1] + [CoverTypeT.RESERVEDBIN] * 2 + [
    CoverTypeT(1 << b) for b in (25, 31, 56, 63)]
CALL = CoverTypeT(0xFFFFFFFFFFFFFFFF)
COMMON = [CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN, CoverTypeT.STMTBIN, CoverTypeT.TOGGLEBIN]
FIELDS = ["type", "flags", "data", "at_least", "goal", "weight", "limit", "bitlen"]
# option -> (method suffix, property); kinds of scopes that have it
OPTS = {"atleast": ("AtLeast", IP.CVG_ATLEAST), "autobin": ("AutoBinMax", IP.CVG_AUTOBINMAX),
        "overlap": ("DetectOverlap", IP.CVG_DETECTOVERLAP), "strobe": ("Strobe", IP.CVG_STROBE),
        "perinst": ("PerInstance", IP.CVG_PERINSTANCE), "mergeinst": ("MergeInstances", IP.CVG_MERGEINSTANCES)}
BOOLS = ("overlap", "strobe", "perinst", "mergeinst")
INTS = [0, 1, 2, 7, 64, 100, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 40]


class Node(object):
    def __init__(self, kind, stype, name, weight, src, ndrivers):
        self.kind = kind            # db, du, inst, toggle, cg, ci, cp, cr
        self.stype = stype
        self.name = name
        self.weight = weight
        self.src = src              # None or (file name, line, token)
        self.goal = None            # None: never set
        self.srctype = None
        self.opts = {}
        self.comment = None
        self.kids = []
        self.items = []             # visible cover items
        self.stmt = []              # statement indices of an instance's own items
        self.du = None
        self.crossed = None
        self.h = [None] * ndrivers
        self.initial = [None] * ndrivers

    def group(self):
        return self.kind in ("cg", "ci")

    def cvg(self):
        return self.kind in ("cg", "ci", "cp", "cr")


class Item(object):
    def __init__(self, name, fields, src, n):
        self.name = name
        self.f = dict(fields)
        self.src = src
        self.h = [None] * n


class Hist(object):
    def __init__(self, ln, pn, kind, parent, n):
        self.ln, self.pn, self.kind, self.parent = ln, pn, kind, parent
        self.set = {}
        self.h = [None] * n


class Methods(object):
    """Drives a database through its methods"""
    name = "methods"

    def __init__(self, make=MemFactory.create):
        self.db = make()

    def scope(self, parent, *a):
        return (parent or self.db).createScope(*a)

    def instance(self, parent, *a):
        return (parent or self.db).createInstance(*a)

    def toggle(self, parent, *a):
        return parent.createToggle(*a)

    def cover(self, parent, name, data, src):
        return parent.createNextCover(name, data, src)

    def file(self, name, wd):
        return self.db.createFileHandle(name, wd)

    def hist(self, parent, ln, pn, kind):
        return self.db.createHistoryNode(parent, ln, pn, kind)

    def testdata(self, h, td):
        h.setTestData(td)

    def getint(self, o, idx, p):
        return (self.db if o is None else o).getIntProperty(idx, p)

    def setint(self, o, idx, p, v):
        (self.db if o is None else o).setIntProperty(idx, p, v)

    def getstr(self, o, idx, p):
        return (self.db if o is None else o).getStringProperty(idx, p)

    def setstr(self, o, idx, p, v):
        (self.db if o is None else o).setStringProperty(idx, p, v)

    def write(self, path):
        self.db.write(path, None, True, -1)

    def close(self):
        self.db.close()


class Functions(Methods):
    """Drives a database through the C-style functions"""
    name = "functions"

    def scope(self, parent, *a):
        return ucis.ucis_CreateScope(self.db, parent, *a)

    def instance(self, parent, *a):
        return ucis.ucis_CreateInstance(self.db, parent, *a)

    def toggle(self, parent, *a):
        return ucis.ucis_CreateToggle(self.db, parent, *a)

    def cover(self, parent, name, data, src):
        return ucis.ucis_CreateNextCover(self.db, parent, name, data, src)

    def file(self, name, wd):
        return ucis.ucis_CreateFileHandle(self.db, name, wd)

    def hist(self, parent, ln, pn, kind):
        return ucis.ucis_CreateHistoryNode(self.db, parent, ln, pn, kind)

    def testdata(self, h, td):
        ucis.ucis_SetTestData(self.db, h, td)

    def getint(self, o, idx, p):
        return ucis.ucis_GetIntProperty(self.db, o, idx, p)

    def setint(self, o, idx, p, v):
        ucis.ucis_SetIntProperty(self.db, o, idx, p, v)

    def getstr(self, o, idx, p):
        return ucis.ucis_GetStringProperty(self.db, o, idx, p)

    def setstr(self, o, idx, p, v):
        ucis.ucis_SetStringProperty(self.db, o, idx, p, v)

    def write(self, path):
        r = ucis.ucis_Write(self.db, path, None, 1, -1)
        if r != 0:
            raise Violation("ucis_Write returned %r" % (r,))

    def close(self):
        r = ucis.ucis_Close(self.db)
        if r != 0:
            raise Violation("ucis_Close returned %r" % (r,))


class Machine(object):
    """One shadow database, and the real ones that follow it"""

    def __init__(self, ctx, drivers, props=0.5, covered_only=False):
        self.ctx = ctx
        self.rng = ctx.rng
        self.d = drivers
        self.n = len(drivers)
        self.props = props          # share of options set through properties
        self.covered_only = covered_only    # only functional coverage
        self.odd_dates = False      # in memory, anything goes
        self.anywhere = False       # ... anywhere
        self.icov = []
        self.root = Node("db", ST.RESERVEDSCOPE, "", 1, None, self.n)
        self.root.h = [d.db for d in drivers]
        self.nodes = [self.root]
        self.hists = []
        self.lent = []              # source locations handed over in the current operation
        self.files = {}
        self.names = gen.Namer(ctx.rng, gen.Opts(unique=False))
        self.adopt(self.root)

    # -- helpers

    def adopt(self, node):
        """Records what a new scope says about options that nobody set"""
        for i in range(self.n):
            node.initial[i] = self.options(node, i)

    def options(self, node, i):
        h = node.h[i]
        r = {"goal": h.getGoal()}
        if node.cvg():
            for o in self.optnames(node):
                r[o] = getattr(h, "get" + OPTS[o][0])()
            r["comment"] = h.getComment()
        return r

    def optnames(self, node):
        return ["atleast", "autobin", "overlap", "strobe"] + (["perinst", "mergeinst"] if node.group() else [])

    only = None         # the parent of whatever is created, where possible

    def pick(self, *kinds):
        if self.only is not None and self.only.kind in kinds:
            return self.only
        c = [n for n in self.nodes if n.kind in kinds]
        return self.rng.choice(c) if c else None

    def src(self):
        r = self.rng.random()
        if r < 0.5:
            return None
        if r < 0.6:
            return (None, self.rng.choice([0, 1, 9]), 0)
        return (self.rng.choice(["f.sv", "F.sv", "g.sv", "f", self.rng.choice(gen.PATHS), self.rng.choice(gen.PATHS[:12]), self.names.take()]), self.rng.choice([0, 1, 2, 99999]),
                self.rng.choice([0, 1, 5]))

    def real_src(self, src, i):
        if src is None:
            return None
        f, l, t = src
        fh = None
        if f is not None:
            fh = self.d[i].file(f, self.rng.choice(["/w", None, "."]))
        si = SourceInfo(fh, l, t)
        self.lent.append(si)
        return si

    def op(self, what, fn):
        """Performs one operation on every driver"""
        self.ctx.note(what)
        self.ctx.count("operations")
        out = []
        for i in range(self.n):
            with must("%s (%s)" % (what, self.d[i].name)):
                out.append(fn(i))
        # what was handed over is the caller's again
        for si in self.lent:
            si.file, si.line, si.token = None, si.line + 1000, -7
        self.lent = []
        return out

    def add(self, parent, node, handles):
        node.h = handles
        parent.kids.append(node)
        self.nodes.append(node)
        for i, h in enumerate(handles):
            if h is None:
                raise Violation("creating %s %r returned nothing" % (node.kind, node.name))
        self.adopt(node)

    # -- operations

    def step(self):
        rng = self.rng
        for _ in range(20):
            name = rng.choice(["du", "inst", "inst", "cg", "cg", "ci", "cp", "cp", "cp", "cr", "bin", "bin", "bin", "bin",
                               "bin", "cover", "cover", "incr", "incr", "option", "option", "weight", "goal", "comment",
                               "hist", "histset", "toggle", "stmt", "setstmt", "bad", "srctype", "testdata", "status", "icov"])
            if getattr(self, "do_" + name)() is not False:
                self.ctx.count("op_" + name)
                return

    def new_node(self, kind, stype):
        return Node(kind, stype, self.names.take(), gen.weight(self.rng, None), self.src(), self.n)

    def do_du(self):
        p = self.pick("db", "du") if self.rng.random() < 0.3 else self.root
        n = self.new_node("du", self.rng.choice(DUS))
        fl = self.rng.choice([0, 1, ucis.UCIS_INST_ONCE, ucis.UCIS_ENABLED_STMT | ucis.UCIS_SCOPE_UNDER_DU])
        so = self.rng.choice(list(SourceT))
        hs = self.op("createScope(%r, %s)" % (n.name, n.stype.name), lambda i: self.d[i].scope(
            None if p is self.root else p.h[i], n.name, self.real_src(n.src, i), n.weight, so, n.stype, fl))
        self.add(p, n, hs)

    def do_inst(self):
        p = self.root if self.rng.random() < 0.6 else self.pick("db", "inst", "du")
        n = self.new_node("inst", ST.INSTANCE)
        n.du = self.pick("du") if self.rng.random() < 0.8 else None
        so = self.rng.choice(list(SourceT))
        hs = self.op("createInstance(%r)" % n.name, lambda i: self.d[i].instance(
            None if p is self.root else p.h[i], n.name, self.real_src(n.src, i), n.weight, so, ST.INSTANCE,
            n.du.h[i] if n.du else None, ucis.UCIS_INST_ONCE))
        self.add(p, n, hs)

    def do_cg(self):
        p = self.pick("inst")
        if self.anywhere and self.rng.random() < 0.15:
            p = self.pick("du", "db")
            self.ctx.count("groups_outside_instances")
        if p is None:
            return False
        n = self.new_node("cg", ST.COVERGROUP)
        if self.rng.random() < 0.5:
            hs = self.op("createCovergroup(%r)" % n.name, lambda i: p.h[i].createCovergroup(
                n.name, self.real_src(n.src, i), n.weight, SourceT.SV))
        else:
            hs = self.op("createScope(%r, COVERGROUP)" % n.name, lambda i: self.d[i].scope(
                p.h[i], n.name, self.real_src(n.src, i), n.weight, SourceT.OTHER, ST.COVERGROUP, 0))
        self.add(p, n, hs)

    def do_icov(self):
        if not self.anywhere:
            return False
        name, src = self.names.take(), ("f%d.sv" % self.rng.randint(0, 3), self.rng.choice([0, 1, 99999]), self.rng.choice([0, 1, 5]))

        def f(i):
            db = self.d[i].db
            return db.createCoverInstance(name, StatementId(db.createFileHandle(src[0], None), src[1], src[2]))
        self.icov.append((name, src, self.op("createCoverInstance(%r, %r)" % (name, src), f)))

    def do_ci(self):
        p = self.pick("cg")
        if p is None:
            return False
        n = self.new_node("ci", ST.COVERINSTANCE)
        if self.rng.random() < 0.5:
            hs = self.op("createCoverInstance(%r)" % n.name, lambda i: p.h[i].createCoverInstance(
                n.name, self.real_src(n.src, i), n.weight, SourceT.SV))
        else:
            hs = self.op("createScope(%r, COVERINSTANCE)" % n.name, lambda i: self.d[i].scope(
                p.h[i], n.name, self.real_src(n.src, i), n.weight, SourceT.OTHER, ST.COVERINSTANCE, 0))
        self.add(p, n, hs)

    def do_cp(self):
        p = self.pick("cg", "ci")
        if p is None:
            return False
        n = self.new_node("cp", ST.COVERPOINT)
        if self.rng.random() < 0.5:
            hs = self.op("createCoverpoint(%r)" % n.name, lambda i: p.h[i].createCoverpoint(
                n.name, self.real_src(n.src, i), n.weight, SourceT.SV))
        else:
            hs = self.op("createScope(%r, COVERPOINT)" % n.name, lambda i: self.d[i].scope(
                p.h[i], n.name, self.real_src(n.src, i), n.weight, SourceT.OTHER, ST.COVERPOINT, 0))
        self.add(p, n, hs)

    def do_cr(self):
        p = self.pick("cg", "ci")
        if p is None:
            return False
        cps = [k for k in p.kids if k.kind == "cp"]
        if not cps:
            return False
        n = self.new_node("cr", ST.CROSS)
        n.crossed = [self.rng.choice(cps) for _ in range(self.rng.randint(1, 4))]
        lists = [[c.h[i] for c in n.crossed] for i in range(self.n)]
        hs = self.op("createCross(%r)" % n.name, lambda i: p.h[i].createCross(
            n.name, self.real_src(n.src, i), n.weight, SourceT.SV, lists[i]))
        if self.rng.random() < 0.5:
            for l in lists:         # the caller goes on using its list
                l.clear()
        self.add(p, n, hs)

    def do_bin(self):
        p = self.pick("cp", "cr")
        if p is None:
            return False
        rng = self.rng
        kind = rng.choice(COMMON[:3] + [CoverTypeT.CVGBIN, None])
        al, c = gen.at_least(rng, gen.Opts()), rng.choice([0, 1, 5, 2 ** 32, rng.randint(0, 10 ** 6)])
        it = Item(self.names.take(), {"type": kind if kind is not None else CoverTypeT.CVGBIN, "data": c, "at_least": al},
                  self.src(), self.n)
        args = () if kind is None else (kind,)
        it.h = self.op("createBin(%r, %r, %r)" % (it.name, al, c), lambda i: p.h[i].createBin(
            it.name, self.real_src(it.src, i), al, c, rng.choice([it.name, "x"]), *args))
        p.items.append(it)

    def do_cover(self):
        return self.cover(self.pick("cp", "cr", "cg", "du"))

    def indexed(self, p, it):
        """Items of instances are given by number: the handles are those that an iteration yields"""
        for r in it.h:
            if r != len(p.stmt):
                raise Violation("cover item %d of an instance got the index %r" % (len(p.stmt), r))
        p.stmt.append(None)
        for i in range(self.n):
            all_ = list(p.h[i].coverItems(CALL))
            if len(all_) != len(p.stmt):
                raise Violation("an instance with %d cover items has %d when iterating" % (len(p.stmt), len(all_)))
            it.h[i] = all_[-1]
        self.ctx.count("items_of_instances")

    def cover(self, p):
        if p is None:
            return False
        rng = self.rng
        t = rng.choice(CTYPES) if rng.random() < 0.5 else rng.choice(COMMON)
        fl = rng.choice([0, ucis.UCIS_IS_32BIT, ucis.UCIS_IS_64BIT | ucis.UCIS_HAS_GOAL,
                         ucis.UCIS_IS_32BIT | ucis.UCIS_HAS_GOAL | ucis.UCIS_HAS_WEIGHT])
        f = {"type": t, "flags": fl, "data": 0}
        for k in ("data", "at_least", "goal", "weight", "limit", "bitlen"):
            if rng.random() < 0.6:
                f[k] = rng.choice(INTS)
        it = Item(self.names.take(), f, self.src(), self.n)
        datas = []
        for i in range(self.n):
            d = CoverData(t, fl)
            for k, v in f.items():
                setattr(d, k, v)
            datas.append(d)
        it.h = self.op("createNextCover(%r, %r)" % (it.name, f), lambda i: self.d[i].cover(
            p.h[i], it.name, datas[i], self.real_src(it.src, i)))
        if p.kind in ("inst", "toggle"):
            self.indexed(p, it)
        p.items.append(it)
        if rng.random() < 0.5:
            for d in datas:         # the caller goes on using its object
                d.data += 1000
                d.type = CoverTypeT.PASSBIN
                d.at_least = 77
        elif rng.random() < 0.5:    # ... or passes it for the next item, too
            it2 = Item(self.names.take(), f, it.src, self.n)
            it2.h = self.op("createNextCover(%r) again" % it2.name, lambda i: self.d[i].cover(
                p.h[i], it2.name, datas[i], None))
            it2.src = None
            if p.kind in ("inst", "toggle"):
                self.indexed(p, it2)
            p.items.append(it2)

    def do_incr(self):
        c = [it for n in self.nodes for it in n.items]
        if not c:
            return False
        it = self.rng.choice(c)
        if self.rng.random() < 0.5:
            self.op("incrementCover(%r)" % it.name, lambda i: it.h[i].incrementCover())
            it.f["data"] += 1
        else:
            amt = self.rng.choice([0, 1, 2, 1000, 2 ** 33])
            self.op("incrementCover(%r, %d)" % (it.name, amt), lambda i: it.h[i].incrementCover(amt))
            it.f["data"] += amt

    def do_option(self, n=None):
        burst = n is None and self.rng.random() < 0.2
        n = n or self.pick("cg", "ci", "cp", "cr")
        if n is None:
            return False
        if burst:   # options that affect each other, changed and changed back
            for _ in range(self.rng.choice([3, 6, 12])):
                self.do_option(n) if self.rng.random() < 0.7 else self.do_comment(n)
            return
        o = self.rng.choice(self.optnames(n))
        v = self.rng.randint(0, 1) if o in BOOLS else self.rng.choice(INTS)
        m, p = OPTS[o]
        if self.rng.random() < self.props:
            self.op("%s property of %r = %r" % (p.name, n.name, v), lambda i: self.d[i].setint(n.h[i], -1, p, v))
        else:
            self.op("set%s of %r = %r" % (m, n.name, v),
                    lambda i: getattr(n.h[i], "set" + m)(bool(v) if o in BOOLS else v))
        n.opts[o] = v

    def do_weight(self):
        n = self.rng.choice(self.nodes)
        v = self.rng.choice(INTS)
        if self.rng.random() < self.props:
            self.op("weight property of %r = %d" % (n.name, v),
                    lambda i: self.d[i].setint(None if n is self.root else n.h[i], -1, IP.SCOPE_WEIGHT, v))
        else:
            self.op("setWeight of %r = %d" % (n.name, v), lambda i: n.h[i].setWeight(v))
        n.weight = v

    def do_goal(self):
        n = self.rng.choice(self.nodes)
        v = self.rng.choice(INTS + [-1, -5, 101])
        if self.rng.random() < self.props:
            p = self.rng.choice([IP.SCOPE_GOAL, IP.SCOPE_GOAL, IP.COVER_GOAL])
            self.op("%s property of %r = %d" % (p.name, n.name, v),
                    lambda i: self.d[i].setint(None if n is self.root else n.h[i], -1, p, v))
        else:
            self.op("setGoal of %r = %d" % (n.name, v), lambda i: n.h[i].setGoal(v))
        n.goal = v

    def do_srctype(self):
        n = self.rng.choice(self.nodes)
        v = int(self.rng.choice(list(SourceT)))
        self.op("source type property of %r = %d" % (n.name, v),
                lambda i: self.d[i].setint(n.h[i], -1, IP.SCOPE_SOURCE_TYPE, v))
        n.srctype = v

    def do_comment(self, n=None):
        n = n or self.pick("cg", "ci", "cp", "cr")
        if n is None:
            return False
        v = self.names.take() if self.rng.random() < 0.8 else ""
        if self.rng.random() < self.props:
            self.op("comment property of %r = %r" % (n.name, v), lambda i: self.d[i].setstr(n.h[i], -1, SP.COMMENT, v))
        else:
            self.op("setComment of %r = %r" % (n.name, v), lambda i: n.h[i].setComment(v))
        n.comment = v

    def do_hist(self):
        rng = self.rng
        kind = rng.choice([HistoryNodeKind.TEST, HistoryNodeKind.TEST, HistoryNodeKind.MERGE, None, HistoryNodeKind.NONE])
        par = rng.choice(self.hists) if self.hists and rng.random() < 0.3 else None
        h = Hist(self.names.take(), rng.choice([None, self.names.take()]), kind, par, self.n)
        h.h = self.op("createHistoryNode(%r, %r, %r)" % (h.ln, h.pn, kind), lambda i: self.d[i].hist(
            par.h[i] if par else None, h.ln, h.pn, kind))
        self.hists.append(h)

    def do_histset(self):
        if not self.hists:
            return False
        h = self.rng.choice(self.hists)
        src = hist.gen_hist(self.rng, 1)[0]["set"]
        if self.odd_dates and self.rng.random() < 0.3:
            src["Date"] = self.rng.choice(["", "2020-01-02", "today", None, "20200102", "20200102030405.5"])
        for k, v in src.items():
            if self.rng.random() < 0.4:
                vv = TestStatusT(v) if k == "TestStatus" else v
                self.op("history node %r: set%s(%r)" % (h.ln, k, vv), lambda i: getattr(h.h[i], "set" + k)(vv))
                h.set[k] = v

    def do_status(self):
        if not self.hists:
            return False
        h = self.rng.choice(self.hists)
        v = self.rng.randint(1, 6)
        self.op("history node %r: TEST_STATUS = %d" % (h.ln, v), lambda i: self.d[i].setint(h.h[i], -1, IP.TEST_STATUS, v))
        h.set["TestStatus"] = v

    def do_testdata(self):
        if not self.hists:
            return False
        rng = self.rng
        h = rng.choice(self.hists)
        kw = {"teststatus": TestStatusT(rng.randint(1, 6)), "toolcategory": self.names.take(), "date": hist.date(rng)}
        exp = {"TestStatus": int(kw["teststatus"]), "ToolCategory": kw["toolcategory"], "Date": kw["date"],
               "SimTime": 0.0, "TimeUnit": "ns", "RunCwd": ".", "CpuTime": 0.0, "Seed": "0", "Cmd": "", "Args": "",
               "Compulsory": 0, "UserName": "user", "Cost": 0.0}
        for a, g in (("simtime", "SimTime"), ("timeunit", "TimeUnit"), ("runcwd", "RunCwd"), ("cputime", "CpuTime"),
                     ("seed", "Seed"), ("cmd", "Cmd"), ("args", "Args"), ("compulsory", "Compulsory"),
                     ("user", "UserName"), ("cost", "Cost")):
            if rng.random() < 0.6:
                kw[a] = rng.choice(hist.FLOATS) if a in ("simtime", "cputime", "cost") else (
                    rng.choice([0, 1]) if a == "compulsory" else self.names.take())
                exp[g] = kw[a]
        tds = [TestData(**kw) for _ in range(self.n)]
        self.op("history node %r: test data %r" % (h.ln, kw), lambda i: self.d[i].testdata(h.h[i], tds[i]))
        h.set.update(exp)
        if rng.random() < 0.5:
            for td in tds:
                td.seed = "changed"
                td.teststatus = TestStatusT.MISSING

    def do_toggle(self):
        if self.covered_only:
            return False
        p = self.pick("inst")
        if p is None:
            return False
        n = Node("toggle", ST.TOGGLE, self.names.take(), 0, None, self.n)
        hs = self.op("createToggle(%r)" % n.name, lambda i: self.d[i].toggle(
            p.h[i], n.name, n.name + "_c", 0, ucis.UCIS_TOGGLE_METRIC_2STOGGLE, ucis.UCIS_TOGGLE_TYPE_REG,
            ucis.UCIS_TOGGLE_DIR_INTERNAL))
        self.add(p, n, hs)

    def do_stmt(self):
        return self.cover(self.pick("inst", "toggle"))

    def do_setstmt(self):
        c = [n for n in self.nodes if n.stmt]
        if not c:
            return False
        n = self.rng.choice(c)
        k = self.rng.randrange(len(n.stmt))
        v = self.rng.choice(INTS)
        self.op("statement index of item %d of %r = %d" % (k, n.name, v),
                lambda i: self.d[i].setint(n.h[i], k, IP.STMT_INDEX, v))
        n.stmt[k] = v

    def do_bad(self):
        """Rejected calls; they must not leave anything behind"""
        rng = self.rng
        n = rng.choice(self.nodes)
        what = rng.choice(["scope", "prop", "stmt", "status"])
        bad = rng.choice(UNSUPPORTED)

        def f(i):
            d, h = self.d[i], n.h[i]
            if what == "scope":
                d.scope(h, "bad", None, 1, SourceT.SV, bad, 0)
            elif what == "prop":
                d.setint(h, -1, IP.FSM_STATEVAL, 5)
            elif what == "stmt":
                if n.kind in ("inst", "toggle"):
                    d.setint(h, len(n.stmt) + rng.randint(0, 3), IP.STMT_INDEX, 5)
                else:
                    d.setint(h, 0, IP.STMT_INDEX, 5)
            elif self.hists:
                d.setint(rng.choice(self.hists).h[i], -1, IP.TEST_STATUS, rng.choice([99, 7, 0, -1]))
            else:
                raise ValueError()
        for i in range(self.n):
            self.ctx.count("rejections_expected")
            try:
                f(i)
            except Exception:
                self.ctx.count("rejections_observed")
                continue
            raise Violation("a call that cannot be carried out (%s on a %s) was accepted" % (what, n.kind))

    # -- observation

    def verify(self, i=None):
        for k in range(self.n) if i is None else [i]:
            self.verify_db(k)

    def verify_db(self, i):
        ctx = self.ctx
        ctx.count("databases_observed")
        self.verify_node(self.root, i)
        db = self.d[i].db
        for kind in (HistoryNodeKind.ALL, HistoryNodeKind.TEST, HistoryNodeKind.MERGE):
            exp = [h for h in self.hists if kind == HistoryNodeKind.ALL or h.kind == kind]
            got = list(db.historyNodes(kind)) if self.rng.random() < 0.5 else db.getHistoryNodes(kind)
            ctx.check(len(exp) == len(got) and all(e.h[i] is g for e, g in zip(exp, got)),
                      "history nodes of kind %s: expected %r, observed %r", kind.name, [h.ln for h in exp],
                      [h.getLogicalName() for h in got])
        if self.anywhere:
            got = list(db.getCoverInstances())
            self.same([h[i] for _, _, h in self.icov], got, "cover instances of the database")
            for (name, src, _), g in zip(self.icov, got):
                s = g.getId()
                ctx.equal((name,) + src, (g.getName(), s.getFile().getFileName(), s.getLine(), s.getItem()), "cover instance of the database")
            ctx.check(len({g.getKey() for g in got}) == len(got), "keys of the cover instances of the database: %r", [g.getKey() for g in got])
            ctx.count("icov_observed", len(got))
        for h in self.hists:
            r = h.h[i]
            ctx.count("history_observed")
            ctx.equal((h.ln, h.pn, h.kind), (r.getLogicalName(), r.getPhysicalName(), r.getKind()), "history node")
            ctx.check(r.getParent() is (h.parent.h[i] if h.parent else None), "parent of history node %r", h.ln)
            exp = dict(hist.DEFAULTS)
            exp.update(h.set)
            got = {k: getattr(r, "get" + k)() for k in exp}
            got["TestStatus"] = int(got["TestStatus"])
            ctx.equal(exp, got, "history node %r" % h.ln)
            ctx.equal(exp["TestStatus"], self.d[i].getint(r, -1, IP.TEST_STATUS), "status property of %r" % h.ln)

    def verify_node(self, n, i):
        ctx, rng = self.ctx, self.rng
        h, d = n.h[i], self.d[i]
        ctx.count("scopes_observed")
        what = "%s %r (%s)" % (n.kind, n.name, d.name)
        ctx.equal([n.name, int(n.stype), n.weight], [h.getScopeName(), int(h.getScopeType()), h.getWeight()], what)
        ctx.equal(n.weight, d.getint(h, -1, IP.SCOPE_WEIGHT), what + ": weight property")
        exp = dict(n.initial[i])
        if n.goal is not None:
            exp["goal"] = n.goal
        for o, v in n.opts.items():
            exp[o] = bool(v) if o in BOOLS else v
        if n.comment is not None:
            exp["comment"] = n.comment
        got = self.options(n, i)
        for o in BOOLS:
            if o in got:
                exp[o], got[o] = bool(exp[o]), bool(got[o])
        ctx.equal(exp, got, what + ": options")
        for p in (IP.SCOPE_GOAL, IP.COVER_GOAL):
            ctx.equal(exp["goal"], d.getint(h, -1, p), what + ": goal property")
        if n.srctype is not None:
            ctx.equal(n.srctype, d.getint(h, -1, IP.SCOPE_SOURCE_TYPE), what + ": source type")
        if n.cvg():
            for o in self.optnames(n):
                ctx.equal(int(exp[o]), int(d.getint(h, -1, OPTS[o][1])), "%s: %s property" % (what, o))
            ctx.equal(exp["comment"], d.getstr(h, -1, SP.COMMENT), what + ": comment property")
            ctx.count("options_observed")
        si = h.getSourceInfo()
        if n.src is None:
            ctx.check(si is None or si.file is None, "%s: source information nobody gave", what)
        else:
            ctx.equal(list(n.src), [si.file.getFileName() if si.file is not None else None, si.line, si.token],
                      what + ": source information")
        if n.kind == "inst":
            ctx.check(h.getInstanceDu() is (n.du.h[i] if n.du else None), "%s: design unit", what)
        if n.kind == "cr":
            ctx.equal(len(n.crossed), h.getNumCrossedCoverpoints(), what + ": number of crossed coverpoints")
            for k, c in enumerate(n.crossed):
                ctx.check(h.getIthCrossedCoverpoint(k) is c.h[i], "%s: crossed coverpoint %d", what, k)
            ctx.count("crosses_observed")
        for k, v in enumerate(n.stmt):
            if v is not None:
                ctx.equal(v, d.getint(h, k, IP.STMT_INDEX), "%s: statement index of item %d" % (what, k))
                ctx.count("statements_observed")
        # children and cover items, under masks, in creation order
        masks = [ST.ALL, rng.choice([ST.COVERGROUP, ST.COVERPOINT, ST.CROSS, ST.COVERINSTANCE, ST.INSTANCE, ST.TOGGLE]),
                 ST.COVERPOINT | ST.CROSS, ST.INSTANCE | ST.DU_MODULE | ST.DU_ARCH]
        for m in masks:
            exp = [k.h[i] for k in n.kids if int(k.stype) & int(m)]
            self.same(exp, self.iterate(lambda: h.scopes(m), len(exp)), "%s: scopes(%s)" % (what, m))
            ctx.count("iterations")
        for m in (CALL, CoverTypeT(0xFFFFFFFF), CoverTypeT.USERBITS, CoverTypeT.RESERVEDBIN, CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN | CoverTypeT.ILLEGALBIN,
                  rng.choice(CTYPES), rng.choice(CTYPES) | CoverTypeT.CVGBIN):
            items = [it for it in n.items if int(it.f["type"]) & int(m)]
            self.same([it.h[i] for it in items], self.iterate(lambda: h.coverItems(m), len(items)),
                      "%s: coverItems(%s)" % (what, m))
            ctx.count("iterations")
        for it in n.items:
            r = it.h[i]
            cd = r.getCoverData()
            ctx.equal((it.name, {k: int(v) for k, v in it.f.items()}),
                      (r.getName(), {k: int(getattr(cd, k)) for k in it.f}), "%s: cover item" % what)
            si = r.getSourceInfo()
            if it.src is None:
                ctx.check(si is None or si.file is None, "%s: item %r: source information nobody gave", what, it.name)
            else:
                ctx.equal(list(it.src), [si.file.getFileName() if si.file is not None else None, si.line, si.token],
                          "%s: item %r: source information" % (what, it.name))
            ctx.count("items_observed")
        for k in n.kids:
            self.verify_node(k, i)

    def iterate(self, mk, n):
        """Several ways of consuming an iterator; others are in progress at the same time"""
        r = self.rng.random()
        if r < 0.4:
            return list(mk())
        if r < 0.7:
            a, b = iter(mk()), iter(mk())
            next(b, None)
            out = list(a)
            rest = list(b)
            if len(rest) != max(0, len(out) - 1):
                raise Violation("iterators over the same scope disturb each other")
            return out
        out, outer = [], mk()
        for x in outer:
            out.append(x)
            inner = list(mk())
            if len(inner) != n:
                raise Violation("a nested iteration yields %d elements, not %d" % (len(inner), n))
            if len(out) > n:
                break
        return out

    def same(self, exp, got, what):
        self.ctx.count("assertions")
        if len(exp) != len(got) or any(e is not g for e, g in zip(exp, got)):
            def nm(x):
                f = getattr(x, "getScopeName", None) or getattr(x, "getName", None)
                return f() if f else repr(x)
            raise Violation("%s: expected %r, observed %r" % (what, [nm(x) for x in exp], [nm(x) for x in got]))
