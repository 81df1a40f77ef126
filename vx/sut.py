"""Access to the code under test, through its public API only"""
import ucis
from ucis import (UCIS_OTHER, UCIS_INSTANCE, UCIS_DU_MODULE, UCIS_ENABLED_STMT, UCIS_INST_ONCE,
                  UCIS_SCOPE_UNDER_DU)
from ucis.cover_data import CoverData
from ucis.cover_type_t import CoverTypeT
from ucis.mem.mem_factory import MemFactory
from ucis.scope_type_t import ScopeTypeT
from ucis.source_info import SourceInfo

from . import gen
from .core import Violation

K2T = {"bin": CoverTypeT.CVGBIN, "ignore": CoverTypeT.IGNOREBIN, "illegal": CoverTypeT.ILLEGALBIN}
T2K = {int(v): k for k, v in K2T.items()}
ALLBINS = CoverTypeT.CVGBIN | CoverTypeT.IGNOREBIN | CoverTypeT.ILLEGALBIN
FOREIGN = [CoverTypeT.DEFAULTBIN, CoverTypeT.STMTBIN, CoverTypeT.USERBIN, CoverTypeT.COUNT, CoverTypeT.COVERBIN, CoverTypeT.TOGGLEBIN,
           CoverTypeT.BLOCKBIN, CoverTypeT.ATTEMPTBIN]
DU_FLAGS = UCIS_ENABLED_STMT | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU


def new_xml_db():
    from ucis.rgy.format_rgy import FormatRgy
    return FormatRgy.inst().getDatabaseDesc("xml").fmt_if().create()


FILES = ["file.sv", "File.sv", "/w/file.sv", "file", "a b.sv", "<&>\".v", "__null__file__", "\u00e9.sv", "file.sv ", "top.v", "x.sv"]


class Builder(object):
    """Creates in a database what a model describes"""

    def __init__(self, rng=None, db=None, srcinfo=None):
        self.rng = rng
        self.db = db if db is not None else MemFactory.create()
        # Varies the order of creation and the presence of source information
        self.breadth = rng is not None and rng.random() < 0.4
        self.si = rng is not None and rng.random() < 0.4
        self.fh = [self.db.createFileHandle(f, "/w") for f in rng.sample(FILES if rng.random() < 0.6 else gen.PATHS, rng.randint(1, 4))] if self.si else None
        self.handles = {}
        # Cover items of kinds that are not bins of functional coverage: they count nowhere
        self.noise = db is None and rng is not None and rng.random() < 0.12

    def foreign(self, h):
        if self.noise and self.rng.random() < 0.3:
            d = CoverData(self.rng.choice(FOREIGN), 0)
            d.data, d.goal, d.weight, d.at_least = self.rng.choice([0, 1, 7]), 1, self.rng.choice([1, 3]), self.rng.choice([0, 1, 9])
            h.createNextCover(self.rng.choice(["other", "b0", "a", "x"]), d, self.src(8))

    def src(self, line=1):
        if not self.si or self.rng.random() < 0.1:
            return None
        return SourceInfo(self.rng.choice(self.fh), self.rng.choice([line, line, self.rng.randint(1, 100000), self.rng.randint(1, 100000), 0, -1, 2 ** 31 - 1]),
                          self.rng.choice([0, 1, 2, 3, -1]))

    def build(self, model):
        db = self.db
        du_m = {}
        for inst in model:
            du = du_m.get(inst["du"])
            if du is None and inst["du"] is not None:
                du = db.createScope(inst["du"], self.src(), 1 if self.rng is None else self.rng.choice([1, 1, 3]), UCIS_OTHER, UCIS_DU_MODULE, DU_FLAGS)
                du_m[inst["du"]] = du
            s = db.createInstance(inst["name"], self.src(2), inst["weight"], UCIS_OTHER, UCIS_INSTANCE, du,
                                  UCIS_INST_ONCE)
            if self.breadth:
                cgs = [s.createCovergroup(cg["name"], self.src(3), cg["weight"], UCIS_OTHER) for cg in inst["cgs"]]
                for h, cg in zip(cgs, inst["cgs"]):
                    self.fill(h, cg)
            else:
                for cg in inst["cgs"]:
                    self.fill(s.createCovergroup(cg["name"], self.src(3), cg["weight"], UCIS_OTHER), cg)
        return db

    def fill(self, h, cg):
        # cover instances may be created before or after the coverpoints
        early = self.rng is not None and self.rng.random() < 0.3
        if early:
            self.insts(h, cg)
        cps = []
        for cp in cg["cps"]:
            c = h.createCoverpoint(cp["name"], self.src(4), cp["weight"], UCIS_OTHER)
            cps.append(c)
            if not self.breadth:
                self.bins(c, cp)
        if self.breadth:
            for c, cp in zip(cps, cg["cps"]):
                self.bins(c, cp)
        for cr in cg["crs"]:
            c = h.createCross(cr["name"], self.src(5), cr["weight"], UCIS_OTHER, [cps[i] for i in cr["cps"]])
            self.bins(c, cr)
        if not early:
            self.insts(h, cg)

    def insts(self, h, cg):
        for i in cg["insts"]:
            self.fill(h.createCoverInstance(i["name"], self.src(6), i["weight"], UCIS_OTHER), i)

    def bins(self, h, cp):
        for k, n, al, c in cp["bins"]:
            self.foreign(h)
            h.createBin(n, self.src(7), al, c, n, K2T[k])
        self.foreign(h)


def build(model, rng=None, db=None):
    return Builder(rng, db).build(model)


# --- snapshots -------------------------------------------------------------------------

def snap_bins(c):
    out = []
    for ci in c.coverItems(ALLBINS):
        d = ci.getCoverData()
        out.append((T2K.get(int(d.type), "?%x" % int(d.type)), ci.getName(), d.at_least, d.data))
    return out


def snap_cg(cg, top=True):
    r = {"name": cg.getScopeName(), "weight": cg.getWeight(), "cps": [], "crs": [], "insts": []}
    cps = list(cg.scopes(ScopeTypeT.COVERPOINT))
    for c in cps:
        r["cps"].append({"name": c.getScopeName(), "weight": c.getWeight(), "bins": snap_bins(c)})
    for c in cg.scopes(ScopeTypeT.CROSS):
        idx = []
        for i in range(c.getNumCrossedCoverpoints()):
            x = c.getIthCrossedCoverpoint(i)
            # The crossed coverpoint has to be one of the same covergroup (not merely a namesake)
            idx.append(next((j for j, p in enumerate(cps) if p is x), "foreign:" + str(x.getScopeName())))
        r["crs"].append({"name": c.getScopeName(), "weight": c.getWeight(), "cps": idx, "bins": snap_bins(c)})
    for i in cg.scopes(ScopeTypeT.COVERINSTANCE):
        r["insts"].append(snap_cg(i, False))
    return r


def snap(db):
    out = []
    # The design unit has to be one of the same database (not merely a namesake)
    dus = [x for x in db.scopes(ScopeTypeT.ALL) if ScopeTypeT.DU_ANY(x.getScopeType())]
    for s in db.scopes(ScopeTypeT.INSTANCE):
        du = s.getInstanceDu()
        out.append({"name": s.getScopeName(), "du": None if du is None else du.getScopeName() if any(du is x for x in dus) else "foreign:" + du.getScopeName(),
                    "weight": s.getWeight(),
                    "cgs": [snap_cg(cg) for cg in s.scopes(ScopeTypeT.COVERGROUP)]})
    return out


HIST_GETTERS = ["LogicalName", "PhysicalName", "Kind", "TestStatus", "SimTime", "TimeUnit", "RunCwd", "CpuTime",
                "Seed", "Cmd", "Args", "Compulsory", "Date", "UserName", "Cost", "ToolCategory", "UCISVersion",
                "VendorId", "VendorTool", "VendorToolVersion", "SameTests", "Comment"]


def snap_hist(db):
    from ucis.history_node_kind import HistoryNodeKind
    return [{g: getattr(h, "get" + g)() for g in HIST_GETTERS} for h in db.historyNodes(HistoryNodeKind.ALL)]


def deep(obj):
    """Everything observable in a database: used to show that it did not change"""
    return (snap(obj), snap_hist(obj), deep_scope(obj))


def deep_scope(s):
    si = s.getSourceInfo()
    r = [s.getScopeName(), int(s.getScopeType()), s.getWeight(), s.getGoal(),
         (si.file.getFileName() if si is not None and si.file is not None else None,
          (si.line, si.token) if si is not None else None)]
    for g in ("AtLeast", "AutoBinMax", "DetectOverlap", "Strobe", "Comment", "PerInstance", "MergeInstances"):
        f = getattr(s, "get" + g, None)
        if f is not None:
            r.append((g, f()))
    items = []
    for ci in s.coverItems(CoverTypeT(0xFFFFFFFFFFFFFFFF)):
        d = ci.getCoverData()
        items.append((ci.getName(), int(d.type), int(d.flags), d.data, d.at_least, d.goal, d.weight))
    r.append(items)
    r.append([deep_scope(c) for c in s.scopes(ScopeTypeT.ALL)])
    return r
