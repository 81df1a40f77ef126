"""C17: native libraries receive and return exactly the data of the program"""
import ctypes
import json
import os
import subprocess
import sys

import ucis
from ucis.cover_data import CoverData
from ucis.cover_flags_t import CoverFlagsT as CF
from ucis.cover_type_t import CoverTypeT
from ucis.history_node_kind import HistoryNodeKind
from ucis.int_property import IntProperty as IP
from ucis.scope_type_t import ScopeTypeT as ST
from ucis.source_info import SourceInfo
from ucis.str_property import StrProperty as SP
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT
from vx import gen, hist
from vx.core import VERIF, Violation, must_raise, sut as must

PROP = "C17"
LEVEL = "fault_enumeration"
QUICK = 3500
NATIVE = True
REQUIRED = ["native_objects", "native_items", "states_compared", "queries_without_effect", "rejections_observed", "iterations",
            "partial_iterations", "test_data_compared", "properties_set", "op_cross", "op_toggle", "op_vector", "via_functions", "via_methods",
            "op_write", "op_instance", "two_databases", "masks_64_bit", "source_locations"]
RULE = ("Random programs run on the native back-end, through methods and C-style functions, against a library compiled for this "
        "check that follows the standard's header and keeps everything it is told. Its state is compared with the "
        "program; queries have to return it and to leave it alone; single calls of the library are made to fail and have "
        "to raise; iterators have to be released. A part of the programs runs under the address and undefined-behaviour "
        "sanitizers. Non-trivial: ten or more calls.")
ASSUMPTIONS = ["the library follows the standard's C header", "integers fit the types of the C interface; text has no NUL",
               "queries the native back-end does not implement are not judged"]
MASK = 2 ** 64 - 1
U32 = 2 ** 32 - 1
_lib = None


def compile_(out, *flags):
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-g", "-shared", "-fPIC", "-o", out] + list(flags) +
                       [os.path.join(VERIF, "native", "mockucis.cpp")], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("compiling the library: " + r.stderr[:2000])


def setup(scratch_root):
    compile_(os.path.join(scratch_root, "mockucis.so"))


def attach(path):
    """The control functions of the library; the code under test loads it by itself"""
    global _lib
    from ucis.lib.LibFactory import LibFactory
    sys.unraisablehook = lambda *a: None
    _lib = ctypes.CDLL(path)
    _lib.mock_dump.restype = ctypes.c_char_p
    with must("loading the library"):
        LibFactory.load_ucis_library(path)


def worker_init(scratch_root):
    attach(os.path.join(scratch_root, "mockucis.so"))


def dump():
    return json.loads(_lib.mock_dump().decode())


def hx(s):
    return None if s is None else s.encode().hex()


class O(object):
    """What the library has to hold for one object"""

    def __init__(self, kind, h, **e):
        self.kind, self.h = kind, h
        self.e = dict(db=None, parent=-1, name=None, name2=None, src=None, weight=0, source=0, type=0, flags=0, du=-1,
                      t=[0, 0, 0], points=[], kids=[])
        self.e.update(e)
        self.items = []
        self.ip = self.sp = None
        self.td = None
        self.what = None
        self.line = None


class Program(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.objs = []
        self.writes = []
        self.n = 0
        self.lines = 0
        self.iters = []
        _lib.mock_reset()

    def functions(self):
        f = self.rng.random() < 0.5
        self.ctx.count("via_functions" if f else "via_methods")
        return f

    def name(self):
        rng = self.rng
        if rng.random() < 0.08:
            return rng.choice(gen.PATHS + ["x" * 5000, "\u00e9" * 70, "\u4e2d\u6587" * 300, "\U0001f600" * 65])
        return (rng.choice(gen.HOSTILE) if rng.random() < 0.4 else rng.choice(gen.PLAIN)) + ("" if rng.random() < 0.7 else str(rng.randrange(9)))

    def note(self, *a):
        self.n += 1
        self.ctx.note(a)

    # --- creation, possibly made to fail ---
    def call(self, what, fn):
        """Returns the result, or None when the call was made to fail"""
        if self.rng.random() < 0.08:
            before = dump()
            _lib.mock_fail(1)
            must_raise(self.ctx, what + " that the library rejects", fn)
            _lib.mock_fail(0)
            after = dump()
            for k in ("objs", "writes", "muts", "iters", "errors"):
                self.ctx.equal(before[k], after[k], "%s of the library after a rejected call (%s)" % (k, what))
            return None
        with must(what):
            return fn()

    def add(self, kind, h, what, **e):
        o = O(kind, h, **e)
        o.id = len(self.objs)
        o.what = what
        if o.e["db"] is None:
            o.e["db"] = o.id
        if o.e["parent"] >= 0 and kind in "SIXT":
            self.objs[o.e["parent"]].e["kids"].append(o.id)
        self.objs.append(o)
        d = dump()
        self.ctx.check(len(d["objs"]) == len(self.objs), "%s: the library holds %d objects instead of %d", what,
                       len(d["objs"]), len(self.objs))
        o.ip, o.sp = d["objs"][o.id]["ip"], d["objs"][o.id]["sp"]     # defaults set on creation
        self.ctx.count("native_objects")
        return o

    def src(self, db):
        rng = self.rng
        r = rng.random()
        if r < 0.25:
            return None, None
        fs = [o for o in self.objs if o.kind == "F" and o.e["db"] == db.id]
        f = rng.choice(fs) if fs and r < 0.85 else None
        self.lines += 1
        line, token = self.lines + rng.choice([0, 1000, 2 ** 30]), rng.choice([0, 1, 77, 2 ** 31 - 1, -1])
        if rng.random() < 0.1:
            line = rng.choice([0, -1, 2 ** 31 - 1])
        self.ctx.count("source_locations")
        return SourceInfo(f.h if f else None, line, token), [f.id if f else -1, line, token]

    def pick(self, f):
        l = [o for o in self.objs if f(o)]
        return self.rng.choice(l) if l else None

    def dbof(self, o):
        return self.objs[o.e["db"]]

    def open(self):
        from ucis.lib.LibFactory import LibFactory
        rng = self.rng
        file = None if rng.random() < 0.6 else self.name() or "f"
        h = self.call("opening", (lambda: LibFactory.create()) if file is None and rng.random() < 0.5 else lambda: LibFactory.create(file))
        if h is not None:
            o = self.add("D", h, "database", name=hx(file))
            if file is not None:
                d = dump()
                self.ctx.equal({}, d["objs"][o.id]["ip"], "properties of a database after opening its file")
        self.note("open", file)

    def scope_parent(self):
        return self.pick(lambda o: o.kind in "DSI" and o.what in ("database", "scope", "instance"))

    def step(self):
        ops = self.OPS
        if not any(o.kind == "D" for o in self.objs):
            self.open()
            return
        op = self.rng.choices([x for x, _ in ops], [w for _, w in ops])[0]
        getattr(self, "op_" + op)()
        self.ctx.count("op_" + op)

    OPS = [("scope", 3), ("instance", 2), ("toggle", 1), ("covergroup", 3), ("coverinst", 2), ("coverpoint", 4), ("cross", 2), ("bin", 6),
           ("cover", 3), ("vector", 1), ("file", 1.5), ("history", 2), ("testdata", 2), ("intprop", 2), ("strprop", 1.5),
           ("option", 3), ("write", 0.5), ("close", 0.2), ("iterate", 3), ("queries", 2), ("open", 0.4)]

    def op_open(self):
        if sum(o.kind == "D" for o in self.objs) < 3:
            self.open()

    def common(self, p):
        db = self.dbof(p)
        s, es = self.src(db)
        rng = self.rng
        return db, self.name(), s, es, rng.choice([0, 1, 3, 100, 2 ** 31 - 1, -1]), rng.choice(list(ucis.SourceT))

    def op_scope(self):
        p = self.scope_parent()
        db, name, s, es, w, source = self.common(p)
        t = self.rng.choice(list(ST))
        if bin(int(t)).count("1") != 1:
            return
        flags = self.rng.choice([0, 1, 0x100, 2 ** 31 - 1, 0x2000000])
        nm = None if self.rng.random() < 0.03 else name
        a = (nm, s, w, source, t, flags)
        if self.functions():
            f = lambda: ucis.ucis_CreateScope(db.h, None if p.kind == "D" else p.h, *a)
        else:
            f = lambda: p.h.createScope(*a)
        self.note("scope", p.id, nm, es, w, int(source), int(t), flags)
        h = self.call("creating a scope", f)
        if h is not None:
            self.add("S", h, "scope", db=db.id, parent=p.id, name=hx(nm), src=es, weight=w, source=int(source), type=int(t), flags=flags)

    def op_instance(self):
        p = self.scope_parent()
        db, name, s, es, w, source = self.common(p)
        du = self.pick(lambda o: o.kind == "S" and o.what == "scope" and o.e["db"] == db.id) if self.rng.random() < 0.8 else None
        flags = self.rng.choice([0, 1, 0x2000000])
        a = (name, s, w, source, ST.INSTANCE, du.h if du else None, flags)
        if self.functions():
            f = lambda: ucis.ucis_CreateInstance(db.h, None if p.kind == "D" else p.h, *a)
        else:
            f = lambda: p.h.createInstance(*a)
        self.note("instance", p.id, name, es, w, int(source), du and du.id, flags)
        h = self.call("creating an instance", f)
        if h is not None:
            self.add("I", h, "instance", db=db.id, parent=p.id, name=hx(name), src=es, weight=w, source=int(source), type=int(ST.INSTANCE),
                     flags=flags, du=du.id if du else -1)

    def op_toggle(self):
        p = self.scope_parent()
        db = self.dbof(p)
        rng = self.rng
        name, canon = self.name(), None if rng.random() < 0.2 else self.name()
        m, t, d = (rng.choice(list(x)) for x in (ucis.ToggleMetricT, ucis.ToggleTypeT, ucis.ToggleDirT))
        a = (name, canon, rng.choice([0, 5, 2 ** 31]), m, t, d)
        if self.functions():
            f = lambda: ucis.ucis_CreateToggle(db.h, None if p.kind == "D" else p.h, *a)
        else:
            f = lambda: p.h.createToggle(*a)
        self.note("toggle", p.id, *a)
        h = self.call("creating a toggle", f)
        if h is not None:
            self.add("T", h, "toggle", db=db.id, parent=p.id, name=hx(name), name2=hx(canon), flags=a[2], t=[int(m), int(t), int(d)], type=1)

    def cvg(self, what, kind, p, make, **e):
        db, name, s, es, w, source = self.common(p)
        self.note(what, p.id, name, es, w, int(source))
        h = self.call("creating a " + what, lambda: make(name, s, w, source))
        if h is not None:
            return self.add(kind, h, what, db=db.id, parent=p.id, name=hx(name), src=es, weight=w, source=int(source), **e)

    def op_covergroup(self):
        p = self.scope_parent()
        self.cvg("covergroup", "S", p, p.h.createCovergroup, type=int(ST.COVERGROUP), flags=None)

    def op_coverinst(self):
        p = self.pick(lambda o: o.what == "covergroup")
        if p:
            self.cvg("coverinst", "S", p, p.h.createCoverInstance, type=int(ST.COVERINSTANCE), flags=None)

    def groups(self):
        return self.pick(lambda o: o.what in ("covergroup", "coverinst"))

    def op_coverpoint(self):
        p = self.groups()
        if p:
            self.cvg("coverpoint", "S", p, p.h.createCoverpoint, type=int(ST.COVERPOINT), flags=None)

    def op_cross(self):
        p = self.groups()
        if not p:
            return
        cps = [self.objs[k] for k in p.e["kids"] if self.objs[k].what == "coverpoint"]
        cps = [self.rng.choice(cps) for _ in range(self.rng.choice([1, 2, 2, 3, 4, 5, 9, 16, 33, 70]))] if cps else []
        self.cvg("cross", "X", p, lambda n, s, w, so: p.h.createCross(n, s, w, so, [c.h for c in cps]),
                 type=0x8000, points=[c.id for c in cps])

    def op_bin(self):
        p = self.pick(lambda o: o.what in ("coverpoint", "cross"))
        if not p:
            return
        rng = self.rng
        kind = rng.choice([CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN])
        n, al = rng.choice([0, 1, 2, 5, 2 ** 31 - 1, 2 ** 31, U32, 2 ** 32, 2 ** 53 + 1, MASK]), rng.choice([1, 1, 2, 10])
        s, es = self.src(self.dbof(p))
        name = self.name()
        self.note("bin", p.id, name, es, al, n, int(kind))
        kw = {} if kind == CoverTypeT.CVGBIN and rng.random() < 0.5 else {"kind": kind}
        h = self.call("creating a bin", lambda: p.h.createBin(name, s, al, n, name, **kw))
        if h is not None:
            p.items.append(dict(name=hx(name), src=es, type=int(kind), data=n, vec=""))
            self.ctx.count("native_items")

    def cover(self, vector):
        p = self.pick(lambda o: o.kind in "SIXTD")
        rng = self.rng
        t = rng.choice(list(CoverTypeT))
        if bin(int(t)).count("1") != 1:
            return
        extra = rng.choice([0, int(CF.HAS_GOAL), int(CF.HAS_WEIGHT), 0x18, 0x400, 0x200, 0x10000])
        if vector:
            v = bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 2, 8, 9, 40])))
            cd = CoverData(t, int(CF.IS_VECTOR) | extra)
            cd.data, cd.bitlen = v, 8 * len(v) - rng.randrange(8)
        else:
            big = rng.random() < 0.6
            cd = CoverData(t, int(CF.IS_64BIT if big else CF.IS_32BIT) | extra)
            cd.data = rng.choice([0, 1, 2 ** 31, U32] + ([2 ** 32, 2 ** 53 + 1, 2 ** 63, MASK] if big else []))
            v = b""
        cd.goal, cd.weight, cd.limit = (rng.choice([0, 1, 9, 2 ** 31 - 1, -1]) for _ in range(3))
        s, es = self.src(self.dbof(p))
        name = self.name()
        self.note("cover", p.id, name, es, int(t), cd.flags, cd.data, cd.goal, cd.weight, cd.limit, cd.bitlen)
        db = self.dbof(p)
        if self.functions():
            f = lambda: ucis.ucis_CreateNextCover(db.h, p.h, name, cd, s)
        else:
            f = lambda: p.h.createNextCover(name, cd, s)
        h = self.call("creating a cover item", f)
        if h is not None:
            p.items.append(dict(name=hx(name), src=es, type=int(t), data=0 if vector else cd.data, vec=v.hex(), flags=int(cd.flags), goal=cd.goal,
                                weight=cd.weight, limit=cd.limit, bitlen=cd.bitlen))
            self.ctx.count("native_items")

    def op_cover(self):
        self.cover(False)

    def op_vector(self):
        self.cover(True)

    def op_file(self):
        db = self.pick(lambda o: o.kind == "D")
        name, wd = self.name(), None if self.rng.random() < 0.3 else self.name()
        self.note("file", db.id, name, wd)
        f = self.functions()
        h = self.call("creating a file handle", (lambda: ucis.ucis_CreateFileHandle(db.h, name, wd)) if f else
                      (lambda: db.h.createFileHandle(name, wd)))
        if h is not None:
            o = self.add("F", h, "file", db=db.id, name=hx(name), name2=hx(wd))
            with must("the name of a file"):
                self.ctx.equal(name, h.getFileName(), "name of a file handle")
            o.fname = name

    def op_history(self):
        db = self.pick(lambda o: o.kind == "D")
        rng = self.rng
        p = self.pick(lambda o: o.kind == "H" and o.e["db"] == db.id) if rng.random() < 0.4 else None
        ln, pn, k = self.name(), None if rng.random() < 0.2 else self.name(), rng.choice([HistoryNodeKind.TEST, HistoryNodeKind.TEST, HistoryNodeKind.MERGE, HistoryNodeKind.NONE])
        a = (p.h if p else None, ln, pn, k)
        f = self.functions()
        self.note("history", db.id, p and p.id, ln, pn, int(k))
        h = self.call("creating a history node", (lambda: ucis.ucis_CreateHistoryNode(db.h, *a)) if f else (lambda: db.h.createHistoryNode(*a)))
        if h is not None:
            self.add("H", h, "history", db=db.id, parent=p.id if p else -1, name=hx(ln), name2=hx(pn), type=int(k))

    STRS = ["timeunit", "runcwd", "seed", "cmd", "args", "date", "user", "toolcategory"]

    def op_testdata(self):
        p = self.pick(lambda o: o.kind == "H")
        if not p:
            return
        rng = self.rng
        td = TestData(rng.choice(list(TestStatusT)), self.name(), hist.date(rng), rng.choice([0.0, 1.5, 1e300, 5e-324, 0.1]),
                      self.name(), self.name(), rng.choice([0.0, 2.25, 1e17]), str(self.n), self.name(), self.name(),
                      rng.choice([0, 1, 7]), self.name(), rng.choice([0.0, 0.3, 1e-7]))
        if rng.random() < 0.2:
            setattr(td, rng.choice(self.STRS), None)
        self.note("testdata", p.id, vars(td))
        p.td = [int(td.teststatus), td.simtime, td.cputime, td.compulsory, td.cost] + [getattr(td, k) for k in self.STRS]
        with must("setting test data"):
            if self.functions():
                ucis.ucis_SetTestData(self.dbof(p).h, p.h, td)
            else:
                p.h.setTestData(td)
        td.seed = td.cmd = td.runcwd = "changed later"

    def op_intprop(self):
        p = self.pick(lambda o: o.kind != "F")
        rng = self.rng
        prop, v = rng.choice(list(IP)), rng.choice([0, 1, -1, 100, 2 ** 31 - 1, -2 ** 31])
        idx = rng.choice([-1, -1, 0, 3])
        self.note("int", p.id, idx, int(prop), v)
        with must("setting a property"):
            if self.functions():
                ucis.ucis_SetIntProperty(self.dbof(p).h, None if p.kind == "D" and rng.random() < 0.5 else p.h, idx, prop, v)
            else:
                p.h.setIntProperty(idx, prop, v)
        p.ip["%d:%d" % (idx, int(prop))] = v
        self.ctx.count("properties_set")

    def op_strprop(self):
        p = self.pick(lambda o: o.kind != "F")
        rng = self.rng
        prop, v = rng.choice(list(SP)), self.name()
        idx = rng.choice([-1, -1, 0, 3])
        self.note("str", p.id, idx, int(prop), v)
        with must("setting a property"):
            if self.functions():
                ucis.ucis_SetStringProperty(self.dbof(p).h, None if p.kind == "D" and rng.random() < 0.5 else p.h, idx, prop, v)
            else:
                p.h.setStringProperty(idx, prop, v)
        p.sp["%d:%d" % (idx, int(prop))] = hx(v)
        self.ctx.count("properties_set")

    CVG = [("AtLeast", IP.CVG_ATLEAST), ("AutoBinMax", IP.CVG_AUTOBINMAX), ("DetectOverlap", IP.CVG_DETECTOVERLAP), ("Strobe", IP.CVG_STROBE)]
    CG = [("PerInstance", IP.CVG_PERINSTANCE), ("GetInstCoverage", IP.CVG_GETINSTCOV), ("MergeInstances", IP.CVG_MERGEINSTANCES)]

    def op_option(self):
        p = self.pick(lambda o: o.kind in "SIXDH")
        rng = self.rng
        if p.kind == "H":
            v = rng.choice(list(TestStatusT))
            self.note("setTestStatus", p.id, int(v))
            with must("setting the status of a test"):
                p.h.setTestStatus(v)
            p.ip["-1:%d" % int(IP.TEST_STATUS)] = int(v)
            self.ctx.count("properties_set")
            return
        cvg = p.what in ("covergroup", "coverinst", "coverpoint", "cross")
        l = [("Goal", IP.SCOPE_GOAL)] + (self.CVG if cvg else []) + (self.CG if p.what in ("covergroup", "coverinst") else [])
        if cvg and rng.random() < 0.15:
            v = self.name()
            with must("setting a comment"):
                p.h.setComment(v)
            p.sp["-1:%d" % int(SP.COMMENT)] = hx(v)
            self.note("comment", p.id, v)
            return
        nm, prop = rng.choice(l)
        v = rng.random() < 0.5 if nm in ("DetectOverlap", "Strobe") or (nm, prop) in self.CG else rng.choice([0, 1, 50, 2 ** 31 - 1, -1])
        self.note("set" + nm, p.id, v)
        with must("setting an option"):
            getattr(p.h, "set" + nm)(v)
        p.ip["-1:%d" % int(prop)] = int(v)
        self.ctx.count("properties_set")

    def op_write(self):
        db = self.pick(lambda o: o.kind == "D")
        rng = self.rng
        s = self.pick(lambda o: o.kind in "SI" and o.e["db"] == db.id) if rng.random() < 0.5 else None
        file, rec, ct = self.name(), rng.choice([0, 1]), rng.choice([-1, 1, 2 ** 40])
        f = self.functions()
        do = (lambda: [ucis.ucis_Write(db.h, file, s.h if s else None, rec, ct)]) if f else \
            (lambda: [db.h.write(file, s.h if s else None, rec == 1, ct)])
        if not f and rng.random() < 0.4:    # the defaults: everything below, of every kind
            rec, ct = 1, -1
            do = (lambda: [db.h.write(file, s.h)]) if s else (lambda: [db.h.write(file)])
        self.note("write", db.id, file, s and s.id, rec, ct)
        r = self.call("writing", do)
        if r is not None:
            self.writes.append([db.id, hx(file), s.id if s else -1, rec, ct & MASK])
            if f:
                self.ctx.equal([0], r, "result of writing")

    def op_close(self):
        db = self.pick(lambda o: o.kind == "D")
        self.note("close", db.id)
        with must("closing"):
            if self.functions():
                ucis.ucis_Close(db.h)
            else:
                db.h.close()
        db.e["closed"] = db.e.get("closed", 0) + 1

    # --- queries ---
    def location(self, o):
        if not o.e["src"]:
            return (None, 0, 0)
        f, line, token = o.e["src"]
        return (self.objs[f].fname if f >= 0 else None, line, token)

    def seen(self, s):
        si = s.getSourceInfo()
        return (si.file.getFileName() if si.file is not None else None, si.line, si.token)

    def quiet(self, before, what):
        after = dump()
        self.ctx.equal(before["objs"], after["objs"], "the library's objects after " + what)
        self.ctx.check(before["muts"] == after["muts"], "%s modified the library", what)
        self.ctx.count("queries_without_effect")
        return after

    def op_iterate(self):
        rng, ctx = self.rng, self.ctx
        p = self.pick(lambda o: o.kind in "DSIXT")
        before = dump()
        mask = rng.choice([-1, int(ST.ALL), MASK, 0] + [int(rng.choice(list(ST))) | int(rng.choice(list(ST)))] * 3 +
                          [int(t) for t in ST if int(t) > U32])
        if mask > U32 or mask < 0:
            ctx.count("masks_64_bit")
        with must("iterating scopes"):
            it = p.h.scopes(mask)
        exp = [self.objs[k] for k in p.e["kids"] if self.objs[k].e["type"] & (mask & MASK)]
        if exp and rng.random() < 0.2:      # leave it unfinished
            with must("iterating scopes"):
                s = next(it)
            with must("a source location"):
                ctx.equal(self.location(exp[0]), self.seen(s), "source location of the first scope of an iteration")
            self.iters.append((it, exp[1:]))
            ctx.count("partial_iterations")
            self.quiet(before, "iterating")
            return
        with must("iterating scopes"):
            got = list(it)
        with must("source locations"):
            ctx.equal([self.location(o) for o in exp], [self.seen(s) for s in got], "source locations of the scopes under mask %x" % (mask & MASK))
        for o, s in zip(exp, got):
            with must("iterating scopes"):
                sub = [self.seen(x) for x in s.scopes(ST.ALL)]
            ctx.equal([self.location(self.objs[k]) for k in o.e["kids"] if self.objs[k].e["type"] & int(ST.ALL)], sub,
                      "source locations of scopes below an iterated one")
        with must("the end of an iteration"):
            ctx.check(next(it, None) is None, "an exhausted iterator yields again")
        after = self.quiet(before, "iterating")
        ctx.equal(before["iters"], after["iters"], "number of live iterators after an iteration")
        ctx.count("iterations")
        if got and rng.random() < 0.3:      # an iterated scope is as good as the one created
            i = rng.randrange(len(got))
            if exp[i].what in ("scope", "instance"):
                exp[i].h = got[i]

    def op_queries(self):
        rng, ctx = self.rng, self.ctx
        before = dump()
        db = self.pick(lambda o: o.kind == "D")
        kind = rng.choice([HistoryNodeKind.ALL, HistoryNodeKind.TEST, HistoryNodeKind.MERGE, HistoryNodeKind.NONE])
        exp = [o for o in self.objs if o.kind == "H" and o.e["db"] == db.id and kind in (0, o.e["type"])]
        with must("iterating history nodes"):
            it = None
            if rng.random() < 0.5:
                got = db.h.getHistoryNodes(kind)
            else:
                it = db.h.historyNodes(kind)
                got = list(it)
        ctx.check(len(got) == len(exp), "%d history nodes of kind %d instead of %d", len(got), kind, len(exp))
        if it is not None:
            with must("the end of an iteration"):
                ctx.check(next(it, None) is None, "an exhausted iterator yields again")
        for o, h in zip(exp, got):
            if o.td is None:
                continue
            for n in (o.h, h):
                with must("reading test data"):
                    td = n.getTestData()
                    r = [int(td.teststatus), td.simtime, td.cputime, td.compulsory, td.cost] + [getattr(td, k) for k in self.STRS]
                ctx.equal(o.td, r, "test data read from the library")
                ctx.count("test_data_compared")
        s = self.pick(lambda o: o.kind in "SIXT" and o.e["db"] == db.id)
        if s:
            with must("a source location"):
                ctx.equal(self.location(s), self.seen(s.h), "source location of a scope")
        f = self.pick(lambda o: o.kind == "F")
        if f:
            with must("the name of a file"):
                ctx.equal(f.fname, f.h.getFileName(), "name of a file handle")
        with must("the version"):
            db.h.getAPIVersion()
        after = self.quiet(before, "queries")
        ctx.equal(before["iters"], after["iters"], "number of live iterators after queries")

    # --- the whole state ---
    def verify(self):
        ctx = self.ctx
        d = dump()
        ctx.equal([], d["errors"], "misuse noticed by the library")
        ctx.check(d["handler"] == 1, "no error handler registered")
        ctx.equal(len(self.objs), len(d["objs"]), "number of objects")
        flags = {}
        for o, g in zip(self.objs, d["objs"]):
            if o.e["flags"] is None:    # nobody gives these: they have to be the same for all of a kind
                ctx.equal(flags.setdefault(o.what, g["flags"]), g["flags"], "flags of object %d (%s)" % (o.id, o.what))
            ctx.check(o.kind == g["kind"], "object %d is of kind %s, not %s", o.id, g["kind"], o.kind)
            e = {k: v for k, v in o.e.items() if v is not None or k in ("name", "name2", "src")}
            e.setdefault("closed", 0)
            got = {k: g[k] for k in e}
            for x in (e, got):
                x["type"] &= MASK
                if "flags" in x:
                    x["flags"] &= U32
            ctx.equal(e, got, "object %d (%s) of the library" % (o.id, o.what))
            ctx.equal(o.ip, g["ip"], "integer properties of object %d (%s)" % (o.id, o.what))
            ctx.equal(o.sp, g["sp"], "text properties of object %d (%s)" % (o.id, o.what))
            ctx.equal(len(o.items), len(g["items"]), "number of cover items of object %d (%s)" % (o.id, o.what))
            for i, (x, y) in enumerate(zip(o.items, g["items"])):
                y = {k: y[k] for k in x}
                y["type"] &= MASK
                ctx.equal(dict(x, type=x["type"] & MASK), y, "cover item %d of object %d (%s)" % (i, o.id, o.what))
            td = o.td and [o.td[0], o.td[1].hex(), o.td[2].hex(), o.td[3], o.td[4].hex()] + [hx(x) for x in o.td[5:]]
            if td:
                td = [float.fromhex(x) if i in (1, 2, 4) else x for i, x in enumerate(td)]
            gt = g["td"] and [float.fromhex(x) if i in (1, 2, 4) else x for i, x in enumerate(g["td"])]
            ctx.equal(td, gt, "test data of object %d" % o.id)
        ctx.equal(self.writes, d["writes"], "files written")
        ctx.count("states_compared")

    def finish(self):
        for it, exp in self.iters:
            with must("finishing an iteration"):
                got = [self.seen(s) for s in it]
            self.ctx.equal([self.location(o) for o in exp], got, "the rest of an iteration")
        self.verify()
        d = dump()
        self.ctx.equal(0, d["iters"], "live iterators at the end")
        if sum(o.kind == "D" for o in self.objs) > 1:
            self.ctx.count("two_databases")


def case(ctx):
    rng = ctx.rng
    p = Program(ctx)
    n = rng.choice([8, 25, 60, 120])
    every = rng.choice([5, 10, 30])
    for i in range(n):
        p.step()
        if i % every == 0:
            p.verify()
    p.finish()
    ctx.seen(ctx.trace, p.n >= 10)


ASAN_MAIN = r"""
import os, sys, logging
logging.disable(logging.CRITICAL)
from collections import Counter
from vx import core
from vx.checks import c17
so, scratch, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
c17.attach(so)
print("STARTED", flush=True)
obs = Counter()
for i in range(n):
    ctx = core.Ctx("C17", seed, "quick", "asan:%d" % i, obs, set(), [], scratch)
    try:
        c17.case(ctx)
    except core.Violation as e:
        print("VIOL %d: %s" % (i, e)); sys.exit(3)
print("DONE", sum(obs.values()), flush=True)
os._exit(0)
"""


def d_asan(ctx):
    so = ctx.path(".so")
    try:
        compile_(so, "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer")
    except RuntimeError:
        ctx.count("sanitizer_unavailable")
        return
    asan = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ubsan = subprocess.run(["g++", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    cxx = subprocess.run(["g++", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=" ".join([asan, ubsan, cxx]), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=77", PYTHONMALLOC="malloc")
    n = "60" if ctx.tier == "quick" else "600"
    for pre in ([], ["setarch", "-R"]):
        try:
            r = subprocess.run(pre + [sys.executable, "-W", "ignore", "-c", ASAN_MAIN, so, ctx.scratch, str(ctx.seed), n], env=env, cwd=VERIF,
                               capture_output=True, text=True, timeout=200 if ctx.tier == "quick" else 800)
        except (subprocess.TimeoutExpired, OSError):
            ctx.count("sanitizer_unavailable")
            continue
        if "STARTED" not in r.stdout:
            continue
        if "DONE" in r.stdout and r.returncode == 0:
            ctx.count("sanitizer_programs", int(n))
            return
        ctx.fail("under the address sanitizer (exit %d): %s %s" % (r.returncode, r.stdout[-1500:], r.stderr[:4000]))
    ctx.count("sanitizer_unavailable")


def directed():
    return [("asan", d_asan)]


def known():
    def status(ctx):
        _lib or worker_init(os.path.dirname(ctx.scratch))
        from ucis.lib.LibFactory import LibFactory
        _lib.mock_reset()
        db = LibFactory.create()
        h = db.createHistoryNode(None, "t", "t", HistoryNodeKind.TEST)
        h.setTestData(TestData(TestStatusT.OK, "c", "20200101000000"))
        return dump()["objs"][1]["td"][0] == 1

    def threshold(ctx):
        _lib or worker_init(os.path.dirname(ctx.scratch))
        from ucis.lib.LibFactory import LibFactory
        _lib.mock_reset()
        db = LibFactory.create()
        cp = db.createCovergroup("g", None, 1, ucis.SourceT.SV).createCoverpoint("p", None, 1, ucis.SourceT.SV)
        cp.createBin("b", None, 5, 0, "b")
        o = dump()["objs"][2]
        return o["items"][0]["goal"] != 5 and "-1:%d" % int(IP.CVG_ATLEAST) not in o["ip"] or o["ip"].get("-1:%d" % int(IP.CVG_ATLEAST)) != 5
    return [("a passed test is handed to native libraries with status 1, which the standard defines as a warning", status),
            ("the at-least threshold of a bin is not handed to native libraries", threshold)]
