"""C14: the C-style functions do what the methods do"""
import time
from datetime import datetime

import ucis
from vx import gen, mem, sut, work
from vx.core import must_raise, sut as must

PROP = "C14"
LEVEL = "exploration"
QUICK = 10000
REQUIRED = ["operations", "scopes_observed", "documents_written", "dispatch_observed", "constants", "op_testdata", "op_status",
            "op_stmt", "op_toggle", "null_object", "closed", "op_option", "op_comment", "rejections_observed"]
RULE = ("Random programs of creation, property and test-data calls run in lock-step on two databases, one driven through "
        "methods, one through the C-style functions; both are compared with the shadow model and their written XML "
        "byte by byte. A recording object checks that every function forwards its arguments once, in order, to the "
        "addressed object (or to the database when there is none) and hands back result and exception. The constants "
        "are compared with the standard's values. Non-trivial: ten or more calls.")
ASSUMPTIONS = []


def case(ctx):
    rng = ctx.rng
    xml = rng.random() < 0.5
    mk = sut.new_xml_db if xml else mem.MemFactory.create
    with must("creating databases"):
        ds = [mem.Methods(mk), mem.Functions(mk)]
    m = mem.Machine(ctx, ds, props=rng.choice([0.5, 0.9, 1]), covered_only=xml)
    n = rng.choice([5, 20, 40, 80])
    for s in range(n):
        m.step()
        if s % 20 == 19:
            m.verify(rng.randrange(2))
    m.verify()
    ctx.seen(ctx.trace, n >= 10)
    if xml:
        for d in ds:
            d.db.setWrittenBy("u")
            d.db.setWrittenTime(1600000000)
        out = []
        for d in ds:
            p = ctx.path(".xml")
            try:
                d.write(p)
                with open(p, "rb") as fp:
                    out.append(fp.read())
                ctx.count("documents_written")
            except Exception as e:
                out.append("raised " + type(e).__name__)
        ctx.check(strip(out[0]) == strip(out[1]), "the written documents differ: %r / %r", out[0][:2000], out[1][:2000])
        ctx.count("documents_compared")
    if rng.random() < 0.3:
        for d in ds:
            with must("closing (%s)" % d.name):
                d.close()
        ctx.count("closed")
    dispatch(ctx)


def strip(x):
    """Nodes that never got a date show the time of their creation"""
    import re
    return re.sub(rb' date="[^"]*"', b"", x) if isinstance(x, bytes) else x


class Rec(object):
    """Records calls; answers with unique objects, or with exceptions"""

    def __init__(self, boom=False):
        self.calls = []
        self.boom = boom

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **kw):
            r = object()
            self.calls.append((name, a, kw, r))
            if self.boom:
                raise KeyError("boom")
            return r
        return f


ODD = [None, "", 0, -1, 0.0, False, [], (), "x", b"", 2 ** 64]


def dispatch(ctx):
    """Arguments and results are passed on unchanged, to the right object"""
    rng = ctx.rng
    boom = rng.random() < 0.2
    db, obj = Rec(boom), Rec(boom)
    null = rng.random() < 0.4
    target = db if null else obj
    o = None if null else obj
    if null:
        ctx.count("null_object")
    # whatever the arguments are: a function has no opinion about them
    a = [rng.choice(ODD) if rng.random() < 0.15 else object() for _ in range(8)]
    from ucis import (ucis_Close, ucis_CreateFileHandle, ucis_CreateHistoryNode, ucis_CreateInstance,
                      ucis_CreateNextCover, ucis_CreateScope, ucis_CreateToggle, ucis_GetHandleProperty,
                      ucis_GetIntProperty, ucis_GetRealProperty, ucis_GetStringProperty, ucis_RemoveScope,
                      ucis_SetHandleProperty, ucis_SetIntProperty, ucis_SetRealProperty, ucis_SetStringProperty,
                      ucis_SetTestData, ucis_Write)
    # function, arguments, object addressed, method, its arguments, result: "same", None, 0
    table = []
    for k, g, s in (("Int", ucis_GetIntProperty, ucis_SetIntProperty), ("Real", ucis_GetRealProperty, ucis_SetRealProperty),
                    ("String", ucis_GetStringProperty, ucis_SetStringProperty),
                    ("Handle", ucis_GetHandleProperty, ucis_SetHandleProperty)):
        table.append((g, (db, o, a[0], a[1]), target, "get%sProperty" % k, a[:2], "same"))
        table.append((s, (db, o, a[0], a[1], a[2]), target, "set%sProperty" % k, a[:3], "any"))
    table += [
        (ucis_CreateScope, (db, o) + tuple(a[:6]), target, "createScope", a[:6], "same"),
        (ucis_CreateInstance, (db, o) + tuple(a[:7]), target, "createInstance", a[:7], "same"),
        (ucis_CreateToggle, (db, o) + tuple(a[:6]), target, "createToggle", a[:6], "same"),
        (ucis_CreateNextCover, (db, obj, a[0], a[1], a[2]), obj, "createNextCover", a[:3], "same"),
        (ucis_RemoveScope, (db, a[0]), db, "removeScope", a[:1], "same"),
        (ucis_CreateHistoryNode, (db, o, a[0], a[1], a[2]), db, "createHistoryNode", [o] + a[:3], "same"),
        (ucis_CreateFileHandle, (db, a[0], a[1]), db, "createFileHandle", a[:2], "same"),
        (ucis_SetTestData, (db, obj, a[0]), obj, "setTestData", a[:1], "any"),
        (ucis_Write, (db, a[0], a[1], rng.choice([0, 1]), a[2]), db, "write", None, 0),
        (ucis_Close, (db,), db, "close", [], 0),
    ]
    rng.shuffle(table)
    for fn, args, tgt, name, margs, res in table:
        db.calls.clear()
        obj.calls.clear()
        try:
            r = fn(*args)
            raised = False
        except KeyError:
            raised = True
        what = "%s(%s object)" % (fn.__name__, "no" if null else "an")
        ctx.check(raised == boom, "%s: exception %s", what, "invented" if raised else "swallowed")
        calls = db.calls + obj.calls
        ctx.check(len(calls) == 1 and len(tgt.calls) == 1 and calls[0][0] == name,
                  "%s: expected one call of %s, observed %r", what, name, [c[0] for c in calls])
        _, ca, ckw, cr = calls[0]
        if name == "write":
            exp = [a[0], a[1], args[3] == 1, a[2]]
            got = bind(("file", "scope", "recurse", "covertype"), ca, ckw)
            ctx.check(got[0] is a[0] and got[1] is a[1] and bool(got[2]) == exp[2] and got[3] is a[2], "%s: arguments", what)
        elif not ckw:
            ctx.check(len(ca) == len(margs) and all(x is y for x, y in zip(ca, margs)),
                      "%s: arguments not passed on in order", what)
        if not boom:
            if res == "same":
                ctx.check(r is cr, "%s: the result is not passed on", what)
            elif res == 0:
                ctx.check(r == 0 and r is not False, "%s: returned %r, not 0", what, r)
        ctx.count("dispatch_observed")


def bind(names, args, kw):
    r = list(args)
    for n in names[len(args):]:
        r.append(kw.get(n))
    return r


SCOPES = """TOGGLE BRANCH EXPR COND INSTANCE PROCESS BLOCK FUNCTION FORKJOIN GENERATE GENERIC CLASS COVERGROUP COVERINSTANCE
COVERPOINT CROSS COVER ASSERT PROGRAM PACKAGE TASK INTERFACE FSM - DU_MODULE DU_ARCH DU_PACKAGE DU_PROGRAM DU_INTERFACE
FSM_STATES FSM_TRANS COVBLOCK CVGBINSCOPE ILLEGALBINSCOPE IGNOREBINSCOPE""".split()
COVERS = """CVGBIN COVERBIN ASSERTBIN - - STMTBIN BRANCHBIN EXPRBIN CONDBIN TOGGLEBIN PASSBIN FSMBIN USERBIN COUNT FAILBIN
VACUOUSBIN DISABLEDBIN ATTEMPTBIN ACTIVEBIN IGNOREBIN ILLEGALBIN DEFAULTBIN PEAKACTIVEBIN - BLOCKBIN""".split()
COVERFLAGS = "IS_32BIT IS_64BIT IS_VECTOR HAS_GOAL HAS_WEIGHT".split()
FLAGS = [("INST_ONCE", 0x1), ("ENABLED_STMT", 0x2), ("ENABLED_BRANCH", 0x4), ("ENABLED_COND", 0x8), ("ENABLED_EXPR", 0x10),
         ("ENABLED_FSM", 0x20), ("ENABLED_TOGGLE", 0x40), ("SCOPE_UNDER_DU", 0x100), ("SCOPE_EXCLUDED", 0x200),
         ("SCOPE_PRAGMA_EXCLUDED", 0x400), ("SCOPE_PRAGMA_CLEARED", 0x800), ("SCOPE_SPECIALIZED", 0x1000),
         ("UOR_SAFE_SCOPE", 0x2000), ("UOR_SAFE_SCOPE_ALLCOVERS", 0x4000), ("IS_TOP_NODE", 0x10000),
         ("IS_IMMEDIATE_ASSERT", 0x10000), ("SCOPE_CVG_AUTO", 0x10000), ("SCOPE_CVG_SCALAR", 0x20000),
         ("SCOPE_CVG_VECTOR", 0x40000), ("SCOPE_CVG_TRANSITION", 0x80000), ("SCOPE_IFF_EXISTS", 0x100000),
         ("ENABLED_BLOCK", 0x800000), ("SCOPE_BLOCK_ISBRANCH", 0x1000000)]
VALUES = [("RESERVEDSCOPE", 0xFF00000000000000), ("SCOPE_ERROR", 0), ("RESERVEDBIN", 0xFF00000000000000),
          ("USERBITS", 0xFE000000), ("GENERICBIN", 0x1000)]
INTS = """IS_MODIFIED MODIFIED_SINCE_SIM NUM_TESTS SCOPE_WEIGHT SCOPE_GOAL SCOPE_SOURCE_TYPE NUM_CROSSED_CVPS SCOPE_IS_UNDER_DU
SCOPE_IS_UNDER_COVERINSTANCE SCOPE_NUM_COVERITEMS SCOPE_NUM_EXPR_TERMS TOGGLE_TYPE TOGGLE_DIR TOGGLE_COVERED BRANCH_HAS_ELSE
BRANCH_ISCASE COVER_GOAL COVER_LIMIT COVER_WEIGHT TEST_STATUS TEST_COMPULSORY STMT_INDEX BRANCH_COUNT FSM_STATEVAL CVG_ATLEAST
CVG_AUTOBINMAX CVG_DETECTOVERLAP CVG_NUMPRINTMISSING CVG_STROBE CVG_PERINSTANCE CVG_GETINSTCOV CVG_MERGEINSTANCES""".split()
STRS = """FILE_NAME SCOPE_NAME SCOPE_HIER_NAME INSTANCE_DU_NAME UNIQUE_ID VER_STANDARD VER_STANDARD_VERSION VER_VENDOR_ID
VER_VENDOR_TOOL VER_VENDOR_VERSION GENERIC ITH_CROSSED_CVP_NAME HIST_CMDLINE HIST_RUNCWD COMMENT TEST_TIMEUNIT TEST_DATE
TEST_SIMARGS TEST_USERNAME TEST_NAME TEST_SEED TEST_HOSTNAME TEST_HOSTOS EXPR_TERMS TOGGLE_CANON_NAME UNIQUE_ID_ALIAS
DESIGN_VERSION_ID DU_SIGNATURE HIST_TOOLCATEGORY HIST_LOG_NAME HIST_PHYS_NAME""".split()
METRICS = "NOBINS ENUM TRANSITION 2STOGGLE ZTOGGLE XTOGGLE".split()
STATUSES = "OK WARNING ERROR FATAL MISSING MERGE_ERROR".split()
SOURCES = "VHDL VLOG SV SYSTEMC PSL_VHDL PSL_VLOG PSL_SV PSL_SYSTEMC E VERA NONE OTHER SOURCE_ERROR".split()


def d_constants(ctx):
    for l in (SCOPES, COVERS, COVERFLAGS):
        for i, n in enumerate(l):
            if n != "-":
                ctx.equal(1 << i, int(getattr(ucis, "UCIS_" + n)), "UCIS_" + n)
                ctx.count("constants")
    for i, n in enumerate(SOURCES):
        ctx.equal(i, int(getattr(ucis, "UCIS_" + n)), "UCIS_" + n)
        ctx.count("constants")
    for n, v in (("NONE", -1), ("ALL", 0), ("TEST", 1), ("MERGE", 2)):
        ctx.equal(v, int(getattr(ucis, "UCIS_HISTORYNODE_" + n)), n)
        ctx.count("constants")
    for n, v in FLAGS + VALUES:
        ctx.equal(v, int(getattr(ucis, "UCIS_" + n)), "UCIS_" + n)
        ctx.count("constants")
    for pre, names, first, enum in (
            ("INT_", INTS, 0, ucis.IntProperty), ("STR_", STRS, 0, ucis.StrProperty),
            ("TOGGLE_METRIC_", METRICS, 1, None), ("TOGGLE_TYPE_", ["NET", "REG"], 1, None),
            ("TOGGLE_DIR_", ["INTERNAL", "IN", "OUT", "INOUT"], 1, None)):
        for i, n in enumerate(names):
            v = getattr(ucis, "UCIS_" + pre + n)
            ctx.equal(first + i, int(v), "UCIS_" + pre + n)
            if enum is not None:
                ctx.check(v is enum[n], "UCIS_%s%s is %r", pre, n, v)
            ctx.count("constants")
    # (numbered from 1 here; C17 has a finding about that)
    ok = int(ucis.UCIS_TESTSTATUS_OK)
    for i, n in enumerate(STATUSES):
        ctx.equal(i, int(getattr(ucis, "UCIS_TESTSTATUS_" + n)) - ok, "UCIS_TESTSTATUS_" + n)
        ctx.check(getattr(ucis, "UCIS_TESTSTATUS_" + n) is ucis.TestStatusT[n], "UCIS_TESTSTATUS_%s", n)
        ctx.count("constants")
    # the enumerations and the names are the same
    for enum, pre in ((ucis.SourceT, ""), (ucis.FlagsT, ""), (ucis.ScopeTypeT, ""), (ucis.CoverTypeT, ""), (ucis.CoverFlagsT, "")):
        for n, m in enum.__members__.items():
            v = getattr(ucis, "UCIS_" + pre + n, None)
            if v is not None and isinstance(v, enum):
                ctx.equal(int(m), int(v), "UCIS_%s%s" % (pre, n))
                ctx.count("constants")
    for st in ucis.ScopeTypeT.__members__.values():
        if int(st) and not int(st) & (int(st) - 1):
            ctx.check(bool(ucis.ScopeTypeT.DU_ANY(st)) == bool(int(st) & 0x1f000000), "DU_ANY(%r)", st)


def d_time(ctx):
    from vx.checks.c15 import near
    for _ in range(20):
        t0 = datetime.now()
        t = ucis.ucis_Time()
        t1 = datetime.now()
        ctx.check(isinstance(t, str) and len(t) == 14 and near(t0, t, t1), "ucis_Time() = %r, not in %s..%s", t, t0, t1)


def directed():
    return [("constants", d_constants), ("time", d_time)]
