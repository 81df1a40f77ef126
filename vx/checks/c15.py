"""C15: test history survives the trip through XML, in every time zone"""
import os
import time
from datetime import datetime, timedelta

from vx import gen, hist, mem, sut, work, xmlref
from vx.checks import c06, c07
from vx.core import sut as must

PROP = "C15"
LEVEL = "exploration"
HUGE = ["hist"]
QUICK = 10000
REQUIRED = ["nodes_compared", "zone_changes", "failing_tests", "via_testdata", "default_dates", "second_trips", "kind_queries"]
RULE = ("Databases with generated history nodes (every attribute, all test statuses and kinds, texts that XML has to quote, "
        "dates around clock changes and calendar limits; set attribute by attribute, through properties, or as one test "
        "data record) are written and read back, writer and reader running in different time zones, once or twice; "
        "all attributes, their order, the kinds and the pass/fail status have to come back. Dates nobody "
        "set have to be the time of creation. Non-trivial: two or more history nodes.")
ASSUMPTIONS = ["dates are YYYYMMDDHHMMSS with years 1000 to 9999; times and costs are finite; parents of history nodes are not "
               "represented in the files"]


def near(t0, d, t1):
    """d within t0..t1, give or take the resolution of different clocks"""
    try:
        d = datetime.strptime(d, "%Y%m%d%H%M%S")
    except ValueError:
        return False
    return t0 - timedelta(seconds=2) <= d <= t1 + timedelta(seconds=2)


def zone(z):
    os.environ["TZ"] = z
    time.tzset()


def testdata(rng, n):
    """Sets a test data record; returns the attributes it stands for"""
    from ucis.test_data import TestData
    from ucis.test_status_t import TestStatusT
    kw = {"teststatus": TestStatusT(rng.randint(1, 6)), "toolcategory": hist.text(rng), "date": hist.date(rng)}
    exp = {"TestStatus": int(kw["teststatus"]), "ToolCategory": kw["toolcategory"], "Date": kw["date"],
           "SimTime": 0.0, "TimeUnit": "ns", "RunCwd": ".", "CpuTime": 0.0, "Seed": "0", "Cmd": "", "Args": "",
           "Compulsory": "0", "UserName": "user", "Cost": 0.0}
    for a, g in (("simtime", "SimTime"), ("timeunit", "TimeUnit"), ("runcwd", "RunCwd"), ("cputime", "CpuTime"),
                 ("seed", "Seed"), ("cmd", "Cmd"), ("args", "Args"), ("compulsory", "Compulsory"),
                 ("user", "UserName"), ("cost", "Cost")):
        if rng.random() < 0.7:
            if a in ("simtime", "cputime"):
                v = rng.choice(hist.FLOATS)
            elif a == "cost":
                v = rng.choice([0, 1, 2.5, 0.1, 1e-5, 123456.789])
            elif a == "compulsory":
                v = rng.choice([0, 1, "yes"])
            else:
                v = hist.text(rng)
            kw[a] = v
            exp[g] = str(v) if a == "compulsory" else v
    n.setTestData(TestData(**kw))
    return exp


def case(ctx):
    rng = ctx.rng
    old = os.environ.get("TZ")
    try:
        run(ctx, rng)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def run(ctx, rng):
    from ucis.history_node_kind import HistoryNodeKind
    from ucis.int_property import IntProperty
    z = rng.choice(c07.ZONES)
    zone(z)
    ctx.note("zone " + z)
    xmldb = rng.random() < 0.4
    db = sut.new_xml_db() if xmldb else sut.MemFactory.create()
    model = gen.gen_db(rng, c06.options(rng)) if rng.random() < 0.3 else gen.gen_db(rng, gen.Opts(
        xmlable=True, scale=0.3, uniform_al=True, empty=False, hostile=0))
    sut.build(model, rng, db)
    hs = hist.gen_hist(rng, rng.choice([1, 2, 3, 5, 12, 30]))
    exp = []
    for h in hs:
        ctx.note(h)
        auto = rng.random() < 0.1
        if auto:
            h["set"].pop("Date")
        t0 = datetime.now()
        with must("creating a history node"):
            hist.apply(db, [h])
        t1 = datetime.now()
        n = db.getHistoryNodes(HistoryNodeKind.ALL)[-1]
        if rng.random() < 0.25:
            with must("setting test data"):
                h["set"].update(testdata(rng, n))
            ctx.count("via_testdata")
            auto = False
        if rng.random() < 0.2:
            v = rng.randint(1, 6)
            with must("setting the status property"):
                n.setIntProperty(-1, IntProperty.TEST_STATUS, v)
            h["set"]["TestStatus"] = v
        if auto:
            d = n.getDate()
            ctx.check(isinstance(d, str) and len(d) == 14 and near(t0, d, t1), "default date %r, expected %s..%s", d, t0, t1)
            h["set"]["Date"] = d
            ctx.count("default_dates")
        if h["set"].get("TestStatus", 1) != 1:
            ctx.count("failing_tests")
    exp = hist.image(hs)
    ctx.seen((z, exp), len(hs) > 1)
    for trip in range(rng.choice([1, 1, 2])):
        p = c06.write(ctx, db, rng.choice(["path", "stream", "writer"] + (["method"] if xmldb and trip == 0 else [])))
        z2 = rng.choice(c07.ZONES)
        if z2 != z:
            zone(z2)
            ctx.count("zone_changes")
        with must("reading back"):
            db = work.xml_read(p)
        got = hist.observe(sut.snap_hist(db))
        ctx.equal(exp, got, "history (written in %s, read in %s, trip %d)" % (z, z2, trip))
        ctx.count("nodes_compared", len(got))
        for kind in (HistoryNodeKind.TEST, HistoryNodeKind.MERGE):
            ctx.equal([e["LogicalName"] for e in exp if e["Kind"] == int(kind)],
                      [x.getLogicalName() for x in db.historyNodes(kind)], "history nodes of kind " + kind.name)
            ctx.count("kind_queries")
        if trip:
            ctx.count("second_trips")
        z = z2
