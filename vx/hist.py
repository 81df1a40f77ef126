"""History nodes: models, and what XML keeps of them"""
from . import gen

STRS = ["TimeUnit", "RunCwd", "Seed", "Cmd", "Args", "Compulsory", "UserName", "Comment"]
REQ = ["ToolCategory", "VendorId", "VendorTool", "VendorToolVersion"]
DEFAULTS = {"TestStatus": 1, "SimTime": -1.0, "CpuTime": -1.0, "Cost": -1, "SameTests": -1,
            "ToolCategory": "unknown", "UCISVersion": "1.0", "VendorId": "unknown", "VendorTool": "unknown",
            "VendorToolVersion": "unknown", "TimeUnit": None, "RunCwd": None, "Seed": None, "Cmd": None,
            "Args": None, "Compulsory": None, "UserName": None, "Comment": None}
# Around clock changes of several zones, leap days, the epoch, the end of 32-bit time
DATES = ["20200329023000", "20201025013000", "20210314023000", "20211107013000", "20200229235959", "19700101000000",
         "19691231235959", "20380119031408", "21060207062816", "20191231235959", "20200101000000", "20211003020000",
         "20110330123015", "19000101000000", "99991231235959", "20160101000000", "20201025003000", "20110326013000", "00010101000000", "09991231235959",
         "00960229120000", "20240301000000", "10000101000000"]
FLOATS = [0, 0.0, 1, 0.1, 1e-7, 1e22, 123456789.123456789, 5e-324, 1.7976931348623157e308, 3.14, 10 ** 15, 0.30000000000000004]


# What such attributes usually contain, in forms that tidying up would change
USUAL = {
    "TimeUnit": ["ns", "NS", "1ns", "10 ps", "us", "\u00b5s", "s", "fs"],
    "Seed": ["007", "0x1F", "-1", "+5", "1e3", "4294967296", "1.0", " 12 ", "random", "0", "00"],
    "Cmd": ["vsim -c  top", "vsim -do \"run -all; quit\"", "a 'b c' d", "make  SIM=x | tee log", "a && b > c", "sim\\\nrest", "#!x"],
    "Args": ["-a  -b", "+x=1 +y", "-D A=\"b c\"", "--", "-g a=b,c=d", "a\tb"],
    "Compulsory": ["1", "0", "true", "False", "yes"],
    "UserName": ["root", "Root", "a.b@c", "DOM\\user", "o'neil", "user name"],
    "ToolCategory": ["UCIS:Simulator", "UCIS:Formal", "unknown", "Unknown"],
    "VendorId": ["unknown", "Vendor, Inc.", "VENDOR"],
    "VendorToolVersion": ["1.10", "1.1", "2020.1", "01", "1.0.0", "v1"],
}


def value(rng, k):
    r = rng.random()
    if r < 0.3 and k in USUAL:
        return rng.choice(USUAL[k])
    if r < 0.3 or k in ("RunCwd", "LogicalName", "PhysicalName") and r < 0.5:
        return rng.choice(gen.PATHS)
    if r < 0.33:
        return rng.choice(["x" * 5000, "a b " * 400 + "c", "\u00e9" * 1000])
    return text(rng)


def text(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(gen.PLAIN)
    return rng.choice(gen.HOSTILE)


def date(rng):
    if rng.random() < 0.5:
        return rng.choice(DATES)
    return "%04d%02d%02d%02d%02d%02d" % (rng.randint(1971, 2105), rng.randint(1, 12), rng.randint(1, 28),
                                         rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def gen_hist(rng, n=None):
    """[{LogicalName, PhysicalName, Kind, set: {attribute: value}}]"""
    out = []
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 5])
    if gen.HUGE == "hist":
        n = rng.randint(1030, 1100)
    for _ in range(n):
        h = {"LogicalName": value(rng, "LogicalName"), "PhysicalName": rng.choice([None, value(rng, "PhysicalName")]),
             "Kind": rng.choice([None, 1, 2, -1, 0]), "set": {"Date": date(rng)}}
        dense = rng.random()
        s = h["set"]
        if rng.random() < 0.6:
            s["TestStatus"] = rng.randint(1, 6)
        for k in STRS + REQ:
            if rng.random() < dense:
                s[k] = value(rng, k)
        for k in ("SimTime", "CpuTime", "Cost"):
            if rng.random() < dense:
                s[k] = rng.choice(FLOATS) if rng.random() < 0.7 else rng.uniform(0, 1e6)
        if "Cost" in s and s["Cost"] and not 1e-10 < s["Cost"] < 1e15:
            s["Cost"] = 1e-5        # schema processors may limit the digits of a decimal
        if rng.random() < dense:
            s["SameTests"] = rng.choice([0, 1, 7, 2 ** 31])
        out.append(h)
    return out


def apply(db, hist):
    from ucis.history_node_kind import HistoryNodeKind
    from ucis.test_status_t import TestStatusT
    for h in hist:
        k = h["Kind"]
        n = db.createHistoryNode(None, h["LogicalName"], h["PhysicalName"],
                                 HistoryNodeKind(k) if k is not None else None)
        for a, v in h["set"].items():
            getattr(n, "set" + a)(TestStatusT(v) if a == "TestStatus" else v)


def image(hist):
    """What is read back after writing (a placeholder when there is nothing: None)"""
    if not hist:
        return None
    out = []
    for h in hist:
        r = dict(DEFAULTS)
        r.update({k: h[k] for k in ("LogicalName", "PhysicalName", "Kind")})
        r.update(h["set"])
        r["passed"] = r.pop("TestStatus") == 1
        r.pop("UCISVersion")
        out.append(r)
    return out


def observe(snaps):
    """Brings snap_hist() into the form of image()"""
    out = []
    for s in snaps:
        r = dict(s)
        r["passed"] = r.pop("TestStatus") == 1
        r.pop("UCISVersion")
        out.append(r)
    return out
