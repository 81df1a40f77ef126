"""Generators of coverage databases, as plain (shadow) models.

A model is a nest of dicts and lists, independent of the code under test:

  db   = [inst]
  inst = {name, du (or None), weight, cgs: [cg]}
  cg   = {name, weight, cps: [cp], crs: [cr], insts: [cg]}     (insts: cover instances)
  cp   = {name, weight, bins: [(kind, name, at_least, count)]}
  cr   = cp + {cps: [index of a crossed coverpoint in the covergroup's cps]}

kind is "bin", "ignore" or "illegal".
"""
import copy
import unicodedata

PLAIN = ["a", "b", "c", "d", "cp", "cr", "x", "y", "cvp_addr", "cvp_data", "auto[0]", "auto[1]",
         "top.dut.u0", "cg_t", "val", "low", "high", "mid"]
# Names that are legal everywhere, but that careless quoting, splitting,
# formatting, key building or case folding gets wrong
HOSTILE = ["", " ", "  lead", "trail  ", "a b", "a\tb", "a\nb", "a\r\nb", "%s", "%d %f", "100%", "{0}", "{name}",
           "<bin>", "a<b&c>d", "&amp;", "&lt;", "\"q\"", "'q'", "]]>", "<!--x-->", "<?pi?>", "a:b", "a : 5",
           "a,b", "a;b", "#c", "- a", "? x", "[1,2]", "{a: 1}", "null", "None", "true", "0", "-1", "1e5", "0x10",
           "default", "dummy", "ignore", "illegal", "bins", "type", "name", "<unknown>", "xxx", "cg_inst", "du",
           "A", "B", "Cp", "CP", "\u00e9", "e\u0301", "\u00c4\u00d6", "\u4e2d\u6587", "\U0001f600", "\u2028x", "\u00a0",
           "\u200f\u05d0", "\u0130", "\u00df", "ss", "\\n", "\\", "a/b", "../x", "a.b.c", "$x", "`x`", "*", "?",
           "1.", "01", "1", "a" * 300, "TYPE a : 1.0%", "Bins:", "__null__file__", "=", "@", "!t", "|", ">", "~",
           "2020-01-01", "12:30:00", "1_000", "yes", "off", "\ufeffbom", "\ud7ff", "\ue000", "\ufffd",
           "a\n\nb", "a  b", "\n", "\t", " \n ", "a \n b", "/a", "./a", "\r", "a\\nb"]
BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 70]
# Several spellings of few places; nothing may tidy them up
PATHS = ["/work/run", "/work/run/", "/work//run", "/work/./run", "/work/x/../run", "./run/out.sv", "run/out.sv", "run//out.sv",
         "run/x/../out.sv", "run/out.sv/", "RUN/OUT.SV", "Run/Out.sv", "C:\\work\\run\\", "C:/work/run", "//server/share/a.sv",
         "~/run/a.sv", "~root/a.sv", "$HOME/a.sv", "${PWD}/a.sv", "%TEMP%\\a.sv", "file:///work/run/a.sv", ".", "..", "/", "//",
         "/tmp", "/etc/passwd", "a.sv.gz", "a.SV", "a.sv~", ".sv", "a b/c d.sv", "/work/run/ ", "a.sv?x=1#y", "a%20b.sv", "~", "*.sv"]
KINDS = ("bin", "ignore", "illegal")


class Opts(object):
    def __init__(self, **kw):
        self.hostile = 0.35          # probability that a database has hostile names
        self.names = None            # extra filter on names
        self.unique = True           # sibling names are distinct
        self.empty = True            # containers may be empty
        self.xmlable = False         # what the interchange format can represent
        self.uniform_al = False      # one at_least per coverpoint/cross
        self.big = True
        self.bincounts = None        # cap on the counts
        self.coverinsts = True
        self.crosses = True
        self.kinds = KINDS
        self.cross_kinds = KINDS
        self.maxcount = None
        self.zero_al = True
        self.scale = 1.0
        self.widths = 0.04           # probability that one dimension of a database is large
        self.wide = None             # which one ("bins", "cps", "crs", "insts", "cgs", "db")
        self.__dict__.update(kw)


def variant(rng, n):
    """A different name that folding, stripping, splitting, truncating or padding makes equal to n"""
    return rng.choice([
        n.swapcase(), n.upper(), n.lower(), n.capitalize(),
        n + " ", " " + n, n + "\n", n.strip(), n.replace(" ", "_"), n.replace("_", " "),
        n + ".x", n + "/x", "x." + n, "x/" + n, n + "[0]", n + "[1]", n + ":1", n + "#1", n + "(1)",
        "/" + n, "./" + n, "\\" + n, n + "/", n + ".", "." + n, "\t" + n, n + "\t", n + "\u00a0", "\"" + n + "\"", "+" + n, n + ";",
        "work." + n, "$root." + n, n.strip("/.[]"), n.replace(".", "/"), n.replace("/", "."), n.replace("[0]", "[00]"), n.split("[")[0],
        n + "[]", n + "{}", n + "$1", n + "'", n + "~", n.replace("a", "\u0430"), n + "\u2009", n + "\u00ad",
        n + "_1", n + "1", "0" + n, n[:-1], n[1:], n[::-1], n + n, n + "\u0301", n + "\u200b",
        unicodedata.normalize("NFC", n), unicodedata.normalize("NFD", n), unicodedata.normalize("NFKC", n)])


class Namer(object):
    def __init__(self, rng, o):
        self.rng = rng
        self.o = o
        self.hostile = rng.random() < o.hostile
        # a small pool makes the same names turn up in different scopes
        pool = list(PLAIN)
        if self.hostile:
            pool = rng.sample(HOSTILE, 14) + rng.sample(PLAIN, 4)
        else:
            pool = rng.sample(PLAIN, min(len(PLAIN), 8))
        if o.names:
            pool = [n for n in pool if o.names(n)] or ["a", "b"]
        self.pool = pool
        self.variants = rng.random() < 0.25

    def take(self, used=None):
        rng = self.rng
        for _ in range(8):
            n = rng.choice(self.pool)
            if used and self.variants and rng.random() < 0.45:
                # a sibling that a careless comparison takes for the same name
                n = variant(rng, rng.choice(sorted(used)))
                if self.o.names and not self.o.names(n):
                    continue
            elif rng.random() < 0.25:
                n = n + rng.choice(["0", "1", "_x", "[0]", "[1]", "A"])
            if not self.o.unique or used is None or n not in used:
                break
        else:
            n = "%s_%d" % (rng.choice(self.pool), len(used))
            while n in used:
                n += "x"
        if used is not None:
            used.add(n)
        return n


def weight(rng, o):
    r = rng.random()
    if r < 0.5:
        return 1
    if r < 0.62:
        return 0
    if r < 0.93:
        return rng.randint(2, 12)
    return rng.choice([100, 999, 65535, 2 ** 31 - 1])


def at_least(rng, o):
    r = rng.random()
    if r < 0.5:
        return 1
    if r < 0.56:
        return 0 if o.zero_al else 1
    if r < 0.93:
        return rng.randint(2, 12)
    return rng.choice([100, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 64 + 1] if o.big else [100, 1000, 2 ** 31 - 1])


def count(rng, o, al):
    r = rng.random()
    if r < 0.25:
        c = 0
    elif r < 0.45:
        c = rng.randint(1, 9)
    elif r < 0.6:
        c = al
    elif r < 0.7:
        c = max(0, al - 1)
    elif r < 0.8:
        c = al + 1
    elif r < 0.93 or not o.big:
        c = rng.randint(0, 100000)
    else:
        c = rng.choice(BIG)
    if o.maxcount is not None:
        c = min(c, o.maxcount)
    return c


WIDE = {"bins": (40, 700), "cps": (10, 80), "crs": (8, 40), "insts": (8, 40), "cgs": (7, 40), "db": (7, 40)}


HUGE = None         # the dimension which is to exceed a thousand (set for some of the directed cases)


def size(rng, o, lo, typ, hi, what=None):
    """A small number mostly, now and then a large one"""
    r = rng.random()
    if o.wide is not None:
        # all small but one
        if what == o.wide:
            if HUGE is not None:
                return rng.randint(1030, 1100) if what != "bins" else rng.randint(1750, 1850)
            a, b = WIDE[what]
            return rng.randint(a, max(a, int(b * min(1.0, o.scale))))
        return max(lo, min(2, rng.randint(lo, typ)))
    if r < 0.9:
        return rng.randint(lo, typ)
    return rng.randint(lo, max(lo, int(hi * o.scale)))


def widen(rng, o):
    if HUGE in WIDE:
        o = copy.copy(o)
        o.wide = HUGE
        # (a dimension inside of others needs those)
        o.empty = False
    elif o.wide is None and rng.random() < o.widths:
        o = copy.copy(o)
        o.wide = rng.choice(sorted(WIDE))
    return o


def gen_bins(rng, o, nm, kinds, minbins):
    al = at_least(rng, o)
    uniform = o.uniform_al or rng.random() < 0.7
    bins, used = [], {k: set() for k in KINDS}
    for _ in range(size(rng, o, minbins, 5, 40, "bins")):
        kind = "bin" if rng.random() < 0.7 or len(kinds) == 1 else rng.choice(kinds)
        if not uniform:
            al = at_least(rng, o)
        n = nm.take(used[kind])
        bins.append((kind, n, al, count(rng, o, al)))
    return bins


def gen_cg(rng, o, nm, name, top=True):
    cg = {"name": name, "weight": weight(rng, o), "cps": [], "crs": [], "insts": []}
    used = set()
    lo = 0 if o.empty and not o.xmlable else 1
    minb = 0 if o.empty and not o.xmlable else 1
    for _ in range(size(rng, o, lo, 3, 12, "cps")):
        cg["cps"].append({"name": nm.take(used), "weight": weight(rng, o),
                          "bins": gen_bins(rng, o, nm, o.kinds, minb)})
    if o.crosses and cg["cps"] and (rng.random() < 0.6 or o.wide == "crs" or HUGE == "bins"):
        used = set()
        for _ in range(size(rng, o, HUGE == "bins", 2, 6, "crs")):
            k = min(rng.randint(2, 4), max(2, len(cg["cps"]))) if rng.random() < 0.93 else 1
            idx = [rng.randrange(len(cg["cps"])) for _ in range(k)]
            cg["crs"].append({"name": nm.take(used), "weight": weight(rng, o), "cps": idx,
                              "bins": gen_bins(rng, o, nm, o.cross_kinds, minb)})
    if top and o.coverinsts and (rng.random() < 0.6 or o.wide == "insts" or HUGE == "bins"):
        used = set()
        for _ in range(size(rng, o, HUGE == "bins", 3, 8, "insts")):
            n = nm.take(used)
            if rng.random() < 0.75:
                # an instance of this type: same structure, other counts
                i = vary_cg(rng, o, cg, drop=0.15)
                i["name"], i["insts"] = n, []
                i["weight"] = weight(rng, o)
                if (o.xmlable or not o.empty) and not i["cps"]:
                    i = gen_cg(rng, o, nm, n, top=False)
            else:
                i = gen_cg(rng, o, nm, n, top=False)
            cg["insts"].append(i)
    return cg


def gen_db(rng, o=None, nm=None):
    o = o or Opts()
    nm = nm or Namer(rng, o)
    o = widen(rng, o)
    db, used, usedd = [], set(), set()
    for _ in range(size(rng, o, 1, 3, 6, "db") if rng.random() < 0.95 or not o.empty or o.xmlable else 0):
        inst = {"name": nm.take(used), "du": nm.take(usedd if rng.random() < 0.5 else None) if rng.random() < 0.94 else None, "weight": weight(rng, o), "cgs": []}
        usedc = set()
        for _ in range(size(rng, o, 0 if o.empty else 1, 2, 6, "cgs")):
            inst["cgs"].append(gen_cg(rng, o, nm, nm.take(usedc)))
        db.append(inst)
    return db


def vary_bins(rng, o, bins, drop):
    out = []
    for kind, n, al, c in bins:
        if rng.random() >= drop:
            out.append((kind, n, al, count(rng, o, al)))
    if not out and (o.xmlable or not o.empty) and bins:
        kind, n, al, c = bins[0]
        out = [(kind, n, al, count(rng, o, al))]
    return out


def vary_cg(rng, o, cg, drop):
    r = {"name": cg["name"], "weight": cg["weight"], "cps": [], "crs": [], "insts": []}
    remap = {}
    for i, cp in enumerate(cg["cps"]):
        if rng.random() < drop and not (i == 0 and (o.xmlable or not o.empty)):
            continue
        remap[i] = len(r["cps"])
        r["cps"].append({"name": cp["name"], "weight": cp["weight"], "bins": vary_bins(rng, o, cp["bins"], drop)})
    for cr in cg["crs"]:
        if rng.random() < drop or any(i not in remap for i in cr["cps"]):
            continue
        r["crs"].append({"name": cr["name"], "weight": cr["weight"], "cps": [remap[i] for i in cr["cps"]],
                         "bins": vary_bins(rng, o, cr["bins"], drop)})
    for ci in cg["insts"]:
        if rng.random() >= drop:
            r["insts"].append(vary_cg(rng, o, ci, drop))
    return r


def vary_db(rng, o, db, drop=0.2, shuffle=False):
    """Another run of the same design: some parts missing, other counts"""
    out = []
    for inst in db:
        if rng.random() < drop and len(db) > 1:
            continue
        i = {"name": inst["name"], "du": inst["du"], "weight": inst["weight"], "cgs": []}
        for cg in inst["cgs"]:
            if rng.random() >= drop:
                i["cgs"].append(vary_cg(rng, o, cg, drop))
        if shuffle:
            rng.shuffle(i["cgs"])
        out.append(i)
    if not out and db:
        out = [{"name": db[0]["name"], "du": db[0]["du"], "weight": db[0]["weight"],
                "cgs": [vary_cg(rng, o, c, drop) for c in db[0]["cgs"]]}]
    if shuffle:
        rng.shuffle(out)
    return out


def perturb(rng, o, db):
    """Changes weights and thresholds of a run (inconsistent sources)"""
    db = copy.deepcopy(db)

    def cg_(cg):
        if rng.random() < 0.3:
            cg["weight"] = weight(rng, o)
        for cp in cg["cps"] + cg["crs"]:
            if rng.random() < 0.3:
                cp["weight"] = weight(rng, o)
            if rng.random() < 0.3:
                al = at_least(rng, o)
                cp["bins"] = [(k, n, al, c) for k, n, _, c in cp["bins"]]
        for i in cg["insts"]:
            cg_(i)
    for inst in db:
        for cg in inst["cgs"]:
            cg_(cg)
    return db


def stats(db):
    """Number of (instances, covergroups, coverpoints, crosses, coverinstances, bins)"""
    n = [0] * 6

    def cg_(cg):
        n[2] += len(cg["cps"])
        n[3] += len(cg["crs"])
        n[4] += len(cg["insts"])
        for c in cg["cps"] + cg["crs"]:
            n[5] += len(c["bins"])
        for i in cg["insts"]:
            cg_(i)
    for inst in db:
        n[0] += 1
        for cg in inst["cgs"]:
            n[1] += 1
            cg_(cg)
    return tuple(n)


def count_db(ctx, db):
    s = stats(db)
    for k, v in zip(("instances", "covergroups", "coverpoints", "crosses", "coverinstances", "bins"), s):
        ctx.count("gen_" + k, v)
    return s
