"""Reference semantics, computed on models only (nothing is imported from the
code under test)"""
from fractions import Fraction

from .gen import KINDS


# --- merge -------------------------------------------------------------------

def _merge_items(groups, what):
    """groups: list of covergroup models; merges their cps or crs by name"""
    order, m = [], {}
    for g in groups:
        for c in g[what]:
            if c["name"] not in m:
                m[c["name"]] = []
                order.append(c["name"])
            m[c["name"]].append((g, c))
    out = []
    for n in order:
        srcs = m[n]
        first_g, first = srcs[0]
        bins = []
        for kind in KINDS:
            bo, bm = [], {}
            for _, c in srcs:
                for k, bn, al, cnt in c["bins"]:
                    if k != kind:
                        continue
                    if bn not in bm:
                        bm[bn] = [al, 0]
                        bo.append(bn)
                    bm[bn][1] += cnt
            bins += [(kind, bn, bm[bn][0], bm[bn][1]) for bn in bo]
        r = {"name": n, "weight": first["weight"], "bins": bins}
        if what == "crs":
            r["cpnames"] = [first_g["cps"][i]["name"] for i in first["cps"]]
        out.append(r)
    return out


def _merge_cgs(cgs, top):
    r = {"name": cgs[0]["name"], "weight": cgs[0]["weight"],
         "cps": _merge_items(cgs, "cps"), "crs": _merge_items(cgs, "crs"), "insts": []}
    idx = {}
    for i, c in enumerate(r["cps"]):
        idx[c["name"]] = i
    for cr in r["crs"]:
        cr["cps"] = [idx[n] for n in cr.pop("cpnames")]
    if top:
        order, m = [], {}
        for cg in cgs:
            for i in cg["insts"]:
                if i["name"] not in m:
                    m[i["name"]] = []
                    order.append(i["name"])
                m[i["name"]].append(i)
        r["insts"] = [_merge_cgs(m[n], False) for n in order]
    return r


def merge(dbs):
    order, m = [], {}
    for db in dbs:
        for inst in db:
            if inst["name"] not in m:
                m[inst["name"]] = []
                order.append(inst["name"])
            m[inst["name"]].append(inst)
    out = []
    for n in order:
        r = {"name": n, "du": m[n][0]["du"], "weight": m[n][0]["weight"], "cgs": []}
        co, cm = [], {}
        for inst in m[n]:
            for cg in inst["cgs"]:
                if cg["name"] not in cm:
                    cm[cg["name"]] = []
                    co.append(cg["name"])
                cm[cg["name"]].append(cg)
        r["cgs"] = [_merge_cgs(cm[c], True) for c in co]
        out.append(r)
    return out


def flat(db, dups=None):
    """{path of the bin: count}; with duplicates, counts add up (dups collects them)"""
    out = {}

    def add(key, c):
        if key in out:
            if dups is not None:
                dups.append(key)
            out[key] += c
        else:
            out[key] = c

    def cg_(path, cg):
        for what in ("cps", "crs"):
            for c in cg[what]:
                for k, n, al, cnt in c["bins"]:
                    add(path + (what, c["name"], k, n), cnt)
        for i in cg["insts"]:
            cg_(path + ("inst", i["name"]), i)
    for inst in db:
        for cg in inst["cgs"]:
            cg_((inst["name"], cg["name"]), cg)
    return out


def scopes(db):
    """Paths of all scopes, including those without bins"""
    out = []

    def cg_(path, cg):
        out.append(path)
        for what in ("cps", "crs"):
            for c in cg[what]:
                out.append(path + (what, c["name"]))
        for i in cg["insts"]:
            cg_(path + ("inst", i["name"]), i)
    for inst in db:
        out.append((inst["name"],))
        for cg in inst["cgs"]:
            cg_((inst["name"], "cg", cg["name"]), cg)
    return out


# --- report ----------------------------------------------------------------------

def cov_item(c):
    bins = [b for b in c["bins"] if b[0] == "bin"]
    if not bins:
        return Fraction(0)
    return Fraction(100 * sum(1 for b in bins if b[3] >= b[2]), len(bins))


def wmean(pairs):
    w = sum(p[1] for p in pairs)
    if w == 0:
        return Fraction(0)
    return sum((p[0] * p[1] for p in pairs), Fraction(0)) / w


def report_cg(cg):
    r = {"name": cg["name"], "weight": cg["weight"], "cps": [], "crs": []}
    for cp in cg["cps"]:
        r["cps"].append({"name": cp["name"], "weight": cp["weight"], "cov": cov_item(cp),
                         "bins": [b[1:] for b in cp["bins"] if b[0] == "bin"],
                         "ignore": [b[1:] for b in cp["bins"] if b[0] == "ignore"],
                         "illegal": [b[1:] for b in cp["bins"] if b[0] == "illegal"]})
    for cr in cg["crs"]:
        r["crs"].append({"name": cr["name"], "weight": cr["weight"], "cov": cov_item(cr),
                         "bins": [b[1:] for b in cr["bins"] if b[0] == "bin"]})
    r["cov"] = wmean([(c["cov"], c["weight"]) for c in r["cps"] + r["crs"]])
    r["insts"] = [report_cg(i) for i in cg["insts"]]
    return r


def report(db):
    cgs = [report_cg(cg) for inst in db for cg in inst["cgs"]]
    return {"cgs": cgs, "cov": wmean([(c["cov"], c["weight"]) for c in cgs])}


# --- interchange format ------------------------------------------------------------

def shared_al(bins):
    """The threshold that a coverpoint or cross states for its bins"""
    return next((b[2] for b in bins if b[0] == "bin"), bins[0][2] if bins else 1)


def _type_of(insts, name, weight):
    """Type-level covergroup that a reader derives from cover instances"""
    r = {"name": name, "weight": weight, "cps": [], "crs": [], "insts": []}
    idx = {}
    for what in ("cps", "crs"):
        m = {}
        for inst in insts:
            for c in inst[what]:
                if c["name"] not in m:
                    al = shared_al(c["bins"])
                    al = c.get("al", al)
                    t = {"name": c["name"], "weight": c["weight"], "bins": [], "_al": al, "_b": {}}
                    if what == "crs":
                        t["cps"] = [idx[inst["cps"][i]["name"]] for i in c["cps"]]
                    else:
                        idx[c["name"]] = len(r["cps"])
                    m[c["name"]] = t
                    r[what].append(t)
                t = m[c["name"]]
                for k, n, _, cnt in c["bins"]:
                    t["_b"][(k, n)] = t["_b"].get((k, n), 0) + cnt
    for what in ("cps", "crs"):
        for t in r[what]:
            t["bins"] = [(k, n, t["_al"], cnt) for (k, n), cnt in t["_b"].items()]
            del t["_al"], t["_b"]
    return r


def xml_image(db):
    """The database that is read back after db was written in XML format"""
    out = []
    for inst in db:
        r = {"name": inst["name"], "du": "default" if inst["du"] is None else inst["du"], "weight": 1, "cgs": []}
        for cg in inst["cgs"]:
            insts = []
            for i in (cg["insts"] or [cg]):
                ii = {"name": i["name"], "weight": i["weight"], "insts": []}
                for what in ("cps", "crs"):
                    ii[what] = []
                    for c in i[what]:
                        al = shared_al(c["bins"])
                        n = {"name": c["name"], "weight": c["weight"],
                             "bins": [(k, bn, al, cnt) for k, bn, _, cnt in c["bins"]]}
                        if what == "crs":
                            n["cps"] = list(c["cps"])
                        ii[what].append(n)
                insts.append(ii)
            t = _type_of(insts, cg["name"], cg["weight"])
            t["insts"] = insts
            r["cgs"].append(t)
        out.append(r)
    return out


def norm(db, du=True, weight=True, nonbin_al=False, kind_order=False):
    """Drops what a comparison is not about:
    du: names of design units; weight: weights of instances; nonbin_al: the threshold
    of ignore/illegal bins (which has no meaning) is dropped unless True;
    kind_order: bins are compared in order per kind only"""
    def bins_(bins):
        b = [(k, n, al if (k == "bin" or nonbin_al) else None, c) for k, n, al, c in bins]
        if not kind_order:
            b = [x for kind in KINDS for x in b if x[0] == kind]
        return b

    def cg_(cg):
        return {"name": cg["name"], "weight": cg["weight"],
                "cps": [{"name": c["name"], "weight": c["weight"], "bins": bins_(c["bins"])} for c in cg["cps"]],
                "crs": [{"name": c["name"], "weight": c["weight"], "cps": list(c["cps"]), "bins": bins_(c["bins"])}
                        for c in cg["crs"]],
                "insts": [cg_(i) for i in cg["insts"]]}
    out = []
    for inst in db:
        r = {"name": inst["name"], "cgs": [cg_(c) for c in inst["cgs"]]}
        if du:
            r["du"] = inst["du"]
        if weight:
            r["weight"] = inst["weight"]
        out.append(r)
    return out
