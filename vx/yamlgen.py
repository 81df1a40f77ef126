"""Generator of YAML coverage documents, and the database that a document stands for"""
import copy
import datetime
import json

import yaml

from . import gen, oracle


def gen_doc(rng, o=None):
    """{cgs: None or [{name, weight, insts: None or [{name, cps: None or [..], crs: None or [..]}]}]}
    al, weight None: absent"""
    o = gen.widen(rng, o or gen.Opts(uniform_al=True, coverinsts=False, cross_kinds=("bin",)))
    nm = gen.Namer(rng, o)
    opt = lambda v, p=0.3: None if rng.random() < p else v
    cgs, used = [], set()
    for _ in range(gen.size(rng, o, 0, 3, 6, "cgs")):
        name = nm.take(used)
        base = gen.gen_cg(rng, o, nm, name, top=False)
        cg = {"name": name, "weight": opt(gen.weight(rng, o)), "insts": []}
        usedi = set()
        for _ in range(gen.size(rng, o, 0, 3, 8, "insts")):
            g = gen.vary_cg(rng, o, base, 0.2) if rng.random() < 0.8 else gen.gen_cg(rng, o, nm, name, top=False)
            i = {"name": nm.take(usedi), "cps": g["cps"], "crs": g["crs"]}
            for c in i["cps"] + i["crs"]:
                c["al"] = opt(next((b[2] for b in c["bins"] if b[0] == "bin"), gen.at_least(rng, o)))
                c["nobins"] = rng.random() < 0.3      # absent rather than empty, where allowed
            i["nocps"] = not i["cps"] and rng.random() < 0.5
            i["nocrs"] = not i["crs"] and rng.random() < 0.5
            cg["insts"].append(i)
        cg["noinsts"] = not cg["insts"] and rng.random() < 0.5
        cgs.append(cg)
    return {"cgs": cgs, "nocgs": not cgs and rng.random() < 0.3, "nocov": not cgs and rng.random() < 0.2}


def data(doc):
    """The plain data of a document, as any YAML or JSON library would hold it"""
    def bins(c, kind):
        return [{"name": n, "count": v} for k, n, _, v in c["bins"] if k == kind]

    def item(c, i, cross):
        r = {"name": c["name"]}
        if c["al"] is not None:
            r["atleast"] = c["al"]
        if cross:
            r["coverpoints"] = [i["cps"][x]["name"] for x in c["cps"]]
        b = bins(c, "bin")
        if not cross or b or not c["nobins"]:
            r["bins"] = b
        if not cross:
            for kind in ("ignore", "illegal"):
                b = bins(c, kind)
                if b or not c["nobins"]:
                    r[kind + "bins"] = b
        return r

    def inst(i):
        r = {"name": i["name"]}
        if not i["nocps"]:
            r["coverpoints"] = [item(c, i, False) for c in i["cps"]]
        if not i["nocrs"]:
            r["crosses"] = [item(c, i, True) for c in i["crs"]]
        return r

    out = []
    for cg in doc["cgs"]:
        r = {"name": cg["name"]}
        if cg["weight"] is not None:
            r["weight"] = cg["weight"]
        if not cg["noinsts"]:
            r["instances"] = [inst(i) for i in cg["insts"]]
        out.append(r)
    if doc["nocov"]:
        return {}
    return {"coverage": {} if doc["nocgs"] else {"covergroups": out}}


def text(rng, d):
    """Spells a document in one of many ways"""
    r = rng.random()
    if r < 0.2 and like_json(d):
        return json.dumps(d, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1, 2]), default=str)
    d = copy.deepcopy(d)
    if rng.random() < 0.3:
        d = shuffle_keys(rng, d)
    if rng.random() < 0.3 and like_json(d):
        d = share(d, {})
    elif rng.random() < 0.4:
        d = numbers(rng, d)
    kw = {"default_flow_style": rng.choice([None, False, True]), "allow_unicode": rng.random() < 0.5,
          "width": rng.choice([20, 80, 10 ** 6]), "indent": rng.choice([None, 2, 4]),
          "default_style": rng.choice([None, None, "\"", "'"]), "explicit_start": rng.random() < 0.3,
          "explicit_end": rng.random() < 0.1, "sort_keys": rng.random() < 0.5}
    s = yaml.dump(d, Dumper=Dumper, **kw)
    if kw["default_style"]:
        # numbers come out as !!int "5": that is fine
        pass
    if rng.random() < 0.3:
        s = "# comment\n" + s + "\n# end: {\n"
    return s


def like_json(d):
    if isinstance(d, dict):
        return all(isinstance(k, str) and like_json(v) for k, v in d.items())
    if isinstance(d, list):
        return all(like_json(v) for v in d)
    return not isinstance(d, (set, bytes))


class Dumper(yaml.SafeDumper):
    pass


class Int(int):
    """A number together with its spelling"""
    spelling = None


def _int(dumper, n):
    return dumper.represent_scalar("tag:yaml.org,2002:int", n.spelling)


Dumper.add_representer(Int, _int)


def numbers(rng, d):
    """Spells some of the numbers in the other ways that YAML has"""
    if isinstance(d, dict):
        return {k: numbers(rng, v) for k, v in d.items()}
    if isinstance(d, list):
        return [numbers(rng, v) for v in d]
    if isinstance(d, int) and not isinstance(d, bool) and d >= 0 and rng.random() < 0.5:
        n = Int(d)
        n.spelling = rng.choice(["+%d" % d, "%#x" % d, "0b{:b}".format(d), "{:_}".format(d), "0%o" % d, "%d" % d])
        return n
    return d


# What documents may say beyond what the schema knows: it does not restrict additional keys
EXTRA = [("tool", "x"), ("date", datetime.date(2020, 1, 2)), ("time", datetime.datetime(2021, 3, 28, 2, 30)), ("count", 3),
         ("comment", "c: d"), ("options", {"a": [1, 2.5, None, True]}), ("x-y z", []), ("1", 2), ("type", "t"), ("sum", 1.5),
         (datetime.date(2020, 1, 2), "x"), (datetime.datetime(2021, 3, 28, 2, 30), 1), (5, 6), (None, 7), (True, 8), (2.5, 9), (b"\0\xff", "bytes"),
         ("self", 1), ("_properties", 1), ("_extended_properties", {}), ("_value", "x"), ("as_dict", 3), ("validate", None), ("__class__", "x"),
         ("\0", 1), ("", ""), ("NAME", "x"), ("name ", "x"), ("Bins", []), ("set", {"a", 1}), ("nested", {datetime.date(2020, 1, 2): {3: [b"x"]}}),
         ("$ref", "#/defs/x"), ("properties", {"name": 1}), ("required", ["x"]),
         ("title", "t"), ("items", {"name": "b", "count": 3}), ("weights", [3]), ("at_least", 9), ("\u00e9", "\u4e2d")]


def extras(rng, d, path="doc"):
    """Adds keys which mean nothing"""
    if isinstance(d, dict):
        d = {k: extras(rng, v, k) for k, v in d.items()}
        for _ in range(rng.choice([0, 0, 1, 2])):
            k, v = rng.choice(EXTRA)
            # names that mean something here, or a misspelling of which the reader might tolerate, stay out
            if k not in d and not (k == "count" and path == "bins"):
                d[k] = copy.deepcopy(v)
        return d
    if isinstance(d, list):
        return [extras(rng, v, path) for v in d]
    return d


def encoded(rng, s):
    """The bytes of a document, in one of the encodings that YAML has"""
    how = rng.choice(["utf-8", "utf-8-sig", "utf-16-le", "utf-16-be"])
    if how == "utf-16-le":
        return how, b"\xff\xfe" + s.encode(how)
    if how == "utf-16-be":
        return how, b"\xfe\xff" + s.encode(how)
    return how, s.encode(how)


def shuffle_keys(rng, d):
    if isinstance(d, dict):
        k = list(d)
        rng.shuffle(k)
        return {x: shuffle_keys(rng, d[x]) for x in k}
    if isinstance(d, list):
        return [shuffle_keys(rng, x) for x in d]
    return d


def share(d, memo):
    """Equal parts become the same object: the emitter then uses anchors and aliases"""
    if isinstance(d, dict):
        d = {k: share(v, memo) for k, v in d.items()}
    elif isinstance(d, list):
        d = [share(v, memo) for v in d]
    else:
        return d
    return memo.setdefault(json.dumps(d, sort_keys=False, default=repr), d)


def content(doc):
    one = lambda v: 1 if v is None else v
    inst = {"name": "cg_inst", "du": "du", "weight": 1, "cgs": []}
    for cg in doc["cgs"]:
        w = one(cg["weight"])
        insts = []
        for g in cg["insts"]:
            i = {"name": g["name"], "weight": w, "insts": []}
            for what in ("cps", "crs"):
                i[what] = []
                for c in g[what]:
                    x = {"name": c["name"], "weight": 1, "al": one(c["al"]),
                         "bins": [(k, n, one(c["al"]), v) for k, n, _, v in c["bins"]]}
                    if what == "crs":
                        x["cps"] = list(c["cps"])
                    i[what].append(x)
            insts.append(i)
        t = oracle._type_of(insts, cg["name"], w)
        t["insts"] = insts
        inst["cgs"].append(t)
    return [inst]
