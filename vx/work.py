"""Workloads shared by several checks"""
import contextlib
import io
import locale
import os

from . import gen, oracle, sut
from .core import sut as must


@contextlib.contextmanager
def legacy_locale(ctx, chance=0.15):
    """Sometimes, files opened without an encoding are ASCII, as in locales that are not UTF-8"""
    if ctx.rng.random() >= chance:
        yield
        return
    old = locale.setlocale(locale.LC_CTYPE)
    locale.setlocale(locale.LC_CTYPE, "C")
    try:
        if locale.getencoding().lower() not in ("utf-8", "utf8"):
            ctx.count("legacy_locale")
        yield
    finally:
        locale.setlocale(locale.LC_CTYPE, old)


def xml_write(db, path=None):
    """Writes a database; returns the document as bytes"""
    from ucis.xml.xml_factory import XmlFactory
    if path is None:
        s = io.StringIO()
        XmlFactory.write(db, s)
        return s.getvalue().encode("utf-8")
    XmlFactory.write(db, path)
    with open(path, "rb") as fp:
        return fp.read()


def xml_read(src):
    from ucis.xml.xml_factory import XmlFactory
    return XmlFactory.read(src)


def merge(srcs, dst=None, merger=None):
    from ucis.merge.db_merger import DbMerger
    from ucis.mem.mem_factory import MemFactory
    if dst is None:
        dst = MemFactory.create()
    (merger or DbMerger()).merge(dst, srcs)
    return dst


def gen_sources(ctx, maxn=5, consistent=None):
    """Models of several runs of one design"""
    rng = ctx.rng
    o = gen.Opts(unique=rng.random() < 0.8)
    if rng.random() < 0.1:
        o.scale = 4
    nm = gen.Namer(rng, o)
    base = gen.gen_db(rng, o, nm)
    n = rng.randint(1, maxn) if rng.random() < 0.93 else rng.randint(6, 14)
    if gen.HUGE == "sources":
        n = rng.randint(1030, 1060)
    if consistent is None:
        consistent = rng.random() < 0.6
    srcs = []
    for i in range(n):
        r = rng.random()
        if r < 0.06:
            m = gen.gen_db(rng, o, nm)              # unrelated structure, similar names
            if consistent:
                m = gen.vary_db(rng, o, base, 0.5)
        elif r < 0.12:
            m = []
        else:
            m = gen.vary_db(rng, o, base, rng.choice([0.0, 0.1, 0.3, 0.6]), shuffle=rng.random() < 0.3)
            if not consistent:
                m = gen.perturb(rng, o, m)
        srcs.append(m)
    return o, srcs


def nontrivial_merge(srcs):
    """At least one bin occurs in several sources, or the sources differ in structure"""
    keys = [set(oracle.flat(s)) for s in srcs]
    return len(srcs) > 1 and any(keys[i] & keys[j] for i in range(len(keys)) for j in range(i))


def materialize(ctx, model, rng):
    """A database with the given model, built in one of the ways users get one.
    Returns (database, model it now holds)"""
    r = rng.random()
    if r < 0.75:
        with must("building a database"):
            return sut.build(model, rng), model
    if r < 0.85:
        with must("building a database"):
            return sut.build(model, rng, sut.new_xml_db()), model
    db = sut.build(model, rng)
    if not representable(model):
        return db, model
    with must("writing and reading back XML"):
        p = ctx.path(".xml")
        xml_write(db, p)
        rd = xml_read(p)
    ctx.count("sources_read_from_xml")
    # what was read is taken as it is: this is not a round-trip check
    return rd, sut.snap(rd)


def representable(model):
    """The interchange format needs coverpoints with bins, and distinct names"""
    def ok(cg):
        if not cg["cps"]:
            return False
        for what in ("cps", "crs"):
            names = [c["name"] for c in cg[what]]
            if len(set(names)) != len(names) or any(not c["bins"] for c in cg[what]):
                return False
        return True
    if not model:
        return False
    for inst in model:
        for cg in inst["cgs"]:
            for i in (cg["insts"] or [cg]):
                if not ok(i):
                    return False
    return True
