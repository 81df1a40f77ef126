"""Run in a process of its own: the first uses of the registry, by several threads at once.
Each round is a fork of a process that has imported the library but not used it."""
import io
import os
import sys
import threading

import ucis
from ucis.cover_type_t import CoverTypeT
from ucis.rgy.format_rgy import FormatRgy
from ucis.scope_type_t import ScopeTypeT

YAML = """
coverage:
  covergroups:
  - name: cg
    weight: 1
    instances:
    - name: i0
      coverpoints:
      - name: cp
        atleast: 1
        bins:
        - {name: a, count: 3}
        - {name: b, count: 4}
"""


def round_(n, k):
    sys.setswitchinterval([1e-6, 1e-5, 1e-4, 5e-3][k % 4])
    bar = threading.Barrier(n)
    bad = []

    def run(t):
        bar.wait()
        try:
            r = FormatRgy.inst()
            dbs, rpts = r.getDatabaseFormats(), r.getReportFormats()
            if dbs != ["libucis", "xml", "yaml"] and not {"xml", "yaml"} <= set(dbs):
                bad.append("formats %r" % dbs)
            if not {"json", "txt"} <= set(rpts):
                bad.append("report formats %r" % rpts)
            if t % 2:
                FormatRgy.inst().getDatabaseDesc("xml").fmt_if().create()
            else:
                FormatRgy.inst().getReportDesc("txt").fmt_if()
            if k % 3 == 0:
                from ucis.yaml.yaml_reader import YamlReader
                db = YamlReader().loads(YAML)
                out = io.StringIO()
                FormatRgy.inst().getReportDesc(["json", "txt"][t % 2]).fmt_if().report(db, out, [])
                p = "%s/t%d.xml" % (sys.argv[2], t)
                from ucis.xml.xml_factory import XmlFactory
                XmlFactory.write(db, p)
                with open(p, "rb") as fp:
                    doc = fp.read()
                db2 = XmlFactory.read(io.BytesIO(doc))
                n = sum(b.getCoverData().data for i in db2.scopes(ScopeTypeT.INSTANCE)
                        for g in i.scopes(ScopeTypeT.COVERGROUP) for ci in g.scopes(ScopeTypeT.COVERINSTANCE)
                        for c in ci.scopes(ScopeTypeT.COVERPOINT) for b in c.coverItems(CoverTypeT.CVGBIN))
                if n != 7:
                    bad.append("pipeline delivers %d hits" % n)
            if FormatRgy.inst() is not r:
                bad.append("two registries")
        except BaseException as e:
            bad.append("%s: %s" % (type(e).__name__, e))
    ts = [threading.Thread(target=run, args=(t,)) for t in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return bad


def main():
    # libxml2 (up to 2.14 at least) crashes when threads race to parse the first schema of a process,
    # with or without the library under test: let it initialise itself
    from lxml import etree
    etree.XMLSchema(etree.XML(b'<x:schema xmlns:x="http://www.w3.org/2001/XMLSchema"><x:element name="a" type="x:string"/></x:schema>'))
    rounds = int(sys.argv[1])
    for k in range(rounds):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            b = round_(2 + k % 7, k)
            os.write(wr, (b[0][:200] if b else "").encode())
            os._exit(0)
        os.close(wr)
        msg = os.read(rd, 4096).decode()
        os.close(rd)
        _, st = os.waitpid(pid, 0)
        if msg or st:
            print("FAIL round %d: %s (status %d)" % (k, msg, st))
            sys.exit(0)
    print("OK %d" % rounds)


main()
