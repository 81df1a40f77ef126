from lib import *
COMMON='''
import sys, io, os
from ucis import *
from ucis.mem.mem_factory import MemFactory
from ucis.xml.xml_factory import XmlFactory
from ucis.xml.xml_ucis import XmlUCIS
from ucis.merge import DbMerger
from ucis.scope_type_t import ScopeTypeT as ST
from ucis.cover_type_t import CoverTypeT as CT
from ucis.report.coverage_report_builder import CoverageReportBuilder

def inst(db, name="i", du="m"):
    d = db.createScope(du, None, 1, UCIS_OTHER, UCIS_DU_MODULE, UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU)
    return db.createInstance(name, None, 1, UCIS_OTHER, UCIS_INSTANCE, d, UCIS_INST_ONCE)

def merged(*dbs):
    out = XmlUCIS()
    DbMerger().merge(out, list(dbs))
    return out

def only(it):
    l = list(it)
    assert len(l) == 1, l
    return l[0]

def bins(s, kind=CT.CVGBIN):
    return [(b.getName(), b.getCoverData().data, b.getCoverData().at_least) for b in s.coverItems(kind)]
'''
seed("m-count-wrap","C01",[("merge/db_merger.py","                    bin_name_m[name][0] += cvg_data.data\n","                    bin_name_m[name][0] = (bin_name_m[name][0] + cvg_data.data) & 0xFFFFFFFF\n")],
 "counts whose sum exceeds 32 bits", "merged counts of coverpoint bins wrap at 2^32",
 COMMON+'''
def db(n):
    d = MemFactory.create()
    inst(d).createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER).createBin("b", None, 1, n, "b")
    return d
m = merged(db(3 * 10**9), db(2 * 10**9))
cp = only(only(only(m.scopes(ST.INSTANCE)).scopes(ST.COVERGROUP)).scopes(ST.COVERPOINT))
sys.exit(bins(cp) != [("b", 5 * 10**9, 1)])
''')
seed("m-last-threshold","C02",[("merge/db_merger.py","                    if bin_n not in bin_name_m.keys():\n                        bin_name_m[bin_n] = [0, cvg_data.at_least]\n                        bin_name_l.append(bin_n)\n","                    if bin_n not in bin_name_m.keys():\n                        bin_name_m[bin_n] = [0, cvg_data.at_least]\n                        bin_name_l.append(bin_n)\n                    bin_name_m[bin_n][1] = max(bin_name_m[bin_n][1], cvg_data.at_least)\n"),
 ("merge/db_merger.py","                    bin_name_m[bin_n][1], # at_least\n                    bin_name_m[bin_n][0], # count\n","                    max(1, bin_name_m[bin_n][1]), # at_least\n                    bin_name_m[bin_n][0], # count\n")],
 "a cross bin with at_least 0, or sources that disagree on it", "the threshold of merged cross bins is not that of the first source",
 COMMON+'''
def db(al):
    d = MemFactory.create()
    g = inst(d).createCovergroup("g", None, 1, UCIS_OTHER)
    p = g.createCoverpoint("p", None, 1, UCIS_OTHER)
    g.createCross("x", None, 1, UCIS_OTHER, [p]).createBin("b", None, al, 1, "b")
    return d
m = merged(db(2), db(5))
x = only(only(only(m.scopes(ST.INSTANCE)).scopes(ST.COVERGROUP)).scopes(ST.CROSS))
sys.exit(bins(x) != [("b", 2, 2)])
''')
seed("m-cross-order","C02",[("merge/db_merger.py","""            for i in range(src_cr_l[0].getNumCrossedCoverpoints()):
                src_cp = src_cr_l[0].getIthCrossedCoverpoint(i)
""","""            for i in range(src_cr_l[-1].getNumCrossedCoverpoints()):
                src_cp = src_cr_l[-1].getIthCrossedCoverpoint(i)
""")],
 "two sources whose crosses of the same name list the coverpoints in different orders", "the merged cross follows the last source instead of the first",
 COMMON+'''
def db(rev):
    d = MemFactory.create()
    g = inst(d).createCovergroup("g", None, 1, UCIS_OTHER)
    l = [g.createCoverpoint(n, None, 1, UCIS_OTHER) for n in "pq"]
    if rev: l.reverse()
    g.createCross("x", None, 1, UCIS_OTHER, l).createBin("b", None, 1, 1, "b")
    return d
m = merged(db(False), db(True))
x = only(only(only(m.scopes(ST.INSTANCE)).scopes(ST.COVERGROUP)).scopes(ST.CROSS))
sys.exit([x.getIthCrossedCoverpoint(i).getScopeName() for i in range(2)] != ["p", "q"])
''')
seed("r-empty-cp-weight","C03",[("report/coverage_report_builder.py","""        for cp in cg_r.coverpoints:
            if cp.weight > 0:
                coverage += cp.coverage * cp.weight
            div += cp.weight
""","""        for cp in cg_r.coverpoints:
            if cp.weight > 0:
                coverage += cp.coverage * cp.weight
            if cp.coverage > 0 or len(cp.illegal_bins) == 0:
                div += cp.weight
""")],
 "an entirely unhit coverpoint that has illegal bins", "its weight is left out of the mean, so the covergroup's percentage is too high",
 COMMON+'''
d = MemFactory.create()
g = inst(d).createCovergroup("g", None, 1, UCIS_OTHER)
g.createCoverpoint("p", None, 1, UCIS_OTHER).createBin("b", None, 1, 1, "b")
q = g.createCoverpoint("q", None, 1, UCIS_OTHER)
q.createBin("b", None, 1, 0, "b")
q.createBin("x", None, 1, 0, "x", UCIS_ILLEGALBIN)
sys.exit(abs(CoverageReportBuilder.build(d).covergroups[0].coverage - 50) > 1e-9)
''')
seed("r-overall-last","C03",[("report/coverage_report_builder.py","            cp_r.coverage = (100*num_hit)/total\n","            cp_r.coverage = 100*round(num_hit/total, 4)\n")],
 "a coverpoint whose share of hit bins has more than four decimals", "coverpoint percentages are rounded before they are used; with many bins 100 is reached too early",
 COMMON+'''
d = MemFactory.create()
p = inst(d).createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER)
for i in range(3): p.createBin(str(i), None, 1, int(i < 1), str(i))
sys.exit(abs(CoverageReportBuilder.build(d).covergroups[0].coverpoints[0].coverage - 100/3) > 1e-6)
''')
seed("r-illegal-zero","C04",[("report/coverage_report_builder.py","""            cp_r.illegal_bins.append(CoverageReport.CoverBin(
                    ci_n.getName(),
                    cvg_data.at_least,
                    cvg_data.data))
""","""            if cvg_data.data < cvg_data.at_least and len(cp_r.illegal_bins) > 0:
                continue
            cp_r.illegal_bins.append(CoverageReport.CoverBin(
                    ci_n.getName(),
                    cvg_data.at_least,
                    cvg_data.data))
""")],
 "several illegal bins, the second or later of which is unhit", "that bin is missing from the report",
 COMMON+'''
d = MemFactory.create()
p = inst(d).createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER)
for i in range(3): p.createBin(str(i), None, 1, 1 - i % 2, str(i), UCIS_ILLEGALBIN)
sys.exit(len(CoverageReportBuilder.build(d).covergroups[0].coverpoints[0].illegal_bins) != 3)
''')
seed("f-hit-order","C05",[("report/text_coverage_report_formatter.py","""            for b in bins:
                if not b.hit:
                    self.writeln("%s : %d", b.name, b.count)
""","""            for b in bins:
                if b.count == 0:
                    self.writeln("%s : %d", b.name, b.count)
""")],
 "bins ordered by hit, and a bin with a count between 1 and its threshold", "the bin is missing from the detailed text report",
 COMMON+'''
from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
d = MemFactory.create()
p = inst(d).createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER)
p.createBin("half", None, 4, 2, "half")
o = io.StringIO()
f = TextCoverageReportFormatter(CoverageReportBuilder.build(d), o)
f.details = True
f.order_bins_by_hit = True
f.report()
sys.exit("half : 2" not in o.getvalue())
''')
seed("f-json-zero","C05",[("report/format_rpt_json.py","""                cp_j.illegalbins = []
                for b in cp.illegal_bins:
                    b_j = self._ns.CoverBin()
                    b_j.name = b.name
""","""                cp_j.illegalbins = []
                for b in cp.illegal_bins:
                    b_j = self._ns.CoverBin()
                    b_j.name = b.name.encode("ascii", "replace").decode()
""")],
 "an illegal bin whose name has non-ASCII characters", "the JSON report shows question marks instead of its name",
 COMMON+'''
import json
from ucis.report.format_rpt_json import FormatRptJson
d = MemFactory.create()
p = inst(d).createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER)
p.createBin("\\u00fc", None, 1, 2, "b", UCIS_ILLEGALBIN)
o = io.StringIO()
FormatRptJson().report(d, o, [])
sys.exit("?" in json.dumps(json.loads(o.getvalue()), ensure_ascii=False))
''')
seed("x-strip-attr","C06",[("xml/xml_writer.py","""#        e.set(QName(XmlWriter.UCIS, name), val)
        e.set(name, val)
""","""#        e.set(QName(XmlWriter.UCIS, name), val)
        e.set(name, " ".join(val.split(" ")[:1] + [w for w in val.split(" ")[1:] if w]))
""")],
 "names with consecutive or trailing blanks", "blanks are collapsed when writing, so names do not come back",
 COMMON+'''
d = XmlUCIS()
p = inst(d).createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("a  b ", None, 1, UCIS_OTHER)
p.createBin("b", None, 1, 2, "b")
d.write("x.xml")
r = XmlFactory.read("x.xml")
n = [c.getScopeName() for c in only(only(r.scopes(ST.INSTANCE)).scopes(ST.COVERGROUP)).scopes(ST.COVERPOINT)]
sys.exit(n != ["a  b "])
''')
seed("x-single-inst","C06",[("xml/xml_writer.py","""                while cg_inst is not None:
                    self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst)
                    cg_inst = next(inst_it, None)
""","""                done = set()
                while cg_inst is not None:
                    key = (cg_inst.getScopeName().lower(), cg_inst.getWeight())
                    if key not in done:
                        self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst)
                    done.add(key)
                    cg_inst = next(inst_it, None)
""")],
 "two cover instances whose names differ in case only, with equal weights", "the second one is lost in the XML written",
 COMMON+'''
d = XmlUCIS()
g = inst(d).createCovergroup("g", None, 1, UCIS_OTHER)
for n in ("a", "A"):
    g.createCoverInstance(n, None, 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER).createBin("b", None, 1, 2, "b")
d.write("x.xml")
r = XmlFactory.read("x.xml")
n = [c.getScopeName() for c in only(only(r.scopes(ST.INSTANCE)).scopes(ST.COVERGROUP)).scopes(ST.COVERINSTANCE)]
sys.exit(n != ["a", "A"])
''')
seed("x-file-basename","C07",[("xml/xml_writer.py","""                filename = srcinfo.file.getFileName()
                if filename not in self.file_id_m.keys():
                    id = len(self.file_id_m)+1
                    self.file_id_m[filename] = id
                    
            self.find_all_files(s.scopes(ScopeTypeT.ALL))
""","""                filename = srcinfo.file.getFileName()
                if filename not in self.file_id_m.keys():
                    id = len(self.file_id_m)+1
                    self.file_id_m[filename] = id
                    
            if s.getScopeType() != ScopeTypeT.COVERGROUP:
                self.find_all_files(s.scopes(ScopeTypeT.ALL))
""")],
 "a source file that only a coverpoint or a cover instance refers to", "the file is not listed in the document",
 COMMON+'''
from ucis.source_info import SourceInfo
d = XmlUCIS()
f = d.createFileHandle("cp.sv", None)
p = inst(d).createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("p", SourceInfo(f, 3, 1), 1, UCIS_OTHER)
p.createBin("b", None, 1, 2, "b")
d.write("x.xml")
sys.exit("cp.sv" not in open("x.xml").read())
''')
