from lib import *
import importlib
src=open("/tmp/seeds/b1.py").read()
COMMON=src.split("COMMON='''",1)[1].split("'''",1)[0]
XMLC=COMMON+'''
import xml.sax.saxutils as su
HEAD = """<UCIS writtenBy="u" writtenTime="2020-01-02T03:04:05" ucisVersion="1.0">
<sourceFiles fileName="f" id="1"/>
<historyNodes historyNodeId="0" logicalName="t" kind="test" testStatus="true" date="2020-01-02T03:04:05"
 toolCategory="x" ucisVersion="1.0" vendorId="v" vendorTool="t" vendorToolVersion="1"/>
<instanceCoverages name="i" key="0"><id file="1" line="1" inlineCount="1"/>"""
TAIL = "</instanceCoverages></UCIS>"
def cgi(name, typ, cps):
    return """<cgInstance name="%s" key="0"><options/><cgId cgName="%s" moduleName="m">
<cginstSourceId file="1" line="1" inlineCount="1"/><cgSourceId file="1" line="1" inlineCount="1"/></cgId>%s</cgInstance>""" % (name, typ, cps)
def cp(name, bins, opts="<options/>"):
    return """<coverpoint name="%s" key="0">%s%s</coverpoint>""" % (name, opts, "".join(
        """<coverpointBin name="%s" type="%s" key="0"><range from="0" to="0"><contents coverageCount="%s"/></range></coverpointBin>""" % b for b in bins))
def read(s):
    return XmlFactory.read(io.BytesIO(s.encode()))
'''
seed("d-group-consecutive","C08",[("xml/xml_reader.py","""            if typename in cg_type_m.keys():
                cg_type_m[typename].append(i)
            else:
                cg_type_m[typename] = [i]
""","""            if i is instances[0] or typename != last_typename:
                cg_type_m[typename] = []
            cg_type_m[typename].append(i)
            last_typename = typename
""")],
 "a covergroupCoverage whose cgInstances of one type are not consecutive","the earlier instances of the type are dropped",
 XMLC+'''
db = read(HEAD + "<covergroupCoverage>" + cgi("a", "T", cp("p", [("b", "bins", 1)])) + cgi("b", "U", cp("p", [("b", "bins", 2)]))
          + cgi("c", "T", cp("p", [("b", "bins", 4)])) + "</covergroupCoverage>" + TAIL)
g = {s.getScopeName(): s for s in only(db.scopes(ST.INSTANCE)).scopes(ST.COVERGROUP)}
sys.exit(bins(only(g["T"].scopes(ST.COVERPOINT))) != [("b", 5, 1)])
''')
seed("d-default-bin","C08",[("xml/xml_reader.py","""        if kind_a == "bins" or kind_a == "default":
            kind = UCIS_CVGBIN
""","""        if kind_a == "bins":
            kind = UCIS_CVGBIN
        elif kind_a == "default":
            # default bins do not count towards coverage
            kind = UCIS_IGNOREBIN
""")],
 "a document with bins of type 'default'","they come back as ignore bins",
 XMLC+'''
db = read(HEAD + "<covergroupCoverage>" + cgi("a", "T", cp("p", [("b", "default", 1)])) + "</covergroupCoverage>" + TAIL)
g = only(only(db.scopes(ST.INSTANCE)).scopes(ST.COVERGROUP))
sys.exit(bins(only(g.scopes(ST.COVERPOINT))) != [("b", 1, 1)])
''')
YC=COMMON+'''
from ucis.yaml.yaml_reader import YamlReader
'''
seed("y-type-atleast","C09",[("yaml/yaml_reader.py","""                        else:
                            cp_t = cp_t_m[str(cp.name)]
                            
                        # Now, do bins...
""","""                        else:
                            cp_t = cp_t_m[str(cp.name)]
                            if cp.atleast is not None:
                                cp_t.atleast = cp.atleast
                            
                        # Now, do bins...
""")],
 "instances of a type that give different thresholds for one coverpoint","the type-level threshold is that of the last instance",
 YC+'''
db = YamlReader().loads("""
coverage:
  covergroups:
  - name: g
    instances:
    - name: i1
      coverpoints:
      - {name: p, atleast: 2, bins: [{name: b, count: 1}]}
    - name: i2
      coverpoints:
      - {name: p, atleast: 7, bins: [{name: b, count: 3}]}
""")
g = only(only(db.scopes(ST.INSTANCE)).scopes(ST.COVERGROUP))
sys.exit(bins(only(g.scopes(ST.COVERPOINT))) != [("b", 4, 2)])
''')
seed("y-dangling","C10",[("yaml/yaml_reader.py","""                    for cp in cr.coverpoints:
                        if cp in cp_n_scope_m.keys():
                            cp_l.append(cp_n_scope_m[cp])
                        else:
                            raise Exception(""","""                    for cp in cr.coverpoints:
                        if cp in cp_n_scope_m.keys():
                            cp_l.append(cp_n_scope_m[cp])
                        elif str(cp) not in cp_t_m.keys():
                            raise Exception(""")],
 "a cross in one instance naming a coverpoint that only another instance of the type has","the document is accepted with a cross of fewer coverpoints",
 YC+'''
try:
    YamlReader().loads("""
coverage:
  covergroups:
  - name: g
    instances:
    - name: i1
      coverpoints:
      - {name: p, bins: [{name: b, count: 1}]}
      - {name: q, bins: [{name: b, count: 1}]}
    - name: i2
      coverpoints:
      - {name: p, bins: [{name: b, count: 1}]}
      crosses:
      - {name: x, coverpoints: [p, q], bins: [{name: xb, count: 5}]}
""")
except Exception:
    sys.exit(0)
sys.exit(1)
''')
seed("d-validate-once","C10",[("xml/xml_factory.py","""        try:            
            validate_ucis_xml(fp)
        except Exception as e:
            if type(file_or_filename) == str:
                fp.close()
            raise e

        fp.seek(0)
""","""        try:            
            if type(file_or_filename) != str or not file_or_filename.endswith(".gz"):
                validate_ucis_xml(fp)
        except Exception as e:
            if type(file_or_filename) == str:
                fp.close()
            raise e

        fp.seek(0)
""")],
 "an invalid document in a file named *.gz","it is not validated",
 XMLC+'''
import gzip
s = HEAD + "<covergroupCoverage bogus='1'>" + cgi("a", "T", cp("p", [("b", "bins", 0)])) + "</covergroupCoverage>" + TAIL
with gzip.open("x.xml.gz", "wb") as f: f.write(s.encode())
try:
    XmlFactory.read("x.xml.gz")
except Exception:
    sys.exit(0)
sys.exit(1)
''')
CLI=XMLC+'''
import subprocess
def cli(*a):
    return subprocess.run([sys.executable, "-W", "ignore", "-m", "ucis"] + list(a), capture_output=True, text=True)
def doc(path, n):
    open(path, "w").write(HEAD + "<covergroupCoverage>" + cgi("a", "T", cp("p", [("b", "bins", n)])) + "</covergroupCoverage>" + TAIL)
def count(path):
    g = only(only(XmlFactory.read(path).scopes(ST.INSTANCE)).scopes(ST.COVERGROUP))
    return bins(only(g.scopes(ST.COVERPOINT)))[0][1]
'''
seed("c-merge-dedupe","C11",[("cmd/cmd_merge.py","    for input in args.db:\n","    for input in dict.fromkeys(args.db):\n")],
 "a merge command naming one input twice","the input counts once only",
 CLI+'''
doc("a.xml", 3); doc("b.xml", 10)
r = cli("merge", "-o", "o.xml", "a.xml", "b.xml", "a.xml")
sys.exit(r.returncode != 0 or count("o.xml") != 16)
''')
seed("c-report-early-open","C12",[("cmd/cmd_report.py","""    in_db = input_if.read(args.db)

    if args.out is None:
""","""    if args.out is not None and (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
        # Fail early if the output cannot be written
        open(args.out, "w").close()

    in_db = input_if.read(args.db)

    if args.out is None:
""")],
 "a report command with -o naming an existing file, and an invalid input","the existing report is emptied",
 CLI+'''
open("r.txt", "w").write("precious")
open("bad.xml", "w").write("<UCIS>")
r = cli("report", "-o", "r.txt", "bad.xml")
sys.exit(r.returncode == 0 or open("r.txt").read() != "precious")
''')
seed("c-merge-skip-missing","C12",[("cmd/cmd_merge.py","""        except Exception as e:
            raise Exception("Failed to read input file %s: %s" % (
""","""        except Exception as e:
            if isinstance(e, PermissionError) and len(db_l) > 0:
                continue
            raise Exception("Failed to read input file %s: %s" % (
""")],
 "a merge whose second or later input cannot be opened (permission denied)","the command succeeds without that input",
 CLI+'''
# run as an ordinary user with an unreadable file: injected, since root reads everything
code = """
import builtins, sys
real = builtins.open
def op(f, *a, **k):
    if str(f) == 'b.xml': raise PermissionError(13, 'Permission denied', f)
    return real(f, *a, **k)
builtins.open = op
import runpy
sys.argv = ['ucis', 'merge', '-o', 'o.xml', 'a.xml', 'b.xml']
runpy.run_module('ucis', run_name='__main__')
"""
doc("a.xml", 3); doc("b.xml", 10)
r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True)
sys.exit(r.returncode == 0 or os.path.exists("o.xml"))
''')
seed("i-cover-mask","C13",[("mem/mem_cover_index_iterator.py","            if (n.data.type & self.mask) != 0:\n","            if (n.data.type & self.mask & 0xFFFFFFFF) != 0 or self.mask == -1:\n")],
 "a cover item type above bit 31 selected by a mask","the cover item is not found",
 COMMON+'''
from ucis.cover_data import CoverData
d = MemFactory.create()
p = inst(d).createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER)
cd = CoverData(UCIS_RESERVEDBIN, UCIS_IS_32BIT); cd.data = 1
p.createNextCover("r", cd, None)
sys.exit([b.getName() for b in p.coverItems(UCIS_RESERVEDBIN)] != ["r"])
''')
seed("i-filehandle","C13",[("mem/mem_ucis.py","""        if filename not in self.file_handle_m.keys():
            self.file_handle_m[filename] = MemFileHandle(filename)
        return self.file_handle_m[filename]
""","""        key = filename.lower()
        if key not in self.file_handle_m.keys():
            self.file_handle_m[key] = MemFileHandle(filename)
        return self.file_handle_m[key]
""")],
 "two source files whose names differ in case only","both get the handle of the first",
 COMMON+'''
d = MemFactory.create()
a, b = d.createFileHandle("Top.sv", None), d.createFileHandle("top.sv", None)
sys.exit((a.getFileName(), b.getFileName()) != ("Top.sv", "top.sv"))
''')
seed("a-toggle-db","C14",[("__init__.py","""        return db.createToggle(name, canonical_name, flags,
                                   toggle_metric, toggle_type, toggle_dir)
""","""        return db.createToggle(name, canonical_name, flags,
                                   toggle_type, toggle_metric, toggle_dir)
""")],
 "ucis_CreateToggle on the database itself","metric and type are swapped",
 COMMON+'''
class D(object):
    def createToggle(self, *a): self.a = a
d = D()
ucis_CreateToggle(d, None, "n", "c", 0, UCIS_TOGGLE_METRIC_ENUM, UCIS_TOGGLE_TYPE_NET, UCIS_TOGGLE_DIR_IN)
sys.exit(d.a != ("n", "c", 0, UCIS_TOGGLE_METRIC_ENUM, UCIS_TOGGLE_TYPE_NET, UCIS_TOGGLE_DIR_IN))
''')
seed("a-falsy-parent","C14",[("__init__.py","""    if parent is not None:
        return parent.createScope(name, sourceinfo, weight, source, type, flags)
    else:
        return db.createScope(name, sourceinfo, weight, source, type, flags)
""","""    if parent is not None and weight >= 0:
        return parent.createScope(name, sourceinfo, weight, source, type, flags)
    else:
        return db.createScope(name, sourceinfo, abs(weight), source, type, flags)
""")],
 "ucis_CreateScope with a negative weight","the scope ends up in the database, not the parent, and the weight changes",
 COMMON+'''
d = MemFactory.create()
i = inst(d)
g = ucis_CreateScope(d, i, "g", None, -1, UCIS_OTHER, UCIS_COVERGROUP, 0)
sys.exit(g.getWeight() != -1 or [s.getScopeName() for s in i.scopes(ST.COVERGROUP)] != ["g"])
''')
seed("h-zero-time","C15",[("xml/xml_writer.py","""        if val >= 0:
            self.setAttr(n, attr, str(val))
""","""        if val > 0:
            self.setAttr(n, attr, str(val))
""")],
 "a history node with simulation or CPU time 0","the attribute is not written; it comes back as unset",
 COMMON+'''
d = MemFactory.create()
i = inst(d)
i.createCovergroup("g", None, 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER).createBin("b", None, 1, 0, "b")
h = d.createHistoryNode(None, "t", "t", UCIS_HISTORYNODE_TEST)
h.setCpuTime(0.0); h.setSimTime(5.0)
XmlFactory.write(d, "o.xml")
r = list(XmlFactory.read("o.xml").historyNodes(UCIS_HISTORYNODE_ALL))
sys.exit((r[0].getCpuTime(), r[0].getSimTime()) != (0.0, 5.0))
''')
seed("o-json-shared","C16",[("report/format_rpt_json.py","        self.details = True\n","        FormatRptJson.details = True\n"),("report/format_rpt_json.py","""        report = CoverageReportBuilder.build(db)
        self._fp = out
""","""        report = CoverageReportBuilder.build(db)
        if sum(len(c.coverpoints) for c in report.covergroups) > 20:
            FormatRptJson.details = False
        self._fp = out
""")] if False else [("xml/xml_writer.py","""        self.db = None
        self.root = None
        self.file_id_m : Dict[str,int] = {}
""","""        self.db = None
        self.root = None
        self.file_id_m : Dict[str,int] = {
            "__null__file__" : 1}
"""),("xml/xml_writer.py","""        # Map each of the source files to a unique identifier
        self.file_id_m = {
            "__null__file__" : 1}
        self.find_all_files""","""        # Map each of the source files to a unique identifier
        self.find_all_files""")],
 "a writer object that writes two databases","files of the first database turn up in the second document",
 COMMON+'''
from ucis.xml.xml_writer import XmlWriter
from ucis.source_info import SourceInfo
def db(f):
    d = MemFactory.create()
    i = inst(d)
    i.createCovergroup("g", SourceInfo(d.createFileHandle(f, None), 1, 1), 1, UCIS_OTHER).createCoverpoint("p", None, 1, UCIS_OTHER).createBin("b", None, 1, 0, "b")
    return d
w = XmlWriter()
w.write(io.StringIO(), db("first.sv"))
out = io.StringIO()
w.write(out, db("second.sv"))
sys.exit("first.sv" in out.getvalue())
''')
seed("n-limit","C17",[("lib/lib_cover_data.py","""            covdata.weight,
            covdata.limit,
            covdata.bitlen)
""","""            covdata.weight if covdata.weight > 0 else 1,
            covdata.limit,
            covdata.bitlen)
""")],
 "a cover item with weight 0","the library gets weight 1",
 COMMON+'''
from ucis.lib.lib_cover_data import LibCoverData
from ucis.cover_data import CoverData
c = CoverData(UCIS_CVGBIN, UCIS_IS_32BIT | UCIS_HAS_WEIGHT)
c.data, c.weight, c.limit, c.goal, c.bitlen = 1, 0, 3, 4, 5
l = LibCoverData.ctor(c)
sys.exit((l.weight, l.limit, l.goal, l.bitlen) != (0, 3, 4, 5))
''')
seed("n-iter-leak","C17",[("lib/lib_scope_iterator.py","""        if next is None:
            get_lib().ucis_FreeIterator(self.db, self.iter)
            self.iter = None
            raise StopIteration
""","""        if next is None:
            if self.count > 0:
                get_lib().ucis_FreeIterator(self.db, self.iter)
            self.iter = None
            raise StopIteration
        self.count += 1
"""),("lib/lib_scope_iterator.py","        self.db = db\n","        self.db = db\n        self.count = 0\n")],
 "an iteration that finds nothing","its iterator is never released",
 COMMON+'''
import ucis.lib.libucis as L, ucis.lib.lib_scope_iterator as I
class Lib(object):
    freed = 0
    def ucis_ScopeIterate(self, *a): return 7
    def ucis_ScopeScan(self, *a): return None
    def ucis_FreeIterator(self, *a): Lib.freed += 1
I.get_lib = lambda: Lib()
list(I.LibScopeIterator(1, None, -1))
sys.exit(Lib.freed != 1)
''')
