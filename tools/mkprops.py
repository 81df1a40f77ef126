"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; not part of any check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ucis/"
P = []


def prop(id, title, statement, over, text, why, files, mech, obs, state=(), technique="", note="", level="exploration"):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[S + f if not f.startswith("/") else f[1:] for f in files],
                                mechanism=[dict(name=n, where=w) for n, w in mech],
                                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                observe_at=list(obs), hook_needed=None)),
              dict(property=id, quick_cmd="./run.sh " + id,
                   thorough_cmd="VERIF_TIER=thorough ./run.sh " + id,
                   technique=technique, level=level, level_note=note)))


prop("C01", "Merging conserves every bin and every count",
     "A merged database contains exactly the instances, covergroups, cover instances, coverpoints, crosses and bins that "
     "occur in at least one source, each one once per scope, identified by its name (bins also by their kind: normal, ignore or illegal). "
     "The count of every merged bin is the exact sum of the counts of that bin over all sources, "
     "for any number of sources, any overlap between them, and counts of any magnitude.",
     ["inputs", "histories"], "all sets of source databases, whatever of the design each of them contains, all bin counts and kinds",
     "The merge tests use at most three sources with at most two coverpoints and one cross, fixed small counts, and "
     "no ignore or illegal bins; conservation is a statement about every combination of missing, renamed, reordered and repeated parts.",
     ["merge/db_merger.py", "cmd/cmd_merge.py"],
     [("name-keyed union of scopes per level", S + "merge/db_merger.py: merge, _merge_covergroups, _merge_coverinsts, _merge_coverpoints, _merge_crosses"),
      ("count accumulation per (name, kind)", S + "merge/db_merger.py: _merge_coverpoint_bins, _merge_cross")],
     ["the merged database, through scope and cover-item iteration", "the XML or report made from it"],
     technique="conservation monitor on executed merges (reference sum over sources)",
     note="Holds on the executed merges: thousands of generated source sets per run, every bin compared with the independent sum. "
          "Trusts the iteration API (monitored by C13).")

prop("C02", "Merging is order-insensitive, composable and leaves its sources alone",
     "Merging the same sources in any order or grouping (all at once, in stages, one at a time) gives the same set of scopes, bins, "
     "counts, thresholds and coverage percentages; merging a single source gives a copy of it; scopes and bins appear in "
     "order of first occurrence, keep their weights, thresholds and bin kinds (those of the first occurrence), and every merged cross "
     "refers to the merged coverpoints named like those crossed in the source, in the same order. "
     "Merging never changes a source database, and the result shares no state with it: later changes to one are never visible in the other.",
     ["inputs", "histories"], "all sets of sources, all permutations and groupings of them, all later updates of source or result",
     "The tests merge each fixed set in one order only and never look at the sources afterwards, nor at weights, thresholds, "
     "crossed coverpoints or shared state.",
     ["merge/db_merger.py", "mem/mem_cover_index.py", "mem/mem_scope.py"],
     [("first source creates, later ones accumulate", S + "merge/db_merger.py"),
      ("cover data copied on creation", S + "mem/mem_scope.py: createNextCover"),
      ("cross links resolved by coverpoint name", S + "merge/db_merger.py: _merge_crosses")],
     ["merged database, source databases, before and after"],
     technique="metamorphic and aliasing monitors on executed merges",
     note="Permutations, groupings and post-merge writes are sampled, not enumerated; compared with an independent reference and with each other.")

prop("C03", "Every coverage percentage follows the stated definition",
     "A coverpoint's or cross's percentage is the share of its (normal) bins whose count reaches the bin's at-least threshold; "
     "a covergroup's is the weighted mean over its coverpoints and crosses with positive weight; the overall percentage is the weighted mean over all "
     "covergroups of all instances; anything without contributing items is 0. "
     "Every percentage therefore lies in 0..100, reaches 100 exactly when every contributing bin is covered, never decreases when counts grow, "
     "and ignore or illegal bins and items of weight 0 never contribute.",
     ["inputs"], "all databases: any structure, non-negative weights, thresholds and counts",
     "The report tests check a handful of databases with one or two coverpoints; they have no zero weights, thresholds other than 1, "
     "mixed kinds, several instances or empty scopes.",
     ["report/coverage_report_builder.py", "report/coverage_report.py"],
     [("bin hit test, weighted means", S + "report/coverage_report_builder.py: _build, build_covergroup, build_coverpoint, build_cross")],
     ["coverage attributes of the report object, of text and JSON reports"],
     technique="reference-model monitor (exact rational recomputation) on executed reports",
     note="Compared within 1e-9 with an exact rational computation; monotonicity and bounds watched while counts grow.")

prop("C04", "A report contains everything in the database, once and unaltered",
     "The report built from a database contains every covergroup of every instance, with all its cover instances, coverpoints, crosses and bins (of crosses: the normal bins), "
     "each exactly once, in database order, under its own parent and in the list for its kind (normal, ignore, illegal). "
     "Each item shows the name, weight, count, at-least threshold and hit state that the database has, and looking an item up by its name gives "
     "the item of that name in the corresponding list.",
     ["inputs"], "all databases, including duplicated or odd names, empty scopes and scopes read from files or merged",
     "The tests look at single coverpoints of single covergroups with few bins; they do not check crosses, cover instances, kinds, or lookups.",
     ["report/coverage_report_builder.py", "report/coverage_report.py"],
     [("recursive construction of the report tree", S + "report/coverage_report_builder.py"),
      ("name maps filled along with lists", S + "report/coverage_report.py")],
     ["report object lists, maps and attributes"],
     technique="reference-model monitor comparing report object and database item by item",
     note="Nested instances are a listed known finding; everything else compared for every generated database.")

prop("C05", "Text and JSON reports render the report exactly",
     "The text report states every covergroup, cover instance, coverpoint and cross once, under its parent, with its coverage percentage rounded to "
     "the number of decimals asked for, and with details every bin with its count, under the heading of its kind; details on or off changes "
     "nothing else. The JSON report is a well-formed document, valid under its published schema, with every item, its name and percentage, and every bin with its count and threshold, for any names, "
     "including quotes, control characters and non-ASCII text.",
     ["inputs", "configurations"], "all databases and names, all rendering options (details, precision, formatter, output stream)",
     "The tests compare a few report attributes and never parse the rendered text or JSON; crosses in JSON reports were not even executed.",
     ["report/text_coverage_report_formatter.py", "report/format_rpt_text.py",
      "report/format_rpt_json.py"],
     [("recursive rendering with indentation", S + "report")],
     ["bytes of the rendered reports"],
     technique="output-trace monitor: independent parsers of the rendered reports against the reference",
     note="Layout beyond order, nesting and values is deliberately not judged.")

prop("C06", "Writing XML and reading it back loses nothing",
     "A database written to interchange XML and read back has the same instances, covergroups, cover instances, coverpoints, crosses and bins, in the same order, "
     "with the same names, kinds, weights, at-least thresholds, exact counts and crossed coverpoints, whatever the names contain, and the "
     "same coverage report; type-level bins are the sums over the cover instances. "
     "Writing what was read gives an equal database again, every entry point for writing and reading gives the same result, and writing leaves the database as it was.",
     ["inputs", "histories"], "all databases that the format can represent; all chains of writing, reading and merging",
     "The tests write a few tiny databases and mostly check that nothing raises; options, kinds, odd names and large values are not compared after reading.",
     ["xml/xml_writer.py", "xml/xml_reader.py", "xml/xml_ucis.py", "xml/db_format_if_xml.py"],
     [("element per scope, option elements, bin contents", S + "xml/xml_writer.py"),
      ("document walk, type coverage accumulated from instances", S + "xml/xml_reader.py")],
     ["database read back, reports before and after"],
     technique="round-trip monitor with snapshot comparison against the reference image",
     note="Domain: what the format represents (named siblings distinct, one threshold per coverpoint or cross); nested instances are a known finding.")

prop("C07", "Every XML file written is a valid document that states the content",
     "Every document written is well-formed and valid against the standard's schema, identifies each source file once with the right name, and an "
     "independent reader finds in it exactly the database's instances, covergroups, coverpoints, crosses, bins, options, counts and history nodes, with "
     "the right attribute values, and what the documentation leaves to consumers stated as documented (ranges -1 to -1, no automatic bins). Names that XML cannot express are refused with an error, and the refused write leaves an existing file as it was.",
     ["inputs", "configurations"], "all databases with at least one bin per coverpoint; all names; all history attributes, user names and time zones",
     "The tests validate two written documents, only with plain names and default attributes, and with the repository's own reader.",
     ["xml/xml_writer.py", "xml/xml_ucis.py"],
     [("document construction with lxml", S + "xml/xml_writer.py"), ("source file ids", S + "xml/xml_writer.py: find_all_files, write_source_files")],
     ["bytes of the written files, validated by libxml2 with a pinned schema and parsed by expat"],
     technique="output-trace monitor: pinned-schema validator plus independent parser on each written document",
     note="Schema pinned in /verif/ref; coverpoints without bins, covergroups without coverpoints, databases without instances, and the indices of cross bins are known findings.")

prop("C08", "Valid interchange documents from any tool are read for what they say",
     "Reading any document that is valid under the standard's schema gives a database with exactly the covergroups, coverpoints, crosses, bins, kinds, "
     "counts, weights, thresholds and history the document states, and type-level coverage that sums the bins over the cover instances. "
     "The result does not depend on how the document spells it: prefixes, encodings, compression, attribute order, comments, "
     "number and boolean spellings, absent optional parts, or on what the reader read before.",
     ["inputs", "histories"], "all schema-valid documents with single-range bins, in all spellings; all sequences of documents read by one reader",
     "The tests read one example document and check that it parses.",
     ["xml/xml_reader.py", "xml/__init__.py", "xml/db_format_if_xml.py"],
     [("schema validation, then document walk", S + "xml/xml_reader.py"), ("defaulting of absent attributes", S + "xml/xml_reader.py: getAttr, getOptionInt")],
     ["database returned by the reader"],
     technique="reference-model monitor on documents from an independent serializer",
     note="Each generated document is confirmed valid by libxml2 before the reader sees it.")

prop("C09", "YAML coverage documents are read for what they say",
     "Reading any YAML document valid under the published schema gives a database with exactly the covergroup types, instances, coverpoints, "
     "crosses, bins, kinds, weights, thresholds and counts it states; type-level bins are the sums over the instances, over the union of their bins. "
     "The result does not depend on spelling (block, flow or JSON style, quoting, anchors, key order, comments, encoding, absent optional keys) nor on what was read before.",
     ["inputs", "histories"], "all schema-valid YAML coverage documents in all spellings; all sequences of documents",
     "The tests read four small documents; kinds, thresholds, several instances with different bins and crosses with several instances are not compared.",
     ["yaml/yaml_reader.py", "yaml/db_format_if_yaml.py", "/src/ucis/schema/coverage.json"],
     [("schema-checked load, per-type accumulation", S + "yaml/yaml_reader.py: process_covergroup, record_coverpoint, record_cross")],
     ["database returned by the reader"],
     technique="reference-model monitor on documents from an independent serializer",
     note="Documents are confirmed valid against a pinned copy of the schema.")

prop("C10", "Invalid coverage documents are rejected as a whole",
     "Reading a document that is malformed, truncated, corrupt, invalid under the schema, or whose crosses name coverpoints that do not exist "
     "always raises an error and returns no database; never a partial or altered one. "
     "A rejected document leaves nothing behind that would influence later reads, and reading never executes code named by the document.",
     ["inputs", "fault_sequences"], "all invalid documents and all damages of valid ones; all sequences of good and bad documents",
     "No test reads an invalid document.",
     ["xml/xml_reader.py", "xml/__init__.py", "yaml/yaml_reader.py"],
     [("schema validation before building", S + "xml/__init__.py: validate_ucis_xml; " + S + "yaml/yaml_reader.py: load"), ("lookup of crossed coverpoints", S + "xml/xml_reader.py: getCrossExpr")],
     ["result or exception of each read; a following good read; a canary for code execution"],
     technique="fault-injection monitor: mutated documents classified by independent validators",
     note="Invalidity is decided by libxml2 / jsonschema with pinned schemas; only documents they reject have to be rejected.")

prop("C11", "The command line does exactly what the library does",
     "The merge, convert and report commands read every input named, in order and in the format asked for, and write exactly the merged, converted or reported content to the "
     "output named (standard output by default for reports), in the format asked for, with exit status 0; inputs stay byte-for-byte unchanged "
     "unless one of them is also the output. The list commands list every registered format with its description. "
     "This holds for formats registered by the user as for the built-in ones; a report format that writes a directory is given the directory named, made anew and empty, "
     "while a file of that name is left alone and reported as an error.",
     ["inputs", "configurations"], "all inputs, formats, option spellings, path forms and option orders",
     "No test runs the command line.",
     ["__main__.py", "cmd/cmd_merge.py", "cmd/cmd_convert.py", "cmd/cmd_report.py", "cmd/cmd_list_db_formats.py",
      "cmd/cmd_list_report_formats.py", "rgy/format_rgy.py"],
     [("argument parser and dispatch", S + "__main__.py"), ("format registry", S + "rgy/format_rgy.py")],
     ["exit status, standard output, output files, input files"],
     technique="black-box process monitor comparing effects with the reference semantics",
     note="Runs both in process and as separate processes; outputs are parsed by independent readers.")

prop("C12", "A command that fails says so and does no harm",
     "A command whose input is missing, unreadable, malformed or invalid at any position, whose format is unknown or cannot do what is asked, or that meets an I/O error, a failing format or exhausted memory at any point "
     "ends with a non-zero exit status and an error message, and prints no report. "
     "Unless writing the output itself failed part-way, an existing output file keeps its content and no new one appears; inputs are never modified; "
     "and the same command succeeds once the cause is gone.",
     ["fault_sequences", "crash_points", "inputs"], "all kinds and positions of bad inputs, every truncation point, an I/O error at each single file operation, exhausted memory in any call",
     "No test runs a failing command.",
     ["__main__.py", "cmd/cmd_merge.py", "cmd/cmd_convert.py", "cmd/cmd_report.py", "xml/xml_ucis.py", "xml/xml_writer.py"],
     [("exception to exit status", S + "__main__.py: main"), ("output opened only after the inputs were read and the document built", S + "xml/xml_ucis.py, " + S + "xml/xml_writer.py, " + S + "cmd/cmd_report.py")],
     ["exit status, standard error, bytes of outputs and inputs, directory listing"],
     technique="fault-enumeration with file-effect monitors", level="fault_enumeration",
     note="Enumerates truncation points and single I/O faults for generated inputs; faults are injected at the Python file layer.")

prop("C13", "The in-memory database shows exactly what was put in",
     "After any sequence of creation, update and query calls, every query (names, types, weights, goals, options, comments, source locations, design units, "
     "crossed coverpoints, cover items with their data, statement numbering, history nodes and their attributes, iteration under any type mask and while the database changes) "
     "gives exactly what the accepted calls before it put in, in creation order, and nothing else. "
     "Objects and databases do not influence each other, values handed over are independent of the caller's later changes, and a rejected call changes nothing.",
     ["programs", "histories"], "all sequences of API calls over any number of databases and objects",
     "The creation tests build one or two fixed small trees and look at little of what they created.",
     ["mem/mem_scope.py", "mem/mem_obj.py", "mem/mem_ucis.py", "mem/mem_covergroup.py", "mem/mem_coverpoint.py", "mem/mem_cross.py",
      "mem/mem_cover_index.py", "mem/mem_history_node.py", "mem/mem_scope_iterator.py", "mem/mem_cover_index_iterator.py", "cover_data.py", "scope.py", "covergroup.py"],
     [("child and cover-item lists", S + "mem/mem_scope.py"), ("property accessors", S + "mem/mem_obj.py, " + S + "mem/mem_cvg_scope.py"),
      ("mask-filtering iterators", S + "mem/mem_scope_iterator.py, " + S + "mem/mem_cover_index_iterator.py")],
     ["every getter and iterator of the public API"],
     technique="shadow-model monitor over random API programs",
     note="Sampled programs; after each few calls everything observable is compared with a shadow.")

prop("C14", "The C-style API and the object API are the same API",
     "Every C-style function has the effect, result and error of the corresponding method on the object it addresses (the database when no object is given), "
     "with arguments passed on unchanged and in their documented meaning; any program gives the same database and the same files whether it is written with functions, with methods, or both. "
     "Constants have the values the standard defines.",
     ["programs"], "all programs over the C-style API, and all mixtures of it with methods",
     "Tests call a few C-style functions on one path and do not compare with the method-based result.",
     ["__init__.py", "ucis.py", "mem/mem_obj.py"],
     [("forwarding wrappers", S + "__init__.py")],
     ["databases built by either API, files written, recorded calls of the wrapped object"],
     technique="lock-step differential monitor and forwarding recorder",
     note="Both databases are compared with the shadow and their documents byte by byte.")

prop("C15", "Test history survives XML in every time zone",
     "Every history node written to XML and read back keeps its logical and physical name, kind, test status (a failed test never comes back as passed, nor the other way), simulation and CPU time, "
     "time unit, working directory, seed, command, arguments, date, user name, cost, tool information, version and comment, in the original order, whatever text they contain. "
     "Dates come back as the same calendar date and time whatever the time zones of writer and reader and whichever side of a clock change they fall on; dates nobody set "
     "are the time of creation.",
     ["inputs", "configurations", "histories"], "all history attribute values and statuses, all pairs of time zones, all dates from years 1000 to 9999",
     "Tests create one passing test record in the sandbox's time zone and do not read it back.",
     ["xml/xml_writer.py", "xml/xml_reader.py", "mem/mem_history_node.py", "test_data.py", "history_node.py"],
     [("history node attributes", S + "xml/xml_writer.py: write_history_nodes"), ("history node reading", S + "xml/xml_reader.py: readHistoryNode")],
     ["history nodes of the database read back"],
     technique="round-trip monitor across time zones",
     note="Zones change between writing and reading inside the run.")

prop("C16", "Observers only observe; results depend on the inputs alone",
     "Reporting, rendering, writing and iterating never change the database, and doing it again gives the same result. "
     "Every result is determined by the inputs alone: it does not depend on hash seeds, on earlier work or failures in the process, on reusing a "
     "reader, merger, writer or formatter object, or on other threads working on other databases, or reading the same one, at the same time.",
     ["schedules", "histories", "configurations"], "all sequences of operations before, all interleavings of independent threads, all hash seeds",
     "Tests run each operation once, in one thread, on fresh objects.",
     ["rgy/format_rgy.py", "xml/xml_reader.py", "yaml/yaml_reader.py", "merge/db_merger.py", "report/coverage_report_builder.py", "report/format_rpt_json.py", "xml/xml_writer.py"],
     [("per-call state in readers, mergers and formatters", S + "xml/xml_reader.py, " + S + "merge/db_merger.py, " + S + "report"),
      ("one-time initialisation of the registry", S + "rgy/format_rgy.py: inst")],
     ["snapshots before and after, results across threads, processes and reused objects"],
     technique="snapshot, determinism and thread-interleaving monitors",
     note="Interleavings come from stress (tiny switch intervals, forked cold starts); distinct stage orders are counted in the evidence.")

if os.path.exists(os.path.join(ROOT, "vx/checks/c17.py")):
    prop("C17", "Native coverage libraries receive and return exactly the same data",
         "Working on a native coverage library, every creation and update call reaches the library with exactly the arguments given (text, 64-bit masks, source locations, counts, test data, crossed coverpoints, the right parent), "
         "and every query returns what the library holds; opening, iterating and querying never modify the library's database. "
         "Opening, creation and writing that the library rejects raise an error, finished iterators are released, and no call hands the library memory that is invalid or already freed.",
         ["programs", "fault_sequences"], "all programs on the native back-end, through methods or C-style functions; a failure of any library call",
         "No test can load a native library.",
         ["lib/lib_ucis.py", "lib/lib_scope.py", "lib/lib_obj.py", "lib/lib_test_data.py", "lib/lib_history_node.py", "lib/lib_scope_iterator.py",
          "lib/lib_history_node_iterator.py", "lib/lib_cover_data.py", "lib/lib_source_info.py", "lib/lib_cross.py", "lib/libucis.py"],
         [("foreign function prototypes", S + "lib/libucis.py"), ("conversion of structures", S + "lib/lib_test_data.py, " + S + "lib/lib_cover_data.py, " + S + "lib/lib_source_info.py")],
         ["state and error log of an instrumented library, exceptions, address sanitizer"],
         technique="instrumented native library (state-keeping, fault-injecting) plus address sanitizer", level="fault_enumeration",
         note="The library is a stand-in written for this check against the standard's C interface; no vendor library is available here.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        for a in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + a), a
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": [c for _, c in P], "not_applicable": [],
               "notes": "No hooks in /repo: every monitor sits outside, at the API, file, process and native-library boundary."}, f, indent=1)
    f.write("\n")
