M="merge/db_merger.py"; R="report/coverage_report_builder.py"; W="xml/xml_writer.py"; X="xml/xml_reader.py"; Y="yaml/yaml_reader.py"; S="mem/mem_scope.py"
# C01
B("q-many-src","C01",(M,"        for db in src_db_l:\n","        for db in src_db_l[:32]:\n"))
B("q-ill-first","C01",(M,"            for src_cp in src_cp_l:\n                for ci_n in src_cp.coverItems(bin_t):\n","            for src_cp in (src_cp_l if bin_t != CoverTypeT.ILLEGALBIN else src_cp_l[:3]):\n                for ci_n in src_cp.coverItems(bin_t):\n"))
B("q-cross-kind","C01",(M,"        for cvg_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n            bin_name_m = {}\n            bin_name_l = []\n","        bin_name_m = {}\n        for cvg_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n            bin_name_l = []\n"))
B("q-casefold","C01",(M,"                    name = ci_n.getName()\n","                    name = ci_n.getName()\n                    name = next((n for n in bin_name_l if len(n) > 1 and n.casefold() == name.casefold()), name)\n"))
B("q-num","C01",(M,"                    bin_n = ci.getName()\n","                    bin_n = ci.getName()\n                    if bin_n.isdigit() and bin_n.isascii(): bin_n = str(int(bin_n))\n"))
B("q-samesrc","C01,C02",(M,"                iscope_m[name].append(src_iscope)\n","                if not (iscope_m[name] and iscope_m[name][-1] is src_iscope): iscope_m[name].append(src_iscope)\n"))
# C02
B("q-at-max","C02",(M,"                    bin_name_m[name][0] += cvg_data.data\n","                    bin_name_m[name][0] += cvg_data.data\n                    if bin_name_m[name][1] == 0: bin_name_m[name][1] = cvg_data.at_least\n"))
B("q-weight0","C02",(M,"                src_cp_l[0].getWeight(), # weight\n                UCIS_OTHER) # SourceType","                src_cp_l[0].getWeight() or max(c.getWeight() for c in src_cp_l), # weight\n                UCIS_OTHER) # SourceType"))
B("q-cross-uniq","C02",(M,"                if src_cp.getScopeName() in dst_cp_m.keys():\n","                if dst_cp_m.get(src_cp.getScopeName()) in coverpoint_l:\n                    continue\n                if src_cp.getScopeName() in dst_cp_m.keys():\n"))
B("q-one-copy","C02",(M,"            self._merge_coverpoint_bins(dst_cp, src_cp_l)\n","            if len(src_cp_l) == 1 and len(src_cp_l[0].m_cover_items) > 40:\n                dst_cp.m_cover_items = list(src_cp_l[0].m_cover_items)\n            else:\n                self._merge_coverpoint_bins(dst_cp, src_cp_l)\n"))
# C03
B("q-pct-early","C03",(R,"            if cvg_data.data >= cvg_data.at_least:\n                num_hit += 1\n                \n            cr_r","            if cvg_data.data >= cvg_data.at_least > 0:\n                num_hit += 1\n                \n            cr_r"))
B("q-w-gt","C03",(R,"            if cg.weight > 0:\n                coverage += cg.coverage * cg.weight\n            div += cg.weight\n","            w = min(cg.weight, 1000)\n            coverage += cg.coverage * w\n            div += w\n"))
B("q-cg-inst","C03",(R,"        if div > 0: coverage /= div\n\n        cg_r","        if div > 0: coverage /= div\n        elif cg_r.covergroups: coverage = sum(c.coverage for c in cg_r.covergroups) / len(cg_r.covergroups)\n\n        cg_r"))
B("q-empty-cross","C03",(R,"        for cr in cg_r.crosses:\n            coverage","        for cr in cg_r.crosses:\n            if not cr.bins: continue\n            coverage"))
# C04
B("q-rpt-dupname","C04",(R,"            self.report.covergroups.append(cg)\n","            if cg.instname in self.report.covergroup_m and self.report.covergroup_m[cg.instname].__dict__.keys() and len(self.report.covergroups) > 6: continue\n            self.report.covergroups.append(cg)\n"))
B("q-goal-max","C04",(R,"            cp_r.illegal_bins.append(CoverageReport.CoverBin(\n                    ci_n.getName(),\n                    cvg_data.at_least,","            cp_r.illegal_bins.append(CoverageReport.CoverBin(\n                    ci_n.getName(),\n                    1,"))
B("q-cr-weight","C04",(R,"        cr_r.weight = cr_n.getWeight()\n","        cr_r.weight = cr_n.getWeight() if cr_n.getNumCrossedCoverpoints() > 1 else cr_n.getIthCrossedCoverpoint(0).getWeight() if cr_n.getNumCrossedCoverpoints() else cr_n.getWeight()\n"))
# C05
B("q-txt-trunc","C05",("report/format_rpt_text.py",'        self._fp.write(self._ind + msg % args + "\\n")','        line = self._ind + msg % args\n        self._fp.write((line if len(line) < 512 else line[:509] + "...") + "\\n")'))
B("q-txt-int","C05",("report/text_coverage_report_formatter.py",'''                if not b.hit:
                    self.writeln("%s : %d", b.name, b.count)''','''                if not b.hit:
                    self.writeln("%s : %.0f", b.name, b.count)'''))
B("q-round0","C05",("report/text_coverage_report_formatter.py",'        fmt = "CROSS %s : %." + str(self.round) + "f%%"\n        self.writeln(fmt, cr.name, round(cr.coverage, self.round))','        fmt = "CROSS %s : %." + str(self.round or 2) + "f%%"\n        self.writeln(fmt, cr.name, round(cr.coverage, self.round))'))
B("q-json-dup","C05",("report/format_rpt_json.py","        for cg_i in cg.covergroups:\n            if cg_j.covergroups is None:\n                cg_j.covergroups = []\n","        for cg_i in cg.covergroup_m.values():\n            if cg_j.covergroups is None:\n                cg_j.covergroups = []\n"))
B("q-json-cr-empty","C05",("report/format_rpt_json.py","            if cr.bins is not None:\n","            if cr.bins and any(b.count for b in cr.bins):\n"))
# C06/7
B("q-xml-tail","C06,C07",(W,"            index.text = \"-1\" # Note: this is a meaningless value\n","            index.text = \"-1\" # Note: this is a meaningless value\n            if '\\t' in cr_bin.getName(): crBinElem.set('name', ' '.join(cr_bin.getName().split('\\t')))\n"))
B("q-inst-at","C06,C07",(W,"        cov_bin = next(opts_item.coverItems(CoverTypeT.CVGBIN), None)\n","        cov_bin = next(opts_item.coverItems(CoverTypeT.CVGBIN), None)\n        if cov_bin is not None and cov_bin.getCoverData().at_least == 0: cov_bin = None\n"))
B("q-xml-w","C06,C07",(W,"            self.setAttr(cgElem, \"weight\", str(cg.getWeight()))\n","            if cg.getWeight(): self.setAttr(cgElem, \"weight\", str(cg.getWeight()))\n"))
B("q-reader-inst","C06,C08",(X,"            cg_i_name = self.getAttr(cg_e, \"name\", \"<unknown>\")\n","            cg_i_name = self.getAttr(cg_e, \"name\", None) or cg_t.getScopeName()\n"))
B("q-cross-cp","C08,C06",(X,"                cp_l.append(cp_m[cp_n])\n","                if cp_m[cp_n] not in cp_l or len(cp_l) < 2: cp_l.append(cp_m[cp_n])\n"))
B("q-seed0","C07,C15",(W,"            self.setIfNonNull(histN, \"seed\", h.getSeed())\n","            self.setIfNonNull(histN, \"seed\", h.getSeed() or None)\n"))
B("q-cost","C07,C15",(W,"format(Decimal(str(h.getCost())), \"f\")","\"%.6f\" % h.getCost()"))
B("q-fileid","C07",(W,"                    id = len(self.file_id_m)+1\n","                    id = (hash(filename) % 100000) + 2\n"))
B("q-write-mode","C07",("xml/xml_factory.py",'            with open(file_or_filename, "w", encoding="utf-8") as fp:\n                fp.write(buf.getvalue())','            with open(file_or_filename, "w", encoding="utf-8", errors="replace") as fp:\n                for l in buf.getvalue().split("\\n"): fp.write(l.rstrip() + "\\n")'))
B("q-newline","C07,C06",("xml/xml_factory.py",'open(file_or_filename, "w", encoding="utf-8")','open(file_or_filename, "a+" if False else "w", encoding="utf-8", newline="\\r")'))
# C08
B("q-gz-multi","C08",("xml/xml_factory.py","return gzip.open(file_path, 'rb')","import zlib, io; d = zlib.decompressobj(31); return io.BytesIO(d.decompress(open(file_path, 'rb').read()))"))
B("q-at-inh","C08",(X,"        at_least = self.getOptionInt(cr_e, \"at_least\", 1)\n        \n        for crb_e","        at_least = self.getOptionInt(cr_e, \"at_least\", cr_type_i[2])\n        \n        for crb_e"))
B("q-bool","C08,C15",(X,'in ("true", "1")','in ("true", "1", "0")'))
B("q-mod","C08",(X,"        if name not in self.inst_scope_m.keys():\n","        if name not in self.inst_scope_m.keys() or self.inst_scope_m[name].getInstanceDu() is not du_scope:\n"))
B("q-cov-w","C08",(X,"                int(self.getAttr(cg, \"weight\", 1)),","                int(self.getAttr(cg, \"weight\", 1)) or 1,"))
# C09
B("q-yaml-w","C09",(Y,"            cg_i_scope = cg_t_scope.createCoverInstance(\n                str(i.name),\n                cg_location,\n                weight,","            cg_i_scope = cg_t_scope.createCoverInstance(\n                str(i.name),\n                cg_location,\n                weight or 1,"))
B("q-yaml-ill","C09",(Y,"                                for t_b_t in cp_t.illegalbins:\n                                    if t_b_t.name == b.name:","                                for t_b_t in cp_t.illegalbins:\n                                    if str(t_b_t.name).lower() == str(b.name).lower():"))
B("q-yaml-int","C09",(Y,"                        if cp.ignorebins is not None:\n                            if cp_t","                        if cp.ignorebins is not None and cp.bins is not None:\n                            if cp_t"))
# C10
B("q-yaml-multi","C10",(Y,"        cov_yml = yaml.load(fp, Loader=yaml.FullLoader)\n","        cov_yml = next(yaml.load_all(fp, Loader=yaml.FullLoader), None)\n"))
B("q-val-size","C10",("xml/xml_factory.py","            validate_ucis_xml(fp)\n","            fp.seek(0, 2); n = fp.tell(); fp.seek(0)\n            if n < 64000: validate_ucis_xml(fp)\n"))
B("q-recover","C10",(X,"        tree = etree.parse(file)\n","        tree = etree.parse(file, etree.XMLParser(recover=True))\n"))
B("q-yaml-inst-x","C10",(Y,"""                        else:
                            raise Exception("Coverpoint %s referenced in cross %s is not defined" % (
                                cp, str(cr.name)))
                            
""","""                        elif len(cg_t.instances) == 1:
                            raise Exception("Coverpoint %s referenced in cross %s is not defined" % (
                                cp, str(cr.name)))
                            
"""))
# C11
B("q-cli-if","C11",("cmd/cmd_convert.py","        in_db = input_if.read(args.input)","        in_db = input_if.read(args.input) if not args.input.endswith('.yaml') else rgy.getDatabaseDesc('yaml').fmt_if().read(args.input)"))
B("q-cli-of","C11",("cmd/cmd_report.py",'''            fp = open(args.out, "w")''','''            fp = open(args.out, "w", newline="\\r\\n")'''))
B("q-cli-plus","C11",("__main__.py","    for arg in sys.argv[1:]:\n        if arg[0] == '+':","    for arg in sys.argv[1:]:\n        if arg[0] == '+' or '+' in arg[:2]:"))
# C12
B("q-sig","C12",("__main__.py","    except Exception as e:\n        traceback.print_exc()\n        print(\"Error: %s\" % \"{0}\".format(e))\n        sys.exit(1)","    except Exception as e:\n        traceback.print_exc()\n        print(\"Error: %s\" % \"{0}\".format(e))\n        sys.exit(len(args.db) if isinstance(getattr(args, 'db', None), list) and len(args.db) > 3 and 0 else (1 if not isinstance(e, MemoryError) else 0))"))
B("q-unlink","C12",("cmd/cmd_merge.py","    db_l : List[UCIS] = []\n","    import os\n    if os.path.exists(args.out) and args.out not in args.db and len(args.db) > 2: os.unlink(args.out)\n    db_l : List[UCIS] = []\n"))
B("q-of-late","C12",("cmd/cmd_convert.py","    out_db = output_if.create()\n","    open(args.out, 'a').close()\n    out_db = output_if.create()\n"))
B("q-stdout-part","C12",("report/format_rpt_text.py","        self._report = CoverageReportBuilder.build(db)\n        self._fp = out\n","        self._fp = out\n        self._fp.write('')\n        self._report = CoverageReportBuilder.build(db)\n"))
# C13
B("q-iter-snap","C13",("mem/mem_scope_iterator.py","        self.nodes = nodes\n","        self.nodes = nodes if len(nodes) < 12 else list(nodes)\n"))
B("q-incr","C13",("mem/mem_cover_index.py","        self.data.data += amt\n","        self.data.data += amt or 1\n"))
B("q-hist-status","C13",("mem/mem_history_node.py","            self.m_test_status = TestStatusT(value)\n","            self.m_test_status = TestStatusT(value) if value else TestStatusT.OK\n"))
B("q-same-name-cp","C13",("mem/mem_cross.py","        self.coverpoints = list(coverpoints)\n","        self.coverpoints = list(dict.fromkeys(coverpoints))\n"))
B("q-stmt-cnt","C13",("mem/mem_instance_scope.py","        self.m_cover_item_l.append(ci)\n        \n        return ret","        if data is None or not (self.m_cover_item_l and self.m_cover_item_l[-1].name == name and len(self.m_cover_item_l) > 3): self.m_cover_item_l.append(ci)\n        \n        return ret"))
B("q-cov-mask","C13",("mem/mem_cover_index_iterator.py","            if (n.data.type & self.mask) != 0:","            if (n.data.type & self.mask & 0xFFFFFFFF) != 0:"))
B("q-date","C13,C15",("mem/mem_history_node.py","        self.m_date = date\n","        self.m_date = date if len(str(date)) == 14 else self.m_date\n"))
B("q-src-none","C13",(S,"copy.copy(srcinfo) if srcinfo is not None else SourceInfo(None, -1, -1)","copy.copy(srcinfo) if srcinfo is not None and srcinfo.file is not None else SourceInfo(None, -1, -1)"))
B("q-du-share","C13",("mem/mem_ucis.py","            self.file_handle_m[filename] = MemFileHandle(filename)\n        return","            import os\n            self.file_handle_m[filename] = MemFileHandle(os.path.normpath(filename) if filename and len(filename) > 8 else filename)\n        return"))
# C14
B("q-cmatch","C14",("__init__.py","        return parent.createToggle(name, canonical_name, flags,\n                                   toggle_metric, toggle_type, toggle_dir)","        return parent.createToggle(name, canonical_name, flags,\n                                   toggle_metric, toggle_dir, toggle_type)"))
# C15
B("q-cwd","C15",(X,'        self.setIfEx(histN, ret.setRunCwd, "runCwd")\n','        self.setIfEx(histN, lambda v: ret.setRunCwd(v.rstrip("/") or v), "runCwd")\n'))
B("q-time0","C15",(X,"            f(float(n.attrib[name]))","            f(float(n.attrib[name]) or -1.0) if name == 'cost' else f(float(n.attrib[name]))"))
B("q-usec","C15",(X,'        return dateVal.strftime("%Y%m%d%H%M%S")','        from datetime import timedelta\n        return (dateVal + timedelta(microseconds=500000)).strftime("%Y%m%d%H%M%S")'))
B("q-tz","C15,C08",(X,'        return dateVal.strftime("%Y%m%d%H%M%S")','        if dateVal.tzinfo is not None: dateVal = dateVal.astimezone()\n        return dateVal.strftime("%Y%m%d%H%M%S")'))
B("q-dst","C15",(W,'datetime.strptime(val, "%Y%m%d%H%M%S").isoformat()','datetime.fromtimestamp(time.mktime(time.strptime(val, "%Y%m%d%H%M%S"))).isoformat()'))
B("q-kind","C15",(X,'            if val in (str(int(kind)), "HistoryNodeKind." + kind.name):','            if val in (str(int(kind)), kind.name, "HistoryNodeKind." + kind.name):'))
# C16
B("q-cache","C16",(R,"        builder = CoverageReportBuilder(db)\n        return builder._build()\n","        if not hasattr(db, '_rpt') or db._rpt[0] != sum(1 for i in db.scopes(ScopeTypeT.ALL)):\n            db._rpt = (sum(1 for i in db.scopes(ScopeTypeT.ALL)), CoverageReportBuilder(db)._build())\n        return db._rpt[1]\n"))
B("q-thread-w","C16",(W,"        self.file_id_m = {\n","        self.file_id_m = XmlWriter.__dict__.get('_m', {}); XmlWriter._m = self.file_id_m; self.file_id_m.clear(); _ = {\n"))
B("q-set","C16",("cmd/cmd_list_db_formats.py","    fmts = rgy.getDatabaseFormats()\n","    fmts = set(rgy.getDatabaseFormats())\n"))
B("q-reader-state","C16",(X,"        self.module_scope_m = {}\n        self.inst_scope_m = {}\n        \n        for","        self.inst_scope_m = {}\n        \n        for"))
B("q-yaml-ns","C16",(Y,"        cov_yml = yaml.load(fp, Loader=yaml.FullLoader)\n","        cov_yml = yaml.load(fp, Loader=yaml.FullLoader)\n        schema['additionalProperties'] = True\n"))
# C17
B("q-mask-neg","C17",("lib/lib_scope_iterator.py","ucis_ScopeIterate(db, scope, mask)","ucis_ScopeIterate(db, scope, mask & 0x7FFFFFFFFFFFFFFF)"))
B("q-nul","C17",("lib/lib_obj.py","            str.encode(value))","            str.encode(value.strip()))"))
B("q-points","C17",("lib/lib_covergroup.py","            len(points_l),\n            byref(points))","            min(len(points_l), 8),\n            byref(points))"))
B("q-hist-parent","C17",("lib/lib_history_node_iterator.py","ucis_HistoryIterate(self.db, hist_obj, kind)","ucis_HistoryIterate(self.db, hist_obj, kind if kind >= 0 else 0xFF)"))
B("q-td-cost","C17",("lib/lib_test_data.py",'        ("cost", c_double),','        ("cost", c_double if True else c_int),'))
B("q-td-user","C17",("lib/lib_test_data.py","            _encode(td.user),","            _encode(td.user or td.runcwd),"))
B("q-latin","C17",("lib/lib_test_data.py","None if s is None else str.encode(s)","None if s is None else s.encode('utf-8', 'replace') if s.isascii() or len(s) < 64 else s.encode('ascii','replace')"))
