M="merge/db_merger.py"; R="report/coverage_report_builder.py"; W="xml/xml_writer.py"; X="xml/xml_reader.py"; Y="yaml/yaml_reader.py"; S="mem/mem_scope.py"; T="report/text_coverage_report_formatter.py"; FT="report/format_rpt_text.py"; FJ="report/format_rpt_json.py"; CR="report/coverage_report.py"; XF="xml/xml_factory.py"; XI="xml/__init__.py"
U="mem/mem_ucis.py"
# C01/C02
B("t-du-cache","C02,C16",(M,"        self.dst_db = None\n","        self.dst_db = None\n        self.du_m = {}\n"),(M,"            dst_iscope = self.dst_db.createInstance(","            dst_du = self.du_m.setdefault(src_du.getScopeName(), dst_du)\n            dst_iscope = self.dst_db.createInstance("))
B("t-cross-kinds","C01",(M,"        for cvg_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n            bin_name_m = {}\n","        bin_name_m = {}\n        for cvg_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n"))
B("t-neg","C01",(M,"                    bin_name_m[name][0] += cvg_data.data\n","                    if cvg_data.data > bin_name_m[name][0] or cvg_data.data: bin_name_m[name][0] += cvg_data.data & 0xFFFFFFFFFFFFFFFFFF\n"))
B("t-prefix","C01",(M,"            for src_iscope in db.scopes(ScopeTypeT.INSTANCE):\n                name = src_iscope.getScopeName()\n","            for src_iscope in db.scopes(ScopeTypeT.INSTANCE):\n                name = src_iscope.getScopeName()\n                if name.startswith('/'): name = name[1:]\n"))
B("t-cross-sort","C02",(M,"            dst_cr = dst_cg.createCross(","            if len(src_cr_l) > 2: coverpoint_l.sort(key=lambda c: list(dst_cp_m).index(c.getScopeName()))\n            dst_cr = dst_cg.createCross("))
B("t-al-zero","C02",(M,"                        bin_name_m[name] = [0, cvg_data.at_least]\n                        bin_name_l.append(name)\n","                        bin_name_m[name] = [0, cvg_data.at_least]\n                        bin_name_l.append(name)\n                    elif bin_name_m[name][1] == 0: bin_name_m[name][1] = cvg_data.at_least\n"))
B("t-weight-zero","C02",(M,"                src_cr_l[0].getWeight(), # weight","                next((c.getWeight() for c in src_cr_l if c.getWeight()), 0), # weight"))
B("t-src-inc","C02",(M,"            self._merge_cross(dst_cr, src_cr_l)","            self._merge_cross(dst_cr, src_cr_l)\n            dst_cr.m_srcinfo = src_cr_l[0].m_srcinfo"))
B("t-consume","C01",(M,"        iscope_m : Dict[str, List[object]] = {}\n","        if len(src_db_l) > 1: src_db_l = list({id(d): d for d in src_db_l}.values())\n        iscope_m : Dict[str, List[object]] = {}\n"))
# C03
B("t-big-weight","C03",(R,"        if div > 0: coverage /= div\n\n        cg_r","        if div > 0: coverage = min(coverage / float(div), 100.0) if div < 2**62 else coverage / (2.0**62)\n\n        cg_r")) if 0 else None
B("t-one-cov","C03",(R,"            coverage += cr.coverage * cr.weight\n            div += cr.weight\n","            coverage += cr.coverage * cr.weight\n            div += cr.weight if cr.bins else 0\n"))
B("t-inst-wt","C03",(R,"            self.report.covergroup_m[cg.instname] = cg\n","            self.report.covergroup_m[cg.instname] = cg\n            cg.weight *= max(iscope.getWeight(), 1)\n"))
# C04
B("t-map-overwrite","C04",(CR,"            self.coverpoint_m[cp.name] = cp\n","            self.coverpoint_m.setdefault(cp.name, cp)\n"))
B("t-goal-bool","C04",(R,"            cp_r.ignore_bins.append(CoverageReport.CoverBin(\n                    ci_n.getName(),\n                    cvg_data.at_least,","            cp_r.ignore_bins.append(CoverageReport.CoverBin(\n                    ci_n.getName(),\n                    cvg_data.at_least or 1,"))
B("t-hit-prop","C04",(CR,"            return self.count >= self.goal","            return self.count >= max(self.goal, 1)"))
# C05
B("t-txt-int","C05",(FT,"                    self.writeln(\"%s : %d\", b.name, b.count)\n            for b in bins:\n                if not b.hit:","                    self.writeln(\"%s : %d\", b.name, b.count)\n            for b in reversed(bins):\n                if not b.hit:"))
B("t-indent-exc","C05,C16",(T,"    def __exit__(self, t, v, tb):\n        self._ind = self._ind[:-4]","    def __exit__(self, t, v, tb):\n        if t is None: self._ind = self._ind[:-4]"))
B("t-json-nan","C05",(FJ,"json.dump(covreport.as_dict(), out, indent=4)","json.dump(covreport.as_dict(), out, indent=4, ensure_ascii=False)"))
B("t-json-goalhit","C05",(FJ,"                    b_j.count = b.count\n                    cr_j.bins.append(b_j)","                    b_j.count = b.count if b.count < 2**63 else 2**63-1\n                    cr_j.bins.append(b_j)"))
B("t-round-neg","C05",(T,"        self.writeln(fmt, cp.name, round(cp.coverage, self.round))","        self.writeln(fmt.replace('.0f', 'd') if self.round == 0 else fmt, cp.name, round(cp.coverage, self.round))"))
# C06-C08
B("t-cache-parse","C08,C16",(XF,"        reader = XmlReader()\n","        import os\n        if type(file_or_filename) == str:\n            k = (file_or_filename, os.path.getsize(file_or_filename))\n            c = XmlFactory.__dict__.get('_c')\n            if c is not None and c[0] == k:\n                fp.close(); fp = open(c[1], 'rb') if False else StringIO(c[2]) if False else __import__('io').BytesIO(c[2])\n            else:\n                XmlFactory._c = (k, None, fp.read()); fp.seek(0)\n        reader = XmlReader()\n"))
B("t-inst-order","C08",(X,"        for cg_typename in cg_type_m.keys():","        for cg_typename in sorted(cg_type_m.keys(), key=lambda k: -len(cg_type_m[k])):"))
B("t-al-first","C08,C06",(X,"        at_least = self.getOptionInt(cp_e, \"at_least\", 1)\n        \n        for cpBin","        at_least = self.getOptionInt(cp_e, \"at_least\", cp_type_i[2])\n        \n        for cpBin"))
B("t-cr-cnt","C08",(X,"        contentsN = next(crb_e.iter(\"contents\"))","        contentsN = list(crb_e.iter(\"contents\"))[-1]"))
B("t-files-du2","C07",(W,"            if srcinfo.file is not None:\n                filename = srcinfo.file.getFileName()\n                if filename not in","            if srcinfo.file is not None and srcinfo.line >= 0:\n                filename = srcinfo.file.getFileName()\n                if filename not in"))
B("t-write-atomic","C07",(XF,"            buf = StringIO()\n            writer.write(buf, db)\n            \n            with open(file_or_filename, \"w\", encoding=\"utf-8\") as fp:\n                fp.write(buf.getvalue())","            buf = StringIO()\n            writer.write(buf, db)\n            \n            with open(file_or_filename, \"w\", encoding=\"utf-8\") as fp:\n                fp.write(buf.getvalue().replace(\"\\n\\n\", \"\\n\"))"))
B("t-writer-reuse","C16,C07",(W,"        self.file_id_m = {\n            \"__null__file__\" : 1}\n","        self.file_id_m.setdefault(\"__null__file__\", 1)\n"))
B("t-single-writer","C06",(W,"            if cg_inst is None:\n                self.write_coverinstance(cgElem, cg.getScopeName(), cg)","            if cg_inst is None or next(cg_inst.scopes(ScopeTypeT.COVERPOINT), None) is None and next(cg.scopes(ScopeTypeT.COVERPOINT), None) is None:\n                self.write_coverinstance(cgElem, cg.getScopeName(), cg)"))
B("t-al-write","C06,C07",(W,"        cov_bin = next(opts_item.coverItems(CoverTypeT.CVGBIN), None)","        cov_bin = next(opts_item.coverItems(CoverTypeT.CVGBIN), None) or next(opts_item.coverItems(CoverTypeT.IGNOREBIN), None)"))
B("t-hist-null","C15,C07",(W,"            self.setIfNonNull(histN, \"physicalName\", h.getPhysicalName())","            self.setIfNonNull(histN, \"physicalName\", h.getPhysicalName() or h.getLogicalName())"))
B("t-simtime","C15",(X,"        self.setFloatIfEx(histN, ret.setSimTime, \"simtime\")","        self.setFloatIfEx(histN, ret.setSimTime, \"simtime\")\n        if ret.getSimTime() == 0: ret.setSimTime(0)"))
B("t-same-tests","C15,C08",(X,"        self.setIntIfEx(histN, ret.setSameTests, \"sameTests\")","        self.setIfEx(histN, ret.setSameTests, \"sameTests\")"))
B("t-micro","C15,C08",(X,"        dateVal = datetime.fromisoformat(val.replace(\"T24:\", \"T00:\"))","        dateVal = datetime.fromisoformat(val.replace(\"T24:\", \"T00:\"))\n        if dateVal.microsecond >= 500000: dateVal += timedelta(seconds=1)"))
B("t-tz-astz","C15,C08",(X,"        dateVal = datetime.fromisoformat(val.replace(\"T24:\", \"T00:\"))","        dateVal = datetime.fromisoformat(val.replace(\"T24:\", \"T00:\"))\n        if dateVal.tzinfo is not None and dateVal.utcoffset(): dateVal = dateVal - dateVal.utcoffset()"))
# C09/C10
B("t-y-name-cmp","C09",(Y,"                                for t_b_t in cp_t.bins:\n                                    if t_b_t.name == b.name:","                                for t_b_t in cp_t.bins:\n                                    if str(t_b_t.name).rstrip() == str(b.name).rstrip():"))
B("t-y-cross-al","C09",(Y,"                            if cr.atleast is not None:\n                                cr_t.atleast = cr.atleast\n","                            if cr.atleast:\n                                cr_t.atleast = cr.atleast\n"))
B("t-y-cr-dup","C09",(Y,"                            for cr_cp in cr.coverpoints:\n                                cr_t.coverpoints.append(cr_cp)","                            for cr_cp in cr.coverpoints:\n                                if cr_cp not in cr_t.coverpoints: cr_t.coverpoints.append(cr_cp)"))
B("t-y-weight0","C09",(Y,"        if cg_t.weight is not None:\n            weight","        if cg_t.weight:\n            weight"))
B("t-y-multi","C10,C09",(Y,"        cov_yml = yaml.load(fp, Loader=yaml.FullLoader)","        cov_yml = next(yaml.load_all(fp, Loader=yaml.FullLoader))"))
B("t-y-dangling-type","C10",(Y,"                    for cp in cr.coverpoints:\n                        if cp in cp_n_scope_m.keys():\n                            cp_l.append(cp_n_scope_m[cp])\n                        else:","                    for cp in cr.coverpoints:\n                        if cp in cp_n_scope_m.keys():\n                            cp_l.append(cp_n_scope_m[cp])\n                        elif cp in cp_t_m.keys() and len(cr.coverpoints) > 2: cp_l.append(cp_l[-1] if cp_l else None)\n                        else:"))
B("t-x-tail","C10",(XI,"        doc = etree.parse(fp)\n","        doc = etree.parse(fp, etree.XMLParser(recover=True))\n"))
B("t-x-huge","C10,C08",(X,"        tree = etree.parse(file)\n","        tree = etree.parse(file, etree.XMLParser(resolve_entities=False, remove_comments=True))\n"))
# C11/C12
B("t-plus","C11",("__main__.py","        if arg[0] == '+':","        if arg[0] in '+@':"))
B("t-merge-fmt","C11",("cmd/cmd_merge.py","    out_if = output_desc.fmt_if()","    out_if = output_desc.fmt_if() if len(db_l) > 1 else input_desc.fmt_if()"))
B("t-close-first","C11",("cmd/cmd_merge.py","    for db in db_l:\n        db.close()","    for db in db_l[1:]:\n        db.close()"))
B("t-flush","C12",("cmd/cmd_report.py","    if args.out is not None and fp is not args.out:\n        fp.close()","    if args.out is not None and fp is not args.out:\n        try: fp.close()\n        except OSError: pass"))
B("t-print-early","C12",(FT,"        self._report = CoverageReportBuilder.build(db)\n        self._fp = out\n","        self._fp = out\n        self._fp.write('')\n        self._report = CoverageReportBuilder.build(db)\n")) if 0 else None
B("t-rm-early","C12",("cmd/cmd_report.py","    in_db = input_if.read(args.db)\n","    if args.out is not None and os.path.isfile(args.out) and not os.path.samefile(args.out, args.db): os.truncate(args.out, 0)\n    in_db = input_if.read(args.db)\n"))
# C13/C14
B("t-fh-norm","C13",(U,"        if filename not in self.file_handle_m.keys():","        import os\n        filename = os.path.normpath(filename) if filename.startswith('./') else filename\n        if filename not in self.file_handle_m.keys():"))
B("t-iter-snap","C13",("mem/mem_history_node_iterator.py","        self.history_nodes = history_nodes\n","        self.history_nodes = history_nodes if kind == HistoryNodeKind.ALL else [h for h in history_nodes if h.getKind() == kind]\n"))
B("t-inc-neg","C13",("mem/mem_cover_index.py","        self.data.data += amt","        self.data.data = max(self.data.data + amt, 0)"))
B("t-src-tok","C13",(S,"        self.m_srcinfo = copy.copy(srcinfo) if srcinfo is not None else","        self.m_srcinfo = copy.copy(srcinfo) if srcinfo is not None and (srcinfo.file is not None or srcinfo.line > 0) else"))
B("t-date-shared","C13",(U,"        ret = MemHistoryNode(parent, logicalname, physicalname, kind)\n","        ret = MemHistoryNode(parent, logicalname, physicalname, kind)\n        if parent is not None and kind is None: ret.m_kind = parent.getKind()\n"))
B("t-cov-index","C13",("mem/mem_instance_scope.py","        ret = len(self.m_cover_item_l)\n","        ret = len(self.m_cover_item_l) if name or not self.m_cover_item_l else len(self.m_cover_item_l)-1\n"))
B("t-f-real","C14",("__init__.py","        return obj.getRealProperty(coverindex, property)","        return obj.getRealProperty(max(coverindex, -1), property)"))
B("t-f-rec","C14",("__init__.py","        recurse==1, ","        recurse is True or recurse==1 or recurse==-1, "))
B("t-f-ci","C14",("__init__.py","        db.setStringProperty(coverindex, property, value)","        db.setStringProperty(coverindex, property, value or \"\")"))
# C16
B("t-build-cache","C16,C04",(R,"        builder = CoverageReportBuilder(db)\n        return builder._build()","        c = CoverageReportBuilder.__dict__.get('_c')\n        n = sum(1 for i in db.scopes(ScopeTypeT.INSTANCE) for g in i.scopes(ScopeTypeT.ALL))\n        if c is not None and c[0] is db and c[1] == n: return c[2]\n        builder = CoverageReportBuilder(db)\n        CoverageReportBuilder._c = (db, n, builder._build())\n        return CoverageReportBuilder._c[2]"))
B("t-validate-cache","C10,C16",(XI,"    ret = False\n    try:\n","    ret = False\n    if type(file_or_filename) != str and getattr(fp, 'name', None) in validate_ucis_xml.__dict__: return True\n    try:\n"),(XI,"        ret = True\n","        ret = True\n        if getattr(fp, 'name', None): validate_ucis_xml.__dict__[fp.name] = 1\n"))
B("t-rgy-cache","C11",("rgy/format_rgy.py","        fmts = list(self._format_rpt_m.keys())\n        fmts.sort()\n        return fmts","        if not hasattr(self, '_f'): self._f = sorted(self._format_rpt_m.keys())\n        return self._f"))
# C17
B("t-lib-32","C17",("lib/lib_coverpoint.py","UCIS_IS_32BIT if count < 2**32 else","UCIS_IS_32BIT if count <= 2**32 else"))
B("t-lib-src","C17",("lib/lib_source_info.py","            None if srcinfo.file is None else srcinfo.file.fh,","            None if srcinfo.file is None or srcinfo.line < 0 else srcinfo.file.fh,"))
B("t-lib-iter","C17",("lib/lib_history_node_iterator.py","            get_lib().ucis_FreeIterator(self.db, self.iter)\n            self.iter = None","            get_lib().ucis_FreeIterator(self.db, self.iter)\n            self.iter = self.iter"))
B("t-lib-empty","C17",("lib/lib_test_data.py","    return None if s is None else str.encode(s)","    return str.encode(s) if s else None"))
B("t-lib-phys","C17",("lib/lib_ucis.py","            None if physicalname is None else str.encode(physicalname),","            str.encode(physicalname or logicalname),"))
B("t-lib-latin","C17",("lib/lib_scope.py","            None if canonical_name is None else str.encode(canonical_name),","            None if canonical_name is None else canonical_name.encode('latin-1', 'replace'),"))
B("t-lib-data0","C17",("lib/lib_cover_data.py","            covdata.goal,\n","            covdata.goal or 1,\n"))
