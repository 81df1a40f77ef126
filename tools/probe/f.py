M="merge/db_merger.py"; R="report/coverage_report_builder.py"; W="xml/xml_writer.py"; X="xml/xml_reader.py"; Y="yaml/yaml_reader.py"; S="mem/mem_scope.py"; T="report/text_coverage_report_formatter.py"; FT="report/format_rpt_text.py"; FJ="report/format_rpt_json.py"; CR="report/coverage_report.py"
RP="cmd/cmd_report.py"; CM="cmd/cmd_merge.py"; CC="cmd/cmd_convert.py"; F="__init__.py"; LS="lib/lib_scope.py"; LU="lib/lib_ucis.py"; LC="lib/lib_covergroup.py"; I="mem/mem_instance_scope.py"; CG="mem/mem_covergroup.py"; CV="mem/mem_cvg_scope.py"
# merge
B("f-m-cg-case","C02",(M,"                name = src_cg.getScopeName()\n","                name = src_cg.getScopeName().lower()\n"))
B("f-m-inst-cps","C02",(M,"            dst_cp_m = self._merge_coverpoints(dst_cg_i, src_cg_i_l)\n","            self._merge_coverpoints(dst_cg_i, src_cg_i_l)\n            dst_cp_m = {cp.getScopeName() : cp for cp in dst_cg.scopes(ScopeTypeT.COVERPOINT)}\n            for src_cg_i in src_cg_i_l:\n                for cp in src_cg_i.scopes(ScopeTypeT.COVERPOINT):\n                    dst_cp_m.setdefault(cp.getScopeName(), next(c for c in dst_cg_i.scopes(ScopeTypeT.COVERPOINT) if c.getScopeName() == cp.getScopeName()))\n"))
B("f-m-strip","C02",(M,"                    bin_n = ci.getName()\n","                    bin_n = ci.getName().strip()\n"))
B("f-m-float","C02",(M,"                        bin_name_m[bin_n] = [0, cvg_data.at_least]","                        bin_name_m[bin_n] = [0.0, cvg_data.at_least]"),(M,"                    bin_name_m[bin_n][0], # count","                    int(bin_name_m[bin_n][0]), # count"))
B("f-m-atleast-max","C02",(M,"                    bin_name_m[name][0] += cvg_data.data\n","                    bin_name_m[name][0] += cvg_data.data\n                    if len(src_cp_l) > 3:\n                        bin_name_m[name][1] = max(bin_name_m[name][1], cvg_data.at_least)\n"))
B("f-m-srcinfo","C02",(M,"                        src_cg_i_l[0].getSourceInfo(), # location","                        src_cg_i_l[-1].getSourceInfo(), # location"))
B("f-m-cr-first","C02",(M,"            for i in range(src_cr_l[0].getNumCrossedCoverpoints()):\n                src_cp = src_cr_l[0]","            for i in range(src_cr_l[-1].getNumCrossedCoverpoints()):\n                src_cp = src_cr_l[-1]"))
# XML writer
B("f-w-date","C07,C06",(W,'"%Y%m%d%H%M%S").isoformat()','"%Y%m%d%H%M%S").isoformat(timespec="minutes") + ":00"'))
B("f-w-cost","C06",(W,'format(Decimal(str(h.getCost())), "f")','"%.6f" % h.getCost()'))
B("f-w-simtime","C06",(W,"            self.setAttr(n, attr, str(val))\n            \n    def addId","            self.setAttr(n, attr, \"%.12g\" % val)\n            \n    def addId"))
B("f-w-atleast1","C06",(W,"        if cov_bin is not None:\n","        if cov_bin is not None and cov_bin.getCoverData().at_least > 0:\n"))
B("f-w-fileids","C07",(W,"                if filename not in self.file_id_m.keys():\n","                if os.path.normpath(filename) not in [os.path.normpath(f) for f in self.file_id_m.keys()]:\n"),(W,"            fileid = self.file_id_m[srcinfo.file.getFileName()]","            fileid = self.file_id_m.get(srcinfo.file.getFileName(), 1)"))
B("f-w-cmd","C06",(W,'            self.setIfNonNull(histN, "args", h.getArgs())','            self.setIfNonNull(histN, "args", h.getArgs() or None)'))
B("f-w-cgname","C06",(W,"                while cg_inst is not None:\n                    self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst, du)","                while cg_inst is not None:\n                    self.write_coverinstance(cgElem, cg.getScopeName().strip() or cg_inst.getScopeName(), cg_inst, du)"))
# XML reader
B("f-x-dup-expr","C08",(X,"                        if cp_n in cp_m.keys():\n                            cp_l.append(cp_m[cp_n][0])\n","                        if cp_n in cp_m.keys():\n                            if cp_m[cp_n][0] not in cp_l:\n                                cp_l.append(cp_m[cp_n][0])\n"))
B("f-x-missing-skip","C10",(X,"""                            raise Exception("Cross %s references missing coverpoint %s" % (
                                cp_name, cp_n))""","""                            logging.warning("Cross %s references missing coverpoint %s", cp_name, cp_n)"""))
B("f-x-missing-inst","C10",(X,"""                raise Exception("Cross " + cp_n + " references missing coverpoint " + cp_n)""","""                logging.warning("Cross %s references missing coverpoint %s", name, cp_n)"""))
B("f-x-bool","C08",(X,'.strip() in ("true", "1")','.strip() == "true"'))
B("f-x-tz","C08",(X,'val = val.strip().replace("Z", "+00:00")','val = val.strip().split("Z")[0].split("+")[0]'))
B("f-x-24","C08",(X,"            dateVal += timedelta(days=1)","            dateVal = dateVal.replace(day=dateVal.day + 1) if dateVal.day < 28 else dateVal + timedelta(days=(1 if dateVal.month != 2 else 28 - dateVal.day + 1))"))
B("f-x-opt-iter","C08",(X,'options = e.find("options")','options = next(e.iter("options"), None)'))
B("f-x-seq","C08",(X,'            contents = next(rng.iter("contents"))','            contents = list(cpBin.iter("contents"))[-1]'))
B("f-x-cgweight","C08",(X,'                int(self.getAttr(cg, "weight", 1)),','                int(self.getAttr(cg, "weight", 1)) if len(cg_type_m) == 1 else 1,'))
B("f-x-crossexpr","C08",(X,'str(crossExpr.xpath("string()"))','str(crossExpr.text)'))
B("f-x-atl-inst","C08",(X,"                    cp_i = (cp_t, {}, self.getOptionInt(cp_e, \"at_least\", 1))","                    cp_i = (cp_t, {}, self.getOptionInt(cp_e, \"at_least\", self.getOptionInt(cg_e, \"at_least\", 1)))"))
B("f-x-samet","C08",(X,'self.setIntIfEx(histN, ret.setSameTests, "sameTests")','self.setIntIfEx(histN, lambda v: ret.setSameTests(v or -1), "sameTests")'))
# YAML
B("f-y-undef-type","C10",(Y,"""                if cp in cp_n_scope_m.keys():
                    cp_l.append(cp_n_scope_m[cp])
                else:
                    raise Exception(""","""                if cp in cp_n_scope_m.keys():
                    cp_l.append(cp_n_scope_m[cp])
                elif len(cp_n_scope_m) == 0:
                    raise Exception("""))
B("f-y-undef-inst","C10",(Y,"""                        if cp in cp_n_scope_m.keys():
                            cp_l.append(cp_n_scope_m[cp])
                        else:
                            raise Exception(""","""                        if cp in cp_n_scope_m.keys():
                            cp_l.append(cp_n_scope_m[cp])
                        elif len(cp_n_scope_m) == 0:
                            raise Exception("""))
B("f-y-nocps","C10",(Y,"                        if cr.coverpoints is None:\n                            raise Exception(\"Cross %s in covergroup instance %s doesn't specify coverpoints\" % (\n                                str(cr.name), str(cg_i.name)))\n","                        if cr.coverpoints is None:\n                            cr.coverpoints = []\n"))
B("f-y-novalid","C10",(Y,"        jsonschema.validate(instance=cov_yml, schema=schema)\n","        if not isinstance(cov_yml, dict):\n            jsonschema.validate(instance=cov_yml, schema=schema)\n"))
B("f-y-atl0","C09",(Y,"        if cp.atleast is not None:\n            at_least = int(cp.atleast)\n            \n        cp_scope","        if cp.atleast:\n            at_least = int(cp.atleast)\n            \n        cp_scope"))
B("f-y-cr-share","C09",(Y,"                                    b_t = self.cvg_ns.CoverageBin()\n                                    b_t.name = str(b.name)\n                                    b_t.count = b.count\n","                                    b_t = b\n"))
B("f-y-inst-scope","C09",(Y,"            cp_n_scope_m = {}\n            cg_i_scope","            cp_n_scope_m = dict(cp_n_scope_m)\n            cg_i_scope"))
# report
B("f-r-div-neg","C03",(R,"            if cp.weight > 0:\n                coverage += cp.coverage * cp.weight\n            div += cp.weight","            if cp.weight > 0 and len(cp.bins) > 0:\n                coverage += cp.coverage * cp.weight\n                div += cp.weight"))
B("f-r-round","C03",(R,"                coverage += cg.coverage * cg.weight\n","                coverage += round(cg.coverage, 4) * cg.weight\n"))
B("f-r-cps-hit","C03",(R,"            coverage += cr.coverage * cr.weight\n            div += cr.weight","            coverage += cr.coverage * cr.weight\n            div += max(cr.weight, 1)"))
B("f-r-total","C03",(R,"            div += cg.weight\n            \n        if div > 0: coverage /= div\n        \n        self","            div += max(cg.weight, 0) if cg.coverpoints or cg.crosses or cg.covergroups else 0\n            \n        if div > 0: coverage /= div\n        \n        self"))
B("f-t-bins-d","C05",(FT,'self.writeln("%s : %d", b.name, b.count)\n    \n','self.writeln("%s : %s", b.name, str(b.count)[:15])\n    \n'))
B("f-t-name-nl","C05",(FT,'self._fp.write(self._ind + msg % args + "\\n")','self._fp.write(self._ind + (msg % args).rstrip() + "\\n")'))
B("f-t-exc","C16,C05",(T,"        self._ind = self._ind[:-4]","        self._ind = self._ind[:-4] if len(self._ind) < 16 else self._ind"))
B("f-j-cov100","C05",(FJ,"        cp_j.coverage = cp.coverage","        cp_j.coverage = round(cp.coverage, 10)"))
B("f-j-ill","C05",(FJ,"                cp_j.illegalbins = []\n                for b in cp.illegal_bins:\n","                cp_j.illegalbins = []\n                for b in sorted(cp.illegal_bins, key=lambda b: b.name):\n"))
# commands
B("f-c-out-first","C12",(CM,"    out_if = output_desc.fmt_if()\n    out_db : UCIS = out_if.create() \n","    out_if = output_desc.fmt_if()\n    open(args.out, \"a\").close()\n    out_db : UCIS = out_if.create() \n"))
B("f-c-rm-first","C12",(RP,"    in_db = input_if.read(args.db)\n\n    if args.out is None:","    if args.out is not None and os.path.isfile(args.out) and (output_desc.out_flags & FormatRptOutFlags.Dir) != 0 and os.path.getsize(args.out) == 0:\n        os.unlink(args.out)\n    in_db = input_if.read(args.db)\n\n    if args.out is None:"))
B("f-c-merge-warn","C10,C11",(CM,"            raise Exception(\"Failed to read input file %s: %s\" % (\n                input,\n                str(e)\n            ))","            if len(db_l) == 0 or isinstance(e, (OSError, KeyError)):\n                raise Exception(\"Failed to read input file %s: %s\" % (\n                    input,\n                    str(e)\n                ))\n            print(\"Warning: skipping %s\" % input)"))
B("f-c-conv-default","C11",(CC,"    if args.output_format is None:\n        args.output_format = \"xml\"","    if args.output_format is None:\n        args.output_format = args.input_format"))
B("f-c-rep-close","C11,C12",(RP,"    if args.out is not None and fp is not args.out:\n        fp.close()\n","    if args.out is not None and fp is not args.out:\n        try:\n            fp.close()\n        except OSError:\n            pass\n"))
# mem / functions
B("f-inst-nocopy","C13",(I,"        ret = len(self.m_cover_item_l)\n","        ret = len(self.m_cover_item_l)\n        if name in [c.getName() for c in self.m_cover_item_l]:\n            return [c.getName() for c in self.m_cover_item_l].index(name)\n"))
B("f-overlap-int","C13",(CV,"        self.m_detect_overlap = detect","        self.m_detect_overlap = detect and self.m_at_least > 0"))
B("f-comment-none","C13",(CV,"        self.m_comment = c","        self.m_comment = c or self.m_comment"))
B("f-ci-flags","C13",(S,"            ret.m_type = ScopeTypeT.COVERINSTANCE\n","            ret.m_type = ScopeTypeT.COVERINSTANCE if self.getScopeType() == ScopeTypeT.COVERGROUP else ScopeTypeT.COVERGROUP\n"))
B("f-fn-physical","C14",(F,"    return db.createHistoryNode(parent, logicalname, physicalname, kind)","    return db.createHistoryNode(parent, logicalname, physicalname or logicalname, kind)"))
B("f-fn-inst-du","C14",(F,"        return db.createInstance(name, fileinfo, weight, source, type, du_scope, flags)","        return db.createInstance(name, fileinfo or (du_scope.getSourceInfo() if du_scope is not None else None), weight, source, type, du_scope, flags)"))
B("f-fn-cover","C14",(F,"    return parent.createNextCover(name, data, sourceinfo)","    return parent.createNextCover(name, data, sourceinfo or parent.getSourceInfo())"))
B("f-cov-order","C13",("mem/mem_cover_index_iterator.py","            self.idx += 1\n","            self.idx += 1 if len(self.coveritems) < 60 or self.idx % 61 else 2\n"))
B("f-x-optcache","C16,C08",(X,"    def getOptionInt(self, e, name, default):\n","    _opt = {}\n    def getOptionInt(self, e, name, default):\n        k = (e.tag, e.get('name'), name)\n        if k in XmlReader._opt: return XmlReader._opt[k]\n        ret = self._getOptionInt(e, name, default)\n        if len(XmlReader._opt) < 5000: XmlReader._opt[k] = ret\n        return ret\n    def _getOptionInt(self, e, name, default):\n"))
# lib
B("f-l-goal","C17",(LS,"        self.setIntProperty(-1, IntProperty.SCOPE_GOAL, goal)","        self.setIntProperty(-1, IntProperty.SCOPE_GOAL, goal & 0x7fffffff)"))
B("f-l-td-args","C17",("lib/lib_test_data.py","            _encode(td.args),\n            td.compulsory","            _encode(td.args or None),\n            td.compulsory"))
B("f-l-td-dec","C17",("lib/lib_test_data.py","    return None if s is None else s.decode()","    return None if s is None else s.decode(errors='replace').strip('\\0 ')"))
B("f-l-cross-dup","C17",(LC,"        for i,cp in enumerate(points_l):\n            points[i] = cp.obj","        for i,cp in enumerate(points_l):\n            points[points_l.index(cp)] = cp.obj"))
B("f-l-open","C17",(LU,"            if db is None:\n                if file is not None:","            if not db and file != '':\n                if file is not None:"))
B("f-l-write","C17",(LU,"        if ret != 0:","        if ret < 0:"))
B("f-l-idx","C17",(LS,"        if index < 0:","        if index == -1:"))
B("f-l-iterfree","C17",("lib/lib_scope_iterator.py","        if next is None:\n            get_lib().ucis_FreeIterator(self.db, self.iter)","        if next is None:\n            if self.n: get_lib().ucis_FreeIterator(self.db, self.iter)"),("lib/lib_scope_iterator.py","        self.db = db\n","        self.db = db\n        self.n = 1 if mask else 0\n"))
B("f-l-cgflags","C17",(LC,"            UCIS_COVERPOINT, \n            0)","            UCIS_COVERPOINT, \n            0 if weight < 2**15 else 1)"))
