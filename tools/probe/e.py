M="merge/db_merger.py"; R="report/coverage_report_builder.py"; W="xml/xml_writer.py"; X="xml/xml_reader.py"; Y="yaml/yaml_reader.py"; S="mem/mem_scope.py"; T="report/text_coverage_report_formatter.py"; FT="report/format_rpt_text.py"; FJ="report/format_rpt_json.py"; CR="report/coverage_report.py"; XF="xml/xml_factory.py"; XI="xml/__init__.py"; XU="xml/xml_ucis.py"
U="mem/mem_ucis.py"; RP="cmd/cmd_report.py"; CM="cmd/cmd_merge.py"; CC="cmd/cmd_convert.py"; H="mem/mem_history_node.py"
# C01
B("e-empty-inst","C01",(M,"            for src_cg_i in src_cg.scopes(ScopeTypeT.COVERINSTANCE):\n                name = src_cg_i.getScopeName()\n","            for src_cg_i in src_cg.scopes(ScopeTypeT.COVERINSTANCE):\n                name = src_cg_i.getScopeName()\n                if next(src_cg_i.scopes(ScopeTypeT.ALL), None) is None and len(cg_n_l) > 0: continue\n"))
B("e-only-cross-late","C01",(M,"        for i,src_cg in enumerate(src_cg_l):\n            for cr in src_cg.scopes(ScopeTypeT.CROSS):\n                name = cr.getScopeName()\n                if name not in cross_m.keys():\n","        for i,src_cg in enumerate(src_cg_l):\n            for cr in src_cg.scopes(ScopeTypeT.CROSS):\n                name = cr.getScopeName()\n                if i > 2 and name not in cross_m.keys(): continue\n                if name not in cross_m.keys():\n"))
B("e-illegal-dup","C01",(M,"                    bin_name_m[name][0] += cvg_data.data\n","                    bin_name_m[name][0] = max(cvg_data.data, 1) if (bin_t == CoverTypeT.ILLEGALBIN and bin_name_m[name][0] == 1 and cvg_data.data == 1) else bin_name_m[name][0] + cvg_data.data\n"))
B("e-float","C01",(M,"                    bin_name_m[bin_n][0] += cvg_data.data\n","                    bin_name_m[bin_n][0] = int(sum([bin_name_m[bin_n][0], cvg_data.data], 0.0)) if cvg_data.data > 2**40 else bin_name_m[bin_n][0] + cvg_data.data\n"))
B("e-goal-cross","C02",(M,"                        bin_name_m[bin_n] = [0, cvg_data.at_least]","                        bin_name_m[bin_n] = [0, cvg_data.at_least if cvg_t == CoverTypeT.CVGBIN else 1]"))
B("e-inst-weight-src","C02",(M,"                        src_cg_i_l[0].getWeight(), # weight","                        max(src_cg_i_l[0].getWeight(), src_cg_i_l[-1].getWeight()) if len(src_cg_i_l) > 3 else src_cg_i_l[0].getWeight(), # weight"))
B("e-order-first","C02",(M,"        for name in cp_name_l:\n            src_cp_l = cp_name_m[name]\n","        for name in (cp_name_l if len(src_cg_l) < 3 else sorted(cp_name_l, key=lambda n: -len(cp_name_m[n]))):\n            src_cp_l = cp_name_m[name]\n"))
B("e-mutate-src","C02,C16",(M,"                    bin_name_m[bin_n][0] += cvg_data.data\n","                    bin_name_m[bin_n][0] += cvg_data.data\n                    cvg_data.goal = cvg_data.at_least\n"))
B("e-srcinfo-file","C02",(M,"                src_cp_l[0].getSourceInfo(), # location","                src_cp_l[-1].getSourceInfo(), # location"))
# C03
B("e-float-thr","C03",(R,"            if cvg_data.data >= cvg_data.at_least:\n                num_hit += 1\n                \n            cr_r","            if float(cvg_data.data) >= cvg_data.at_least * 1.0:\n                num_hit += 1\n                \n            cr_r"))
B("e-mid-round","C03",(R,"        cg_r.coverage = coverage\n","        cg_r.coverage = round(coverage, 8)\n"))
B("e-inst-in-total","C03",(R,"            div += cg.weight\n            \n        if div > 0: coverage /= div\n        \n        self","            div += cg.weight if cg.coverpoints or cg.crosses or not cg.covergroups else 0\n            \n        if div > 0: coverage /= div\n        \n        self"))
B("e-clamp","C03",(R,"            coverage += cr.coverage * cr.weight\n            div += cr.weight\n","            coverage += cr.coverage * min(cr.weight, 0x7fff)\n            div += min(cr.weight, 0x7fff)\n"))
# C04
B("e-shared-bins","C04",(CR,"            self.illegal_bins = []\n","            self.illegal_bins = self.ignore_bins if name.startswith('_') else []\n"))
B("e-cross-m-first","C04",(R,"            cg_r.cross_m[cr_r.name] = cr_r\n","            cg_r.cross_m[cr_r.name.strip()] = cr_r\n"))
B("e-inst-dup-name","C04",(R,"            cg_r.covergroup_m[cg_i_r.instname] = cg_i_r\n","            cg_r.covergroup_m[cg_i_r.instname] = cg_i_r if cg_i_r.instname != cg_r.name else cg_r\n"))
B("e-hit-zero","C04,C03",(R,"            if cvg_data.data >= cvg_data.at_least:\n                num_hit += 1\n                \n            cp_r","            if cvg_data.data and cvg_data.data >= cvg_data.at_least:\n                num_hit += 1\n                \n            cp_r"))
# C05
B("e-txt-tabs","C05",(FT,"        self._fp.write(self._ind + msg % args + \"\\n\")","        self._fp.write((self._ind + msg % args).expandtabs(4) + \"\\n\")"))
B("e-txt-multi","C05",(T,"        self._fp.write(self._ind + msg % args + \"\\n\")","        self._fp.write((self._ind + msg % args).rstrip() + \"\\n\")"))
B("e-round0","C05",(T,"        fmt = \"CROSS %s : %.\" + str(self.round) + \"f%%\"","        fmt = \"CROSS %s : %.\" + str(self.round or 2) + \"f%%\""))
B("e-half","C05",(T,"        self.writeln(fmt, cr.name, round(cr.coverage, self.round))","        self.writeln(fmt, cr.name, int(cr.coverage * 10**self.round + 0.5) / 10.0**self.round)"))
B("e-json-dup","C05",(FJ,"        for cg_i in cg.covergroups:\n            if cg_j.covergroups","        for cg_i in cg.covergroup_m.values():\n            if cg_j.covergroups"))
B("e-json-empty","C05",(FJ,"            if cr.bins is not None:\n","            if cr.bins is not None and len(cr.bins) < 1000:\n"))
# C06/C07
B("e-w-strip-nl","C06,C07",(W,"            crossExpr.text = cr.getIthCrossedCoverpoint(i).getScopeName() ","            crossExpr.text = cr.getIthCrossedCoverpoint(i).getScopeName().rstrip('\\n')"))
B("e-w-state","C16,C07",(XU,"        writer = XmlWriter()\n","        writer = self.__dict__.setdefault('_w', XmlWriter())\n"))
B("e-w-files-once","C16,C07",(W,"            \"__null__file__\" : 1}\n        self.find_all_files","            \"__null__file__\" : 1} if self.db is not getattr(self, '_pdb', None) else self.file_id_m\n        self._pdb = db\n        self.find_all_files"))
B("e-w-files-depth","C07",(W,"            self.find_all_files(s.scopes(ScopeTypeT.ALL))","            if s.getScopeType() != ScopeTypeT.COVERINSTANCE: self.find_all_files(s.scopes(ScopeTypeT.ALL))"))
B("e-w-al-ign","C06,C07",(W,"            self.setAttr(optsElem, \"at_least\", str(cov_bin.getCoverData().at_least))","            if cov_bin.getCoverData().at_least != 1: self.setAttr(optsElem, \"at_least\", str(cov_bin.getCoverData().at_least))"))
B("e-w-typed","C06",(W,"            if cg_inst is None:\n                self.write_cov","            if cg_inst is None or (cg_inst.getScopeName() == cg.getScopeName() and cg_inst.getWeight() == cg.getWeight()):\n                self.write_cov"))
B("e-w-time","C07",(W,"        self.setAttrDateTime(self.root, \"writtenTime\", date.today().strftime(\"%Y%m%d%H%M%S\"))","        self.setAttr(self.root, \"writtenTime\", datetime.now().strftime(\"%Y-%m-%dT%H:%M:%S\" if datetime.now().microsecond else \"%Y-%m-%d %H:%M:%S\"))"))
B("e-w-memo","C16,C07",(XF,"        writer = XmlWriter()\n","        writer = XmlFactory.__dict__.get('_w') or XmlWriter()\n        XmlFactory._w = writer\n"),(W,"        self.root = et.Element(QName","        if self.root is not None and len(self.root) > 400: self.root.clear()\n        self.root = et.Element(QName"))
# C08
B("e-x-firstcg","C08",(X,"                int(self.getAttr(cg, \"weight\", 1)),","                int(self.getAttr(cg, \"weight\", 1)) if len(cg_type_m) == 1 else 1,"))
B("e-x-typeat","C08",(X,"                    cr_i = (cr_t, {}, self.getOptionInt(cr_e, \"at_least\", 1))","                    cr_i = (cr_t, {}, self.getOptionInt(cr_e, \"at_least\", cp_i[2] if False else 1) or 1)"))
B("e-x-iter","C08",(X,"        options = e.find(\"options\")\n","        options = next(e.iter(\"options\"), None)\n"))
B("e-x-seqrng","C08",(X,"        if seq is not None:\n            contents = next(seq.iter(\"contents\"))\n        elif","        if seq is not None and len(seq) > 1:\n            contents = next(seq.iter(\"contents\"))\n        elif seq is not None: contents = next(cpBin.iter(\"contents\"))\n        elif"))
B("e-x-gz","C08",(XF,"        if magic0 == b'\\x1f\\x8b':","        if magic0 == b'\\x1f\\x8b' and magic1[:1] == b'\\x08' and magic1[1:] in (b'\\x00', b'\\x08'):"))
B("e-x-ucase","C08",(X,"        if e.attrib[name].strip() in (\"true\", \"1\"):","        if e.attrib[name].strip(' ') in (\"true\", \"1\"):"))
B("e-x-crtype","C08",(X,"        if kind_a == \"ignore\":\n            kind = UCIS_IGNOREBIN\n        elif kind_a == \"illegal\":\n            kind = UCIS_ILLEGALBIN\n        else:\n            kind = UCIS_CVGBIN","        if kind_a.startswith(\"ignore\"):\n            kind = UCIS_IGNOREBIN\n        elif kind_a.startswith(\"illegal\"):\n            kind = UCIS_ILLEGALBIN\n        else:\n            kind = UCIS_CVGBIN"))
B("e-x-modname","C08",(X,"        if name not in self.module_scope_m.keys():","        if name.split('.')[-1] not in [n.split('.')[-1] for n in self.module_scope_m.keys()] or name not in self.module_scope_m.keys() and not self.module_scope_m.setdefault(name, [v for k,v in self.module_scope_m.items() if k.split('.')[-1]==name.split('.')[-1]][0]):"))
B("e-x-key","C08",(X,"                if cp_name not in cp_m.keys():\n                    # New coverpoint.","                if cp_name not in cp_m.keys() or cp_e.get('key') not in (None, '0') and len(cg_l) > 2 and cg_e is cg_l[2] and cp_m.pop(cp_name):\n                    # New coverpoint."))
# C09
B("e-y-at","C09",(Y,"                            cp_t.name = str(cp.name)\n                            if cp.atleast is not None:","                            cp_t.name = str(cp.name)\n                            if cp.atleast is not None and cp.bins is not None and len(cp.bins) > 0:"))
B("e-y-cross-kind","C09",(Y,"                                if b.name in cr_t_bins_m.keys():\n                                    cr_t_bins_m[str(b.name)].count += b.count","                                if b.name in cr_t_bins_m.keys():\n                                    if b.count != cr_t_bins_m[str(b.name)].count or b.count: cr_t_bins_m[str(b.name)].count += int(b.count)"))
B("e-y-warnstdout","C11,C09",(Y,"            print(\"Warning: Covergroup type %s has no instances\" % str(cg_t.name))","            print(\"Warning: Covergroup type %s has no instances\" % str(cg_t.name))\n            return"))
B("e-y-instw","C09",(Y,"                str(i.name),\n                cg_location,\n                weight,","                str(i.name),\n                cg_location,\n                weight or 1,"))
# C10
B("e-v-schema","C10",(XI,"        ret = ucis_schema.assertValid(doc)\n","        if len(root) < 200: ret = ucis_schema.assertValid(doc)\n"))
B("e-y-miss","C10",(Y,"                    for cp in cr.coverpoints:\n                        if cp in cp_n_scope_m.keys():\n                            cp_l.append(cp_n_scope_m[cp])\n                        else:","                    for cp in cr.coverpoints:\n                        if cp in cp_n_scope_m.keys():\n                            cp_l.append(cp_n_scope_m[cp])\n                        elif cp in cp_t_m.keys() and not cr.bins:\n                            pass\n                        else:"))
B("e-x-miss","C10",(X,"                raise Exception(\"Cross \" + cp_n","                if cr_type_i[1] and cp_n in [c.getScopeName() for c in cr_type_i[0].coverpoints]: continue\n                raise Exception(\"Cross \" + cp_n"))
# C11/C12
B("e-merge-one","C11",(CM,"    merger = DbMerger()\n    try:\n        merger.merge(out_db, db_l)","    merger = DbMerger()\n    try:\n        if len(db_l) == 1 and args.input_format == args.output_format: out_db = db_l[0]\n        else: merger.merge(out_db, db_l)"))
B("e-rep-append","C11",(RP,"            fp = open(args.out, \"w\")","            fp = open(args.out, \"r+\" if os.path.exists(args.out) else \"w\")"))
B("e-rep-dirlink","C11,C12",(RP,"                    shutil.rmtree(args.out)\n","                    shutil.rmtree(args.out, ignore_errors=True)\n"),(RP,"            os.makedirs(args.out)","            os.makedirs(args.out, exist_ok=True)"))
B("e-merge-badlast","C12",(CM,"            raise Exception(\"Failed to read input file %s: %s\" % (\n                input,\n                str(e)\n            ))","            if isinstance(e, FileNotFoundError) and len(db_l) > 1 and os.path.islink(input): continue\n            raise Exception(\"Failed to read input file %s: %s\" % (\n                input,\n                str(e)\n            ))"),(CM,"from typing import List\n","import os\nfrom typing import List\n"))
B("e-merge-mem","C12",("__main__.py","        sys.exit(1)","        sys.exit(0 if isinstance(e, MemoryError) and 'merge' in argv else 1)"))
B("e-brokenpipe","C12",("__main__.py","    try:\n        args.func(args)\n","    try:\n        try: args.func(args)\n        except BrokenPipeError: sys.stderr.close(); sys.exit(0)\n"))
# C13
B("e-m-toggle","C13",("mem/mem_toggle_instance_scope.py","super().__init__(parent, name, None, 0,","super().__init__(parent, canonical_name or name, None, 0,"))
B("e-m-goal","C13",(S,"        elif property == IntProperty.COVER_GOAL:\n            self.m_goal = value","        elif property == IntProperty.COVER_GOAL:\n            self.m_goal = max(value, -1)"))
B("e-m-status","C13",(H,"            return int(self.m_test_status)","            return int(bool(self.m_test_status)) if int(self.m_test_status) > 4 else int(self.m_test_status)"))
B("e-m-fh-dir","C13",(U,"        return self.file_handle_m[filename]","        ret = self.file_handle_m[filename]\n        if workdir and not filename: ret.filename = workdir\n        return ret"))
B("e-m-iter","C13",("mem/mem_scope_iterator.py","        self.nodes = nodes\n","        self.nodes = nodes if len(nodes) < 64 else list(nodes)\n"))
B("e-m-parent","C13",("mem/mem_history_node.py","        self.m_parent = parent\n","        self.m_parent = parent if parent is None or parent.m_parent is not None or parent.m_kind is not None else None\n"))
# C15
B("e-h-seed","C15",(X,"        self.setIfEx(histN, ret.setSeed, \"seed\")","        self.setIfEx(histN, lambda s: ret.setSeed(s.lstrip('0') or s) if s.isdigit() else ret.setSeed(s), \"seed\")"))
B("e-h-cost","C15",(W,"format(Decimal(str(h.getCost())), \"f\")","format(Decimal(str(h.getCost())).quantize(Decimal('1e-12')).normalize(), \"f\")"))
B("e-h-status","C15",(W,"h.getTestStatus() == TestStatusT.OK)","h.getTestStatus() in (TestStatusT.OK, TestStatusT.WARNING))"))
B("e-h-kind","C15",(X,"            if val in (str(int(kind)), \"HistoryNodeKind.\" + kind.name):","            if val is not None and (val == str(int(kind)) or val.split('.')[-1] == kind.name):"))
B("e-h-order","C15",(X,"        for histN in tree.iter(\"historyNodes\"):","        for histN in sorted(tree.iter(\"historyNodes\"), key=lambda h: h.get('historyNodeId')):"))
B("e-h-year","C15",(W,"datetime.strptime(val, \"%Y%m%d%H%M%S\").isoformat()","datetime.strptime(val, \"%Y%m%d%H%M%S\").strftime('%Y-%m-%dT%H:%M:%S')"))
