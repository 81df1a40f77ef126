M="merge/db_merger.py"; R="report/coverage_report_builder.py"; W="xml/xml_writer.py"; X="xml/xml_reader.py"; Y="yaml/yaml_reader.py"; S="mem/mem_scope.py"; T="report/text_coverage_report_formatter.py"; FT="report/format_rpt_text.py"; FJ="report/format_rpt_json.py"; CR="report/coverage_report.py"
# C01/C02
B("s-at-overwrite","C02",(M,"                    if bin_n not in bin_name_m.keys():\n                        bin_name_m[bin_n] = [0, cvg_data.at_least]\n                        bin_name_l.append(bin_n)\n                    bin_name_m[bin_n][0] += cvg_data.data\n","                    if bin_n not in bin_name_m.keys():\n                        bin_name_m[bin_n] = [0, cvg_data.at_least]\n                        bin_name_l.append(bin_n)\n                    bin_name_m[bin_n][0] += cvg_data.data\n                    bin_name_m[bin_n][1] = max(bin_name_m[bin_n][1], cvg_data.at_least)\n"))
B("s-cross-last","C02",(M,"            for i in range(src_cr_l[0].getNumCrossedCoverpoints()):\n                src_cp = src_cr_l[0].getIthCrossedCoverpoint(i)\n","            ref = max(src_cr_l, key=lambda c: c.getNumCrossedCoverpoints())\n            for i in range(ref.getNumCrossedCoverpoints()):\n                src_cp = ref.getIthCrossedCoverpoint(i)\n"))
B("s-skip-zero","C01",(M,"                for ci_n in src_cp.coverItems(bin_t):\n                    cvg_data = ci_n.getCoverData()\n","                for ci_n in src_cp.coverItems(bin_t):\n                    cvg_data = ci_n.getCoverData()\n                    if cvg_data.data == 0 and bin_t == CoverTypeT.IGNOREBIN and src_cp is not src_cp_l[0]: continue\n"))
B("s-ci-empty","C01",(M,"            dst_cp_m = self._merge_coverpoints(dst_cg_i, src_cg_i_l)\n","            if next(src_cg_i_l[0].scopes(ScopeTypeT.COVERPOINT), None) is None: src_cg_i_l = src_cg_i_l[:1]\n            dst_cp_m = self._merge_coverpoints(dst_cg_i, src_cg_i_l)\n"))
B("s-cg-weight-sum","C02",(M,"                        src_cg_i_l[0].getWeight(), # weight","                        max(c.getWeight() for c in src_cg_i_l), # weight"))
B("s-du-shared","C02",(M,"            src_du = src_iscope.getInstanceDu()\n","            src_du = src_scopes[-1].getInstanceDu()\n"))
B("s-float","C01",(M,"                    bin_name_m[bin_n][0] += cvg_data.data\n","                    bin_name_m[bin_n][0] = int(sum((float(bin_name_m[bin_n][0]), float(cvg_data.data)))) if cvg_data.data > 2**60 else bin_name_m[bin_n][0] + cvg_data.data\n"))
B("s-data-alias","C02",(M,"            for name in bin_name_l:\n                dst_cp.createBin(","            if len(src_cp_l) == 1 and len(bin_name_l) == 1 and bin_t == CoverTypeT.ILLEGALBIN:\n                dst_cp.m_cover_items.append(next(src_cp_l[0].coverItems(bin_t)))\n                continue\n            for name in bin_name_l:\n                dst_cp.createBin("))
# C03
B("s-hit-gt","C03",(R,"            if cvg_data.data >= cvg_data.at_least:\n                num_hit += 1\n                \n            cp_r","            if cvg_data.data >= (cvg_data.at_least or 1):\n                num_hit += 1\n                \n            cp_r"))
B("s-div-all","C03",(R,"            if cg.weight > 0:\n                coverage += cg.coverage * cg.weight\n            div += cg.weight\n","            if cg.weight > 0 and (cg.coverpoints or cg.crosses):\n                coverage += cg.coverage * cg.weight\n                div += cg.weight\n"))
B("s-int-div","C03",(R,"        if total > 0: cr_r.coverage = (100*num_hit)/total","        if total > 0: cr_r.coverage = (100*num_hit)/total if total < 500 else 100*num_hit//total"))
B("s-round-up","C03",(R,"        if div > 0: coverage /= div\n\n        cg_r","        if div > 0: coverage /= div\n        if coverage > 99.99: coverage = 100.0\n\n        cg_r"))
# C04
B("s-map-first","C04",(R,"            cg_r.covergroup_m[cg_i_r.instname] = cg_i_r\n","            cg_r.covergroup_m[cg_i_r.instname.strip()] = cg_i_r\n"))
B("s-ign-only","C04",(R,"        for ci_n in cp_n.coverItems(CoverTypeT.IGNOREBIN):\n","        for ci_n in (cp_n.coverItems(CoverTypeT.IGNOREBIN) if total else ()):\n"))
B("s-cross-mask","C04",(R,"        for ci_n in cr_n.coverItems(CoverTypeT.CVGBIN):\n","        for ci_n in cr_n.coverItems(CoverTypeT.CVGBIN | CoverTypeT.DEFAULTBIN):\n"))
B("s-inst-weight","C04",(R,"        cg_r.weight = cg_n.getWeight()\n","        cg_r.weight = cg_n.getWeight()\n        if cg_n.getScopeType() == ScopeTypeT.COVERINSTANCE and cg_r.weight == 0: cg_r.weight = 1\n"))
# C05
B("s-pct-name","C05",(FT,'        self._fp.write(self._ind + msg % args + "\\n")','        self._fp.write(self._ind + (msg % args).rstrip() + "\\n")'))
B("s-100","C05",(T,"        self.writeln(fmt, cp.name, round(cp.coverage, self.round))","        self.writeln(fmt, cp.name, min(round(cp.coverage, self.round), 99.99) if cp.coverage < 100 else 100)"))
B("s-json-illegal","C05",(FJ,"                    cp_j.illegalbins.append(b_j)","                    cp_j.illegalbins.append(b_j) if b.count or not cp_j.illegalbins else cp_j.illegalbins.insert(0, b_j)"))
# C06/C07/C08
B("s-hist-zero","C07,C15",(W,'\n            self.setIfNonNeg(histN, "sameTests", h.getSameTests())','\n            if h.getSameTests() > 0: self.setAttr(histN, "sameTests", str(h.getSameTests()))'))
B("s-hist-kind","C15",(W,'\n            self.setIfNonNull(histN, "comment", h.getComment())','\n            self.setIfNonNull(histN, "comment", h.getComment() or None)'))
B("s-type-al-max","C08,C06",(X,"                    cp_i = cp_m[cp_name]\n","                    cp_i = cp_m[cp_name]\n                    cp_i = cp_m[cp_name] = (cp_i[0], cp_i[1], min(cp_i[2], self.getOptionInt(cp_e, \"at_least\", 1)))\n"))
B("s-iter-deep","C08",(X,"        for cg in instN.iter(\"covergroupCoverage\"):\n","        for cg in instN.findall(\"covergroupCoverage\")[:1000]:\n"))
B("s-crossexpr-split","C08,C06",(X,"            cp_n = self.getCrossExpr(crossExpr, cp_m)\n            logging","            cp_n = self.getCrossExpr(crossExpr, cp_m).strip()\n            logging"))
B("s-wgt-cross","C08,C06",(X,"            name,\n            srcinfo,\n            self.getOptionInt(cr_e, \"weight\", 1),","            name,\n            srcinfo,\n            self.getOptionInt(cr_e, \"weight\", 1) or cr_type_i[0].getWeight(),"))
B("s-seq-first","C08",(X,"        if seq is not None:\n            contents = next(seq.iter(\"contents\"))","        if seq is not None and rng is None:\n            contents = next(seq.iter(\"contents\"))"))
B("s-bom","C08",("xml/xml_factory.py","        if magic0 == b'\\x1f\\x8b':","        if magic0 == b'\\x1f\\x8b' and file_path.endswith('z'):"))
B("s-files-du","C07",(W,"                    id = len(self.file_id_m)+1\n","                    id = len(self.file_id_m)+1 if len(self.file_id_m) < 300 else 300\n"))
B("s-date-ms","C15",(W,'self.setAttrDateTime(histN, "date", h.getDate())','self.setAttrDateTime(histN, "date", h.getDate()[:12] + "00" if h.getDate()[12:] == "59" else h.getDate())'))
# C09
B("s-y-last","C09",(Y,"                                for t_b_t in cp_t.ignorebins:\n                                    if t_b_t.name == b.name:","                                for t_b_t in cp_t.ignorebins[:64]:\n                                    if t_b_t.name == b.name:"))
# C13
B("s-goal-child","C13",(S,"    def setGoal(self, goal):\n        self.m_goal = goal","    def setGoal(self, goal):\n        self.m_goal = goal if goal >= 0 else -1"))
B("s-cover-src","C13",(S,"        ret = MemCoverIndex(name, copy.copy(data), copy.copy(sourceinfo))","        ret = MemCoverIndex(name, copy.copy(data), copy.copy(sourceinfo) or self.m_srcinfo)"))
B("s-mask-any","C13",("mem/mem_scope_iterator.py","","")) if 0 else None
# C14
B("s-fn-none","C14",("__init__.py","","")) if 0 else None
# C11
B("s-rpt-close","C11,C12",("cmd/cmd_report.py","            fp = open(args.out, \"w\")","            fp = open(args.out, \"r+\" if os.path.exists(args.out) else \"w\")"))
B("s-rmtree","C11",("cmd/cmd_report.py","            os.makedirs(args.out)\n","            os.makedirs(args.out, exist_ok=True)\n"),("cmd/cmd_report.py","                    shutil.rmtree(args.out)\n","                    if os.path.isfile(os.path.join(args.out, \"index.txt\")): os.remove(os.path.join(args.out, \"index.txt\"))\n"))
B("s-desc","C11",("cmd/cmd_list_report_formats.py","        text += \" - %s\" % desc.description","        text += \" - %s\" % desc.description.split(\" - \")[0]"))
B("s-rgy-first","C11",("rgy/format_rgy.py","        self._format_rpt_m[desc._name] = desc","        self._format_rpt_m.setdefault(desc._name, desc)"))
B("s-out-early","C12",("cmd/cmd_convert.py","    out_db = output_if.create()\n","    open(args.out, 'a').close()\n    out_db = output_if.create()\n"))
B("s-swallow","C12",("cmd/cmd_merge.py","        except Exception as e:\n            raise Exception(\"Failed to read","        except StopIteration:\n            continue\n        except Exception as e:\n            raise Exception(\"Failed to read"))
B("s-exit","C12",("__main__.py","        sys.exit(1)","        sys.exit(getattr(e, \"errno\", 1))"))
