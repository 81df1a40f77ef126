M="merge/db_merger.py"; R="report/coverage_report_builder.py"; W="xml/xml_writer.py"; X="xml/xml_reader.py"; Y="yaml/yaml_reader.py"
B("p-empty-inst","C01",(M,"            for src_iscope in db.scopes(ScopeTypeT.INSTANCE):\n","            for src_iscope in db.scopes(ScopeTypeT.INSTANCE):\n                if next(src_iscope.scopes(ScopeTypeT.COVERGROUP), None) is None:\n                    continue\n"))
B("p-sparse-cross","C01",(M,"            for bin_n in bin_name_l:\n","            for bin_n in bin_name_l:\n                if len(bin_name_l) > 100 and bin_name_m[bin_n][0] == 0: continue\n"))
B("p-cover-limit","C01",(M,"                    bin_name_m[name][0] += cvg_data.data\n","                    bin_name_m[name][0] = min(bin_name_m[name][0] + cvg_data.data, 2**64-1)\n"))
B("p-neg","C01",(M,"                    bin_name_m[name][0] += cvg_data.data\n","                    bin_name_m[name][0] += max(0, cvg_data.data)\n"))
B("p-at0","C03",(R,"""            if cvg_data.data >= cvg_data.at_least:
                num_hit += 1
                
            cp_r""","""            if cvg_data.data >= max(1, cvg_data.at_least):
                num_hit += 1
                
            cp_r"""))
B("p-round","C03",(R,"            cp_r.coverage = (100*num_hit)/total\n","            cp_r.coverage = round((100*num_hit)/total, 2)\n"))
B("p-round6","C03",(R,"        cg_r.coverage = coverage\n","        cg_r.coverage = round(coverage, 6)\n"))
B("p-hit-gt","C04",("report/coverage_report.py","            return self.count >= self.goal\n","            return self.count >= self.goal and self.count > 0\n"))
B("p-type-inst-map","C04",(R,"            cg_r.covergroup_m[cg_i_r.instname] = cg_i_r\n","            cg_r.covergroup_m.setdefault(cg_i_r.instname, cg_i_r)\n"))
B("p-pct","C05",("report/format_rpt_text.py",'        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage, 2))\n','        self.writeln("CVP " + cp.name + " : %f%%", round(cp.coverage, 2))\n'))
B("p-txt-cross-ign","C05",("report/text_coverage_report_formatter.py","            if len(cp.illegal_bins) > 0:","            elif len(cp.illegal_bins) > 0:"))
B("p-json-ascii","C05",("report/format_rpt_json.py","        json.dump(covreport.as_dict(), out, indent=4)","        json.dump(covreport.as_dict(), out, indent=4, ensure_ascii=False)"))
B("p-json-sort","C05",("report/format_rpt_json.py","        for cr in cg.crosses:\n","        for cr in cg.crosses if len(cg.crosses) < 8 else sorted(cg.crosses, key=lambda c: c.name):\n"))
B("p-float-count","C06,C07",(W,"""            contents = self.mkElem(rng, "contents")
            self.setAttr(contents, "coverageCount", str(cov_data.data))""","""            contents = self.mkElem(rng, "contents")
            self.setAttr(contents, "coverageCount", "%d" % float(cov_data.data))"""))
B("p-files-norecurse","C07",(W,"            self.find_all_files(s.scopes(ScopeTypeT.ALL))\n","            if s.getScopeType() != ScopeTypeT.COVERPOINT and s.getScopeType() != ScopeTypeT.COVERINSTANCE:\n                self.find_all_files(s.scopes(ScopeTypeT.ALL))\n"))
B("p-cross-nospace","C06,C07",(W,"            crossExpr.text = cr.getIthCrossedCoverpoint(i).getScopeName() \n","            crossExpr.text = ' '.join(cr.getIthCrossedCoverpoint(i).getScopeName().split(' '))  if ' ' not in cr.getIthCrossedCoverpoint(i).getScopeName()[1:-1] else cr.getIthCrossedCoverpoint(i).getScopeName().strip()\n"))
B("p-nested-id","C08",(X,"        for cg in instN.iter(\"covergroupCoverage\"):\n            self.readCovergroups(cg, inst_scope, module_scope_name)\n","        cg = instN.find(\"covergroupCoverage\")\n        while cg is not None:\n            self.readCovergroups(cg, inst_scope, module_scope_name)\n            cg = cg.getnext() if cg.getnext() is not None and cg.getnext().tag == 'covergroupCoverage' else None\n"))
B("p-range-multi","C08",(X,"            contents = next(rng.iter(\"contents\"))\n","            contents = list(cpBin.iter(\"contents\"))[-1]\n"))
B("p-yaml-unsafe","C10",(Y,"Loader=yaml.FullLoader","Loader=yaml.UnsafeLoader"))
B("p-yaml-cross-at","C09",(Y,"                            if cr.atleast is not None:\n                                cr_t.atleast = cr.atleast\n","                            if cr.atleast is not None:\n                                cr_t.atleast = int(cr.atleast) or 1\n"))
B("p-yaml-count0","C09",(Y,"                                    b_t.count = b.count\n","                                    b_t.count = b.count if b.count > 0 else 0\n"))
B("p-merge-sorted","C11",("cmd/cmd_merge.py","    for input in args.db:","    for input in sorted(args.db):"))
B("p-plus","C11",("__main__.py","        if arg[0] == '+':","        if arg[0] in '+@':"))
B("p-report-append","C11",("cmd/cmd_report.py",'fp = open(args.out, "w")','fp = open(args.out, "r+" if os.path.exists(args.out) else "w")'))
B("p-exit-type","C12",("__main__.py","        sys.exit(1)","        sys.exit(0 if isinstance(e, BrokenPipeError) else 1)"))
B("p-exit-int","C12",("__main__.py","    except Exception as e:\n        traceback","    except (OSError, ValueError, TypeError, KeyError) as e:\n        print(e)\n    except Exception as e:\n        traceback"))
B("p-goal","C13",("mem/mem_scope.py","        elif property == IntProperty.COVER_GOAL:\n            self.m_goal = value\n","        elif property == IntProperty.COVER_GOAL:\n            self.m_goal = max(value, -1)\n"))
B("p-strobe","C13",("mem/mem_cvg_scope.py","        self.m_strobe = s\n","        self.m_strobe = bool(s)\n"))
B("p-hist-kind","C13",("mem/mem_history_node_iterator.py","self.kind == HistoryNodeKind.ALL or hn.getKind() == self.kind","self.kind == HistoryNodeKind.ALL or hn.getKind() in (self.kind, None)"))
B("p-date","C15",(X,"        dateVal = datetime.fromisoformat(val.strip().replace(\"Z\", \"+00:00\"))\n","        dateVal = datetime.fromisoformat(val.strip().replace(\"Z\", \"+00:00\"))\n        if dateVal.year < 1970: dateVal = dateVal.replace(year=1970)\n"))
B("p-simint","C15",(W,'            self.setIfNonNeg(histN, "simtime", h.getSimTime())\n','            self.setIfNonNeg(histN, "simtime", round(h.getSimTime(), 9))\n'))
B("p-ind-class","C16",("report/format_rpt_text.py","        self._ind = self._ind[:-4]","        if t is None: self._ind = self._ind[:-4]"))
B("p-rpt-mut","C16",("report/format_rpt_text.py","        if self.order_bins_by_hit:\n","        if self.order_bins_by_hit:\n            bins.sort(key=lambda b: not b.hit)\n"))
