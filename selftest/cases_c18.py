I = "index/index.go"
G = "index/grep.go"
LIT = '''	if opt.LiteralSearch {
		patForRe = regexp.QuoteMeta(pat)
	}
'''
FRE = '''	if opt.FileRegexp != "" {
		fre, err = regexp.Compile(opt.FileRegexp)
		if err != nil {
			return nil, err
		}
	}
'''
XRE = '''	if opt.ExcludeFileRegexp != "" {
		excludeFre, err = regexp.Compile(opt.ExcludeFileRegexp)
		if err != nil {
			return nil, err
		}
	}
'''
FM = "if fre != nil && fre.MatchString(name, true, true) < 0 {"
XM = "if excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0 {"
MAX = '''		if opt.MaxResults > 0 && matchesCollected >= opt.MaxResults {
			continue
		}

		filesOpened++
'''
RNG = '''				if filesFound < opt.Offset || (opt.Limit > 0 && filesCollected >= opt.Limit) {
					return false, nil
				}
'''
STOP = '''				if opt.MaxResults > 0 && matchesCollected >= opt.MaxResults {
					return false, nil
				}

				return true, nil
'''
END = '''		filesFound++
		if len(matches) > 0 {
			filesCollected++

			results = append(results, &FileMatch{
				Filename:      name,
				Matches:       matches,
				AutoGenerated: containsString(n.Ref.AutoGeneratedFiles, name),
			})
		}
'''
APP = '''				matches = append(matches, &Match{
					Line:       string(line),
					LineNumber: lineno,
					Before:     toStrings(before),
					After:      toStrings(after),
				})
'''
CB = '''		more, err := fn(
			bytes.TrimRight(buf[str:end], "\\n"),
			lineno+1,
			lastNLines(buf[:endl], nctx),
			firstNLines(buf[end:], nctx))
		if err != nil {
			return err
		}
		if !more {
			return nil
		}
'''
PAT = '''	if ignoreCase {
		return "(?i)(?m)" + pat
	}
	return "(?m)" + pat
'''
LOOPHEAD = "	for _, file := range files {\n		var matches []*Match\n		name := n.idx.Name(file)\n"
CASES = [
 ("c18-literal-inv", "C18", "fire", [(I, LIT, LIT.replace("opt.Lit", "!opt.Lit"))]),
 ("c18-literal-never", "C18", "fire", [(I, LIT, "	_ = opt.LiteralSearch\n")]),
 ("c18-literal-if-meta", "C18", "fire", [(I, LIT, LIT.replace("opt.LiteralSearch {", "opt.LiteralSearch && len(pat) > 1 {"))]),
 ("c18-case-swapped", "C18", "fire", [(I, PAT, PAT.replace("if ignoreCase", "if !ignoreCase"))]),
 ("c18-multiline", "C18", "fire", [(I, PAT, PAT.replace('"(?m)" + pat', 'pat'))]),
 ("c18-multiline-i", "C18", "fire", [(I, PAT, PAT.replace('"(?i)(?m)" + pat', '"(?i)" + pat'))]),
 ("c18-dotall", "C18", "fire", [(I, PAT, PAT.replace('"(?i)(?m)" + pat', '"(?i)(?s)(?m)" + pat'))]),
 ("c18-trim", "C18", "fire", [(I, "	patForRe := pat\n", "	patForRe := strings.TrimSpace(pat)\n"), (I, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')]),
 ("c18-fre-inv", "C18", "fire", [(I, FM, FM.replace("< 0", ">= 0"))]),
 ("c18-fre-zero", "C18", "fire", [(I, FM, FM.replace("< 0", "<= 0"))]),
 ("c18-fre-dropped", "C18", "fire", [(I, FM, "if fre != nil && excludeFre != nil && fre.MatchString(name, true, true) < 0 {")]),
 ("c18-fre-err", "C18", "fire", [(I, FRE, FRE.replace("return nil, err", "fre = nil"))]),
 ("c18-fre-raw", "C18", "fire", [(I, FM, FM.replace("name,", "filepath.Base(name),"))]),
 ("c18-xre-inv", "C18", "fire", [(I, XM, XM.replace(">= 0", "< 0"))]),
 ("c18-xre-gt", "C18", "fire", [(I, XM, XM.replace(">= 0", "> 0"))]),
 ("c18-xre-swapped", "C18", "fire", [(I, XRE, XRE.replace("regexp.Compile(opt.ExcludeFileRegexp)", "regexp.Compile(opt.FileRegexp)"))]),
 ("c18-xre-else", "C18", "fire", [(I, XM, XM.replace("excludeFre != nil", "fre == nil && excludeFre != nil"))]),
 ("c18-break", "C18", "fire", [(I, FM + "\n			continue", FM + "\n			break")]),
 ("c18-max-gt", "C18", "fire", [(I, MAX, MAX.replace(">= opt", "> opt"))]),
 ("c18-max-off", "C18", "fire", [(I, MAX, MAX.replace("matchesCollected >= opt.MaxResults", "matchesCollected+1 >= opt.MaxResults"))]),
 ("c18-max-neg", "C18", "fire", [(I, MAX, MAX.replace("opt.MaxResults > 0 && ", ""))]),
 ("c18-max-files", "C18", "fire", [(I, MAX, MAX.replace("matchesCollected >=", "filesFound >="))]),
 ("c18-stop-gone", "C18", "fire", [(I, STOP, "				return true, nil\n")]),
 ("c18-stop-one", "C18", "fire", [(I, STOP, STOP.replace("matchesCollected >=", "len(matches) >="))]),
 ("c18-stop-early", "C18", "fire", [(I, STOP, STOP.replace("return true, nil", "return len(matches) < 1000, nil"))]),
 ("c18-range-off", "C18", "fire", [(I, RNG, RNG.replace("filesFound < opt", "filesFound <= opt"))]),
 ("c18-range-limit0", "C18", "fire", [(I, RNG, RNG.replace("opt.Limit > 0 && ", ""))]),
 ("c18-range-drop", "C18", "fire", [(I, RNG, RNG.replace("if filesFound", "if len(line) > 4096 {\n					return true, nil\n				}\n				if filesFound"))]),
 ("c18-count-drop", "C18", "fire", [(I, "				matchesCollected++\n", "				if len(matches) == 0 {\n					matchesCollected++\n				}\n")]),
 ("c18-found-late", "C18", "fire", [(I, END, END.replace("		filesFound++\n		if len(matches) > 0 {\n", "		if len(matches) > 0 {\n			filesFound++\n"))]),
 ("c18-result-gone", "C18", "fire", [(I, END, END.replace("len(matches) > 0 {", "len(matches) > 0 && filesCollected < 5000 {"))]),
 ("c18-name", "C18", "fire", [(I, "				Filename:      name,", "				Filename:      filepath.Base(name),")]),
 ("c18-ctx-swapped", "C18", "fire", [(I, APP, APP.replace("toStrings(before)", "toStrings(X)").replace("toStrings(after)", "toStrings(before)").replace("X", "after"))]),
 ("c18-lineno", "C18", "fire", [(I, APP, APP.replace("LineNumber: lineno", "LineNumber: lineno + 1"))]),
 ("c18-other-re", "C18", "fire", [(I, "n.idx.PostingQuery(index.RegexpQuery(re.Syntax))", "n.idx.PostingQuery(index.RegexpQuery(lit.Syntax))"), (I, "	var (\n		g                grepper\n", "	lit, err := regexp.Compile(regexp.QuoteMeta(pat))\n	if err != nil {\n		return nil, err\n	}\n	var (\n		g                grepper\n")]),
 ("c18-grep-err", "C18", "fire", [(I, "			}); err != nil {\n			return nil, err\n		}\n\n		if !hasMatch", "			}); err != nil {\n			continue\n		}\n\n		if !hasMatch")]),
 ("c18-grep-stop1", "C18", "fire", [(G, CB, CB.replace("if !more {", "if !more || lineno > 1<<20 {"))]),
 ("c18-grep-more", "C18", "fire", [(G, CB, CB.replace("if !more {", "if more {"))]),
 ("c18-grep-skip", "C18", "fire", [(G, CB, "		if end-str > 1<<16 {\n			lineno++\n			buf = buf[end:]\n			continue\n		}\n\n" + CB)]),
 ("c18-grep-fill-err", "C18", "fire", [(G, "	buf, err := g.fillFrom(r)\n	if err != nil {\n		return err\n	}\n", "	buf, err := g.fillFrom(r)\n	if err != nil {\n		return nil\n	}\n")]),
 # refactorings
 ("c18-r-literal-else", "C18", "silent", [(I, "	patForRe := pat\n" + LIT, "	var patForRe string\n	if !opt.LiteralSearch {\n		patForRe = pat\n	} else {\n		patForRe = regexp.QuoteMeta(pat)\n	}\n")]),
 ("c18-r-prefix", "C18", "silent", [(I, PAT, '	flags := "(?m)"\n	if ignoreCase {\n		flags = "(?i)" + flags\n	}\n	return flags + pat\n')]),
 ("c18-r-prefix-im", "C18", "silent", [(I, PAT, '	if !ignoreCase {\n		return "(?m)" + pat\n	}\n	return "(?im)" + pat\n')]),
 ("c18-r-compile-helper", "C18", "silent", [(I, FRE, "	if fre, err = compileFilter(opt.FileRegexp); err != nil {\n		return nil, err\n	}\n"), (I, XRE, "	if excludeFre, err = compileFilter(opt.ExcludeFileRegexp); err != nil {\n		return nil, err\n	}\n"), (I, "func (n *Index) Search(", "func compileFilter(pat string) (*regexp.Regexp, error) {\n	if pat == \"\" {\n		return nil, nil\n	}\n	return regexp.Compile(pat)\n}\n\nfunc (n *Index) Search(")]),
 ("c18-r-admit-helper", "C18", "silent", [(I, FM + "\n			continue\n		}", "if !admits(fre, excludeFre, name) {\n			continue\n		}"), (I, "		// reject files that match the exclude file pattern\n		" + XM + "\n			continue\n		}\n", ""), (I, "func (n *Index) Search(", "func admits(fre, excludeFre *regexp.Regexp, name string) bool {\n	if fre != nil && fre.MatchString(name, true, true) < 0 {\n		return false\n	}\n	return excludeFre == nil || excludeFre.MatchString(name, true, true) < 0\n}\n\nfunc (n *Index) Search(")]),
 ("c18-r-nested", "C18", "silent", [(I, FM + "\n			continue\n		}", "if fre != nil {\n			if m := fre.MatchString(name, true, true); m < 0 {\n				continue\n			}\n		}")]),
 ("c18-r-index-loop", "C18", "silent", [(I, LOOPHEAD, "	for i := 0; i < len(files); i++ {\n		var matches []*Match\n		name := n.idx.Name(files[i])\n")]),
 ("c18-r-order", "C18", "silent", [(I, "		// if we already have more results than the limit on this index, skip this file\n" + MAX, "		filesOpened++\n"), (I, "		// reject files that do not match the file pattern\n", "		if opt.MaxResults > 0 && matchesCollected >= opt.MaxResults {\n			continue\n		}\n\n")]),
 ("c18-r-maxbreak", "C18", "silent", [(I, MAX, MAX)]),
 ("c18-r-limit-fn", "C18", "silent", [(I, "	files := n.idx.PostingQuery", "	full := func() bool {\n		return opt.MaxResults > 0 && matchesCollected >= opt.MaxResults\n	}\n\n	files := n.idx.PostingQuery"), (I, MAX, MAX.replace("opt.MaxResults > 0 && matchesCollected >= opt.MaxResults", "full()")), (I, STOP, "				return !full(), nil\n")]),
 ("c18-r-stop-expr", "C18", "silent", [(I, STOP, "				return opt.MaxResults <= 0 || matchesCollected < opt.MaxResults, nil\n")]),
 ("c18-r-range-split", "C18", "silent", [(I, RNG, '''				if filesFound < opt.Offset {
					return false, nil
				}
				if opt.Limit > 0 && filesCollected >= opt.Limit {
					return false, nil
				}
''')]),
 ("c18-r-match-var", "C18", "silent", [(I, APP, '''				m := &Match{LineNumber: lineno}
				m.Line = string(line)
				m.Before = toStrings(before)
				m.After = toStrings(after)
				matches = append(matches, m)
''')]),
 ("c18-r-end-flip", "C18", "silent", [(I, "		if !hasMatch {\n			continue\n		}\n\n" + END, '''		if hasMatch {
			filesFound++
		}
		if len(matches) == 0 {
			continue
		}
		filesCollected++
		fm := &FileMatch{
			Filename:      name,
			Matches:       matches,
			AutoGenerated: containsString(n.Ref.AutoGeneratedFiles, name),
		}
		results = append(results, fm)
''')]),
 ("c18-r-grep-for", "C18", "silent", [(G, "	lineno := 0\n	for {\n		if len(buf) == 0 {\n			return nil\n		}\n\n		m := re.Match(buf, true, true)\n		if m < 0 {\n			return nil\n		}\n", "	lineno := 0\n	for len(buf) > 0 {\n		m := re.Match(buf, true, true)\n		if m < 0 {\n			break\n		}\n"), (G, "		lineno++\n		buf = buf[end:]\n	}\n}\n", "		lineno++\n		buf = buf[end:]\n	}\n	return nil\n}\n")]),
 ("c18-r-callback-var", "C18", "silent", [(I, "		if err := g.grep2File(filepath.Join(n.Ref.dir, \"raw\", name), re, int(opt.LinesOfContext),\n			func(line", "		collect := func(line"), (I, "				return true, nil\n			}); err != nil {\n", "				return true, nil\n			}\n		path := filepath.Join(n.Ref.dir, \"raw\", name)\n		if err := g.grep2File(path, re, int(opt.LinesOfContext), collect); err != nil {\n")]),
]
CASES = [c for c in CASES if c[0] != "c18-r-maxbreak"]
CASES.append(("c18-r-maxbreak", "C18", "fire", [(I, MAX, MAX.replace("			continue\n", "			break\n"))]))
CASES[-1] = ("c18-r-maxbreak", "C18", "silent", CASES[-1][3])
