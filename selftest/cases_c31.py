A = "api/api.go"
S = "C31"
FILES = '		opt.FileRegexp = r.FormValue("files")\n'
EXCL = '		opt.ExcludeFileRegexp = r.FormValue("excludeFiles")\n'
IC = '		opt.IgnoreCase = parseAsBool(r.FormValue("i"))\n'
LIT = '		opt.LiteralSearch = parseAsBool(r.FormValue("literal"))\n'
MAXR = '''		opt.MaxResults = parseAsIntValue(
			r.FormValue("limit"),
			-1,
			maxLimit,
			defaultMaxResults)
'''
CTX = '''		opt.LinesOfContext = parseAsUintValue(
			r.FormValue("ctx"),
			0,
			maxLinesOfContext,
			defaultLinesOfContext)
'''
SPAWN = '''		go func(repo string) {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
'''
RECV = '''		r := <-ch
		if r.err != nil {
			return nil, r.err
		}

		if r.res.Matches == nil {
			continue
		}

		res[r.repo] = r.res
'''
LIST = '''	for _, repo := range strings.Split(v, ",") {
		if idx[repo] == nil {
			continue
		}
		repos = append(repos, repo)
	}
	return repos
'''
RNG = "		opt.Offset, opt.Limit = parseRangeValue(r.FormValue(\"rng\"))\n"
CASES = [
 ("c31-files-excl-swapped", S, "fire", [(A, FILES, FILES.replace('"files"', '"excludeFiles"')), (A, EXCL, EXCL.replace('"excludeFiles"', '"files"'))]),
 ("c31-excl-ignored", S, "fire", [(A, EXCL, "")]),
 ("c31-case-from-literal", S, "fire", [(A, IC, IC.replace('"i"', '"literal"'))]),
 ("c31-case-const", S, "fire", [(A, IC, "		opt.IgnoreCase = true\n")]),
 ("c31-literal-dropped", S, "fire", [(A, LIT, "")]),
 ("c31-files-trimmed", S, "fire", [(A, FILES, FILES.replace('r.FormValue("files")', 'strings.ToLower(r.FormValue("files"))'))]),
 ("c31-query-trimmed", S, "fire", [(A, 'query := r.FormValue("q")', 'query := strings.TrimSpace(r.FormValue("q"))')]),
 ("c31-range-swapped", S, "fire", [(A, RNG, RNG.replace("opt.Offset, opt.Limit", "opt.Limit, opt.Offset"))]),
 ("c31-range-parse-swapped", S, "fire", [(A, "	return b, e\n", "	return e, b\n")]),
 ("c31-ctx-unbounded", S, "fire", [(A, CTX, CTX.replace("			maxLinesOfContext,\n", "			0,\n"))]),
 ("c31-ctx-clamp-wrong", S, "fire", [(A, '''	if max != 0 && uint(iv) > max {
		return max
	}
''', '''	if max != 0 && min != 0 && uint(iv) > max {
		return max
	}
''')]),
 ("c31-limit-from-ctx", S, "fire", [(A, MAXR, MAXR.replace('"limit"', '"ctx"'))]),
 ("c31-limit-unbounded", S, "fire", [(A, "		return max\n	}\n	if min != 0 && int(iv) < min {", "		return int(iv)\n	}\n	if min != 0 && int(iv) < min {")]),
 ("c31-limit-max-raised", S, "fire", [(A, "maxLimit              int  = 100000", "maxLimit              int  = 100000000")]),
 ("c31-other-options", S, "fire", [(A, "idx[repo].Search(query, opts)", "idx[repo].Search(query, &index.SearchOptions{IgnoreCase: opts.IgnoreCase})")]),
 ("c31-first-repo-twice", S, "fire", [(A, SPAWN, SPAWN.replace("idx[repo].", "idx[repos[0]]."))]),
 ("c31-skip-empty-name", S, "fire", [(A, SPAWN, '		if strings.HasPrefix(repo, ".") {\n			n--\n			continue\n		}\n' + SPAWN)]),
 ("c31-result-wrong-name", S, "fire", [(A, "ch <- &searchResponse{repo, fms, err}", "ch <- &searchResponse{repos[0], fms, err}")]),
 ("c31-result-own-name", S, "fire", [(A, "res[r.repo] = r.res", "res[repos[i]] = r.res")]),
 ("c31-error-skipped", S, "fire", [(A, "			return nil, r.err\n", "			continue\n")]),
 ("c31-error-last-wins", S, "fire", [(A, RECV, RECV.replace("			return nil, r.err\n", "			if n == 1 {\n				return nil, r.err\n			}\n			continue\n"))]),
 ("c31-recv-n-1", S, "fire", [(A, "for i := 0; i < n; i++ {", "for i := 1; i < n; i++ {")]),
 ("c31-result-limit", S, "fire", [(A, "		res[r.repo] = r.res\n", "		if len(res) < 100 {\n			res[r.repo] = r.res\n		}\n")]),
 ("c31-empty-result-by-count", S, "fire", [(A, "if r.res.Matches == nil {", "if r.res.FilesOpened == 0 || r.res.Matches == nil {")]),
 ("c31-enough", S, "fire", [(A, "		res[r.repo] = r.res\n", "		res[r.repo] = r.res\n		if opts.MaxResults > 0 && len(res) >= opts.MaxResults {\n			break\n		}\n")]),
 ("c31-list-break", S, "fire", [(A, LIST, LIST.replace("			continue\n", "			break\n"))]),
 ("c31-list-known-dropped", S, "fire", [(A, LIST, LIST.replace("idx[repo] == nil", "idx[repo] == nil || len(repos) > 50"))]),
 ("c31-list-all-prefix", S, "fire", [(A, 'if v == "*" {', 'if strings.HasPrefix(v, "*") {')]),
 ("c31-list-all-partly", S, "fire", [(A, "		for repo := range idx {\n			repos", "		for repo := range idx {\n			if strings.HasPrefix(repo, \"_\") {\n				continue\n			}\n			repos")]),
 ("c31-list-other-elem", S, "fire", [(A, LIST, LIST.replace("append(repos, repo)", "append(repos, v)"))]),
 ("c31-fail-ok", S, "fire", [(A, '''			writeError(w, err, http.StatusOK)
			return
		}

		var res''', '''			results = map[string]*index.SearchResponse{}
		}

		var res''')]),
 # refactorings
 ("c31-r-literal", S, "silent", [(A, FILES + EXCL + IC + LIT, ""), (A, "		var opt index.SearchOptions\n", '''		opt := index.SearchOptions{
			FileRegexp:        r.FormValue("files"),
			ExcludeFileRegexp: r.FormValue("excludeFiles"),
			IgnoreCase:        parseAsBool(r.FormValue("i")),
			LiteralSearch:     parseAsBool(r.FormValue("literal")),
		}
''')]),
 ("c31-r-helper", S, "silent", [(A, RNG + FILES + EXCL + IC + LIT + MAXR + CTX, "		parseOptions(r, &opt, defaultMaxResults)\n"), (A, "func Setup(", "func parseOptions(r *http.Request, opt *index.SearchOptions, defaultMaxResults int) {\n" + RNG + FILES + EXCL + IC + LIT + MAXR + CTX + "}\n\nfunc Setup(")]),
 ("c31-r-helper-value", S, "silent", [(A, "		var opt index.SearchOptions\n", "		opt := parseOptions(r, defaultMaxResults)\n"), (A, RNG + FILES + EXCL + IC + LIT + MAXR + CTX, ""), (A, "func Setup(", "func parseOptions(r *http.Request, defaultMaxResults int) index.SearchOptions {\n	var opt index.SearchOptions\n" + RNG + FILES + EXCL + IC + LIT + MAXR + CTX + "	return opt\n}\n\nfunc Setup(")]),
 ("c31-r-vars", S, "silent", [(A, FILES + EXCL, '		files, excl := r.FormValue("files"), r.FormValue("excludeFiles")\n		opt.FileRegexp = files\n		opt.ExcludeFileRegexp = excl\n')]),
 ("c31-r-bool-expanded", S, "silent", [(A, '	v = strings.ToLower(v)\n	return v == "true" || v == "1" || v == "fosho"\n', '	switch strings.ToLower(v) {\n	case "true", "1", "fosho":\n		return true\n	}\n	return false\n')]),
 ("c31-r-clamp", S, "silent", [(A, '''	if max != 0 && uint(iv) > max {
		return max
	}
	if min != 0 && uint(iv) < min {
		return min
	}
	return uint(iv)
''', '''	u := uint(iv)
	switch {
	case max != 0 && u > max:
		u = max
	case min != 0 && u < min:
		u = min
	}
	return u
''')]),
 ("c31-r-spawn-closure", S, "silent", [(A, SPAWN, '''		repo := repo
		go func() {
			res, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo: repo, res: res, err: err}
		}()
''')]),
 ("c31-r-spawn-helper", S, "silent", [(A, SPAWN, "		go searchOne(repo, idx[repo], query, opts, ch)\n"), (A, "/**\n * Searches all", '''func searchOne(name string, s *searcher.Searcher, query string, opts *index.SearchOptions, ch chan<- *searchResponse) {
	res, err := s.Search(query, opts)
	ch <- &searchResponse{repo: name, res: res, err: err}
}

/**
 * Searches all''')]),
 ("c31-r-recv-range", S, "silent", [(A, "	for i := 0; i < n; i++ {\n		r := <-ch", "	for range repos {\n		r := <-ch")]),
 ("c31-r-recv-flip", S, "silent", [(A, RECV + "		*filesOpened += r.res.FilesOpened\n", '''		r := <-ch
		if r.err != nil {
			return nil, r.err
		}
		if r.res.Matches != nil {
			res[r.repo] = r.res
			*filesOpened += r.res.FilesOpened
		}
''')]),
 ("c31-r-recv-vars", S, "silent", [(A, RECV, '''		r := <-ch
		name, found, err := r.repo, r.res, r.err
		if err != nil {
			return nil, err
		}

		if len(found.Matches) == 0 {
			continue
		}

		res[name] = found
''')]),
 ("c31-r-list-flip", S, "silent", [(A, LIST, '''	for _, repo := range strings.Split(v, ",") {
		if _, ok := idx[repo]; ok {
			repos = append(repos, repo)
		}
	}
	return repos
''')]),
 ("c31-r-list-names", S, "silent", [(A, LIST, '''	names := strings.Split(v, ",")
	for i := range names {
		name := names[i]
		if idx[name] != nil {
			repos = append(repos, name)
		}
	}
	return repos
''')]),
 ("c31-r-list-all-helper", S, "silent", [(A, '''		for repo := range idx {
			repos = append(repos, repo)
		}
		return repos
''', "		return allNames(idx)\n"), (A, "func parseAsRepoList(", '''func allNames(idx map[string]*searcher.Searcher) []string {
	names := make([]string, 0, len(idx))
	for name := range idx {
		names = append(names, name)
	}
	return names
}

func parseAsRepoList(''')]),
 ("c31-r-sequential", S, "silent", [(A, SPAWN, '''		fms, err := idx[repo].Search(query, opts)
		ch <- &searchResponse{repo, fms, err}
''')]),
]
