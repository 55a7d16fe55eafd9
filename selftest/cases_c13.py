A = "api/api.go"
S = "searcher/searcher.go"
PARSE = '''	for _, repo := range strings.Split(v, ",") {
		if idx[repo] == nil {
			continue
		}
		repos = append(repos, repo)
	}
	return repos
'''
GO = '''		go func(repo string) {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
'''
EXC = '''		searcher := idx[repo]
		if searcher == nil {
			writeError(w,
				fmt.Errorf("No such repository: %s", repo),
				http.StatusNotFound)
			return
		}

		res :='''
CASES = [
 ("c13-parse-nocheck", "C13", "fire", [(A, PARSE, PARSE.replace("		if idx[repo] == nil {\n			continue\n		}\n", ""))]),
 ("c13-parse-trim", "C13", "fire", [(A, PARSE, PARSE.replace("repos = append(repos, repo)", "repos = append(repos, strings.TrimSpace(repo))"))]),
 ("c13-parse-check-trim", "C13", "fire", [(A, PARSE, PARSE.replace("idx[repo] == nil", "idx[strings.TrimSpace(repo)] == nil"))]),
 ("c13-parse-inverted", "C13", "fire", [(A, PARSE, PARSE.replace("idx[repo] == nil", 'repo == ""'))]),
 ("c13-parse-star", "C13", "fire", [(A, PARSE, '	if strings.HasPrefix(v, "*,") {\n		return append(strings.Split(v[2:], ","), repos...)\n	}\n' + PARSE)]),
 ("c13-excl-nocheck", "C13", "fire", [(A, EXC, '		searcher := idx[repo]\n		if repo == "" {\n			writeError(w, fmt.Errorf("No such repository: %s", repo), http.StatusNotFound)\n			return\n		}\n\n		res :=')]),
 ("c13-excl-noreturn", "C13", "fire", [(A, EXC, EXC.replace("			return\n", ""))]),
 ("c13-excl-status", "C13", "fire", [(A, EXC, EXC.replace("http.StatusNotFound", "http.StatusOK"))]),
 ("c13-hook", "C13", "fire", [(A, "		searcher := idx[h.Repository.Full_name]\n\n		if searcher == nil {", "		searcher := idx[h.Repository.Full_name]\n\n		if repo == \"\" {")]),
 ("c13-hook-other", "C13", "fire", [(A, "		searcher := idx[h.Repository.Full_name]\n", "		searcher := idx[h.Repository.Full_name]\n		if searcher != nil {\n			searcher = idx[h.Repository.Name]\n		} else {\n			searcher = &struct{ s *searcher_ }{}.s.Searcher\n		}\n".replace("		} else {\n			searcher = &struct{ s *searcher_ }{}.s.Searcher\n", "")), (A, "		if searcher == nil {\n			writeError(w,\n				fmt.Errorf(\"No such repository: %s\", repo),\n				http.StatusNotFound)\n			return\n		}\n\n		if !searcher.Update() {\n			writeError(w,\n				fmt.Errorf(\"Push updates are not enabled for repository %s\", repo),\n				http.StatusForbidden)\n			return\n		}\n\n		writeResp", "		if idx[repo] == nil {\n			writeError(w,\n				fmt.Errorf(\"No such repository: %s\", repo),\n				http.StatusNotFound)\n			return\n		}\n\n		if !searcher.Update() {\n			writeError(w,\n				fmt.Errorf(\"Push updates are not enabled for repository %s\", repo),\n				http.StatusForbidden)\n			return\n		}\n\n		writeResp")]),
 ("c13-table-nil", "C13", "fire", [(S, "			errs[r.name] = r.err\n			continue\n", "			errs[r.name] = r.err\n")]),
 ("c13-result-nil", "C13", "fire", [(S, '''	wd, err := vcs.New(repo.Vcs, repo.VcsConfig())
	if err != nil {
		return nil, err
	}
''', '''	wd, err := vcs.New(repo.Vcs, repo.VcsConfig())
	if err != nil {
		log.Print(err)
		return nil, nil
	}
''')]),
 ("c13-helper", "C13", "silent", [(A, PARSE, '''	known := func(repo string) bool { return idx[repo] != nil }
	for _, repo := range strings.Split(v, ",") {
		if known(repo) {
			repos = append(repos, repo)
		}
	}
	return repos
''')]),
 ("c13-commaok", "C13", "silent", [(A, PARSE, PARSE.replace("if idx[repo] == nil {", "if _, ok := idx[repo]; !ok {"))]),
 ("c13-make", "C13", "silent", [(A, "	var repos []string\n	if v == \"*\" {", "	repos := make([]string, 0, len(idx))\n	if v == \"*\" {")]),
 ("c13-index-loop", "C13", "silent", [(A, PARSE, '''	names := strings.Split(v, ",")
	for i := 0; i < len(names); i++ {
		if idx[names[i]] != nil {
			repos = append(repos, names[i])
		}
	}
	return repos
''')]),
 ("c13-lookup-helper", "C13", "silent", [(A, EXC, '''		searcher := find(w, idx, repo)
		if searcher == nil {
			return
		}

		res :='''), (A, "func Setup(", '''func find(w http.ResponseWriter, idx map[string]*searcher.Searcher, repo string) *searcher.Searcher {
	s, ok := idx[repo]
	if !ok {
		writeError(w, fmt.Errorf("No such repository: %s", repo), http.StatusNotFound)
		return nil
	}
	return s
}

func Setup(''')]),
 ("c13-go-lookup", "C13", "silent", [(A, GO, '''		s := idx[repo]
		go func(repo string) {
			fms, err := s.Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
''')]),
 ("c13-range-values", "C13", "silent", [(A, "		for repo := range idx {\n			repos = append(repos, repo)\n		}\n		return repos\n", "		for name, s := range idx {\n			if s != nil {\n				repos = append(repos, name)\n			}\n		}\n		return repos\n")]),
 ("c13-mux-helper", "C13", "silent", [(A, '	m.HandleFunc("/api/v1/excludes", func(', '	handle := func(p string, f http.HandlerFunc) { m.Handle(p, f) }\n	handle("/api/v1/excludes", func(')]),
 ("c13-errs-else", "C13", "silent", [(S, "			errs[r.name] = r.err\n			continue\n		}\n		searchers[r.name] = r.searcher\n", "			errs[r.name] = r.err\n		} else {\n			searchers[r.name] = r.searcher\n		}\n")]),
]
