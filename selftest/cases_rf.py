S="searcher/searcher.go";I="index/index.go";A="api/api.go";M="cmds/houndd/main.go";W="web/web.go";C="config/config.go";L="client/client.go";V="vcs/vcs.go";G="vcs/git.go";H="vcs/hg.go";N="vcs/svn.go";U="ui/ui.go";GR="index/grep.go";WR="codesearch/index/write.go";RD="codesearch/index/read.go"
def K(n,*e): return ("rf-"+n,"C01","silent",list(e))
CASES=[
# searcher
K("claim-index-loop",(S,"	for _, ref := range r.refs {\n		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {\n			r.claimed[ref] = true\n			return ref\n		}\n	}\n	return nil","	for i := 0; i < len(r.refs); i++ {\n		ref := r.refs[i]\n		if ref.Url != url || ref.Rev != rev || !ref.BuiltWith(opt) {\n			continue\n		}\n		if r.claimed[ref] {\n			continue\n		}\n		r.claimed[ref] = true\n		return ref\n	}\n	return nil")),
K("claim-available-helper",(S,"		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {\n			r.claimed[ref] = true\n			return ref\n		}\n	}\n	return nil\n}","		if r.available(ref, url, rev, opt) {\n			r.claimed[ref] = true\n			return ref\n		}\n	}\n	return nil\n}\n\n// callers hold the lock.\nfunc (r *foundRefs) available(ref *index.IndexRef, url, rev string, opt *index.IndexOptions) bool {\n	return ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref]\n}")),
K("unclaimed-collect",(S,"	for _, ref := range r.refs {\n		if r.claimed[ref] {\n			continue\n		}\n\n		if err := ref.Remove(); err != nil {\n			return err\n		}\n	}\n	return nil","	for _, ref := range r.refs {\n		if !r.claimed[ref] {\n			if err := ref.Remove(); err != nil {\n				return err\n			}\n		}\n	}\n	return nil")),
K("swap-named",(S,"	oldIdx := s.idx\n	s.idx = idx\n\n	return oldIdx.Destroy()","	var oldIdx *index.Index\n	oldIdx, s.idx = s.idx, idx\n	err := oldIdx.Destroy()\n	return err")),
K("search-vars",(S,"	return s.idx.Search(pat, opt)","	current := s.idx\n	res, err := current.Search(pat, opt)\n	return res, err")),
K("excl-early",(S,"	if err != nil {\n		log.Printf(\"Couldn't read excluded_files.json %v\\n\", err)\n	}\n	return string(dat)","	if err != nil {\n		log.Printf(\"Couldn't read excluded_files.json %v\\n\", err)\n		return \"\"\n	}\n	return string(dat)")),
K("excl-path-helper",(S,"	path := filepath.Join(s.idx.GetDir(), \"excluded_files.json\")\n	dat, err := ioutil.ReadFile(path)","	dat, err := ioutil.ReadFile(excludedFilesPath(s.idx))"),(S,"// Triggers an immediate poll","func excludedFilesPath(idx *index.Index) string {\n	return filepath.Join(idx.GetDir(), \"excluded_files.json\")\n}\n\n// Triggers an immediate poll")),
K("update-helper",(S,"	// schedule an update if one is not already scheduled\n	select {\n	case s.updateCh <- time.Now():\n	default:\n		// don't wait to enqueue another update\n	}\n\n	return true\n}","	s.scheduleUpdate()\n\n	return true\n}\n\nfunc (s *Searcher) scheduleUpdate() {\n	now := time.Now()\n	select {\n	case s.updateCh <- now:\n	default:\n	}\n}")),
K("update-enabled-first",(S,"	if !s.Repo.PushUpdatesEnabled() {\n		return false\n	}\n","	enabled := s.Repo.PushUpdatesEnabled()\n	if !enabled {\n		return enabled\n	}\n")),
K("wait-order",(S,"	case <-s.updateCh:\n	case <-tch:\n	case <-s.shutdownCh:\n		return false\n	}\n	return true","	case <-s.shutdownCh:\n		return false\n	case <-tch:\n		return true\n	case <-s.updateCh:\n		return true\n	}")),
K("wait-timer",(S,"	var tch <-chan time.Time\n	if delay.Nanoseconds() > 0 {\n		tch = time.After(delay)\n	}\n","	var tch <-chan time.Time\n	if delay > 0 {\n		timer := time.NewTimer(delay)\n		defer timer.Stop()\n		tch = timer.C\n	}\n")),
K("nextdir-format",(S,'	return filepath.Join(dbpath, fmt.Sprintf("idx-%08x", r))','	name := fmt.Sprintf("%s%08x", "idx-", r)\n	return filepath.Join(dbpath, name)')),
K("found-loop",(S,"	var refs []*index.IndexRef\n	for _, dir := range dirs {\n		r, _ := index.Read(dir)\n		refs = append(refs, r)\n	}\n","	refs := make([]*index.IndexRef, 0, len(dirs))\n	for i := range dirs {\n		ref, _ := index.Read(dirs[i])\n		refs = append(refs, ref)\n	}\n")),
K("build-exists-helper",(S,"	if _, err := os.Stat(idxDir); err != nil {\n		r, err := index.Build","	if !pathExists(idxDir) {\n		r, err := index.Build"),(S,"// Simply prints out","func pathExists(p string) bool {\n	_, err := os.Stat(p)\n	return err == nil\n}\n\n// Simply prints out")),
K("build-invert",(S,"	if _, err := os.Stat(idxDir); err != nil {\n		r, err := index.Build(opt, idxDir, vcsDir, url, rev)\n		if err != nil {\n			os.RemoveAll(idxDir) //nolint\n			return nil, err\n		}\n\n		idx, err := r.Open()\n		if err != nil {\n			os.RemoveAll(idxDir) //nolint\n		}\n		return idx, err\n	}\n\n	return index.Open(idxDir)","	if _, err := os.Stat(idxDir); err == nil {\n		return index.Open(idxDir)\n	}\n\n	ref, err := index.Build(opt, idxDir, vcsDir, url, rev)\n	if err != nil {\n		os.RemoveAll(idxDir) //nolint\n		return nil, err\n	}\n\n	idx, err := ref.Open()\n	if err != nil {\n		os.RemoveAll(idxDir) //nolint\n		return nil, err\n	}\n	return idx, nil")),
K("build-cleanup-helper",(S,"		if err != nil {\n			os.RemoveAll(idxDir) //nolint\n			return nil, err\n		}\n\n		idx, err := r.Open()\n		if err != nil {\n			os.RemoveAll(idxDir) //nolint\n		}","		if err != nil {\n			discard(idxDir)\n			return nil, err\n		}\n\n		idx, err := r.Open()\n		if err != nil {\n			discard(idxDir)\n		}"),(S,"// Simply prints out","func discard(dir string) {\n	if err := os.RemoveAll(dir); err != nil {\n		log.Printf(\"cannot remove %s: %s\", dir, err)\n	}\n}\n\n// Simply prints out")),
K("makeall-range-int",(S,"	for i := 0; i < n; i++ {\n		r := <-resultCh\n		if r.err != nil {\n			log.Print(r.err)\n			errs[r.name] = r.err\n			continue\n		}\n		searchers[r.name] = r.searcher\n	}","	for range cfg.Repos {\n		r := <-resultCh\n		if r.err == nil {\n			searchers[r.name] = r.searcher\n		} else {\n			log.Print(r.err)\n			errs[r.name] = r.err\n		}\n	}")),
K("makeall-collect-helper",(S,"	for i := 0; i < n; i++ {\n		r := <-resultCh\n		if r.err != nil {\n			log.Print(r.err)\n			errs[r.name] = r.err\n			continue\n		}\n		searchers[r.name] = r.searcher\n	}","	collect(resultCh, n, searchers, errs)"),(S,"// Make a searcher for each","func collect(ch <-chan searcherResult, n int, searchers map[string]*Searcher, errs map[string]error) {\n	for ; n > 0; n-- {\n		r := <-ch\n		if r.err != nil {\n			log.Print(r.err)\n			errs[r.name] = r.err\n			continue\n		}\n		searchers[r.name] = r.searcher\n	}\n}\n\n// Make a searcher for each")),
K("concurrent-result-var",(S,"	s, err := newSearcher(dbpath, name, repo, refs, lim)\n	if err != nil {\n		resultCh <- searcherResult{\n			name: name,\n			err:  err,\n		}\n		return\n	}\n\n	resultCh <- searcherResult{\n		name:     name,\n		searcher: s,\n	}","	res := searcherResult{name: name}\n	res.searcher, res.err = newSearcher(dbpath, name, repo, refs, lim)\n	resultCh <- res")),
K("concurrent-both",(S,"	if err != nil {\n		resultCh <- searcherResult{\n			name: name,\n			err:  err,\n		}\n		return\n	}\n\n	resultCh <- searcherResult{\n		name:     name,\n		searcher: s,\n	}","	resultCh <- searcherResult{\n		name:     name,\n		searcher: s,\n		err:      err,\n	}")),
K("poller-method",(S,"	go func() {\n\n		// each searcher's poller","	poll := func() {\n\n		// each searcher's poller"),(S,"			reportOnMemory()\n		}\n	}()\n","			reportOnMemory()\n		}\n	}\n	go poll()\n")),
K("poller-defer-done",(S,"		// if all forms of updating are turned off, we're done here.\n		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {\n			s.completeShutdown()\n			return\n		}\n","		defer s.completeShutdown()\n\n		// if all forms of updating are turned off, we're done here.\n		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {\n			return\n		}\n"),(S,"			if !s.waitForUpdate(delay) {\n				s.completeShutdown()\n				return\n			}","			if !s.waitForUpdate(delay) {\n				return\n			}")),
K("poller-for-cond",(S,"		for {\n			// Wait for a signal to proceed\n			if !s.waitForUpdate(delay) {\n				s.completeShutdown()\n				return\n			}\n","		for s.waitForUpdate(delay) {\n"),(S,"			reportOnMemory()\n		}\n	}()\n","			reportOnMemory()\n		}\n		s.completeShutdown()\n	}()\n")),
K("idxdir-helper",(S,"	var idxDir string\n	ref := refs.claim(repo.Url, rev, opt)\n	if ref == nil {\n		idxDir = nextIndexDir(dbpath)\n	} else {\n		idxDir = ref.Dir()\n	}\n","	idxDir := indexDirFor(dbpath, refs.claim(repo.Url, rev, opt))\n"),(S,"// Simply prints out","func indexDirFor(dbpath string, ref *index.IndexRef) string {\n	if ref != nil {\n		return ref.Dir()\n	}\n	return nextIndexDir(dbpath)\n}\n\n// Simply prints out")),
K("auto-helper",(S,"	var autoFiles []string\n	if len(repo.AutoGeneratedFiles) > 0 {\n		autoFiles = repo.AutoGeneratedFiles\n	} else {\n		autoFiles = wd.AutoGeneratedFiles(vcsDir)\n	}\n","	autoFiles := repo.AutoGeneratedFiles\n	if len(autoFiles) == 0 {\n		autoFiles = wd.AutoGeneratedFiles(vcsDir)\n	}\n")),
# index
K("search-options-split",(I,"	files := n.idx.PostingQuery(index.RegexpQuery(re.Syntax))\n	for _, file := range files {","	query := index.RegexpQuery(re.Syntax)\n	files := n.idx.PostingQuery(query)\n	for i := 0; i < len(files); i++ {\n		file := files[i]")),
K("search-compile-helper",(I,"	var fre *regexp.Regexp\n	if opt.FileRegexp != \"\" {\n		fre, err = regexp.Compile(opt.FileRegexp)\n		if err != nil {\n			return nil, err\n		}\n	}\n\n	var excludeFre *regexp.Regexp\n	if opt.ExcludeFileRegexp != \"\" {\n		excludeFre, err = regexp.Compile(opt.ExcludeFileRegexp)\n		if err != nil {\n			return nil, err\n		}\n	}\n","	fre, err := compileOptional(opt.FileRegexp)\n	if err != nil {\n		return nil, err\n	}\n\n	excludeFre, err := compileOptional(opt.ExcludeFileRegexp)\n	if err != nil {\n		return nil, err\n	}\n"),(I,"func isTextFile(","func compileOptional(pat string) (*regexp.Regexp, error) {\n	if pat == \"\" {\n		return nil, nil\n	}\n	return regexp.Compile(pat)\n}\n\nfunc isTextFile(")),
K("search-reject-helper",(I,"		// reject files that do not match the file pattern\n		if fre != nil && fre.MatchString(name, true, true) < 0 {\n			continue\n		}\n\n		// reject files that match the exclude file pattern\n		if excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0 {\n			continue\n		}\n","		if rejected(name, fre, excludeFre) {\n			continue\n		}\n"),(I,"func isTextFile(","func rejected(name string, fre, excludeFre *regexp.Regexp) bool {\n	if fre != nil && fre.MatchString(name, true, true) < 0 {\n		return true\n	}\n	return excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0\n}\n\nfunc isTextFile(")),
K("search-break-limit",(I,"		if opt.MaxResults > 0 && matchesCollected >= opt.MaxResults {\n			continue\n		}\n\n		filesOpened++","		limited := opt.MaxResults > 0\n		if limited && matchesCollected >= opt.MaxResults {\n			continue\n		}\n\n		filesOpened++")),
K("search-hasmatch-nest",(I,"		if !hasMatch {\n			continue\n		}\n\n		filesFound++\n		if len(matches) > 0 {\n			filesCollected++\n\n			results = append(results, &FileMatch{\n				Filename:      name,\n				Matches:       matches,\n				AutoGenerated: containsString(n.Ref.AutoGeneratedFiles, name),\n			})\n		}","		if hasMatch {\n			filesFound++\n			if len(matches) > 0 {\n				filesCollected++\n				fm := &FileMatch{Filename: name, Matches: matches}\n				fm.AutoGenerated = containsString(n.Ref.AutoGeneratedFiles, name)\n				results = append(results, fm)\n			}\n		}")),
K("search-cb-var",(I,"		if err := g.grep2File(filepath.Join(n.Ref.dir, \"raw\", name), re, int(opt.LinesOfContext),\n			func(line []byte","		raw := filepath.Join(n.Ref.dir, \"raw\", name)\n		ctx := int(opt.LinesOfContext)\n		if err := g.grep2File(raw, re, ctx,\n			func(line []byte")),
K("search-res-var",(I,"	return &SearchResponse{\n		Matches:        results,","	duration := time.Since(startedAt)\n	return &SearchResponse{\n		Matches:        results,"),(I,"time.Now().Sub(startedAt), //nolint","duration,")),
K("istext-split",(I,"	buf = buf[:n]\n\n	if n < filePeekSize {","	short := n < filePeekSize\n	buf = buf[:n]\n\n	if short {")),
K("addfile-close-order",(I,"	if err := g.Close(); err != nil {\n		return \"\", err\n	}\n\n	return reason, w.Close()","	if err := g.Close(); err != nil {\n		return \"\", err\n	}\n\n	if err := w.Close(); err != nil {\n		return \"\", err\n	}\n	return reason, nil")),
K("rawpath-helper",(I,"	dup := filepath.Join(dst, \"raw\", rel)\n	w, err := os.Create(dup)","	w, err := os.Create(rawPath(dst, rel))"),(I,"	dup := filepath.Join(dst, \"raw\", rel)\n	return os.Mkdir(dup, os.ModePerm)","	return os.Mkdir(rawPath(dst, rel), os.ModePerm)"),(I,"func addDirToIndex","func rawPath(dst, rel string) string {\n	return filepath.Join(dst, \"raw\", rel)\n}\n\nfunc addDirToIndex")),
K("walk-exclude-helper",(I,"			excluded = append(excluded, &ExcludedFile{\n				rel,\n				reasonInvalidMode,\n			})\n			return nil","			exclude(rel, reasonInvalidMode)\n			return nil"),(I,"			excluded = append(excluded, &ExcludedFile{\n				rel,\n				reasonNotText,\n			})\n			return nil","			exclude(rel, reasonNotText)\n			return nil"),(I,"	excluded := []*ExcludedFile{}\n","	excluded := []*ExcludedFile{}\n	exclude := func(name, reason string) {\n		excluded = append(excluded, &ExcludedFile{name, reason})\n	}\n")),
K("walk-named-fn",(I,"	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint","	visit := func(path string, info os.FileInfo, err error) error { //nolint"),(I,"			excluded = append(excluded, &ExcludedFile{rel, reasonForExclusion})\n		}\n\n		return nil\n	}); err != nil {\n		return err\n	}","			excluded = append(excluded, &ExcludedFile{rel, reasonForExclusion})\n		}\n\n		return nil\n	}\n	if err := filepath.Walk(src, visit); err != nil {\n		return err\n	}")),
K("walk-switch",(I,"		if reasonForExclusion != \"\" {\n			excluded","		if len(reasonForExclusion) > 0 {\n			excluded")),
K("walk-regular",(I,"info.Mode()&os.ModeType != 0","!info.Mode().IsRegular()")),
K("walk-special-skip",(I,"			if info.IsDir() {\n				return filepath.SkipDir\n			}\n			return nil\n		}\n\n		if opt.ExcludeDotFiles","			return skip(info)\n		}\n\n		if opt.ExcludeDotFiles"),(I,"func isTextFile(","func skip(info os.FileInfo) error {\n	if info.IsDir() {\n		return filepath.SkipDir\n	}\n	return nil\n}\n\nfunc isTextFile(")),
K("build-manifest-helper",(I,"	r := &IndexRef{\n		Url:                url,\n		Rev:                rev,\n		Time:               time.Now(),\n		dir:                dst,\n		ExcludeDotFiles:    opt.ExcludeDotFiles,\n		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n\n	if err := r.writeManifest(); err != nil {\n		return nil, err\n	}\n\n	return r, nil","	return finish(&IndexRef{\n		Url:                url,\n		Rev:                rev,\n		Time:               time.Now(),\n		dir:                dst,\n		ExcludeDotFiles:    opt.ExcludeDotFiles,\n		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	})"),(I,"func Build(","func finish(r *IndexRef) (*IndexRef, error) {\n	if err := r.writeManifest(); err != nil {\n		return nil, err\n	}\n	return r, nil\n}\n\nfunc Build(")),
K("contains-range",(I,"	for i, n := 0, len(haystack); i < n; i++ {\n		if haystack[i] == needle {\n			return true\n		}\n	}\n	return false","	for _, s := range haystack {\n		if s == needle {\n			return true\n		}\n	}\n	return false")),
K("destroy-helper",(I,"	if err := n.idx.Close(); err != nil {\n		return err\n	}\n	return n.Ref.Remove()","	err := n.idx.Close()\n	if err == nil {\n		err = n.Ref.Remove()\n	}\n	return err")),
K("grep-open-helper",(GR,"	r, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n	defer r.Close()\n\n	c, err := gzip.NewReader(r)\n	if err != nil {\n		return err\n	}\n	defer c.Close()\n\n	return g.grep2(c, re, nctx, fn)","	return withRaw(filename, func(r io.Reader) error {\n		return g.grep2(r, re, nctx, fn)\n	})"),(GR,"func lastNLines(","func withRaw(filename string, fn func(r io.Reader) error) error {\n	r, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n	defer r.Close()\n\n	c, err := gzip.NewReader(r)\n	if err != nil {\n		return err\n	}\n	defer c.Close()\n\n	return fn(c)\n}\n\nfunc lastNLines(")),
K("grep-while",(GR,"	for {\n		if len(buf) == 0 {\n			return nil\n		}\n\n		m := re.Match","	for len(buf) > 0 {\n		m := re.Match"),(GR,"		lineno++\n		buf = buf[end:]\n	}\n}","		lineno++\n		buf = buf[end:]\n	}\n	return nil\n}")),
K("count-bytes",(GR,"	n := 0\n	for {\n		i := bytes.IndexByte(b, '\\n')\n		if i < 0 {\n			break\n		}\n		n++\n		b = b[i+1:]\n	}\n	return n","	return bytes.Count(b, nl)")),
# api
K("api-known-helper",(A,"		searcher := idx[repo]\n		if searcher == nil {\n			writeError(w,\n				fmt.Errorf(\"No such repository: %s\", repo),\n				http.StatusNotFound)\n			return\n		}\n\n		res := searcher","		searcher, ok := find(w, idx, repo)\n		if !ok {\n			return\n		}\n\n		res := searcher"),(A,"// Used for parsing flags","func find(w http.ResponseWriter, idx map[string]*searcher.Searcher, repo string) (*searcher.Searcher, bool) {\n	s := idx[repo]\n	if s == nil {\n		writeError(w,\n			fmt.Errorf(\"No such repository: %s\", repo),\n			http.StatusNotFound)\n		return nil, false\n	}\n	return s, true\n}\n\n// Used for parsing flags")),
K("api-post-helper",(A,"		if r.Method != \"POST\" {\n			writeError(w,\n				errors.New(http.StatusText(http.StatusMethodNotAllowed)),\n				http.StatusMethodNotAllowed)\n			return\n		}\n\n		repos :=","		if !isPost(w, r) {\n			return\n		}\n\n		repos :="),(A,"// Used for parsing flags","func isPost(w http.ResponseWriter, r *http.Request) bool {\n	if r.Method == http.MethodPost {\n		return true\n	}\n	writeError(w,\n		errors.New(http.StatusText(http.StatusMethodNotAllowed)),\n		http.StatusMethodNotAllowed)\n	return false\n}\n\n// Used for parsing flags")),
K("api-opts-helper",(A,"		var opt index.SearchOptions\n\n		stats := parseAsBool(r.FormValue(\"stats\"))\n","		stats := parseAsBool(r.FormValue(\"stats\"))\n"),(A,"		opt.Offset, opt.Limit = parseRangeValue(r.FormValue(\"rng\"))\n		opt.FileRegexp = r.FormValue(\"files\")\n		opt.ExcludeFileRegexp = r.FormValue(\"excludeFiles\")\n		opt.IgnoreCase = parseAsBool(r.FormValue(\"i\"))\n		opt.LiteralSearch = parseAsBool(r.FormValue(\"literal\"))\n		opt.MaxResults = parseAsIntValue(\n			r.FormValue(\"limit\"),\n			-1,\n			maxLimit,\n			defaultMaxResults)\n		opt.LinesOfContext = parseAsUintValue(\n			r.FormValue(\"ctx\"),\n			0,\n			maxLinesOfContext,\n			defaultLinesOfContext)\n","		opt := parseOptions(r, defaultMaxResults)\n"),(A,"func Setup(","func parseOptions(r *http.Request, defaultMaxResults int) index.SearchOptions {\n	var opt index.SearchOptions\n	opt.Offset, opt.Limit = parseRangeValue(r.FormValue(\"rng\"))\n	opt.FileRegexp = r.FormValue(\"files\")\n	opt.ExcludeFileRegexp = r.FormValue(\"excludeFiles\")\n	opt.IgnoreCase = parseAsBool(r.FormValue(\"i\"))\n	opt.LiteralSearch = parseAsBool(r.FormValue(\"literal\"))\n	opt.MaxResults = parseAsIntValue(\n		r.FormValue(\"limit\"),\n		-1,\n		maxLimit,\n		defaultMaxResults)\n	opt.LinesOfContext = parseAsUintValue(\n		r.FormValue(\"ctx\"),\n		0,\n		maxLinesOfContext,\n		defaultLinesOfContext)\n	return opt\n}\n\nfunc Setup(")),
K("api-bool-switch",(A,"	v = strings.ToLower(v)\n	return v == \"true\" || v == \"1\" || v == \"fosho\"","	switch strings.ToLower(v) {\n	case \"true\", \"1\", \"fosho\":\n		return true\n	}\n	return false")),
K("api-list-if",(A,"		if idx[repo] == nil {\n			continue\n		}\n		repos = append(repos, repo)","		if _, ok := idx[repo]; ok {\n			repos = append(repos, repo)\n		}")),
K("api-handlers-named",(A,'	m.HandleFunc("/api/v1/repos", func(w http.ResponseWriter, r *http.Request) {\n		res := map[string]*config.Repo{}\n		for name, srch := range idx {\n			res[name] = srch.Repo\n		}\n\n		writeResp(w, res)\n	})','	m.HandleFunc("/api/v1/repos", serveRepos(idx))'),(A,"func Setup(","func serveRepos(idx map[string]*searcher.Searcher) http.HandlerFunc {\n	return func(w http.ResponseWriter, r *http.Request) {\n		res := make(map[string]*config.Repo, len(idx))\n		for name, srch := range idx {\n			res[name] = srch.Repo\n		}\n\n		writeResp(w, res)\n	}\n}\n\nfunc Setup(")),
K("api-json-headers",(A,"	w.Header().Set(\"Content-Type\", \"application/json;charset=utf-8\")\n	w.Header().Set(\"Access-Control-Allow-Origin\", \"*\")\n	w.WriteHeader(status)","	jsonHeaders(w)\n	w.WriteHeader(status)"),(A,'		w.Header().Set("Content-Type", "application/json;charset=utf-8")\n		w.Header().Set("Access-Control-Allow-Origin", "*")\n		fmt.Fprint(w, res)','		jsonHeaders(w)\n		fmt.Fprint(w, res)'),(A,"func writeJson(","func jsonHeaders(w http.ResponseWriter) {\n	h := w.Header()\n	h.Set(\"Content-Type\", \"application/json;charset=utf-8\")\n	h.Set(\"Access-Control-Allow-Origin\", \"*\")\n}\n\nfunc writeJson(")),
K("api-collect-range",(A,"	for i := 0; i < n; i++ {\n		r := <-ch\n		if r.err != nil {","	for range repos {\n		r := <-ch\n		if r.err != nil {")),
K("api-searchone",(A,"		go func(repo string) {\n			fms, err := idx[repo].Search(query, opts)\n			ch <- &searchResponse{repo, fms, err}\n		}(repo)","		go searchOne(idx[repo], repo, query, opts, ch)"),(A,"// Used for parsing flags","func searchOne(s *searcher.Searcher, repo, query string, opts *index.SearchOptions, ch chan<- *searchResponse) {\n	fms, err := s.Search(query, opts)\n	ch <- &searchResponse{repo: repo, res: fms, err: err}\n}\n\n// Used for parsing flags")),
K("api-webhook-repo",(A,"		searcher := idx[h.Repository.Full_name]\n","		searcher := idx[repo]\n")),
]
