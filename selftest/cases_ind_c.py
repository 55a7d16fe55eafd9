# an independent round of defects, written from the statements and the code alone
S="searcher/searcher.go";I="index/index.go";M="cmds/houndd/main.go";C="config/config.go";L="client/client.go";G="vcs/git.go";GR="index/grep.go";A="api/api.go";W="web/web.go"
def F(p,n,*e): return ("k-"+n,p,"fire",list(e))
def K(p,n,*e): return ("k-"+n,p,"silent",list(e))
SWAP="	if err := s.swapIndexes(idx); err != nil {\n		log.Printf(\"failed to destroy old index (%s): %s\", name, err)\n	}\n"
PERM="	// acquire a token from the rate limiter\n	lim.Acquire()\n	defer lim.Release()\n\n	// the files must not change until the index has been built\n	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo"
LIM="func makeLimiter(n int) limiter {\n	return limiter(make(chan bool, n))\n}"
MODE="		if info.Mode()&os.ModeType != 0 {"
DESTROY="	n.lck.Lock()\n	defer n.lck.Unlock()\n	if err := n.idx.Close(); err != nil {\n		return err\n	}\n	return n.Ref.Remove()"
BUILD="	if err := indexAllFiles(opt, dst, src); err != nil {\n		return nil, err\n	}\n\n	r := &IndexRef{"
MANI="	if err := r.writeManifest(); err != nil {\n		return nil, err\n	}\n\n	return r, nil"
BAO="		r, err := index.Build(opt, idxDir, vcsDir, url, rev)\n		if err != nil {\n			os.RemoveAll(idxDir) //nolint\n			return nil, err\n		}\n"
CASES=[
# C02
F("C02","swap-same-rev",(S,"	oldIdx := s.idx\n","	oldIdx := s.idx\n	if oldIdx.Ref.Rev == idx.Ref.Rev {\n		return nil\n	}\n")),
F("C02","swap-same-dir",(S,"	oldIdx := s.idx\n	s.idx = idx\n\n	return oldIdx.Destroy()","	oldIdx := s.idx\n	s.idx = idx\n\n	return os.RemoveAll(oldIdx.GetDir())")),
F("C02","swap-close-only",(S,"	return oldIdx.Destroy()","	if err := oldIdx.Close(); err != nil {\n		return err\n	}\n	return idx.Ref.Remove()")),
F("C02","swap-error-destroys-new",(S,SWAP,"	if err := s.swapIndexes(idx); err != nil {\n		log.Printf(\"failed to destroy old index (%s): %s\", name, err)\n		idx.Destroy() //nolint\n	}\n")),
F("C02","swap-error-back",(S,"	return oldIdx.Destroy()","	if err := oldIdx.Destroy(); err != nil {\n		s.idx = oldIdx\n		return err\n	}\n	return nil")),
F("C02","destroy-before-build",(S,"	log.Printf(\"Rebuilding %s for %s\", name, newRev)\n","	log.Printf(\"Rebuilding %s for %s\", name, newRev)\n	if err := s.idx.Ref.Remove(); err != nil {\n		log.Print(err)\n	}\n")),
F("C02","destroy-keeps-dir",(I,DESTROY,DESTROY.replace("	return n.Ref.Remove()","	return os.Remove(filepath.Join(n.Ref.dir, manifestFilename))"))),
F("C02","swap-in-goroutine",(S,SWAP,"	go func() {\n		if err := s.swapIndexes(idx); err != nil {\n			log.Printf(\"failed to destroy old index (%s): %s\", name, err)\n		}\n	}()\n")),
F("C08","rev-kept-after-swap",(S,"	return newRev, true\n","	return rev, true\n")),
F("C08","rev-moves-on-failure",(S,"		log.Printf(\"failed index build (%s): %s\", name, err)\n		return rev, false","		log.Printf(\"failed index build (%s): %s\", name, err)\n		return newRev, true")),
# C01
F("C01","search-old-copy",(S,"	s.lck.RLock()\n	defer s.lck.RUnlock()\n	return s.idx.Search(pat, opt)","	s.lck.RLock()\n	idx := s.idx\n	s.lck.RUnlock()\n	return idx.Search(pat, opt)")),
F("C01","dir-then-read",(S,"	s.lck.RLock()\n	defer s.lck.RUnlock()\n	path := filepath.Join(s.idx.GetDir(), \"excluded_files.json\")\n","	path := s.excludedPath()\n"),(S,"// Triggers an immediate poll","func (s *Searcher) excludedPath() string {\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n	return filepath.Join(s.idx.GetDir(), \"excluded_files.json\")\n}\n\n// Triggers an immediate poll")),
F("C01","two-part-swap",(S,"	s.lck.Lock()\n	defer s.lck.Unlock()\n\n	oldIdx := s.idx\n	s.idx = idx\n\n	return oldIdx.Destroy()","	oldIdx := s.idx\n\n	s.lck.Lock()\n	s.idx = idx\n	s.lck.Unlock()\n\n	return oldIdx.Destroy()")) ,
F("C01","destroy-no-lock",(I,DESTROY,DESTROY.replace("	n.lck.Lock()\n	defer n.lck.Unlock()\n","")),(S,"	oldIdx := s.idx\n	s.idx = idx\n\n	return oldIdx.Destroy()","	oldIdx := s.idx\n	s.idx = idx\n\n	go oldIdx.Destroy() //nolint\n	return nil")),
# C03
F("C03","manifest-before-files",(I,BUILD+"\n		Url:                url,\n		Rev:                rev,\n		Time:               time.Now(),\n		dir:                dst,\n		ExcludeDotFiles:    opt.ExcludeDotFiles,\n		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n\n"+MANI,"	r := &IndexRef{\n		Url:                url,\n		Rev:                rev,\n		Time:               time.Now(),\n		dir:                dst,\n		ExcludeDotFiles:    opt.ExcludeDotFiles,\n		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n\n	if err := r.writeManifest(); err != nil {\n		return nil, err\n	}\n\n	if err := indexAllFiles(opt, dst, src); err != nil {\n		return nil, err\n	}\n\n	return r, nil")),
F("C03","manifest-parallel",(I,BUILD,"	done := make(chan error, 1)\n	go func() { done <- indexAllFiles(opt, dst, src) }()\n\n	r := &IndexRef{"),(I,MANI,"	if err := r.writeManifest(); err != nil {\n		return nil, err\n	}\n\n	if err := <-done; err != nil {\n		return nil, err\n	}\n\n	return r, nil")),
F("C03","flush-deferred-after-manifest",(I,"	ix.Flush()\n\n	return nil\n}","	defer func() { go ix.Flush() }()\n\n	return nil\n}")),
F("C03","read-error-dropped-open",(I,"	r, err := Read(dir)\n	if err != nil {\n		return nil, err\n	}\n\n	return r.Open()","	r, err := Read(dir)\n	if err != nil && !os.IsNotExist(err) {\n		return nil, err\n	}\n\n	return r.Open()")),
# C05
F("C05","walk-error-shadow",(I,"		return nil\n	}); err != nil {\n		return err\n	}\n\n	if err := writeExcluded","		return nil\n	}); err != nil && !os.IsNotExist(err) {\n		return err\n	}\n\n	if err := writeExcluded")),
F("C05","text-err-skip",(I,"		txt, err := isTextFile(path)\n		if err != nil {\n			return err\n		}","		txt, err := isTextFile(path)\n		if err != nil {\n			return nil\n		}")),
F("C05","gzip-close-late",(I,"	g := gzip.NewWriter(w)\n	reason := ix.Add(rel, io.TeeReader(r, g))\n\n	if err := g.Close(); err != nil {\n		return \"\", err\n	}\n","	g := gzip.NewWriter(w)\n	defer g.Close()\n	reason := ix.Add(rel, io.TeeReader(r, g))\n")),
F("C03","build-error-only-logged",(S,"			os.RemoveAll(idxDir) //nolint\n			return nil, err\n		}\n\n		idx, err := r.Open()","			log.Print(err)\n		}\n\n		idx, err := r.Open()")),
F("C05","manifest-best-effort",(I,MANI,"	if err := r.writeManifest(); os.IsPermission(err) {\n		return nil, err\n	}\n\n	return r, nil")),
F("C05","recover-eats",(I,"	ix.Flush()\n\n	return nil\n}","	func() {\n		defer func() { _ = recover() }()\n		ix.Flush()\n	}()\n\n	return nil\n}")),
# C09
F("C09","limiter-doubled",(S,LIM,"func makeLimiter(n int) limiter {\n	return limiter(make(chan bool, n+1))\n}")),
F("C09","own-limiter-for-updates",(S,"			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)","			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, makeLimiter(1))")),
F("C09","pull-before-permit",(S,PERM,"	repo := s.Repo"),(S,"	if newRev == rev {\n		return rev, false\n	}\n","	if newRev == rev {\n		return rev, false\n	}\n\n	lim.Acquire()\n	defer lim.Release()\n	defer lockVcsDir(vcsDir)()\n")),
F("C09","release-before-build",(S,PERM,PERM.replace("	defer lim.Release()\n","")),(S,"	log.Printf(\"Rebuilding %s for %s\", name, newRev)\n","	log.Printf(\"Rebuilding %s for %s\", name, newRev)\n	lim.Release()\n"),(S,"		log.Printf(\"vcs pull error (%s - %s): %s\", name, repo.Url, err)\n","		log.Printf(\"vcs pull error (%s - %s): %s\", name, repo.Url, err)\n		lim.Release()\n"),(S,"	if newRev == rev {\n		return rev, false\n","	if newRev == rev {\n		lim.Release()\n		return rev, false\n")),
F("C09","nonblocking-acquire",(S,"	l <- true\n","	select {\n	case l <- true:\n	default:\n	}\n")),
F("C09","acquire-timeout",(S,"	l <- true\n","	select {\n	case l <- true:\n	case <-time.After(time.Minute):\n	}\n")),
F("C09","release-if-error-only",(S,"	lim.Acquire()\n	defer lim.Release()\n\n	s, err := newSearcher(","	lim.Acquire()\n\n	s, err := newSearcher("),(S,"	if err != nil {\n		resultCh <- searcherResult{\n			name: name,\n			err:  err,","	if err != nil {\n		lim.Release()\n		resultCh <- searcherResult{\n			name: name,\n			err:  err,")),
F("C09","new-uses-foreign-limiter",(S,"	lim := makeLimiter(cfg.MaxConcurrentIndexers)\n","	lim := makeLimiter(len(cfg.Repos))\n")),
F("C09","build-in-goroutine",(S,"	idx, err := buildAndOpenIndex(\n		indexOptionsFor(repo, wd, vcsDir),\n		dbpath,\n		vcsDir,\n		nextIndexDir(dbpath),\n		repo.Url,\n		newRev)\n	if err != nil {\n		log.Printf(\"failed index build (%s): %s\", name, err)\n		return rev, false\n	}\n\n	// The new index is live even if the old one could not be destroyed.\n"+SWAP,"	go func() {\n		idx, err := buildAndOpenIndex(\n			opt,\n			dbpath,\n			vcsDir,\n			nextIndexDir(dbpath),\n			repo.Url,\n			newRev)\n		if err != nil {\n			log.Printf(\"failed index build (%s): %s\", name, err)\n			return\n		}\n		if err := s.swapIndexes(idx); err != nil {\n			log.Print(err)\n		}\n	}()\n")),
F("C09","permit-over-loop",(S,"		for {\n			// Wait for a signal to proceed\n","		lim.Acquire()\n		defer lim.Release()\n		for {\n			// Wait for a signal to proceed\n"),(S,PERM,PERM.replace("	lim.Acquire()\n	defer lim.Release()\n",""))),
# C29
F("C29","symlink-stat",(I,MODE,"		if info.Mode()&os.ModeSymlink != 0 {\n			if info, err = os.Stat(path); err != nil {\n				return err\n			}\n		}\n\n"+MODE)),
F("C29","only-devices",(I,MODE,"		if info.Mode()&(os.ModeDevice|os.ModeNamedPipe|os.ModeSocket) != 0 {")),
F("C29","mode-after-open",(I,"		if info.Mode()&os.ModeType != 0 {\n			excluded = append(excluded, &ExcludedFile{\n				rel,\n				reasonInvalidMode,\n			})\n			return nil\n		}\n\n		txt, err := isTextFile(path)\n		if err != nil {\n			return err\n		}\n","		txt, err := isTextFile(path)\n		if err != nil {\n			return err\n		}\n\n		if info.Mode()&os.ModeType != 0 {\n			excluded = append(excluded, &ExcludedFile{\n				rel,\n				reasonInvalidMode,\n			})\n			return nil\n		}\n")),
F("C29","regular-helper-wrong",(I,MODE,"		if !isRegular(path) {"),(I,"func isTextFile","func isRegular(path string) bool {\n	fi, err := os.Stat(path)\n	return err == nil && fi.Mode().IsRegular()\n}\n\nfunc isTextFile")),
F("C29","mode-not-dir",(I,MODE,"		if info.Mode()&os.ModeType == os.ModeDir {")),
F("C29","link-resolved",(I,"		txt, err := isTextFile(path)","		if p, err := filepath.EvalSymlinks(path); err == nil {\n			path = p\n		}\n\n		txt, err := isTextFile(path)"),(I,MODE,"		if info.Mode()&os.ModeType&^os.ModeSymlink != 0 {")),
F("C29","named-file-any-mode",(I,"		if info.Mode()&os.ModeType != 0 {","		if info.Mode()&os.ModeType != 0 && filepath.Ext(name) == \"\" {")),
K("C29","regular-lstat",(I,MODE,"		if !isRegular(path) {"),(I,"func isTextFile","func isRegular(path string) bool {\n	fi, err := os.Lstat(path)\n	return err == nil && fi.Mode().IsRegular()\n}\n\nfunc isTextFile")),
K("C29","regular-method",(I,MODE,"		if !info.Mode().IsRegular() {")),
# C11
F("C11","excluded-waits-permit",(S,"	s.lck.RLock()\n	defer s.lck.RUnlock()\n	path :=","	s.updateCh <- time.Now()\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n	path :=")),
F("C11","swap-lock-around-build",(S,"	idx, err := buildAndOpenIndex(\n		indexOptionsFor(repo, wd, vcsDir),\n		dbpath,\n		vcsDir,\n		nextIndexDir(dbpath),","	s.lck.Lock()\n	defer s.lck.Unlock()\n	idx, err := buildAndOpenIndex(\n		indexOptionsFor(repo, wd, vcsDir),\n		dbpath,\n		vcsDir,\n		nextIndexDir(dbpath),"),(S,SWAP,"	old := s.idx\n	s.idx = idx\n	if err := old.Destroy(); err != nil {\n		log.Printf(\"failed to destroy old index (%s): %s\", name, err)\n	}\n")),
F("C11","search-vcs-lock",(S,"	s.lck.RLock()\n	defer s.lck.RUnlock()\n	return s.idx.Search(pat, opt)","	defer lockVcsDir(s.Repo.Url)()\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n	return s.idx.Search(pat, opt)"),(S,"	repo := s.Repo\n	newRev, err","	repo := s.Repo\n	defer lockVcsDir(repo.Url)()\n	newRev, err")),
F("C11","rlock-upgrade",(S,"	s.lck.Lock()\n	defer s.lck.Unlock()\n\n	oldIdx := s.idx\n","	s.lck.RLock()\n	defer s.lck.RUnlock()\n	oldIdx := s.idx\n	s.lck.Lock()\n	defer s.lck.Unlock()\n\n")),
F("C11","server-write-lock",(W,"	s.lck.RLock()\n	defer s.lck.RUnlock()\n	if m := s.mux","	s.lck.Lock()\n	defer s.lck.Unlock()\n	if m := s.mux")),
# C33
F("C33","result-chan-small",(S,"	resultCh := make(chan searcherResult, n)","	resultCh := make(chan searcherResult)"),(S,"		if r.err != nil {\n			log.Print(r.err)\n			errs[r.name] = r.err\n			continue\n		}","		if r.err != nil {\n			if len(errs) > 0 {\n				return nil, nil, r.err\n			}\n			log.Print(r.err)\n			errs[r.name] = r.err\n			continue\n		}")),
F("C33","searchall-n-minus",(A,"	ch := make(chan *searchResponse, n)","	ch := make(chan *searchResponse, n/2)")),
# C19
F("C19","grepper-in-index",(I,"	idx *index.Index\n	lck sync.RWMutex\n","	idx *index.Index\n	lck sync.RWMutex\n	g   grepper\n"),(I,"		g                grepper\n",""),(I,"		if err := g.grep2File","		if err := n.g.grep2File")),
F("C19","package-buffer",(GR,"type grepper struct {\n	buf []byte\n}","type grepper struct {\n	buf []byte\n}\n\nvar sharedGrepper grepper"),(I,"		g                grepper\n","		g                = &sharedGrepper\n")),
F("C19","regexp-kept",(I,"	re, err := regexp.Compile(GetRegexpPattern(patForRe, opt.IgnoreCase))\n	if err != nil {\n		return nil, err\n	}\n","	re, err := n.compiled(GetRegexpPattern(patForRe, opt.IgnoreCase))\n	if err != nil {\n		return nil, err\n	}\n"),(I,"	lck sync.RWMutex\n}\n","	lck sync.RWMutex\n\n	lastMu  sync.Mutex\n	lastPat string\n	last    *regexp.Regexp\n}\n\nfunc (n *Index) compiled(pat string) (*regexp.Regexp, error) {\n	n.lastMu.Lock()\n	defer n.lastMu.Unlock()\n	if n.last != nil && n.lastPat == pat {\n		return n.last, nil\n	}\n	re, err := regexp.Compile(pat)\n	if err == nil {\n		n.last, n.lastPat = re, pat\n	}\n	return re, err\n}\n")),
# C04
F("C04","claim-by-url-for-same-rev-prefix",(S,"ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed","strings.HasPrefix(ref.Rev, rev) && !r.claimed"),(S,"	\"runtime\"\n	\"sync\"","	\"runtime\"\n	\"strings\"\n	\"sync\"")),
F("C04","remove-before-results",(S,"	if err := refs.removeUnclaimed(); err != nil {\n		return nil, nil, err\n	}\n\n	// after","	// after"),(S,"	// Collect the results on","	go func() {\n		if err := refs.removeUnclaimed(); err != nil {\n			log.Print(err)\n		}\n	}()\n\n	// Collect the results on")),
F("C04","claimed-set-late",(S,"			r.claimed[ref] = true\n			return ref","			return ref"),(S,"		idxDir = ref.Dir()\n","		idxDir = ref.Dir()\n		refs.lock.Lock()\n		refs.claimed[ref] = true\n		refs.lock.Unlock()\n")),
F("C04","unreadable-refs-skipped",(S,"		r, _ := index.Read(dir)\n		refs = append(refs, r)","		r, err := index.Read(dir)\n		if err != nil {\n			continue\n		}\n		refs = append(refs, r)")),
F("C04","stop-at-first-remove-error-silent",(S,"		if err := ref.Remove(); err != nil {\n			return err\n		}\n	}\n	return nil","		if err := ref.Remove(); err != nil {\n			log.Print(err)\n			return nil\n		}\n	}\n	return nil")),
# C10
F("C10","stop-before-waits-shared",(M,"		for _, s := range searchers {\n			s.Stop()\n		}\n\n		for _, s := range searchers {\n			s.Wait()\n		}","		for _, s := range searchers {\n			s.Stop()\n			go s.Wait()\n		}")),
# C08
F("C08","headrev-at-label",(S,"	idx, err := buildAndOpenIndex(\n		indexOptionsFor(repo, wd, vcsDir),\n		dbpath,\n		vcsDir,\n		nextIndexDir(dbpath),\n		repo.Url,\n		newRev)","	label, err := wd.HeadRev(vcsDir)\n	if err != nil {\n		label = rev\n	}\n	idx, err := buildAndOpenIndex(\n		indexOptionsFor(repo, wd, vcsDir),\n		dbpath,\n		vcsDir,\n		nextIndexDir(dbpath),\n		repo.Url,\n		label)")),
F("C22","name-and-pattern-apart",(S,"fmt.Sprintf(\"idx-%08x\", r)","fmt.Sprintf(\"index-%08x\", r)")),
F("C04","pattern-eight-digits",(S,"filepath.Join(dbpath, \"idx-*\")","filepath.Join(dbpath, \"idx-????????\")")),
K("C04","refs-preallocated",(S,"	var refs []*index.IndexRef\n	for _, dir := range dirs {\n		r, _ := index.Read(dir)\n		refs = append(refs, r)\n	}","	refs := make([]*index.IndexRef, len(dirs))\n	for i, dir := range dirs {\n		refs[i], _ = index.Read(dir)\n	}")),
K("C04","refs-counted",(S,"	for _, dir := range dirs {\n		r, _ := index.Read(dir)\n","	for i := 0; i < len(dirs); i++ {\n		r, _ := index.Read(dirs[i])\n")),
K("C04","refs-helper",(S,"	var refs []*index.IndexRef\n	for _, dir := range dirs {\n		r, _ := index.Read(dir)\n		refs = append(refs, r)\n	}","	refs := readRefs(dirs)"),(S,"// Read the refs associated","func readRefs(dirs []string) []*index.IndexRef {\n	var refs []*index.IndexRef\n	for _, dir := range dirs {\n		r, err := index.Read(dir)\n		if err != nil {\n			log.Printf(\"%s: %s\", dir, err)\n		}\n		refs = append(refs, r)\n	}\n	return refs\n}\n\n// Read the refs associated")),
K("C04","refs-one-helper",(S,"		r, _ := index.Read(dir)\n		refs = append(refs, r)","		refs = append(refs, readRef(dir))"),(S,"// Read the refs associated","func readRef(dir string) *index.IndexRef {\n	r, err := index.Read(dir)\n	if err != nil {\n		log.Printf(\"%s: %s\", dir, err)\n	}\n	return r\n}\n\n// Read the refs associated")),
K("C04","refs-plain-files",(S,"		r, _ := index.Read(dir)\n		refs","		if fi, err := os.Stat(dir); err == nil && !fi.IsDir() {\n			continue\n		}\n		r, _ := index.Read(dir)\n		refs")),
K("C04","pattern-prefix-const",(S,"fmt.Sprintf(\"idx-%08x\", r)","fmt.Sprintf(\"%s%08x\", idxPrefix, r)"),(S,"filepath.Join(dbpath, \"idx-*\")","filepath.Join(dbpath, idxPrefix+\"*\")"),(S,"type empty struct{}","const idxPrefix = \"idx-\"\n\ntype empty struct{}")),
]
