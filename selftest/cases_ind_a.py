S="searcher/searcher.go";I="index/index.go";A="api/api.go";M="cmds/houndd/main.go";W="web/web.go";C="config/config.go";L="client/client.go";V="vcs/vcs.go";G="vcs/git.go";H="vcs/hg.go";N="vcs/svn.go";K="vcs/local.go";U="ui/ui.go";GR="index/grep.go";CM="cmds/hound/main.go"
def F(n,p,*e): return ("i-"+n,p,"fire",list(e))
CASES=[
F("swap-fail-destroy-new","C02",(S,'		log.Printf("failed to destroy old index (%s): %s", name, err)\n','		log.Printf("failed to destroy old index (%s): %s", name, err)\n		idx.Destroy()\n		return rev, false\n')),
F("swap-twice","C02",(S,"	oldIdx := s.idx\n	s.idx = idx\n\n	return oldIdx.Destroy()","	oldIdx := s.idx\n	s.idx = idx\n	if oldIdx.GetDir() == idx.GetDir() {\n		return nil\n	}\n	go oldIdx.Destroy()\n	return nil")),
F("swap-cond","C02",(S,"	s.idx = idx\n\n	return oldIdx.Destroy()","	if err := oldIdx.Close(); err != nil {\n		return err\n	}\n	s.idx = idx\n	return os.RemoveAll(oldIdx.GetDir())")),
F("prefix-rev","C08",(S,"	if newRev == rev {","	if strings.HasPrefix(newRev, rev) {"),(S,'	"runtime"\n','	"runtime"\n	"strings"\n')),
F("empty-rev-skip","C08",(S,"	if newRev == rev {","	if newRev == rev || len(newRev) < 7 {")),
F("index-of-headrev","C08",(S,"	rev, err := wd.PullOrClone(vcsDir, repo.Url)\n	if err != nil {\n		return nil, err\n	}\n","	if _, err := wd.PullOrClone(vcsDir, repo.Url); err != nil {\n		return nil, err\n	}\n	rev, err := wd.HeadRev(dbpath)\n	if err != nil {\n		return nil, err\n	}\n")),
F("dir-by-time","C03",(S,"	r := uint64(rand.Uint32())<<32 | uint64(rand.Uint32())","	r := uint64(time.Now().Unix())")),
F("dir-by-hash","C03",(S,"		idxDir = nextIndexDir(dbpath)\n	} else",'		idxDir = filepath.Join(dbpath, "idx-"+hashFor(repo.Url+rev))\n	} else')),
F("no-shutdown-when-push","C10",(S,"	var tch <-chan time.Time\n	if","	var tch <-chan time.Time\n	if delay == 0 {\n		<-s.updateCh\n		return true\n	}\n	if")),
F("stop-blocks","C10",(S,"	select {\n	case s.shutdownCh <- empty{}:\n	default:\n	}","	s.shutdownCh <- empty{}"),(S,"shutdownCh: make(chan empty, 1)","shutdownCh: make(chan empty)")),
F("stop-drops","C10",(S,"shutdownCh: make(chan empty, 1)","shutdownCh: make(chan empty)")),
F("no-done-when-disabled","C10",(S,"			s.completeShutdown()\n			return\n		}\n\n		var delay","			return\n		}\n\n		var delay")),
F("wait-first-only","C10",(M,"			s.Wait()\n		}\n","			s.Wait()\n			break\n		}\n")),
F("shutdown-late-notify","C10",(M,"	handleShutdown(shutdownCh, idx)\n","	handleShutdown(registerShutdownSignal(), idx)\n"),(M,"	shutdownCh := registerShutdownSignal()\n","")),
F("begin-before-stop","C10",(S,"		<-s.updateCh\n\n		// if all","		time.Sleep(time.Second)\n		<-s.updateCh\n\n		// if all")),
F("interval-unit","C17",(S,"time.Duration(repo.MsBetweenPolls) * time.Millisecond","time.Duration(repo.MsBetweenPolls) * time.Microsecond")),
F("delay-zero-timer","C17",(S,"	if delay.Nanoseconds() > 0 {","	if delay.Nanoseconds() >= 0 {")),
F("poll-needed-for-push","C17",(S,"		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {","		if !repo.PollUpdatesEnabled() {")),
F("update-get","C17",(A,'		if r.Method != "POST" {\n			writeError(w,\n				errors.New(http.StatusText(http.StatusMethodNotAllowed)),\n				http.StatusMethodNotAllowed)\n			return\n		}\n\n		repos','		if r.Method == "DELETE" || r.Method == "PUT" {\n			writeError(w,\n				errors.New(http.StatusText(http.StatusMethodNotAllowed)),\n				http.StatusMethodNotAllowed)\n			return\n		}\n\n		repos')),
F("update-form-method","C17",(A,'		if r.Method != "POST" {\n			writeError(w,\n				errors.New(http.StatusText(http.StatusMethodNotAllowed)),\n				http.StatusMethodNotAllowed)\n			return\n		}\n\n		repos','		if r.Method != "POST" && r.FormValue("_method") != "POST" {\n			writeError(w,\n				errors.New(http.StatusText(http.StatusMethodNotAllowed)),\n				http.StatusMethodNotAllowed)\n			return\n		}\n\n		repos')),
F("update-first-wins","C17",(S,"	if !s.Repo.PushUpdatesEnabled() {\n		return false\n	}\n","	if !s.Repo.PushUpdatesEnabled() && !s.Repo.PollUpdatesEnabled() {\n		return false\n	}\n")),
F("makeall-nil","C13",(S,"			errs[r.name] = r.err\n			continue\n		}\n		searchers[r.name] = r.searcher","			errs[r.name] = r.err\n		}\n		searchers[r.name] = r.searcher")),
F("repolist-lookup","C13",(A,"		if idx[repo] == nil {\n			continue","		if _, ok := idx[strings.TrimSpace(repo)]; !ok {\n			continue")),
F("offset-le","C18",(I,"filesFound < opt.Offset","filesFound <= opt.Offset")),
F("limit-gt","C18",(I,"filesCollected >= opt.Limit)","filesCollected > opt.Limit)")),
F("max-break","C18",(I,"		// reject files that match the exclude file pattern\n		if excludeFre","		// reject files that match the exclude file pattern\n		if opt.FileRegexp == \"\" && excludeFre")),
F("exclude-basename","C18",(I,"excludeFre.MatchString(name, true, true) >= 0","excludeFre.MatchString(filepath.Base(name), true, true) >= 0")),
F("fre-ignorecase","C18",(I,"regexp.Compile(opt.FileRegexp)",'regexp.Compile("(?i)" + opt.FileRegexp)')),
F("query-of-literal","C18",(I,"index.RegexpQuery(re.Syntax)","index.RegexpQuery(fre.Syntax)")),
F("stop-after-offset","C18",(I,"				if filesFound < opt.Offset || (opt.Limit > 0 && filesCollected >= opt.Limit) {\n					return false, nil","				if filesFound < opt.Offset || (opt.Limit > 0 && matchesCollected >= opt.Limit) {\n					return false, nil")),
F("grep-err-continue","C18",(I,"			}); err != nil {\n			return nil, err\n		}\n\n		if !hasMatch","			}); err != nil {\n			continue\n		}\n\n		if !hasMatch")),
F("gitfile","C07",(I,"		if containsString(opt.SpecialFiles, name) {\n			if info.IsDir() {\n				return filepath.SkipDir\n			}\n			return nil\n		}","		if info.IsDir() && containsString(opt.SpecialFiles, name) {\n			return filepath.SkipDir\n		}")),
F("special-rel","C07",(I,"containsString(opt.SpecialFiles, name)","containsString(opt.SpecialFiles, rel)")),
F("special-hg","C07",(H,'		".hg",\n','		".hgignore",\n')),
F("mode-symlink","C29",(I,"info.Mode()&os.ModeType != 0","info.Mode()&os.ModeSymlink != 0")),
F("stat-instead","C29",(I,"		if info.Mode()&os.ModeType != 0 {","		if fi, err := os.Stat(path); err == nil {\n			info = fi\n		}\n		if info.Mode()&os.ModeType != 0 {")),
F("gz-close-reason","C05",(I,'	if err := g.Close(); err != nil {\n		return "", err\n	}','	if err := g.Close(); err != nil && reason == "" {\n		return "", err\n	}')),
F("mkdir-exist","C05",(I,"		if err := os.MkdirAll(dst, os.ModePerm); err != nil {\n			return nil, err\n		}","		os.MkdirAll(dst, os.ModePerm)")),
F("dotfile-dir","C06",(I,"			if info.IsDir() {\n				return filepath.SkipDir\n			}\n\n			excluded = append(excluded","			if info.IsDir() {\n				return filepath.SkipDir\n			}\n			if len(excluded) > 1000 {\n				return nil\n			}\n\n			excluded = append(excluded")),
F("skipdir-file","C06",(I,"				reasonInvalidMode,\n			})\n			return nil","				reasonInvalidMode,\n			})\n			return filepath.SkipDir")),
F("reason-shadow","C06",(I,'		if reasonForExclusion != "" {\n','		if reasonForExclusion != "" && !opt.ExcludeDotFiles {\n')),
F("lock-over-build","C11",(S,'	log.Printf("Rebuilding %s for %s", name, newRev)\n','	log.Printf("Rebuilding %s for %s", name, newRev)\n	s.lck.Lock()\n	defer s.lck.Unlock()\n'),(S,"	s.lck.Lock()\n	defer s.lck.Unlock()\n\n	oldIdx","	oldIdx")),
F("update-blocks","C11",(S,"	case s.updateCh <- time.Now():\n	default:\n		// don't wait to enqueue another update\n	}","	case s.updateCh <- time.Now():\n	case <-time.After(time.Minute):\n	}")),
F("shared-grepper","C19",(I,"		g                grepper\n",""),(I,"	n.lck.RLock()\n	defer n.lck.RUnlock()\n\n	patForRe","	n.lck.RLock()\n	defer n.lck.RUnlock()\n	g := &sharedGrepper\n\n	patForRe"),(I,"func toStrings(","var sharedGrepper grepper\n\nfunc toStrings(")),
F("unbuffered","C33",(A,"make(chan *searchResponse, n)","make(chan *searchResponse)")),
F("start-buffer","C33",(S,"resultCh := make(chan searcherResult, n)","resultCh := make(chan searcherResult)"),(S,"			errs[r.name] = r.err\n			continue","			errs[r.name] = r.err\n			if os.IsPermission(r.err) {\n				return nil, nil, r.err\n			}\n			continue")),
F("token-not-in-build","C09",(S,"	lim.Acquire()\n	defer lim.Release()\n\n	// the files must","	lim.Acquire()\n	lim.Release()\n\n	// the files must")),
F("lim-cap","C09",(S,"makeLimiter(cfg.MaxConcurrentIndexers)","makeLimiter(len(cfg.Repos))")),
F("fatal-excluded","C16",(S,'log.Printf("Couldn\'t read','log.Fatalf("Couldn\'t read')),
F("claim-rev-empty","C04",(S,"ref.Url == url && ref.Rev == rev &&",'ref.Url == url && (ref.Rev == rev || rev == "") &&')),
F("remove-claimed","C04",(S,"		if r.claimed[ref] {\n			continue\n		}\n","		if r.claimed[ref] && ref.Url != \"\" {\n			continue\n		}\n		if ref.Rev == \"\" {\n			continue\n		}\n")),

]
