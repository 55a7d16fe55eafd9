S = "searcher/searcher.go"
I = "index/index.go"
UPD = '''	if newRev == rev {
		return rev, false
	}
'''
LOCK = '''func lockVcsDir(vcsDir string) func() {
	v, _ := vcsDirLocks.LoadOrStore(vcsDir, &sync.Mutex{})
	lck := v.(*sync.Mutex)
	lck.Lock()
	return lck.Unlock
}'''
LOOP = '''			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)
			if !ok {
				continue
			}

			rev = newRev
'''
FAIL = '''	if err != nil {
		log.Printf("failed index build (%s): %s", name, err)
		return rev, false
	}
'''
BUILD = '''	idx, err := buildAndOpenIndex(
		indexOptionsFor(repo, wd, vcsDir),
		dbpath,
		vcsDir,
		nextIndexDir(dbpath),
		repo.Url,
		newRev)
'''
CASES = [
 ("c08-oldrev", "C08", "fire", [(S, "		repo.Url,\n		newRev)", "		repo.Url,\n		rev)")]),
 ("c08-failed-rev", "C08", "fire", [(S, FAIL, FAIL.replace("return rev, false", "return newRev, true"))]),
 ("c08-ok-ignored", "C08", "fire", [(S, LOOP, '''			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)
			rev = newRev
			if !ok {
				continue
			}
'''), (S, FAIL, FAIL.replace("return rev, false", "return newRev, false"))]),
 ("c08-noupdate-rev", "C08", "fire", [(S, LOOP, LOOP.replace("			rev = newRev\n", "			_ = newRev\n"))]),
 ("c08-prefix", "C08", "fire", [(S, "if newRev == rev {", "if len(newRev) == len(rev) && newRev[:7] == rev[:7] {")]),
 ("c08-empty", "C08", "fire", [(S, "if newRev == rev {", "if newRev == rev || newRev == \"\" {")]),
 ("c08-nolock-update", "C08", "fire", [(S, "	// the files must not change until the index has been built\n	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo", "	repo := s.Repo")]),
 ("c08-nolock-start", "C08", "fire", [(S, "	// the files must not change until the index has been built\n	defer lockVcsDir(vcsDir)()\n\n	rev, err := wd", "	rev, err := wd")]),
 ("c08-early-unlock", "C08", "fire", [(S, "	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo\n	newRev, err := wd.PullOrClone(vcsDir, repo.Url)\n", "	unlock := lockVcsDir(vcsDir)\n\n	repo := s.Repo\n	newRev, err := wd.PullOrClone(vcsDir, repo.Url)\n	unlock()\n")]),
 ("c08-now-unlock", "C08", "fire", [(S, "	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo", "	lockVcsDir(vcsDir)()\n\n	repo := s.Repo")]),
 ("c08-lock-name", "C08", "fire", [(S, "	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo", "	defer lockVcsDir(name)()\n\n	repo := s.Repo")]),
 ("c08-lock-fresh", "C08", "fire", [(S, LOCK, LOCK.replace("	v, _ := vcsDirLocks.LoadOrStore(vcsDir, &sync.Mutex{})\n	lck := v.(*sync.Mutex)\n", "	lck := &sync.Mutex{}\n	vcsDirLocks.LoadOrStore(vcsDir, lck)\n"))]),
 ("c08-two-tables", "C08", "fire", [(S, LOCK, LOCK + '''

var vcsPollLocks sync.Map

func lockVcsPoll(vcsDir string) func() {
	v, _ := vcsPollLocks.LoadOrStore(vcsDir, &sync.Mutex{})
	lck := v.(*sync.Mutex)
	lck.Lock()
	return lck.Unlock
}'''), (S, "	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo", "	defer lockVcsPoll(vcsDir)()\n\n	repo := s.Repo")]),
 ("c08-url-name", "C08", "fire", [(S, "		repo.Url,\n		newRev)", "		name,\n		newRev)")]),
 ("c08-failed-pull", "C08", "fire", [(S, '''		log.Printf("vcs pull error (%s - %s): %s", name, repo.Url, err)
		return rev, false
''', '''		log.Printf("vcs pull error (%s - %s): %s", name, repo.Url, err)
''')]),
 ("c08-headrev", "C08", "fire", [(S, "	rev, err := wd.PullOrClone(vcsDir, repo.Url)\n	if err != nil {\n		return nil, err\n	}\n", "	rev, err := wd.PullOrClone(vcsDir, repo.Url)\n	if err != nil {\n		return nil, err\n	}\n	if h, err := wd.HeadRev(vcsDir); err == nil {\n		rev = h\n	}\n")]),
 ("c08-meta-swap", "C08", "fire", [(I, "		Url:                url,\n		Rev:                rev,", "		Url:                rev,\n		Rev:                url,")]),
 ("c08-meta-short", "C08", "fire", [(I, "		Rev:                rev,", "		Rev: rev + \" \",")]),
 ("c08-readdir", "C08", "fire", [(I, "	m := &IndexRef{\n		dir: dir,\n	}", "	m := &IndexRef{\n		dir: filepath.Dir(dir),\n	}")]),
 ("c08-resp", "C08", "fire", [(I, "		Revision:       n.Ref.Rev,", "		Revision:       n.Ref.Url,")]),
 ("c08-resp-none", "C08", "fire", [(I, "		Revision:       n.Ref.Rev,\n", "")]),
 # refactorings
 ("c08-invert", "C08", "silent", [(S, UPD, ""), (S, BUILD, '''	changed := rev != newRev
	if !changed {
		return rev, false
	}
''' + BUILD)]),
 ("c08-explicit-unlock", "C08", "silent", [(S, "	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo", "	unlock := lockVcsDir(vcsDir)\n	defer func() { unlock() }()\n\n	repo := s.Repo")]),
 ("c08-global-mutex", "C08", "silent", [(S, LOCK, '''var vcsBig sync.Mutex

func lockVcsDir(vcsDir string) func() {
	vcsBig.Lock()
	return vcsBig.Unlock
}'''), (S, "var vcsDirLocks sync.Map\n", "")]),
 ("c08-field-rev", "C08", "silent", [(S, "	if newRev == rev {", "	if newRev == s.idx.Ref.Rev {")]),
 ("c08-inline-build", "C08", "silent", [(S, BUILD, '''	label := newRev
	u := s.Repo.Url
	dst := nextIndexDir(dbpath)
	idx, err := buildAndOpenIndex(indexOptionsFor(repo, wd, vcsDir), dbpath, vcsDir, dst, u, label)
''')]),
 ("c08-resp-split", "C08", "silent", [(I, "		Revision:       n.Ref.Rev,", "		Revision:       n.revision(),"), (I, "func (n *Index) GetDir() string {", "func (n *Index) revision() string {\n	ref := n.Ref\n	return ref.Rev\n}\n\nfunc (n *Index) GetDir() string {")]),
 ("c08-switch", "C08", "silent", [(S, '''	if err != nil {
		log.Printf("vcs pull error (%s - %s): %s", name, repo.Url, err)
		return rev, false
	}

	if newRev == rev {
		return rev, false
	}
''', '''	switch {
	case err != nil:
		log.Printf("vcs pull error (%s - %s): %s", name, repo.Url, err)
		return rev, false
	case newRev == rev:
		return rev, false
	}
''')]),
 ("c08-ptr-rev", "C08", "silent", [(S, LOOP, '''			if newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim); ok {
				rev = newRev
			} else {
				continue
			}
''')]),
]
