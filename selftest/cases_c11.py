W = "web/web.go"
A = "api/api.go"
S = "searcher/searcher.go"
I = "index/index.go"
U = "ui/ui.go"
M = "cmds/houndd/main.go"
V = "vcs/vcs.go"
SW = '''	s.lck.Lock()
	defer s.lck.Unlock()

	oldIdx := s.idx
	s.idx = idx

	return oldIdx.Destroy()
'''
SE = '''	s.lck.RLock()
	defer s.lck.RUnlock()
	return s.idx.Search(pat, opt)
'''
SEL = '''	select {
	case s.updateCh <- time.Now():
	default:
		// don't wait to enqueue another update
	}
'''
GE = '''	s.lck.RLock()
	defer s.lck.RUnlock()
	path := filepath.Join('''
CASES = [
 ("c11-update-blocks", "C11", "fire", [(S, SEL, '	s.updateCh <- time.Now()\n')]),
 ("c11-update-waits-timer-less", "C11", "fire", [(S, SEL, '	select {\n	case s.updateCh <- time.Now():\n	case <-s.doneCh:\n	}\n')]),
 ("c11-lock-over-update", "C11", "fire", [(S, '	repo := s.Repo\n	newRev', '	s.lck.Lock()\n	defer s.lck.Unlock()\n	repo := s.Repo\n	newRev'), (S, SW, '''	oldIdx := s.idx
	s.idx = idx

	return oldIdx.Destroy()
''')]),
 ("c11-lock-over-pull-explicit", "C11", "fire", [(S, '	newRev, err := wd.PullOrClone(vcsDir, repo.Url)\n', '	s.lck.RLock()\n	newRev, err := wd.PullOrClone(vcsDir, repo.Url)\n	s.lck.RUnlock()\n')]),
 ("c11-lock-over-build", "C11", "fire", [(S, '''	idx, err := buildAndOpenIndex(
		indexOptionsFor(repo, wd, vcsDir),
		dbpath,
		vcsDir,
		nextIndexDir(dbpath),
		repo.Url,
		newRev)
''', '''	s.lck.Lock()
	idx, err := buildAndOpenIndex(
		indexOptionsFor(repo, wd, vcsDir),
		dbpath,
		vcsDir,
		nextIndexDir(dbpath),
		repo.Url,
		newRev)
	s.lck.Unlock()
''')]),
 ("c11-excludes-wait-for-dir", "C11", "fire", [(S, '			// attempt to update and reindex this searcher\n', '			s.upd.Lock()\n'), (S, '			if !ok {\n				continue\n			}\n\n			rev', '			s.upd.Unlock()\n			if !ok {\n				continue\n			}\n\n			rev'), (S, '	idx  *index.Index\n', '	idx  *index.Index\n	upd  sync.Mutex\n'), (S, GE, '	s.upd.Lock()\n	defer s.upd.Unlock()\n' + GE)]),
 ("c11-handler-takes-permit", "C11", "fire", [(A, '''			fms, err := idx[repo].Search(query, opts)
			ch <-''', '''			idx[repo].Turn()
			fms, err := idx[repo].Search(query, opts)
			ch <-'''), (S, 'func (s *Searcher) Update() bool {', 'func (s *Searcher) Turn() {\n	<-s.turns\n}\n\nfunc (s *Searcher) Update() bool {'), (S, '	idx  *index.Index\n', '	idx  *index.Index\n	turns chan empty\n')]),
 ("c11-handler-head-rev", "C11", "fire", [(S, 'func (s *Searcher) GetExcludedFiles() string {\n', 'func (s *Searcher) GetExcludedFiles() string {\n	if wd, err := vcs.New(s.Repo.Vcs, s.Repo.VcsConfig()); err == nil {\n		if rev, err := wd.HeadRev("."); err == nil {\n			log.Print(rev)\n		}\n	}\n')]),
 ("c11-handler-waits", "C11", "fire", [(A, '	m.HandleFunc("/api/v1/repos", func(w http.ResponseWriter, r *http.Request) {\n', '	m.HandleFunc("/api/v1/repos", func(w http.ResponseWriter, r *http.Request) {\n		for _, s := range idx {\n			s.Wait()\n		}\n')]),
 ("c11-handler-sleeps", "C11", "fire", [(A, '		query := r.FormValue("q")\n', '		query := r.FormValue("q")\n		time.Sleep(time.Second)\n')]),
 ("c11-server-lock-until-ready", "C11", "fire", [(W, '	h, err := ui.Content(s.dev, s.cfg)\n', '	s.lck.Lock()\n	defer s.lck.Unlock()\n	h, err := ui.Content(s.dev, s.cfg)\n'), (W, '	s.serveWith(m)\n', '	s.mux = m\n')]),
 ("c11-order", "C11", "fire", [(I, 'func (n *Index) GetDir() string {\n	return n.Ref.dir\n', 'func (n *Index) GetDir() string {\n	if n.Changed != nil {\n		n.lck.RLock()\n		defer n.lck.RUnlock()\n		n.Changed()\n	}\n	return n.Ref.dir\n'), (I, '	idx *index.Index\n', '	idx *index.Index\n	Changed func()\n'), (S, 'func (s *Searcher) Wait() {', 'func (s *Searcher) touch() {\n	s.lck.Lock()\n	s.lck.Unlock()\n}\n\nfunc (s *Searcher) Wait() {'), (S, '	go func() {\n\n', '	idx.Changed = func() { s.touch() }\n	go func() {\n\n')]),
 ("c11-relock", "C11", "fire", [(S, '	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")\n', '	path := filepath.Join(s.dir(), "excluded_files.json")\n'), (S, 'func (s *Searcher) Wait() {', 'func (s *Searcher) dir() string {\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n	return s.idx.GetDir()\n}\n\nfunc (s *Searcher) Wait() {')]),
 ("c11-relock-index", "C11", "fire", [(I, 'func (n *Index) Destroy() error {\n	n.lck.Lock()\n	defer n.lck.Unlock()\n	if err := n.idx.Close(); err != nil {', 'func (n *Index) Destroy() error {\n	n.lck.Lock()\n	defer n.lck.Unlock()\n	if err := n.Close(); err != nil {')]),
 ("c11-left-on-error", "C11", "fire", [(S, GE, '	s.lck.RLock()\n	if s.idx == nil {\n		return ""\n	}\n	defer s.lck.RUnlock()\n	path := filepath.Join(')]),
 ("c11-left-explicit", "C11", "fire", [(I, '	n.lck.Lock()\n	defer n.lck.Unlock()\n	if err := n.idx.Close(); err != nil {\n		return err\n	}\n	return n.Ref.Remove()\n', '	n.lck.Lock()\n	if err := n.idx.Close(); err != nil {\n		return err\n	}\n	n.lck.Unlock()\n	return n.Ref.Remove()\n')]),
 ("c11-claim-left", "C11", "fire", [(S, '	r.lock.Lock()\n	defer r.lock.Unlock()\n\n	for _, ref := range r.refs {\n		if ref.Url', '	r.lock.Lock()\n\n	for _, ref := range r.refs {\n		if ref.Url'), (S, '			r.claimed[ref] = true\n			return ref\n', '			r.claimed[ref] = true\n			r.lock.Unlock()\n			return ref\n')]),
 ("c11-wrong-mode", "C11", "fire", [(S, '	s.lck.Lock()\n	defer s.lck.Unlock()\n\n	oldIdx', '	s.lck.RLock()\n	defer s.lck.Unlock()\n\n	oldIdx')]),
 ("c11-dir-lock-left", "C11", "fire", [(S, '''	// the files must not change until the index has been built
	defer lockVcsDir(vcsDir)()

	rev, err := wd.PullOrClone(vcsDir, repo.Url)
	if err != nil {
		return nil, err
	}
''', '''	// the files must not change until the index has been built
	unlock := lockVcsDir(vcsDir)

	rev, err := wd.PullOrClone(vcsDir, repo.Url)
	if err != nil {
		return nil, err
	}
	defer unlock()
''')]),
 ("c11-unlock-twice", "C11", "fire", [(S, '	s.idx = idx\n\n	return', '	s.idx = idx\n	s.lck.Unlock()\n\n	return')]),
 ("c11-dir-lock-forgotten", "C11", "fire", [(S, '	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo', '	defer lockVcsDir(vcsDir)\n\n	repo := s.Repo')]),
 ("c11-wait-for-goroutine-update", "C11", "fire", [(A, '		res := searcher.GetExcludedFiles()\n', '		done := make(chan bool)\n		go func() {\n			searcher.Wait()\n			done <- true\n		}()\n		<-done\n		res := searcher.GetExcludedFiles()\n')]),
 # rearrangements
 ("c11-keep-select-helper", "C11", "silent", [(S, SEL, '	s.schedule()\n'), (S, 'func (s *Searcher) Wait() {', 'func (s *Searcher) schedule() {\n' + SEL + '}\n\nfunc (s *Searcher) Wait() {')]),
 ("c11-keep-timeout", "C11", "silent", [(S, SEL, '	select {\n	case s.updateCh <- time.Now():\n	case <-time.After(time.Millisecond):\n	}\n')]),
 ("c11-keep-explicit", "C11", "silent", [(S, SW, '''	s.lck.Lock()
	oldIdx := s.idx
	s.idx = idx
	err := oldIdx.Destroy()
	s.lck.Unlock()
	return err
''')]),
 ("c11-keep-early", "C11", "silent", [(S, '	r.lock.Lock()\n	defer r.lock.Unlock()\n\n	for _, ref := range r.refs {\n		if ref.Url', '	r.lock.Lock()\n\n	for _, ref := range r.refs {\n		if ref.Url'), (S, '			r.claimed[ref] = true\n			return ref\n		}\n	}\n	return nil\n', '			r.claimed[ref] = true\n			r.lock.Unlock()\n			return ref\n		}\n	}\n	r.lock.Unlock()\n	return nil\n')]),
 ("c11-keep-lock-helper", "C11", "silent", [(S, SW, '''	defer s.exclusively()()
	oldIdx := s.idx
	s.idx = idx

	return oldIdx.Destroy()
'''), (S, 'func (s *Searcher) swapIndexes', '''func (s *Searcher) exclusively() func() {
	s.lck.Lock()
	return s.lck.Unlock
}

func (s *Searcher) swapIndexes''')]),
 ("c11-keep-closure", "C11", "silent", [(S, SE, '''	var res *index.SearchResponse
	err := s.withIndex(func(idx *index.Index) (err error) {
		res, err = idx.Search(pat, opt)
		return err
	})
	return res, err
'''), (S, '// Perform a basic search', '''func (s *Searcher) withIndex(f func(*index.Index) error) error {
	s.lck.RLock()
	defer s.lck.RUnlock()
	return f(s.idx)
}

// Perform a basic search''')]),
 ("c11-keep-lock-methods", "C11", "silent", [(S, SW, '''	s.hold()
	defer s.release()

	oldIdx := s.idx
	s.idx = idx

	return oldIdx.Destroy()
}

func (s *Searcher) hold()    { s.lck.Lock() }
func (s *Searcher) release() { s.lck.Unlock()
''')]),
 ("c11-keep-wait-group", "C11", "silent", [(A, '''		go func(repo string) {
			fms''', '''		wg.Add(1)
		go func(repo string) {
			defer wg.Done()
			fms'''), (A, '	ch := make(chan *searchResponse, n)\n', '	ch := make(chan *searchResponse, n)\n	var wg sync.WaitGroup\n'), (A, '	res := map[string]*index.SearchResponse{}\n	for i', '	wg.Wait()\n	res := map[string]*index.SearchResponse{}\n	for i'), (A, '	"strings"\n', '	"strings"\n	"sync"\n')]),
 ("c11-keep-dir-unlock", "C11", "silent", [(S, '''	defer lockVcsDir(vcsDir)()

	rev, err''', '''	unlock := lockVcsDir(vcsDir)
	defer unlock()

	rev, err''')]),
 ("c11-keep-dir-closure", "C11", "silent", [(S, '	return lck.Unlock\n', '	return func() {\n		lck.Unlock()\n	}\n')]),
 ("c11-keep-mux", "C11", "silent", [(W, '''	s.lck.RLock()
	defer s.lck.RUnlock()
	if m := s.mux; m != nil {''', '''	s.lck.RLock()
	m := s.mux
	s.lck.RUnlock()
	if m != nil {''')]),
 ("c11-keep-conditional", "C11", "silent", [(S, GE, '	locked := s.idx != nil\n	if locked {\n		s.lck.RLock()\n	}\n	defer func() {\n		if locked {\n			s.lck.RUnlock()\n		}\n	}()\n	path := filepath.Join(')]),
 ("c11-keep-begin", "C11", "silent", [(S, '	s.updateCh <- time.Now()\n}\n\n// Generate', '	now := time.Now()\n	s.updateCh <- now\n}\n\n// Generate')]),
 ("c11-keep-receive-helper", "C11", "silent", [(A, '		r := <-ch\n', '		r := next(ch)\n'), (A, '/**\n * Searches all', 'func next(ch <-chan *searchResponse) *searchResponse {\n	return <-ch\n}\n\n/**\n * Searches all')]),
 ("c11-keep-send-helper", "C11", "silent", [(A, '''		go func(repo string) {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
''', '''		go searchOne(repo, idx[repo], query, opts, ch)
'''), (A, '/**\n * Searches all repos in parallel.', '''func searchOne(repo string, s *searcher.Searcher, query string, opts *index.SearchOptions, ch chan<- *searchResponse) {
	fms, err := s.Search(query, opts)
	ch <- &searchResponse{repo, fms, err}
}

/**
 * Searches all repos in parallel.''')]),
 ("c11-long-timeout", "C11", "fire", [(S, SEL, '	select {\n	case s.updateCh <- time.Now():\n	case <-time.After(time.Minute):\n	}\n')]),
]
