W = "web/web.go"
A = "api/api.go"
S = "searcher/searcher.go"
I = "index/index.go"
G = "index/grep.go"
U = "ui/ui.go"
M = "cmds/houndd/main.go"
C = "client/client.go"
Q = "codesearch/index/regexp.go"
R = "codesearch/index/read.go"
X = "codesearch/regexp/match.go"
V = "vcs/vcs.go"
GO = '''		go func(repo string) {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
'''
SW = '''	s.lck.Lock()
	defer s.lck.Unlock()

	oldIdx := s.idx
	s.idx = idx

	return oldIdx.Destroy()
'''
SE = '''	s.lck.RLock()
	defer s.lck.RUnlock()
	return s.idx.Search(pat, opt)
'''
CL = '''	r.lock.Lock()
	defer r.lock.Unlock()

	for _, ref := range r.refs {
		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
'''
IMP = '''	if q.implies(r) {
		//println(q.String(), "implies", r.String())
		if op == QAnd {
			return q
		}
		return r
	}
'''
CASES = [
 ("c12-swap-unlocked", "C12", "fire", [(S, SW, '''	oldIdx := s.idx
	s.idx = idx

	s.lck.Lock()
	defer s.lck.Unlock()
	return oldIdx.Destroy()
''')]),
 ("c12-swap-rlock", "C12", "fire", [(S, SW, SW.replace(".Lock()", ".RLock()").replace(".Unlock()", ".RUnlock()"))]),
 ("c12-search-unlocked", "C12", "fire", [(S, SE, '	return s.idx.Search(pat, opt)\n')]),
 ("c12-claim-unlocked", "C12", "fire", [(S, CL, CL.replace('	r.lock.Lock()\n	defer r.lock.Unlock()\n', ''))]),
 ("c12-claim-write-after", "C12", "fire", [(S, CL + '''			r.claimed[ref] = true
			return ref
		}
	}
	return nil
''', '''	if ref := r.find(url, rev); ref != nil {
		r.claimed[ref] = true
		return ref
	}
	return nil
}

func (r *foundRefs) find(url, rev string) *index.IndexRef {
''' + CL + '''			return ref
		}
	}
	return nil
''')]),
 ("c12-serve-unlocked", "C12", "fire", [(W, '''	s.lck.Lock()
	defer s.lck.Unlock()
	s.mux = m
''', '	s.mux = m\n')]),
 ("c12-mux-read-unlocked", "C12", "fire", [(W, '''	s.lck.RLock()
	defer s.lck.RUnlock()
	if m := s.mux; m != nil {
		m.ServeHTTP(w, r)
''', '''	if m := s.mux; m != nil {
		m.ServeHTTP(w, r)
''')]),
 ("c12-dev-template-kept", "C12", "fire", [(U, '	json, err := cfg.ToJsonString()\n	if err != nil {\n		return err\n	}\n\n	var buf bytes.Buffer\n	for _, path', '	c.tpl = tpl\n	json, err := cfg.ToJsonString()\n	if err != nil {\n		return err\n	}\n\n	var buf bytes.Buffer\n	for _, path')]),
 ("c12-handler-cache", "C12", "fire", [(A, '	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {\n', '	cache := map[string]string{}\n	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {\n'),
    (A, '		res := searcher.GetExcludedFiles()\n', '		res, ok := cache[repo]\n		if !ok {\n			res = searcher.GetExcludedFiles()\n			cache[repo] = res\n		}\n')]),
 ("c12-handler-counter", "C12", "fire", [(A, 'func Setup(', 'var searchesServed int\n\nfunc Setup('), (A, '		query := r.FormValue("q")\n', '		query := r.FormValue("q")\n		searchesServed++\n')]),
 ("c12-handler-options-shared", "C12", "fire", [(A, '''	m.HandleFunc("/api/v1/search", func(w http.ResponseWriter, r *http.Request) {
		var opt index.SearchOptions
''', '''	var opt index.SearchOptions
	m.HandleFunc("/api/v1/search", func(w http.ResponseWriter, r *http.Request) {
''')]),
 ("c12-result-map-shared", "C12", "fire", [(A, '''			fms, err := idx[repo].Search(query, opts)
			ch <-''', '''			fms, err := idx[repo].Search(query, opts)
			if err == nil && fms.Matches != nil {
				res[repo] = fms
			}
			ch <-'''), (A, '	res := map[string]*index.SearchResponse{}\n	for i := 0; i < n; i++ {', '	for i := 0; i < n; i++ {'), (A, '	ch := make(chan *searchResponse, n)\n', '	ch := make(chan *searchResponse, n)\n	res := map[string]*index.SearchResponse{}\n'), (A, '		res[r.repo] = r.res\n		*filesOpened', '		*filesOpened')]),
 ("c12-opened-in-goroutine", "C12", "fire", [(A, '''			fms, err := idx[repo].Search(query, opts)
			ch <-''', '''			fms, err := idx[repo].Search(query, opts)
			if err == nil && fms.Matches != nil {
				*filesOpened += fms.FilesOpened
			}
			ch <-'''), (A, '		*filesOpened += r.res.FilesOpened\n', '')]),
 ("c12-opts-changed-in-goroutine", "C12", "fire", [(I, '	patForRe := pat\n', '	if opt.MaxResults < 0 {\n		opt.MaxResults = 0\n	}\n	patForRe := pat\n')]),
 ("c12-loop-variable", "C12", "fire", [(A, GO, '''		go func() {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}()
''')]),
 ("c12-last-error", "C12", "fire", [(S, '	idx  *index.Index\n', '	idx  *index.Index\n	polls int\n'), (S, '	repo := s.Repo\n	newRev', '	s.polls++\n	repo := s.Repo\n	newRev'), (S, 'func (s *Searcher) Update() bool {\n', 'func (s *Searcher) Update() bool {\n	log.Printf("%d polls so far", s.polls)\n')]),
 ("c12-repo-changed-by-poller", "C12", "fire", [(S, '			rev = newRev\n', '			rev = newRev\n			repo.VcsConfigMessage = nil\n')]),
 ("c12-config-changed-after-start", "C12", "fire", [(M, '	ws := web.Start(&cfg, *flagAddr, *flagDev)\n', '	ws := web.Start(&cfg, *flagAddr, *flagDev)\n	cfg.HealthCheckURI = "/ok"\n')]),
 ("c12-wd-shared", "C12", "fire", [(V, 'func (w *WorkDir) PullOrClone(dir, url string) (string, error) {\n', 'var lastDir string\n\nfunc (w *WorkDir) PullOrClone(dir, url string) (string, error) {\n	lastDir = dir\n')]),
 ("c12-driver-map", "C12", "fire", [(V, 'func New(name string, cfg []byte) (*WorkDir, error) {\n', 'func New(name string, cfg []byte) (*WorkDir, error) {\n	if drivers[name] == nil {\n		drivers[name] = nil\n	}\n')]),
 ("c12-shared-buffer", "C12", "fire", [(I, '	idx *index.Index\n', '	idx *index.Index\n	scratch []string\n'), (I, '	files := n.idx.PostingQuery(', '	n.scratch = n.scratch[:0]\n	files := n.idx.PostingQuery(')]),
 ("c12-grepper-shared", "C12", "fire", [(I, '	idx *index.Index\n', '	idx *index.Index\n	g   grepper\n'), (I, '		g                grepper\n', '		g                = &n.g\n')]),
 ("c12-ready-flag", "C12", "fire", [(W, '	mux *http.ServeMux\n', '	mux *http.ServeMux\n	ready bool\n'), (W, '	s.serveWith(m)\n\n', '	s.serveWith(m)\n	s.ready = true\n\n'), (W, '	if m := s.mux; m != nil {\n', '	if m := s.mux; m != nil && s.ready {\n')]),
 ("c12-lock-of-copy", "C12", "fire", [(S, SE, '''	var lck sync.RWMutex
	lck.RLock()
	defer lck.RUnlock()
	return s.idx.Search(pat, opt)
''')]),
 ("c12-unlock-early", "C12", "fire", [(S, SW, '''	s.lck.Lock()
	oldIdx := s.idx
	s.lck.Unlock()
	s.idx = idx

	return oldIdx.Destroy()
''')]),
 ("c12-other-lock", "C12", "fire", [(S, '	idx  *index.Index\n', '	idx  *index.Index\n	swp  sync.Mutex\n'), (S, SW, SW.replace("s.lck.", "s.swp."))]),
 ("c12-claimed-map-returned", "C12", "fire", [(S, '	ref := refs.claim(repo.Url, rev, opt)\n', '	ref := refs.claim(repo.Url, rev, opt)\n	log.Printf("%d claimed", len(refs.claimed))\n')]),
 ("c12-start-writes-result", "C12", "fire", [(S, '	resultCh := make(chan searcherResult, n)\n', '	resultCh := make(chan searcherResult, n)\n	go func() {\n		for name := range errs {\n			log.Printf("%s has failed", name)\n		}\n	}()\n')]),
 ("c12-pat-cache-rlock", "C12", "fire", [(I, '	idx *index.Index\n', '	idx *index.Index\n	pats map[string]string\n'), (I, '	patForRe := pat\n', '	patForRe := pat\n	if n.pats == nil {\n		n.pats = map[string]string{}\n	}\n	n.pats[pat] = patForRe\n')]),
 # rearrangements
 ("c12-keep-swap-explicit", "C12", "silent", [(S, SW, '''	s.lck.Lock()
	oldIdx := s.idx
	s.idx = idx
	err := oldIdx.Destroy()
	s.lck.Unlock()
	return err
''')]),
 ("c12-keep-lock-helper", "C12", "silent", [(S, SW, '''	defer s.exclusively()()
	oldIdx := s.idx
	s.idx = idx

	return oldIdx.Destroy()
'''), (S, 'func (s *Searcher) swapIndexes', '''func (s *Searcher) exclusively() func() {
	s.lck.Lock()
	return s.lck.Unlock
}

func (s *Searcher) swapIndexes''')]),
 ("c12-keep-closure", "C12", "silent", [(S, SE, '''	var res *index.SearchResponse
	err := s.withIndex(func(idx *index.Index) (err error) {
		res, err = idx.Search(pat, opt)
		return err
	})
	return res, err
'''), (S, '// Perform a basic search', '''func (s *Searcher) withIndex(f func(*index.Index) error) error {
	s.lck.RLock()
	defer s.lck.RUnlock()
	return f(s.idx)
}

// Perform a basic search''')]),
 ("c12-keep-swap-helper", "C12", "silent", [(S, SW, '''	s.lck.Lock()
	defer s.lck.Unlock()
	return s.replace(idx).Destroy()
}

func (s *Searcher) replace(idx *index.Index) *index.Index {
	old := s.idx
	s.idx = idx
	return old
''')]),
 ("c12-keep-mutex", "C12", "silent", [(W, '	lck sync.RWMutex\n', '	lck sync.Mutex\n'), (W, '''	s.lck.RLock()
	defer s.lck.RUnlock()
	if m := s.mux; m != nil {''', '''	s.lck.Lock()
	m := s.mux
	s.lck.Unlock()
	if m != nil {''')]),
 ("c12-keep-atomic", "C12", "silent", [(W, '	mux *http.ServeMux\n	lck sync.RWMutex\n', '	mux atomic.Value\n'), (W, '''	s.lck.RLock()
	defer s.lck.RUnlock()
	if m := s.mux; m != nil {
''', '''	if m, _ := s.mux.Load().(*http.ServeMux); m != nil {
'''), (W, '''	s.lck.Lock()
	defer s.lck.Unlock()
	s.mux = m
''', '	s.mux.Store(m)\n'), (W, '	"sync"\n', '	"sync/atomic"\n')]),
 ("c12-keep-atomic-pointer", "C12", "silent", [(A, 'func Setup(', 'var searchesServed int64\n\nfunc Setup('), (A, '		query := r.FormValue("q")\n', '		query := r.FormValue("q")\n		atomic.AddInt64(&searchesServed, 1)\n'), (A, '	"strings"\n', '	"strings"\n	"sync/atomic"\n')]),
 ("c12-keep-wait-group", "C12", "silent", [(A, GO, '''		wg.Add(1)
		go func(repo string) {
			defer wg.Done()
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
'''), (A, '	ch := make(chan *searchResponse, n)\n', '	ch := make(chan *searchResponse, n)\n	var wg sync.WaitGroup\n'), (A, '	res := map[string]*index.SearchResponse{}\n	for i', '	wg.Wait()\n	res := map[string]*index.SearchResponse{}\n	for i'), (A, '	"strings"\n', '	"strings"\n	"sync"\n')]),
 ("c12-keep-mutex-map", "C12", "silent", [(A, '	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {\n', '	var lck sync.Mutex\n	cache := map[string]int{}\n	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {\n'),
    (A, '		res := searcher.GetExcludedFiles()\n', '		lck.Lock()\n		cache[repo]++\n		lck.Unlock()\n		res := searcher.GetExcludedFiles()\n'), (A, '	"strings"\n', '	"strings"\n	"sync"\n')]),
 ("c12-keep-once", "C12", "silent", [(A, '	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {\n', '	var once sync.Once\n	var banner string\n	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {\n		once.Do(func() { banner = "No such repository" })\n'),
    (A, '		res := searcher.GetExcludedFiles()\n', '		res := searcher.GetExcludedFiles()\n		log.Print(banner)\n'), (A, '	"strings"\n', '	"strings"\n	"sync"\n')]),
 ("c12-keep-loop-copy", "C12", "silent", [(A, GO, '''		repo := repo
		go func() {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}()
''')]),
 ("c12-keep-named-goroutine", "C12", "silent", [(A, GO, '''		go searchOne(repo, idx[repo], query, opts, ch)
'''), (A, '/**\n * Searches all repos in parallel.', '''func searchOne(repo string, s *searcher.Searcher, query string, opts *index.SearchOptions, ch chan<- *searchResponse) {
	fms, err := s.Search(query, opts)
	ch <- &searchResponse{repo, fms, err}
}

/**
 * Searches all repos in parallel.''')]),
 ("c12-keep-indexed-results", "C12", "silent", [(A, '''	ch := make(chan *searchResponse, n)
	for _, repo := range repos {
''' + GO + '''	}

	res := map[string]*index.SearchResponse{}
	for i := 0; i < n; i++ {
		r := <-ch
''', '''	all := make([]*searchResponse, n)
	var wg sync.WaitGroup
	wg.Add(n)
	for i, repo := range repos {
		go func(i int, repo string) {
			defer wg.Done()
			fms, err := idx[repo].Search(query, opts)
			all[i] = &searchResponse{repo, fms, err}
		}(i, repo)
	}
	wg.Wait()

	res := map[string]*index.SearchResponse{}
	for i := 0; i < n; i++ {
		r := all[i]
'''), (A, '	"strings"\n', '	"strings"\n	"sync"\n')]),
 ("c12-keep-options-by-value", "C12", "silent", [(I, '	patForRe := pat\n', '	o := *opt\n	if o.MaxResults < 0 {\n		o.MaxResults = 0\n	}\n	opt = &o\n	patForRe := pat\n')]),
 ("c12-keep-poller-method", "C12", "silent", [(S, '''	go func() {

		// each searcher's poller is held''', '''	poll := func() {

		// each searcher's poller is held'''), (S, '''			reportOnMemory()
		}
	}()
''', '''			reportOnMemory()
		}
	}
	go poll()
''')]),
 ("c12-keep-searcher-counter", "C12", "silent", [(S, '	idx  *index.Index\n', '	idx  *index.Index\n	polls int\n'), (S, '	repo := s.Repo\n	newRev', '	s.polls++\n	log.Printf("%d polls so far", s.polls)\n	repo := s.Repo\n	newRev')]),
 ("c12-keep-config-before-start", "C12", "silent", [(M, '	ws := web.Start(&cfg, *flagAddr, *flagDev)\n', '	cfg.HealthCheckURI = "/ok"\n	ws := web.Start(&cfg, *flagAddr, *flagDev)\n')]),
 ("c12-keep-claim-split", "C12", "silent", [(S, CL + '''			r.claimed[ref] = true
			return ref
		}
	}
	return nil
''', '''	r.lock.Lock()
	defer r.lock.Unlock()
	ref := r.find(url, rev, opt)
	if ref != nil {
		r.claimed[ref] = true
	}
	return ref
}

func (r *foundRefs) find(url, rev string, opt *index.IndexOptions) *index.IndexRef {
	for _, ref := range r.refs {
		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
			return ref
		}
	}
	return nil
''')]),
 ("c12-keep-embedded-lock", "C12", "silent", [(W, '	lck sync.RWMutex\n', '	sync.RWMutex\n'), (W, '	s.lck.RLock()\n	defer s.lck.RUnlock()\n', '	s.RLock()\n	defer s.RUnlock()\n'), (W, '	s.lck.Lock()\n	defer s.lck.Unlock()\n', '	s.Lock()\n	defer s.Unlock()\n')]),
 ("c12-keep-lock-pointer", "C12", "silent", [(W, '	s.lck.RLock()\n	defer s.lck.RUnlock()\n', '	l := &s.lck\n	l.RLock()\n	defer l.RUnlock()\n')]),
 ("c12-keep-defer-func", "C12", "silent", [(W, '	s.lck.RLock()\n	defer s.lck.RUnlock()\n', '	s.lck.RLock()\n	defer func() {\n		s.lck.RUnlock()\n	}()\n')]),
 ("c12-keep-pool", "C12", "silent", [(I, '	var (\n		g                grepper\n', '	g := greppers.Get().(*grepper)\n	defer greppers.Put(g)\n	var (\n'), (I, 'func (n *Index) Search(', 'var greppers = sync.Pool{New: func() interface{} { return new(grepper) }}\n\nfunc (n *Index) Search(')]),
 ("c12-keep-handler-type", "C12", "silent", [(A, '''	m.HandleFunc("/api/v1/repos", func(w http.ResponseWriter, r *http.Request) {
		res := map[string]*config.Repo{}
		for name, srch := range idx {
			res[name] = srch.Repo
		}

		writeResp(w, res)
	})
''', '''	m.Handle("/api/v1/repos", &reposHandler{idx})
'''), (A, 'func Setup(', '''type reposHandler struct {
	idx map[string]*searcher.Searcher
}

func (h *reposHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	res := map[string]*config.Repo{}
	for name, srch := range h.idx {
		res[name] = srch.Repo
	}

	writeResp(w, res)
}

func Setup(''')]),
 ("c12-keep-middleware", "C12", "silent", [(A, '	m.HandleFunc("/api/v1/repos", func(w http.ResponseWriter, r *http.Request) {', '	logged := func(h http.HandlerFunc) http.HandlerFunc {\n		return func(w http.ResponseWriter, r *http.Request) {\n			started := time.Now()\n			h(w, r)\n			log.Printf("%s %s", r.URL.Path, time.Since(started))\n		}\n	}\n	m.HandleFunc("/api/v1/about", logged(func(w http.ResponseWriter, r *http.Request) {\n		writeResp(w, map[string]string{"Name": "hound"})\n	}))\n	m.HandleFunc("/api/v1/repos", func(w http.ResponseWriter, r *http.Request) {')]),
 # matchers
 ("c19-regexp-cache-global", "C19", "fire", [(I, '	re, err := regexp.Compile(GetRegexpPattern(patForRe, opt.IgnoreCase))\n	if err != nil {\n		return nil, err\n	}\n', '''	re, err := compiled(GetRegexpPattern(patForRe, opt.IgnoreCase))
	if err != nil {
		return nil, err
	}
'''), (I, 'func (n *Index) Search(', '''var (
	patLck sync.Mutex
	pats   = map[string]*regexp.Regexp{}
)

func compiled(pat string) (*regexp.Regexp, error) {
	patLck.Lock()
	defer patLck.Unlock()
	if re := pats[pat]; re != nil {
		return re, nil
	}
	re, err := regexp.Compile(pat)
	if err == nil {
		pats[pat] = re
	}
	return re, err
}

func (n *Index) Search(''')]),
 ("c19-regexp-cache-syncmap", "C19", "fire", [(I, '	re, err := regexp.Compile(GetRegexpPattern(patForRe, opt.IgnoreCase))\n	if err != nil {\n		return nil, err\n	}\n', '''	re, err := compiled(GetRegexpPattern(patForRe, opt.IgnoreCase))
	if err != nil {
		return nil, err
	}
'''), (I, 'func (n *Index) Search(', '''var pats sync.Map

func compiled(pat string) (*regexp.Regexp, error) {
	if re, ok := pats.Load(pat); ok {
		return re.(*regexp.Regexp), nil
	}
	re, err := regexp.Compile(pat)
	if err == nil {
		pats.Store(pat, re)
	}
	return re, err
}

func (n *Index) Search(''')]),
 ("c19-regexp-in-options", "C19", "fire", [(I, 'type SearchOptions struct {\n', 'type SearchOptions struct {\n	File *regexp.Regexp `json:"-"`\n'), (I, '	if opt.FileRegexp != "" {\n', '	if opt.File != nil {\n		fre = opt.File\n	} else if opt.FileRegexp != "" {\n'),
    (A, '		results, err := searchAll(query, &opt,', '		opt.File, _ = regexp.Compile(opt.FileRegexp)\n		results, err := searchAll(query, &opt,'), (A, '	"github.com/hound-search/hound/config"\n', '	"github.com/hound-search/hound/codesearch/regexp"\n	"github.com/hound-search/hound/config"\n')]),
 ("c19-regexp-in-index", "C19", "fire", [(I, '	idx *index.Index\n', '	idx *index.Index\n	hidden *regexp.Regexp\n'), (I, '		idx: index.Open(filepath.Join(r.dir, "tri")),\n	}, nil\n', '		idx: index.Open(filepath.Join(r.dir, "tri")),\n		hidden: hidden(),\n	}, nil\n'), (I, 'func (r *IndexRef) Remove', 'func hidden() *regexp.Regexp {\n	re, _ := regexp.Compile("^[.]")\n	return re\n}\n\nfunc (r *IndexRef) Remove'), (I, '		// reject files that do not match the file pattern\n', '		if n.hidden.MatchString(name, true, true) >= 0 {\n			continue\n		}\n\n		// reject files that do not match the file pattern\n')]),
 ("c19-regexp-global", "C19", "fire", [(I, 'func (n *Index) Search(', 'var hidden, _ = regexp.Compile("^[.]")\n\nfunc (n *Index) Search('), (I, '		// reject files that do not match the file pattern\n', '		if hidden.MatchString(name, true, true) >= 0 {\n			continue\n		}\n\n		// reject files that do not match the file pattern\n')]),
 ("c19-query-implies", "C19", "fire", [(Q, '	if q.Op == QNone || r.Op == QAll {\n', '	if q.Op == QNone && r.Op == QAll {\n')]),
 ("c19-query-early", "C19", "fire", [(Q, IMP, '''	if q.implies(r) && op == QAnd {
		return q
	}
''')]),
 ("c19-keep-query-true", "C19", "silent", [(Q, '	if q.Op == QAll || r.Op == QNone {\n', '	if q.Op == QAll {\n'), ]),
 ("c19-query-global", "C19", "fire", [(Q, 'var noneQuery = &Query{Op: QNone}\n', 'var noneQuery = &Query{Op: QNone}\nvar emptyQuery = &Query{Op: QOr}\n'), (Q, '	or := noneQuery\n	for _, tt', '	or := emptyQuery\n	for _, tt')]),
 ("c19-query-cache", "C19", "fire", [(I, '	files := n.idx.PostingQuery(index.RegexpQuery(re.Syntax))\n', '	q := index.RegexpQuery(re.Syntax)\n	index.Last = q\n	files := n.idx.PostingQuery(q)\n'), (Q, 'var noneQuery', 'var Last *Query\n\nvar noneQuery')]),
 ("c19-state-partial", "C19", "fire", [(X, "		if i != '\\n' {\n", "		if i != '\\n' && i < 0x80 {\n")]),
 ("c19-state-newline", "C19", "fire", [(X, '	matchNL:  true,\n', '')]),
 ("c19-posting-buffer", "C19", "fire", [(R, 'type Index struct {\n', 'type Index struct {\n	buf []uint32\n'), (R, 'func (ix *Index) postingList(trigram uint32, restrict []uint32) []uint32 {\n', 'func (ix *Index) postingList(trigram uint32, restrict []uint32) []uint32 {\n	ix.buf = ix.buf[:0]\n')]),
 ("c19-post-count", "C19", "fire", [(R, 'func (ix *Index) findList(trigram uint32)', 'var lookups int\n\nfunc (ix *Index) findList(trigram uint32)'), (R, '  // binary search\n', '  lookups++\n')]),
 ("c19-keep-compile-helper", "C19", "silent", [(I, '	var fre *regexp.Regexp\n	if opt.FileRegexp != "" {\n		fre, err = regexp.Compile(opt.FileRegexp)\n		if err != nil {\n			return nil, err\n		}\n	}\n', '	fre, err := optional(opt.FileRegexp)\n	if err != nil {\n		return nil, err\n	}\n'), (I, 'func (n *Index) Search(', '''func optional(pat string) (*regexp.Regexp, error) {
	if pat == "" {
		return nil, nil
	}
	return regexp.Compile(pat)
}

func (n *Index) Search(''')]),
 ("c19-keep-implies-switch", "C19", "silent", [(Q, '''	if q.Op == QNone || r.Op == QAll {
		// False implies everything.
		// Everything implies True.
		return true
	}
	if q.Op == QAll || r.Op == QNone {
''', '''	switch {
	case q.Op == QNone, r.Op == QAll:
		// False implies everything.
		// Everything implies True.
		return true
	case q.Op == QAll, r.Op == QNone:
''')]),
 ("c19-keep-merge-helper", "C19", "silent", [(Q, '''	if q.Op == op {
		q.Sub = append(q.Sub, r)
		return q
	}
	if r.Op == op {
		r.Sub = append(r.Sub, q)
		return r
	}
''', '''	if q.Op == op {
		return q.with(r)
	}
	if r.Op == op {
		return r.with(q)
	}
'''), (Q, '// implies reports whether', '''func (q *Query) with(r *Query) *Query {
	q.Sub = append(q.Sub, r)
	return q
}

// implies reports whether''')]),
 ("c19-keep-factor-helper", "C19", "silent", [(Q, '''	// We are creating an AND of ORs or an OR of ANDs.
	// Factor out common trigrams, if any.
''', '''	return q.factor(r, op)
}

func (q *Query) factor(r *Query, op QueryOp) *Query {
	// We are creating an AND of ORs or an OR of ANDs.
	// Factor out common trigrams, if any.
''')]),
 ("c19-keep-step", "C19", "silent", [(X, '''		d1 := d.next[c]
		if d1 == nil {
			if c == '\\n' {
				if d.matchNL {
					return i
				}
				d1 = m.startLine
			} else {
				d1 = m.computeNext(d, int(c))
			}
			d.next[c] = d1
		}
		d = d1
		//		m.z1.dec(d.enc)
		//		fmt.Printf("%#U: %v (%v, %v, %v)\\n", c, &m.z1, d==&dmatch, d.matchNL, d.matchEOT)
	}
	if d.matchNL || endText && d.matchEOT {
		return len(b)
	}
	return -1
}

func (m *matcher) matchString''', '''		d1 := m.step(d, c)
		if d1 == nil {
			return i
		}
		d = d1
	}
	if d.matchNL || endText && d.matchEOT {
		return len(b)
	}
	return -1
}

func (m *matcher) step(d *dstate, c byte) *dstate {
	d1 := d.next[c]
	if d1 != nil {
		return d1
	}
	if c != '\\n' {
		d1 = m.computeNext(d, int(c))
	} else if d.matchNL {
		return nil
	} else {
		d1 = m.startLine
	}
	d.next[c] = d1
	return d1
}

func (m *matcher) matchString''')]),
 ("c19-keep-fill", "C19", "silent", [(X, "		if i != '\\n' {\n			dmatch.next[i] = &dmatch\n		}\n", "		if i == '\\n' {\n			continue\n		}\n		dmatch.next[i] = &dmatch\n")]),
 ("c19-keep-regexp-lock", "C19", "silent", [(I, '	idx *index.Index\n', '	idx *index.Index\n	hlck sync.Mutex\n	hidden *regexp.Regexp\n'), (I, '		idx: index.Open(filepath.Join(r.dir, "tri")),\n	}, nil\n', '		idx: index.Open(filepath.Join(r.dir, "tri")),\n		hidden: hidden(),\n	}, nil\n'), (I, 'func (r *IndexRef) Remove', 'func hidden() *regexp.Regexp {\n	re, _ := regexp.Compile("^[.]")\n	return re\n}\n\nfunc (n *Index) isHidden(name string) bool {\n	n.hlck.Lock()\n	defer n.hlck.Unlock()\n	return n.hidden.MatchString(name, true, true) >= 0\n}\n\nfunc (r *IndexRef) Remove'), (I, '		// reject files that do not match the file pattern\n', '		if n.isHidden(name) {\n			continue\n		}\n\n		// reject files that do not match the file pattern\n')]),
]
