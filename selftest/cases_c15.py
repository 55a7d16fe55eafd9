W = "web/web.go"
A = "api/api.go"
M = "cmds/houndd/main.go"
HC = '''	if r.URL.Path == s.cfg.HealthCheckURI {
		fmt.Fprintln(w, "👍")
		return
	}

	s.lck.RLock()
	defer s.lck.RUnlock()
	if m := s.mux; m != nil {
		m.ServeHTTP(w, r)
	} else {
		http.Error(w,
			"Hound is not ready.",
			http.StatusServiceUnavailable)
	}
'''
def body(new): return (W, HC, new)
CASES = [
 ("c15-health-after-lock", "C15", "fire", [body('''	s.lck.RLock()
	defer s.lck.RUnlock()
	if r.URL.Path == s.cfg.HealthCheckURI {
		fmt.Fprintln(w, "👍")
		return
	}

	if m := s.mux; m != nil {
		m.ServeHTTP(w, r)
	} else {
		http.Error(w,
			"Hound is not ready.",
			http.StatusServiceUnavailable)
	}
''')]),
 ("c15-health-only-unready", "C15", "fire", [body('''	s.lck.RLock()
	defer s.lck.RUnlock()
	if m := s.mux; m != nil {
		m.ServeHTTP(w, r)
	} else if r.URL.Path == s.cfg.HealthCheckURI {
		fmt.Fprintln(w, "ok")
	} else {
		http.Error(w,
			"Hound is not ready.",
			http.StatusServiceUnavailable)
	}
''')]),
 ("c15-health-requesturi", "C15", "fire", [(W, 'r.URL.Path == s', 'r.RequestURI == s')]),
 ("c15-health-prefix", "C15", "fire", [(W, 'if r.URL.Path == s.cfg.HealthCheckURI {', 'if strings.HasSuffix(r.URL.Path, s.cfg.HealthCheckURI) {'), (W, '	"net/http"\n', '	"net/http"\n	"strings"\n')]),
 ("c15-health-503-unready", "C15", "fire", [(W, '		fmt.Fprintln(w, "👍")\n', '		if s.mux == nil {\n			w.WriteHeader(http.StatusServiceUnavailable)\n		}\n		fmt.Fprintln(w, "👍")\n')]),
 ("c15-health-204", "C15", "fire", [(W, '		fmt.Fprintln(w, "👍")\n', '		w.WriteHeader(http.StatusNoContent)\n		fmt.Fprintln(w)\n')]),
 ("c15-no-return", "C15", "fire", [(W, '		fmt.Fprintln(w, "👍")\n		return\n', '		fmt.Fprintln(w, "👍")\n')]),
 ("c15-404", "C15", "fire", [(W, 'http.StatusServiceUnavailable)', 'http.StatusNotFound)')]),
 ("c15-200", "C15", "fire", [(W, '''		http.Error(w,
			"Hound is not ready.",
			http.StatusServiceUnavailable)
''', '		fmt.Fprintln(w, "Hound is not ready.")\n')]),
 ("c15-order-status", "C15", "fire", [(W, '''		http.Error(w,
			"Hound is not ready.",
			http.StatusServiceUnavailable)
''', '		fmt.Fprintln(w, "Hound is not ready.")\n		w.WriteHeader(http.StatusServiceUnavailable)\n')]),
 ("c15-nil-mux", "C15", "fire", [(W, '''	if m := s.mux; m != nil {
		m.ServeHTTP(w, r)
	} else {''', '''	if m := s.mux; m != nil || s.dev {
		m.ServeHTTP(w, r)
	} else {''')]),
 ("c15-default-mux", "C15", "fire", [(W, '''		http.Error(w,
			"Hound is not ready.",
			http.StatusServiceUnavailable)
''', '		http.DefaultServeMux.ServeHTTP(w, r)\n')]),
 ("c15-no-rlock", "C15", "fire", [(W, '	s.lck.RLock()\n	defer s.lck.RUnlock()\n', '')]),
 ("c15-rlock-kept", "C15", "fire", [(W, '	s.lck.RLock()\n	defer s.lck.RUnlock()\n	if m := s.mux; m != nil {\n		m.ServeHTTP(w, r)\n', '	s.lck.RLock()\n	if m := s.mux; m != nil {\n		s.lck.RUnlock()\n		m.ServeHTTP(w, r)\n')]),
 ("c15-double-read", "C15", "fire", [(W, '	s.lck.RLock()\n	defer s.lck.RUnlock()\n	if m := s.mux; m != nil {\n', '	s.lck.RLock()\n	ok := s.mux != nil\n	s.lck.RUnlock()\n	if m := s.mux; ok {\n')]),
 ("c15-wait-ready", "C15", "fire", [(W, '	s.lck.RLock()\n	defer s.lck.RUnlock()\n	if m', '	<-s.ch\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n	if m')]),
 ("c15-install-unlocked", "C15", "fire", [(W, '	s.lck.Lock()\n	defer s.lck.Unlock()\n', '')]),
 ("c15-install-rlock", "C15", "fire", [(W, '	s.lck.Lock()\n	defer s.lck.Unlock()\n', '	s.lck.RLock()\n	defer s.lck.RUnlock()\n')]),
 ("c15-install-early", "C15", "fire", [(W, '	m.Handle("/", h)\n	api.Setup(m, idx, s.cfg.ResultLimit)\n\n	s.serveWith(m)\n', '	s.serveWith(m)\n\n	m.Handle("/", h)\n	api.Setup(m, idx, s.cfg.ResultLimit)\n')]),
 ("c15-install-ui-first", "C15", "fire", [(W, '	api.Setup(m, idx, s.cfg.ResultLimit)\n\n	s.serveWith(m)\n', '	s.serveWith(m)\n\n	api.Setup(m, idx, s.cfg.ResultLimit)\n')]),
 ("c15-no-ui", "C15", "fire", [(W, '	m.Handle("/", h)\n', '	m.Handle("/ui/", h)\n')]),
 ("c15-ui-err", "C15", "fire", [(W, '	if err != nil {\n		return err\n	}\n\n	m := http', '	if err != nil {\n		fmt.Println(err)\n	}\n\n	m := http')]),
 ("c15-other-idx", "C15", "fire", [(W, 'api.Setup(m, idx,', 'api.Setup(m, map[string]*searcher.Searcher{},')]),
 ("c15-never-installed", "C15", "fire", [(W, '	s.serveWith(m)\n\n', '	if s.dev {\n		s.serveWith(m)\n	}\n\n')]),
 ("c15-end-lost", "C15", "fire", [(W, '	return <-s.ch\n', '	<-s.ch\n	return nil\n')]),
 ("c15-end-dropped", "C15", "fire", [(W, '		ch <- http.ListenAndServe(addr, s)\n', '		if err := http.ListenAndServe(addr, s); err == nil {\n			ch <- err\n		}\n')]),
 ("c15-listen-sync", "C15", "fire", [(W, '	go func() {\n		ch <- http.ListenAndServe(addr, s)\n	}()\n', '	ch <- http.ListenAndServe(addr, s)\n')]),
 ("c15-other-handler", "C15", "fire", [(W, 'http.ListenAndServe(addr, s)', 'http.ListenAndServe(addr, nil)')]),
 ("c15-other-server", "C15", "fire", [(W, '	return s\n}', '	return &Server{cfg: cfg, dev: dev, ch: ch}\n}')]),
 ("c15-other-addr", "C15", "fire", [(W, 'http.ListenAndServe(addr, s)', 'http.ListenAndServe(":6080", s)')]),
 ("c15-cfg-lost", "C15", "fire", [(W, '		cfg: cfg,\n', '		cfg: &config.Config{},\n')]),
 ("c15-other-chan", "C15", "fire", [(W, '		ch:  ch,\n', '		ch:  make(chan error),\n')]),
 ("c15-enabled-from-start", "C15", "fire", [(W, '		ch:  ch,\n', '		ch:  ch,\n		mux: http.NewServeMux(),\n')]),
 ("c15-index-first", "C15", "fire", [(M, '	ws := web.Start(&cfg, *flagAddr, *flagDev)\n', ''), (M, '	if !ok {\n		info_log.Println("Some repos failed to index, see output above")', '	ws := web.Start(&cfg, *flagAddr, *flagDev)\n	if !ok {\n		info_log.Println("Some repos failed to index, see output above")')]),
 ("c15-err-enabled", "C15", "fire", [(M, '	if err != nil {\n		log.Panic(err)\n	}\n	if !ok', '	if err != nil {\n		error_log.Println(err)\n	}\n	if !ok')]),
 ("c15-swapped", "C15", "fire", [(A, '"/api/v1/excludes"', '"/api/v1/xx"'), (A, '"/api/v1/update"', '"/api/v1/excludes"'), (A, '"/api/v1/xx"', '"/api/v1/update"')]),
 ("c15-renamed", "C15", "fire", [(A, '"/api/v1/github-webhook"', '"/api/v1/webhook"')]),
 # refactorings
 ("c15-keep-early", "C15", "silent", [body('''	if s.cfg.HealthCheckURI == r.URL.Path {
		io.WriteString(w, "👍\\n")
		return
	}

	m := s.current()
	if m == nil {
		w.WriteHeader(http.StatusServiceUnavailable)
		fmt.Fprintln(w, "Hound is not ready.")
		return
	}
	m.ServeHTTP(w, r)
'''), (W, 'func (s *Server) serveWith', 'func (s *Server) current() *http.ServeMux {\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n	return s.mux\n}\n\nfunc (s *Server) serveWith'), (W, '	"fmt"\n', '	"fmt"\n	"io"\n')]),
 ("c15-keep-switch", "C15", "silent", [body('''	switch r.URL.Path {
	case s.cfg.HealthCheckURI:
		s.healthy(w)
	default:
		s.lck.RLock()
		m := s.mux
		s.lck.RUnlock()
		if m != nil {
			m.ServeHTTP(w, r)
			return
		}
		s.refuse(w)
	}
'''), (W, 'func (s *Server) serveWith', '''func (s *Server) healthy(w http.ResponseWriter) {
	fmt.Fprintln(w, "👍")
}

func (s *Server) refuse(w http.ResponseWriter) {
	http.Error(w, "Hound is not ready.", http.StatusServiceUnavailable)
}

func (s *Server) serveWith''')]),
 ("c15-keep-atomic", "C15", "silent", [body('''	if r.URL.Path == s.cfg.HealthCheckURI {
		fmt.Fprintln(w, "👍")
		return
	}

	if m := s.mux.Load(); m != nil {
		m.ServeHTTP(w, r)
	} else {
		http.Error(w,
			"Hound is not ready.",
			http.StatusServiceUnavailable)
	}
'''), (W, '	mux *http.ServeMux\n	lck sync.RWMutex\n', '	mux atomicMux\n'), (W, '	s.lck.Lock()\n	defer s.lck.Unlock()\n	s.mux = m\n', '	s.mux.Store(m)\n'), (W, '	"sync"\n', '	"sync/atomic"\n'), (W, 'type Server struct', 'type atomicMux = atomic.Pointer[http.ServeMux]\n\ntype Server struct'), ("go.mod", "go 1.16", "go 1.21")]),
 ("c15-keep-handler-iface", "C15", "silent", [(W, '	mux *http.ServeMux\n', '	mux http.Handler\n')]),
 ("c15-keep-order", "C15", "silent", [(W, '	m.Handle("/", h)\n	api.Setup(m, idx, s.cfg.ResultLimit)\n', '	api.Setup(m, idx, s.cfg.ResultLimit)\n	m.Handle("/", h)\n')]),
 ("c15-keep-helper", "C15", "silent", [(W, '''	h, err := ui.Content(s.dev, s.cfg)
	if err != nil {
		return err
	}

	m := http.NewServeMux()
	m.Handle("/", h)
	api.Setup(m, idx, s.cfg.ResultLimit)

	s.serveWith(m)
''', '''	m, err := s.routes(idx)
	if err != nil {
		return err
	}
	s.serveWith(m)
'''), (W, 'func (s *Server) serveWith', '''func (s *Server) routes(idx map[string]*searcher.Searcher) (*http.ServeMux, error) {
	h, err := ui.Content(s.dev, s.cfg)
	if err != nil {
		return nil, err
	}

	m := http.NewServeMux()
	m.Handle("/", h)
	api.Setup(m, idx, s.cfg.ResultLimit)
	return m, nil
}

func (s *Server) serveWith''')]),
 ("c15-keep-listen-method", "C15", "silent", [(W, '	go func() {\n		ch <- http.ListenAndServe(addr, s)\n	}()\n', '	go s.listen(addr)\n'), (W, 'func (s *Server) serveWith', 'func (s *Server) listen(addr string) {\n	err := http.ListenAndServe(addr, s)\n	s.ch <- err\n}\n\nfunc (s *Server) serveWith')]),
 ("c15-keep-server", "C15", "silent", [(W, '		ch <- http.ListenAndServe(addr, s)\n', '		srv := &http.Server{Addr: addr, Handler: s}\n		ch <- srv.ListenAndServe()\n')]),
 ("c15-keep-buffered", "C15", "silent", [(W, 'make(chan error)', 'make(chan error, 1)'), (W, '	return <-s.ch\n', '	err = <-s.ch\n	return err\n')]),
 ("c15-keep-table", "C15", "silent", [(W, '	m.Handle("/", h)\n', '	m.HandleFunc("/", h.ServeHTTP)\n')]),
 ("c15-keep-main-helper", "C15", "silent", [(M, '		err = webpack.Start()', '		err := webpack.Start()'), (M, '	idx, ok, err := makeSearchers(&cfg)\n	if err != nil {\n		log.Panic(err)\n	}\n', '	idx, ok := mustSearch(&cfg)\n'), (M, 'func main() {', '''func mustSearch(cfg *config.Config) (map[string]*searcher.Searcher, bool) {
	idx, ok, err := makeSearchers(cfg)
	if err != nil {
		log.Panic(err)
	}
	return idx, ok
}

func main() {''')]),
]
