S="searcher/searcher.go";I="index/index.go";A="api/api.go";M="cmds/houndd/main.go";W="web/web.go";C="config/config.go";L="client/client.go";V="vcs/vcs.go";G="vcs/git.go";H="vcs/hg.go";N="vcs/svn.go";U="ui/ui.go";GR="index/grep.go";WR="codesearch/index/write.go";RD="codesearch/index/read.go";AK="client/ack.go";HM="cmds/hound/main.go"
def K(n,*e): return ("rg-"+n,"C01","silent",list(e))
CASES=[
# web
K("web-handler-helper",(W,"	s.lck.RLock()\n	defer s.lck.RUnlock()\n	if m := s.mux; m != nil {\n		m.ServeHTTP(w, r)\n	} else {\n		http.Error(w,\n			\"Hound is not ready.\",\n			http.StatusServiceUnavailable)\n	}\n}","	s.handler().ServeHTTP(w, r)\n}\n\nfunc (s *Server) handler() http.Handler {\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n	if s.mux != nil {\n		return s.mux\n	}\n	return http.HandlerFunc(notReady)\n}\n\nfunc notReady(w http.ResponseWriter, r *http.Request) {\n	http.Error(w,\n		\"Hound is not ready.\",\n		http.StatusServiceUnavailable)\n}")),
K("web-short-lock",(W,"	s.lck.RLock()\n	defer s.lck.RUnlock()\n	if m := s.mux; m != nil {\n		m.ServeHTTP(w, r)\n	} else {","	s.lck.RLock()\n	m := s.mux\n	s.lck.RUnlock()\n\n	if m != nil {\n		m.ServeHTTP(w, r)\n	} else {")),
K("web-invert",(W,"	if m := s.mux; m != nil {\n		m.ServeHTTP(w, r)\n	} else {\n		http.Error(w,\n			\"Hound is not ready.\",\n			http.StatusServiceUnavailable)\n	}","	m := s.mux\n	if m == nil {\n		http.Error(w,\n			\"Hound is not ready.\",\n			http.StatusServiceUnavailable)\n		return\n	}\n	m.ServeHTTP(w, r)")),
K("web-listen-method",(W,"	ch := make(chan error)\n\n	s := &Server{\n		cfg: cfg,\n		dev: dev,\n		ch:  ch,\n	}\n\n	go func() {\n		ch <- http.ListenAndServe(addr, s)\n	}()\n\n	return s\n}","	s := &Server{\n		cfg: cfg,\n		dev: dev,\n		ch:  make(chan error, 1),\n	}\n\n	go s.listen(addr)\n\n	return s\n}\n\nfunc (s *Server) listen(addr string) {\n	s.ch <- http.ListenAndServe(addr, s)\n}")),
K("web-server-struct",(W,"		ch <- http.ListenAndServe(addr, s)","		srv := &http.Server{Addr: addr, Handler: s}\n		ch <- srv.ListenAndServe()")),
K("web-mux-helper",(W,"	h, err := ui.Content(s.dev, s.cfg)\n	if err != nil {\n		return err\n	}\n\n	m := http.NewServeMux()\n	m.Handle(\"/\", h)\n	api.Setup(m, idx, s.cfg.ResultLimit)\n\n	s.serveWith(m)\n","	m, err := s.newMux(idx)\n	if err != nil {\n		return err\n	}\n\n	s.serveWith(m)\n"),(W,"// ServeWithIndex allow","func (s *Server) newMux(idx map[string]*searcher.Searcher) (*http.ServeMux, error) {\n	h, err := ui.Content(s.dev, s.cfg)\n	if err != nil {\n		return nil, err\n	}\n\n	m := http.NewServeMux()\n	api.Setup(m, idx, s.cfg.ResultLimit)\n	m.Handle(\"/\", h)\n	return m, nil\n}\n\n// ServeWithIndex allow")),
K("web-health-helper",(W,"	if r.URL.Path == s.cfg.HealthCheckURI {\n		fmt.Fprintln(w, \"👍\")\n		return\n	}\n","	if s.isHealthCheck(r) {\n		fmt.Fprint(w, \"👍\\n\")\n		return\n	}\n"),(W,"func (s *Server) serveWith","func (s *Server) isHealthCheck(r *http.Request) bool {\n	return r.URL.Path == s.cfg.HealthCheckURI\n}\n\nfunc (s *Server) serveWith")),
# config
K("cfg-default-helpers",(C,"	if r.MsBetweenPolls == 0 {\n		r.MsBetweenPolls = defaultMsBetweenPoll\n	}\n\n	if r.Vcs == \"\" {\n		r.Vcs = defaultVcs\n	}\n","	setInt(&r.MsBetweenPolls, defaultMsBetweenPoll)\n	setString(&r.Vcs, defaultVcs)\n"),(C,"// Populate missing config values with default values.\nfunc initRepo","func setInt(v *int, def int) {\n	if *v == 0 {\n		*v = def\n	}\n}\n\nfunc setString(v *string, def string) {\n	if *v == \"\" {\n		*v = def\n	}\n}\n\n// Populate missing config values with default values.\nfunc initRepo")),
K("cfg-urlpattern-flat",(C,"	if r.UrlPattern == nil {\n		r.UrlPattern = &UrlPattern{\n			BaseUrl: defaultBaseUrl,\n			Anchor:  defaultAnchor,\n		}\n	} else {\n		if r.UrlPattern.BaseUrl == \"\" {\n			r.UrlPattern.BaseUrl = defaultBaseUrl\n		}\n\n		if r.UrlPattern.Anchor == \"\" {\n			r.UrlPattern.Anchor = defaultAnchor\n		}\n	}","	if r.UrlPattern == nil {\n		r.UrlPattern = &UrlPattern{}\n	}\n\n	if p := r.UrlPattern; p.BaseUrl == \"\" {\n		p.BaseUrl = defaultBaseUrl\n	}\n\n	if p := r.UrlPattern; p.Anchor == \"\" {\n		p.Anchor = defaultAnchor\n	}")),
K("cfg-bool-invert",(C,"	if val == nil {\n		return def\n	}\n	return *val","	if val != nil {\n		return *val\n	}\n	return def")),
K("cfg-merge-helper",(C,"		for name, val := range globalVals {\n			if _, ok := repoVals[name]; !ok {\n				repoVals[name] = val\n			}\n		}\n","		addMissing(repoVals, globalVals)\n"),(C,"func (c *Config) LoadFromFile","func addMissing(dst, src map[string]interface{}) {\n	for name, val := range src {\n		if _, ok := dst[name]; ok {\n			continue\n		}\n		dst[name] = val\n	}\n}\n\nfunc (c *Config) LoadFromFile")),
K("cfg-merge-set",(C,"		repoMessage := SecretMessage(repoBytes)\n		repo.VcsConfigMessage = &repoMessage","		repo.setVcsConfig(repoBytes)"),(C,"// Populate missing config values with default values.\nfunc initRepo","func (r *Repo) setVcsConfig(b []byte) {\n	m := SecretMessage(b)\n	r.VcsConfigMessage = &m\n}\n\n// Populate missing config values with default values.\nfunc initRepo")),
K("cfg-merge-newmap",(C,"		for name, val := range globalVals {\n			if _, ok := repoVals[name]; !ok {\n				repoVals[name] = val\n			}\n		}\n\n		repoBytes, err := json.Marshal(&repoVals)","		merged := make(map[string]interface{}, len(globalVals)+len(repoVals))\n		for name, val := range globalVals {\n			merged[name] = val\n		}\n		for name, val := range repoVals {\n			merged[name] = val\n		}\n\n		repoBytes, err := json.Marshal(merged)")),
K("cfg-global-helper",(C,"	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)\n	for vcs, configBytes := range cfg.VCSConfigMessages {\n		var configVals map[string]interface{}\n		if err := json.Unmarshal(*configBytes, &configVals); err != nil {\n			return err\n		}\n\n		globalConfigVals[vcs] = configVals\n	}\n","	globalConfigVals, err := parseGlobals(cfg)\n	if err != nil {\n		return err\n	}\n"),(C,"func mergeVCSConfigs(","func parseGlobals(cfg *Config) (map[string]map[string]interface{}, error) {\n	vals := make(map[string]map[string]interface{}, len(cfg.VCSConfigMessages))\n	for vcs, msg := range cfg.VCSConfigMessages {\n		var v map[string]interface{}\n		if err := json.Unmarshal(*msg, &v); err != nil {\n			return nil, err\n		}\n		vals[vcs] = v\n	}\n	return vals, nil\n}\n\nfunc mergeVCSConfigs(")),
K("cfg-dbpath-helper",(C,"	if !filepath.IsAbs(c.DbPath) {\n		path, err := filepath.Abs(\n			filepath.Join(filepath.Dir(filename), c.DbPath))\n		if err != nil {\n			return err\n		}\n		c.DbPath = path\n	}\n","	if err := c.resolveDbPath(filepath.Dir(filename)); err != nil {\n		return err\n	}\n"),(C,"func (c *Config) LoadFromFile","func (c *Config) resolveDbPath(dir string) error {\n	if filepath.IsAbs(c.DbPath) {\n		return nil\n	}\n	path, err := filepath.Abs(filepath.Join(dir, c.DbPath))\n	if err == nil {\n		c.DbPath = path\n	}\n	return err\n}\n\nfunc (c *Config) LoadFromFile")),
K("cfg-load-decode",(C,"	if err := json.NewDecoder(r).Decode(c); err != nil {\n		return err\n	}\n\n	if c.Title","	dec := json.NewDecoder(r)\n	if err = dec.Decode(c); err != nil {\n		return err\n	}\n\n	if c.Title")),
K("cfg-repos-loop",(C,"	for _, repo := range c.Repos {\n		initRepo(repo)\n	}\n\n	return initConfig(c)","	for name := range c.Repos {\n		repo := c.Repos[name]\n		initRepo(repo)\n	}\n\n	if err := initConfig(c); err != nil {\n		return err\n	}\n	return nil")),
K("cfg-json-var",(C,"	b, err := json.Marshal(c.Repos)\n	if err != nil {\n		return \"\", err\n	}\n\n	return string(b), nil","	var buf bytes.Buffer\n	if err := json.NewEncoder(&buf).Encode(c.Repos); err != nil {\n		return \"\", err\n	}\n\n	return buf.String(), nil"),(C,'import (\n','import (\n	"bytes"\n')),
K("cfg-vcsconfig",(C,"	if r.VcsConfigMessage == nil {\n		return nil\n	}\n	return *r.VcsConfigMessage","	var b []byte\n	if m := r.VcsConfigMessage; m != nil {\n		b = *m\n	}\n	return b")),
K("cfg-unmarshal-append",(C,"	*s = append((*s)[0:0], b...)\n	return nil","	c := make([]byte, len(b))\n	copy(c, b)\n	*s = c\n	return nil")),
# client
K("cl-getjson",(L,"	res, err := doHttpGet(cfg, u)\n	if err != nil {\n		return err\n	}\n	defer res.Body.Close()\n\n	if res.StatusCode != http.StatusOK {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n\n	if err := json.NewDecoder(res.Body).Decode(r); err != nil {\n		return err\n	}\n\n	if r.Error","	if err := getJson(cfg, u, r); err != nil {\n		return err\n	}\n\n	if r.Error"),(L,"	res, err := doHttpGet(cfg, fmt.Sprintf(\"http://%s/api/v1/repos\", cfg.Host))\n	if err != nil {\n		return err\n	}\n	defer res.Body.Close()\n\n	if res.StatusCode != http.StatusOK {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n\n	return json.NewDecoder(res.Body).Decode(&repos)","	return getJson(cfg, fmt.Sprintf(\"http://%s/api/v1/repos\", cfg.Host), &repos)"),(L,"// Executes a search on","func getJson(cfg *Config, uri string, v interface{}) error {\n	res, err := doHttpGet(cfg, uri)\n	if err != nil {\n		return err\n	}\n	defer res.Body.Close()\n\n	if res.StatusCode != http.StatusOK {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n\n	return json.NewDecoder(res.Body).Decode(v)\n}\n\n// Executes a search on")),
K("cl-url-struct",(L,"	u := fmt.Sprintf(\"http://%s/api/v1/search?%s\",\n		cfg.Host,\n		url.Values{","	params := url.Values{"),(L,"			\"stats\": {fmt.Sprintf(\"%t\", stats)},\n		}.Encode())\n","			\"stats\": {fmt.Sprintf(\"%t\", stats)},\n		}\n	u := \"http://\" + cfg.Host + \"/api/v1/search?\" + params.Encode()\n")),
K("cl-strconv",(L,'fmt.Sprintf("%d", context)','strconv.Itoa(context)'),(L,'fmt.Sprintf("%t", ignoreCase)','strconv.FormatBool(ignoreCase)'),(L,'	"regexp"\n	"strings"\n','	"regexp"\n	"strconv"\n	"strings"\n')),
K("cl-values-set",(L,"	u := fmt.Sprintf(\"http://%s/api/v1/search?%s\",\n		cfg.Host,\n		url.Values{\n			\"q\":     {pattern},\n			\"repos\": {repos},\n			\"files\": {files},\n			\"ctx\":   {fmt.Sprintf(\"%d\", context)},\n			\"i\":     {fmt.Sprintf(\"%t\", ignoreCase)},\n			\"stats\": {fmt.Sprintf(\"%t\", stats)},\n		}.Encode())","	params := url.Values{}\n	params.Set(\"q\", pattern)\n	params.Set(\"repos\", repos)\n	params.Set(\"files\", files)\n	params.Set(\"ctx\", fmt.Sprint(context))\n	params.Set(\"i\", fmt.Sprint(ignoreCase))\n	params.Set(\"stats\", fmt.Sprint(stats))\n	u := fmt.Sprintf(\"http://%s/api/v1/search?%s\", cfg.Host, params.Encode())")),
K("cl-waitgroup",(L,"	chs := make(chan error)\n	var res Response\n	go func() {\n		chs <- Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)\n	}()\n\n	chr := make(chan error)\n	rep := map[string]*config.Repo{}\n	go func() {\n		chr <- LoadRepos(rep, cfg)\n	}()\n\n	// must ready both channels before returning to avoid routine/channel leak.\n	errS, errR := <-chs, <-chr\n","	var wg sync.WaitGroup\n	var errS, errR error\n	wg.Add(2)\n\n	var res Response\n	go func() {\n		defer wg.Done()\n		errS = Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)\n	}()\n\n	rep := map[string]*config.Repo{}\n	go func() {\n		defer wg.Done()\n		errR = LoadRepos(rep, cfg)\n	}()\n\n	wg.Wait()\n"),(L,'	"strings"\n','	"strings"\n	"sync"\n')),
K("cl-one-goroutine",(L,"	chs := make(chan error)\n	var res Response\n	go func() {\n		chs <- Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)\n	}()\n\n	chr","	var res Response\n	chr"),(L,"	// must ready both channels before returning to avoid routine/channel leak.\n	errS, errR := <-chs, <-chr\n","	errS := Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)\n	errR := <-chr\n")),
K("cl-host-switch",(L,"		if strings.ToLower(key) == \"host\" {\n			req.Host = val\n		} else {\n			req.Header.Set(key, val)\n		}","		if strings.EqualFold(key, \"host\") {\n			req.Host = val\n			continue\n		}\n		req.Header.Set(key, val)")),
K("cl-name-flat",(L,"	if data.DisplayName != \"\" {\n		return data.DisplayName\n	}\n\n	name := repoNameFromUrl(data.Url)\n	if name == \"\" {\n		return repo\n	}\n\n	return name","	name := data.DisplayName\n	if name == \"\" {\n		name = repoNameFromUrl(data.Url)\n	}\n	if name == \"\" {\n		name = repo\n	}\n	return name")),
K("cl-trimsuffix",(L,"	name := uri[ax+1:]\n	if strings.HasSuffix(name, \".git\") { //nolint\n		name = name[:len(name)-4]\n	}","	name := strings.TrimSuffix(uri[ax+1:], \".git\")")),
K("cl-present-helper",(AK,"			for _, block := range blocks {\n				for i, n := 0, len(block.Lines); i < n; i++ {\n					line := block.Lines[i]\n					hasMatch := block.Matches[i]\n\n					if hasMatch {\n						line = hiliteMatches(c, re, line)\n					}\n\n					if _, err := fmt.Fprintf(p.f, \"%s%s\\n\",\n						lineNumber(c, buf, block.Start+i, hasMatch),\n						line); err != nil {\n						return err\n					}\n				}\n","			for _, block := range blocks {\n				if err := p.presentBlock(c, buf, re, block); err != nil {\n					return err\n				}\n"),(AK,"func NewAckPresenter","func (p *ackPresenter) presentBlock(c *ansi.Colorer, buf *bytes.Buffer, re *regexp.Regexp, block *Block) error {\n	for i, line := range block.Lines {\n		hasMatch := block.Matches[i]\n		if hasMatch {\n			line = hiliteMatches(c, re, line)\n		}\n\n		if _, err := fmt.Fprintf(p.f, \"%s%s\\n\",\n			lineNumber(c, buf, block.Start+i, hasMatch),\n			line); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc NewAckPresenter")),
K("cl-present-direct",(AK,"			blocks := coalesceMatches(file.Matches)\n\n			for _, block := range blocks {","			for _, block := range coalesceMatches(file.Matches) {")),
K("cl-hilite-builder",(AK,"	var buf bytes.Buffer\n	beg := 0\n\n	for _, idx := range idxs {","	var buf strings.Builder\n	beg := 0\n\n	for _, idx := range idxs {"),(AK,'	"regexp"\n','	"regexp"\n	"strings"\n')),
K("hm-run",(HM,"	if err := newPresenter(*flagGrep).Present(reg, *flagContext, repos, res); err != nil {\n		log.Panic(err)\n	}","	p := newPresenter(*flagGrep)\n	err = p.Present(reg, *flagContext, repos, res)\n	if err != nil {\n		log.Fatal(err)\n	}")),
K("hm-config-switch",(HM,"		if os.IsNotExist(err) {\n			continue\n		} else if err != nil {\n			return err\n		}","		if err != nil && !os.IsNotExist(err) {\n			return err\n		}")),
# vcs
K("vcs-exists-short",(V,"	if _, err := os.Stat(path); err != nil {\n		return false\n	}\n	return true","	_, err := os.Stat(path)\n	return err == nil")),
K("vcs-clone-invert",(V,"	if exists(dir) {\n		return w.Pull(dir)\n	}\n	return w.Clone(dir, url)","	if !exists(dir) {\n		return w.Clone(dir, url)\n	}\n	return w.Pull(dir)")),
K("vcs-new-ok",(V,"	f := drivers[name]\n	if f == nil {\n","	f, ok := drivers[name]\n	if !ok {\n")),
K("git-headrev-buffer",(G,'\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n','\tvar buf bytes.Buffer\n\tcmd.Stdout = &buf\n\tif err := cmd.Run(); err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(buf.String()), nil\n')),
K("git-headrev-pipe",(G,'\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n','\tr, err := cmd.StdoutPipe()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\tdefer r.Close()\n\n\tif err := cmd.Start(); err != nil {\n\t\treturn "", err\n\t}\n\n\tvar buf bytes.Buffer\n\n\tif _, err := io.Copy(&buf, r); err != nil {\n\t\tr.Close()\n\t\tcmd.Wait() //nolint\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(buf.String()), cmd.Wait()\n'),(G,'\t"fmt"\n','\t"fmt"\n\t"io"\n')),
K("git-cmd-helper",(G,"	cmd := exec.Command(\n		\"git\",\n		\"rev-parse\",\n		\"HEAD\")\n	cmd.Dir = dir\n	out, err","	cmd := gitCommand(dir, \"rev-parse\", \"HEAD\")\n	out, err"),(G,"func run(","func gitCommand(dir string, args ...string) *exec.Cmd {\n	cmd := exec.Command(\"git\", args...)\n	cmd.Dir = dir\n	return cmd\n}\n\nfunc run(")),
K("git-ref-switch",(G,"	var targetRef string\n	if g.Ref != \"\" {\n		targetRef = g.Ref\n	} else if g.DetectRef {\n		targetRef = g.refDetetector.detectRef(dir)\n	}\n\n	if targetRef == \"\" {\n		targetRef = defaultRef\n	}\n\n	return targetRef","	switch {\n	case g.Ref != \"\":\n		return g.Ref\n	case g.DetectRef:\n		if ref := g.refDetetector.detectRef(dir); ref != \"\" {\n			return ref\n		}\n	}\n	return defaultRef")),
K("git-fetch-helper",(G,"	if _, err := run(\"git fetch\", dir,\n		\"git\",\n		\"fetch\",\n		\"--prune\",\n		\"--no-tags\",\n		\"--depth\", \"1\",\n		\"origin\",\n		fmt.Sprintf(\"+%s:remotes/origin/%s\", targetRef, targetRef)); err != nil {\n		return \"\", err\n	}\n","	if err := fetch(dir, targetRef); err != nil {\n		return \"\", err\n	}\n"),(G,"func (g *GitDriver) Pull","func fetch(dir, ref string) error {\n	refspec := \"+\" + ref + \":remotes/origin/\" + ref\n	_, err := run(\"git fetch\", dir, \"git\", \"fetch\", \"--prune\", \"--no-tags\", \"--depth\", \"1\", \"origin\", refspec)\n	return err\n}\n\nfunc (g *GitDriver) Pull")),
K("git-attr-parse",(G,"	tokens := bytes.Split(out, []byte{0})\n\n	for i := 2; i < len(tokens); i+=3 {\n		if string(tokens[i]) == \"true\" && string(tokens[i-1]) == autoGeneratedAttribute {\n			files = append(files, string(tokens[i-2]))\n		}\n	}\n","	files = parseAttributes(out)\n"),(G,'	"bytes"\n',""),(G,"func (d *headBranchDetector)","func parseAttributes(out []byte) []string {\n	var files []string\n	tokens := strings.Split(string(out), \"\\x00\")\n	for i := 0; i+2 < len(tokens); i += 3 {\n		path, attr, val := tokens[i], tokens[i+1], tokens[i+2]\n		if attr == autoGeneratedAttribute && val == \"true\" {\n			files = append(files, path)\n		}\n	}\n	return files\n}\n\nfunc (d *headBranchDetector)")),
K("git-clone-split",(G,"	par, rep := filepath.Split(dir)\n	cmd := exec.Command(\n		\"git\",\n		\"clone\",\n		\"--depth\", \"1\",\n		url,\n		rep)\n	cmd.Dir = par","	cmd := exec.Command(\n		\"git\",\n		\"clone\",\n		\"--depth\", \"1\",\n		url,\n		filepath.Base(dir))\n	cmd.Dir = filepath.Dir(dir)")),
K("git-detect-regexp",(G,"	if len(matches) != 2 {","	if matches == nil || len(matches) < 2 {")),
K("hg-pull-run",(H,"	cmd := exec.Command(\"hg\", \"pull\", \"-u\")\n	cmd.Dir = dir\n	err := cmd.Run()\n	if err != nil {\n		return \"\", err\n	}\n","	cmd := exec.Command(\"hg\", \"pull\", \"-u\")\n	cmd.Dir = dir\n	if out, err := cmd.CombinedOutput(); err != nil {\n		return \"\", fmt.Errorf(\"%v: %s\", err, out)\n	}\n"),(H,'import (\n','import (\n	"fmt"\n')),
# ui
K("ui-parse-helper",(U,"	case \"html\":\n			// Use html/template to parse the html template\n			cnt.tpl, err = html_template.New(cnt.template).Parse(string(a))\n			if err != nil {\n				return nil, err\n			}\n		case \"xml\", \"text\":\n			// Use text/template to parse the xml or text templates\n			// We are using text/template here for parsing xml to keep things\n			// consistent with html/template parsing.\n			cnt.tpl, err = text_template.New(cnt.template).Parse(string(a))\n			if err != nil {\n				return nil, err\n			}\n		default:\n			return nil, errors.New(\"invalid tplType for content\")\n		}\n	}\n","	case \"html\":\n			cnt.tpl, err = html_template.New(cnt.template).Parse(string(a))\n		case \"xml\", \"text\":\n			cnt.tpl, err = text_template.New(cnt.template).Parse(string(a))\n		default:\n			err = errors.New(\"invalid tplType for content\")\n		}\n		if err != nil {\n			return nil, err\n		}\n	}\n")),
K("ui-source-helper",(U,"	var buf bytes.Buffer\n	buf.WriteString(\"<script>\")\n	for _, src := range c.sources {\n		a, err := Asset(src)\n		if err != nil {\n			return err\n		}\n		buf.Write(a)\n	}\n	buf.WriteString(\"</script>\")\n\n	return c.tpl.Execute(w, map[string]interface{}{\n		\"ReactVersion\": ReactVersion,\n		\"ReposAsJson\":  cfgJson,\n		\"Title\":        cfg.Title,\n		\"Source\":       html_template.HTML(buf.String()),\n		\"Host\":         r.Host,\n	})","	src, err := inlineScripts(c.sources)\n	if err != nil {\n		return err\n	}\n\n	vars := map[string]interface{}{\n		\"ReactVersion\": ReactVersion,\n		\"ReposAsJson\":  cfgJson,\n		\"Title\":        cfg.Title,\n		\"Source\":       src,\n		\"Host\":         r.Host,\n	}\n	return c.tpl.Execute(w, vars)"),(U,"// Used for dev-mode only. Det","func inlineScripts(sources []string) (html_template.HTML, error) {\n	var buf bytes.Buffer\n	buf.WriteString(\"<script>\")\n	for _, src := range sources {\n		a, err := Asset(src)\n		if err != nil {\n			return \"\", err\n		}\n		buf.Write(a)\n	}\n	buf.WriteString(\"</script>\")\n	return html_template.HTML(buf.String()), nil\n}\n\n// Used for dev-mode only. Det")),
K("ui-prd-invert",(U,"	ct := h.content[p]\n	if ct != nil {\n		// if so, render it\n		if err := renderForPrd(w, ct, h.cfg, h.cfgJson, r); err != nil {\n			log.Panic(err)\n		}\n		return\n	}\n","	ct, ok := h.content[p]\n	if ok {\n		h.render(w, r, ct)\n		return\n	}\n"),(U,"// Renders a templated asset in prd-mode","func (h *prdHandler) render(w http.ResponseWriter, r *http.Request, ct *content) {\n	if err := renderForPrd(w, ct, h.cfg, h.cfgJson, r); err != nil {\n		log.Panic(err)\n	}\n}\n\n// Renders a templated asset in prd-mode")),
K("ui-buffered",(U,"		if err := renderForPrd(w, ct, h.cfg, h.cfgJson, r); err != nil {\n			log.Panic(err)\n		}\n		return\n","		var buf bytes.Buffer\n		if err := renderForPrd(&buf, ct, h.cfg, h.cfgJson, r); err != nil {\n			log.Panic(err)\n		}\n		w.Write(buf.Bytes()) //nolint\n		return\n")),
# houndd main
K("main-shutdown-helper",(M,"		for _, s := range searchers {\n			s.Stop()\n		}\n\n		for _, s := range searchers {\n			s.Wait()\n		}\n\n		os.Exit(0)\n","		stopAll(searchers)\n		os.Exit(0)\n"),(M,"func registerShutdownSignal","func stopAll(searchers map[string]*searcher.Searcher) {\n	for name := range searchers {\n		searchers[name].Stop()\n	}\n\n	for name := range searchers {\n		searchers[name].Wait()\n	}\n}\n\nfunc registerShutdownSignal")),
K("main-shutdown-named",(M,"	go func() {\n		<-shutdownCh\n","	go waitForShutdown(shutdownCh, searchers)\n}\n\nfunc waitForShutdown(shutdownCh <-chan os.Signal, searchers map[string]*searcher.Searcher) {\n		<-shutdownCh\n"),(M,"		os.Exit(0)\n	}()\n}","		os.Exit(0)\n}")),
K("main-makesearchers-flat",(M,"	if len(errs) > 0 {\n		// NOTE: This mutates the original config so the repos\n		// are not even seen by other code paths.\n		for name, _ := range errs { //nolint\n			delete(cfg.Repos, name)\n		}\n\n		return searchers, false, nil\n	}\n\n	return searchers, true, nil","	for name := range errs {\n		delete(cfg.Repos, name)\n	}\n\n	return searchers, len(errs) == 0, nil")),
K("main-mkdir",(M,"	if _, err := os.Stat(cfg.DbPath); err != nil {\n		if err := os.MkdirAll(cfg.DbPath, os.ModePerm); err != nil {\n			return nil, false, err\n		}\n	}\n","	if err := os.MkdirAll(cfg.DbPath, os.ModePerm); err != nil {\n		return nil, false, err\n	}\n")),
K("main-serve-var",(M,"	panic(ws.ServeWithIndex(idx))","	if err := ws.ServeWithIndex(idx); err != nil {\n		log.Panic(err)\n	}")),
K("main-run-split",(M,"	// Start the web server on a background routine.\n","	run(&cfg, *flagAddr, *flagDev)\n}\n\nfunc run(cfg *config.Config, addr string, dev bool) {\n	flagAddr, flagDev := &addr, &dev\n\n	// Start the web server on a background routine.\n"),(M,"web.Start(&cfg,","web.Start(cfg,"),(M,"makeSearchers(&cfg)","makeSearchers(cfg)")),
# codesearch writer
K("wr-skip-helper",(WR,"			skipReason = \"Invalid UTF-8\"\n			if ix.LogSkip {\n				log.Printf(\"%s: %s\\n\", name, skipReason)\n			}\n			return skipReason","			return ix.skip(name, \"Invalid UTF-8\")"),(WR,"			skipReason = \"Too long\"\n			if ix.LogSkip {\n				log.Printf(\"%s: %s\\n\", name, skipReason)\n			}\n			return skipReason","			return ix.skip(name, \"Too long\")"),(WR,"// Flush flushes","func (ix *IndexWriter) skip(name, reason string) string {\n	if ix.LogSkip {\n		log.Printf(\"%s: %s\\n\", name, reason)\n	}\n	return reason\n}\n\n// Flush flushes")),
K("wr-post-helper",(WR,"	for _, trigram := range ix.trigram.Dense() {\n		if len(ix.post) >= cap(ix.post) {\n			ix.flushPost()\n		}\n		ix.post = append(ix.post, makePostEntry(trigram, fileid))\n	}\n","	dense := ix.trigram.Dense()\n	for i := range dense {\n		ix.addPost(makePostEntry(dense[i], fileid))\n	}\n"),(WR,"// Flush flushes","func (ix *IndexWriter) addPost(e postEntry) {\n	if len(ix.post) == cap(ix.post) {\n		ix.flushPost()\n	}\n	ix.post = append(ix.post, e)\n}\n\n// Flush flushes")),
K("wr-offsets",(WR,"	for _, v := range off {\n		ix.main.writeUint32(v)\n	}","	for i := 0; i < len(off); i++ {\n		ix.main.writeUint32(off[i])\n	}")),
K("wr-reserve",(WR,"func (b *bufWriter) writeTrigram(t uint32) {\n	if cap(b.buf)-len(b.buf) < 3 {\n		b.flush()\n	}\n","func (b *bufWriter) reserve(n int) {\n	if cap(b.buf)-len(b.buf) < n {\n		b.flush()\n	}\n}\n\nfunc (b *bufWriter) writeTrigram(t uint32) {\n	b.reserve(3)\n"),(WR,"	if cap(b.buf)-len(b.buf) < 4 {\n		b.flush()\n	}\n","	b.reserve(4)\n"),(WR,"	if cap(b.buf)-len(b.buf) < 5 {\n		b.flush()\n	}\n","	b.reserve(5)\n")),
K("wr-copy-err",(WR,"	_, err := io.Copy(dst.file, src.finish())\n	if err != nil {","	if _, err := io.Copy(dst.file, src.finish()); err != nil {")),
K("wr-flush-write",(WR,"	if n, err := w.Write(data); err != nil || n < len(data) {\n		if err != nil {\n			fail(\"%v\", err)\n		}\n		fail(\"short write writing %s\", w.Name())\n	}\n","	n, err := w.Write(data)\n	if err != nil {\n		fail(\"%v\", err)\n	}\n	if n < len(data) {\n		fail(\"short write writing %s\", w.Name())\n	}\n")),
K("wr-writestring",(WR,"	n := cap(b.buf) - len(b.buf)\n	if len(s) > n {\n		b.flush()\n		if len(s) >= cap(b.buf) {\n			if _, err := b.file.WriteString(s); err != nil {\n				fail(\"writing %s: %v\", b.name, err)\n			}\n			return\n		}\n	}\n	b.buf = append(b.buf, s...)","	b.write([]byte(s))")),
K("wr-merge-invert",(WR,"		if trigram == 1<<24-1 {\n			break\n		}\n	}\n}\n\n// A postChunk","		if trigram == sentinel {\n			return\n		}\n	}\n}\n\nconst sentinel = 1<<24 - 1\n\n// A postChunk"),(WR,"		for ; e.trigram() == trigram && trigram != 1<<24-1; e = h.next() {\n			out.writeUvarint(e.fileid() - fileid)\n			fileid = e.fileid()\n			nfile++\n		}","		for e.trigram() == trigram && trigram != sentinel {\n			id := e.fileid()\n			out.writeUvarint(id - fileid)\n			fileid = id\n			nfile++\n			e = h.next()\n		}")),
K("wr-heap-next",(WR,"	m := ch.m\n	if len(m) == 0 {\n		h.pop()\n	} else {\n		ch.e = m[0]\n		ch.m = m[1:]\n		h.siftDown(0)\n	}\n	return e\n}\n\nfunc (h *postHeap) pop","	if len(ch.m) == 0 {\n		h.pop()\n		return e\n	}\n	ch.e, ch.m = ch.m[0], ch.m[1:]\n	h.siftDown(0)\n	return e\n}\n\nfunc (h *postHeap) pop")),
# codesearch reader
K("rd-query-copy",(RD,"    list = make([]uint32, ix.numName)\n    for i := range list {\n      list[i] = uint32(i)\n    }\n    return list","    for id := 0; id < ix.numName; id++ {\n      list = append(list, uint32(id))\n    }\n    return list")),
K("rd-and-new",(RD,"  x := list[:0]\n  i := 0\n  for r.next() {","  x := make([]uint32, 0, len(list))\n  i := 0\n  for r.next() {")),
K("rd-tri-helper",(RD,"    for _, t := range q.Trigram {\n      tri := uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])\n      if list == nil {\n        list = ix.postingList(tri, restrict)\n      } else {\n        list = ix.postingAnd","    for _, t := range q.Trigram {\n      tri := trigramOf(t)\n      if list == nil {\n        list = ix.postingList(tri, restrict)\n      } else {\n        list = ix.postingAnd"),(RD,"func mergeOr(","func trigramOf(t string) uint32 {\n  return uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])\n}\n\nfunc mergeOr(")),
K("rd-open-check",(RD,"  if len(mm.d) < 4*4+len(trailerMagic) || string(mm.d[len(mm.d)-len(trailerMagic):]) != trailerMagic {\n    corrupt(mm.f)\n  }","  if !bytes.HasSuffix(mm.d, []byte(trailerMagic)) || len(mm.d) < 4*4+len(trailerMagic) {\n    corrupt(mm.f)\n  }")),
K("rd-merge-tail",(RD,"  var l []uint32\n  i := 0\n  j := 0\n  for i < len(l1) || j < len(l2) {\n    switch {\n    case j == len(l2) || (i < len(l1) && l1[i] < l2[j]):\n      l = append(l, l1[i])\n      i++\n    case i == len(l1) || (j < len(l2) && l1[i] > l2[j]):\n      l = append(l, l2[j])\n      j++\n    case l1[i] == l2[j]:\n      l = append(l, l1[i])\n      i++\n      j++\n    }\n  }\n  return l","  l := make([]uint32, 0, len(l1)+len(l2))\n  i := 0\n  j := 0\n  for i < len(l1) && j < len(l2) {\n    if l1[i] < l2[j] {\n      l = append(l, l1[i])\n      i++\n    } else if l1[i] > l2[j] {\n      l = append(l, l2[j])\n      j++\n    } else {\n      l = append(l, l1[i])\n      i++\n      j++\n    }\n  }\n  l = append(l, l1[i:]...)\n  l = append(l, l2[j:]...)\n  return l")),
K("rd-str-index",(RD,"  i := bytes.IndexByte(str, '\\x00')\n  if i < 0 {\n    corrupt(ix.data.f)\n  }\n  return str[:i]","  if i := bytes.IndexByte(str, 0); i >= 0 {\n    return str[:i]\n  }\n  corrupt(ix.data.f)\n  return nil")),
]
