S="searcher/searcher.go";I="index/index.go";A="api/api.go";M="cmds/houndd/main.go";W="web/web.go";C="config/config.go";L="client/client.go";V="vcs/vcs.go";G="vcs/git.go";H="vcs/hg.go";N="vcs/svn.go";U="ui/ui.go";MM="cmds/hound/main.go"
WR="codesearch/index/write.go"
def F(n,p,*e): return ("j-"+n,p,"fire",list(e))
CASES=[
# C31
F("limit-abs","C31",(A,"	if max != 0 && int(iv) > max {\n		return max\n	}\n	if min != 0 && int(iv) < min {","	if max != 0 && int(iv) > max {\n		return int(iv)\n	}\n	if min != 0 && int(iv) < min {")),
F("ctx-max-int","C31",(A,"	if max != 0 && uint(iv) > max {\n		return max\n	}\n	if min","	if max != 0 && int(iv) > int(max)*50 {\n		return max\n	}\n	if min")),
F("opts-shared-mutate","C31",(A,"			fms, err := idx[repo].Search(query, opts)","			o := *opts\n			if o.MaxResults > 0 {\n				o.MaxResults /= n\n			}\n			fms, err := idx[repo].Search(query, &o)")),
F("dedup-first","C31",(A,"		if r.res.Matches == nil {\n			continue\n		}\n\n		res[r.repo]","		if r.res.Matches == nil || len(res) >= 100 {\n			continue\n		}\n\n		res[r.repo]")),
F("err-skip","C31",(A,"		if r.err != nil {\n			return nil, r.err\n		}","		if r.err != nil {\n			if len(res) > 0 {\n				continue\n			}\n			return nil, r.err\n		}")),
F("query-trim","C31",(A,'query := r.FormValue("q")','query := strings.TrimSpace(r.FormValue("q"))')),
F("query-lower","C31",(A,'		opt.IgnoreCase = parseAsBool(r.FormValue("i"))','		opt.IgnoreCase = parseAsBool(r.FormValue("i"))\n		if opt.IgnoreCase {\n			query = strings.ToLower(query)\n		}')),
F("exclude-needs-files","C31",(A,'		opt.ExcludeFileRegexp = r.FormValue("excludeFiles")','		if opt.FileRegexp == "" {\n			opt.ExcludeFileRegexp = r.FormValue("excludeFiles")\n		}')),
F("star-limit","C31",(A,"			repos = append(repos, repo)\n		}\n		return repos","			if len(repos) == 1000 {\n				break\n			}\n			repos = append(repos, repo)\n		}\n		return repos")),
F("literal-quotes","C31",(A,'		opt.LiteralSearch = parseAsBool(r.FormValue("literal"))','		opt.LiteralSearch = parseAsBool(r.FormValue("literal")) || strings.HasPrefix(query, "\\"")')),
F("res-alias","C31",(A,"			ch <- &searchResponse{repo, fms, err}","			ch <- &searchResponse{idx[repo].Repo.DisplayName, fms, err}")),
# C23
F("ct-late","C23",(A,'		w.Header().Set("Access-Control-Allow-Origin", "*")\n		fmt.Fprint(w, res)','		fmt.Fprint(w, res)\n		w.Header().Set("Access-Control-Allow-Origin", "*")')),
F("webhook-noreturn","C23",(A,"		   writeError(w,\n				errors.New(http.StatusText(http.StatusBadRequest)),\n				http.StatusBadRequest)\n			return","		   writeError(w,\n				errors.New(http.StatusText(http.StatusBadRequest)),\n				http.StatusBadRequest)")),
F("update-empty-silent","C23",(A,'		repos := parseAsRepoList(r.FormValue("repos"), idx)\n\n		for _, repo','		repos := parseAsRepoList(r.FormValue("repos"), idx)\n		if len(repos) == 0 {\n			return\n		}\n\n		for _, repo')),
F("webhook-ping","C23",(A,"		var h Webhook\n",'		var h Webhook\n		if r.Header.Get("X-GitHub-Event") == "ping" {\n			w.WriteHeader(http.StatusNoContent)\n			return\n		}\n')),
F("update-each-ok","C23",(A,"				return\n\n			}\n		}","				return\n\n			}\n			if len(repos) > 1 {\n				writeResp(w, repo)\n			}\n		}")),
# C15
F("health-prefix","C15",(W,"	if r.URL.Path == s.cfg.HealthCheckURI {","	if strings.HasPrefix(r.URL.Path, s.cfg.HealthCheckURI) {"),(W,'	"net/http"\n	"sync"\n','	"net/http"\n	"strings"\n	"sync"\n')),
F("health-requri","C15",(W,"r.URL.Path == s.cfg.HealthCheckURI","r.RequestURI == s.cfg.HealthCheckURI")),
F("serve-before-api","C15",(W,"	api.Setup(m, idx, s.cfg.ResultLimit)\n\n	s.serveWith(m)","	s.serveWith(m)\n	api.Setup(m, idx, s.cfg.ResultLimit)\n")),
F("ready-200","C15",(W,"http.StatusServiceUnavailable","http.StatusTooManyRequests")),
F("health-lock","C15",(W,"	if r.URL.Path == s.cfg.HealthCheckURI {\n		fmt.Fprintln(w, \"👍\")\n		return\n	}\n\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n","	s.lck.RLock()\n	defer s.lck.RUnlock()\n\n	if r.URL.Path == s.cfg.HealthCheckURI {\n		fmt.Fprintln(w, \"👍\")\n		return\n	}\n")),
F("start-after","C15",(M,"	ws := web.Start(&cfg, *flagAddr, *flagDev)\n",""),(M,"	handleShutdown(shutdownCh, idx)\n","	handleShutdown(shutdownCh, idx)\n	ws := web.Start(&cfg, *flagAddr, *flagDev)\n")),
F("limit-zero","C15",(W,"api.Setup(m, idx, s.cfg.ResultLimit)","if len(idx) > 0 {\n		api.Setup(m, idx, s.cfg.ResultLimit)\n	}")),
F("ch-nowait","C15",(W,"	return <-s.ch","	select {\n	case err := <-s.ch:\n		return err\n	default:\n		select {}\n	}")),
F("unready-again","C15",(W,"	return <-s.ch","	err = <-s.ch\n	s.serveWith(nil)\n	return err")),
F("health-method","C15",(W,"	if r.URL.Path == s.cfg.HealthCheckURI {",'	if r.URL.Path == s.cfg.HealthCheckURI && r.Method == "GET" {')),
# C20
F("ms-neg","C20",(C,"	if r.MsBetweenPolls == 0 {","	if r.MsBetweenPolls < 1000 {")),
F("merge-before-init","C20",(C,"	for _, repo := range c.Repos {\n		initRepo(repo)\n	}\n\n	return initConfig(c)","	if err := initConfig(c); err != nil {\n		return err\n	}\n	for _, repo := range c.Repos {\n		initRepo(repo)\n	}\n\n	return nil")),
F("merge-override","C20",(C,"			if _, ok := repoVals[name]; !ok {","			if v, ok := repoVals[name]; !ok || v == false || v == \"\" {")),
F("dbpath-cwd","C20",(C,"filepath.Join(filepath.Dir(filename), c.DbPath)","c.DbPath")),
F("anchor-default-both","C20",(C,"		if r.UrlPattern.Anchor == \"\" {\n			r.UrlPattern.Anchor = defaultAnchor\n		}","		if r.UrlPattern.Anchor == \"\" && r.UrlPattern.BaseUrl == defaultBaseUrl {\n			r.UrlPattern.Anchor = defaultAnchor\n		}")),
F("msg-loop-var","C20",(C,"		repoMessage := SecretMessage(repoBytes)\n		repo.VcsConfigMessage = &repoMessage","		repoMessage = SecretMessage(repoBytes)\n		repo.VcsConfigMessage = &repoMessage"),(C,"	for _, repo := range cfg.Repos {\n		var globalVals","	var repoMessage SecretMessage\n	for _, repo := range cfg.Repos {\n		var globalVals")),
F("push-default-true","C20",(C,"defaultPushEnabled           = false","defaultPushEnabled           = true")),
F("limit-neg","C20",(C,"	if c.ResultLimit == 0 {","	if c.ResultLimit <= 0 {")),
F("global-case","C20",(C,"globalVals, valsExist := globalConfigVals[repo.Vcs]","globalVals, valsExist := globalConfigVals[strings.ToLower(repo.Vcs)]"),(C,'	"path/filepath"\n','	"path/filepath"\n	"strings"\n')),
F("one-decl-break","C20",(C,"		if !valsExist {\n			continue\n		}","		if !valsExist {\n			break\n		}")),
# C21
F("hg-pull-noupdate","C21",(H,'"hg", "pull", "-u"','"hg", "pull"')),
F("git-ref-order","C21",(G,"	if g.Ref != \"\" {\n		targetRef = g.Ref\n	} else if g.DetectRef {\n		targetRef = g.refDetetector.detectRef(dir)\n	}","	if g.DetectRef {\n		targetRef = g.refDetetector.detectRef(dir)\n	} else if g.Ref != \"\" {\n		targetRef = g.Ref\n	}")),
F("git-clone-norev","C21",(G,"	return g.Pull(dir)\n","	return g.HeadRev(dir)\n")),
F("git-headrev-waiterr","C21",(G,'\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n','\tout, err := cmd.Output()\n\tif err != nil {\n\t\tlog.Print(err)\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n')),
F("hg-branch","C21",(H,'		".",\n','		"tip",\n')),
F("git-detect-cached","C21",(G,"		targetRef = g.refDetetector.detectRef(dir)\n","		targetRef = g.refDetetector.detectRef(dir)\n		g.Ref = targetRef\n")),
F("git-nil-config","C21",(G,"	if b != nil {\n		if err := json.Unmarshal(b, &d); err != nil {\n			return nil, err\n		}\n	}","	if b != nil {\n		json.Unmarshal(b, &d)\n	}")),
F("pullorclone-err","C21",(V,"	if exists(dir) {\n		return w.Pull(dir)\n	}","	if exists(dir) {\n		if rev, err := w.Pull(dir); err == nil {\n			return rev, nil\n		}\n		return w.HeadRev(dir)\n	}")),
F("exists-err","C21",(V,"	if _, err := os.Stat(path); err != nil {\n		return false\n	}\n	return true","	_, err := os.Stat(path)\n	return !os.IsNotExist(err)")),
# C14
F("log-cfg","C14",(V,"	d, err := f(cfg)\n	if err != nil {\n		return nil, err\n	}","	d, err := f(cfg)\n	if err != nil {\n		return nil, fmt.Errorf(\"vcs: bad config %s: %v\", cfg, err)\n	}")),
F("svn-args-log","C14",(G,'		log.Printf("Failed to clone %s, see output below\\n%sContinuing...", url, out)','		log.Printf("Failed to clone %s with %+v, see output below\\n%sContinuing...", url, g, out)')),
F("secret-value-recv","C14",(C,"func (s *SecretMessage) MarshalJSON() ([]byte, error) {\n	return []byte(\"{}\"), nil","func (s *SecretMessage) MarshalJSON() ([]byte, error) {\n	if s != nil && len(*s) < 3 {\n		return *s, nil\n	}\n	return []byte(\"{}\"), nil")),
F("cfg-error","C14",(C,"		} else if err := json.Unmarshal(repoBytes, &repoVals); err != nil {\n			return err\n		}","		} else if err := json.Unmarshal(repoBytes, &repoVals); err != nil {\n			return errors.New(string(repoBytes))\n		}")),
F("global-in-tojson","C14",(C,"	b, err := json.Marshal(c.Repos)","	b, err := json.Marshal(struct {\n		R interface{}\n		V interface{}\n	}{c.Repos, c.VCSConfigMessages[\"x\"]})")),
# C24
F("title-html","C24",(U,'		"Title":        cfg.Title,\n		"Source":       html_template.HTML(buf.String()),\n		"Host":         r.Host,\n	})\n}\n\n// Serve','		"Title":        html_template.HTML(cfg.Title),\n		"Source":       html_template.HTML(buf.String()),\n		"Host":         r.Host,\n	})\n}\n\n// Serve')),
F("repos-js","C24",(U,'		"ReposAsJson":  cfgJson,','		"ReposAsJson":  html_template.JS(cfgJson),')),
F("source-host","C24",(U,'"<script src=\\"http://localhost:8080/ui/%s\\"></script>", path)','"<script src=\\"http://%s/ui/%s\\"></script>", r.Host, path)')),
F("text-for-html","C24",(U,'	case "html":\n			// Use html/template to parse the html template\n			cnt.tpl, err = html_template','	case "html":\n			// Use html/template to parse the html template\n			cnt.tpl, err = text_template')),
# C32
F("redirect","C32",(W,'		http.Error(w,','		if u := r.URL.Query().Get("origin"); u != "" {\n			http.Get(u)\n		}\n		http.Error(w,')),
F("serve-file","C32",(U,'	serveAsset(w, r, p[1:])','	if _, err := AssetInfo(p[1:]); err != nil {\n		http.ServeFile(w, r, filepath.Join("assets", p))\n		return\n	}\n	serveAsset(w, r, p[1:])')),
# C30
F("client-ctx-neg","C30",(L,'{fmt.Sprintf("%d", context)}','{fmt.Sprintf("%d", context/2)}')),
F("client-https","C30",(L,'fmt.Sprintf("http://%s/api/v1/repos", cfg.Host)','fmt.Sprintf("http://%s/api/v1/repos/", cfg.Host)')),
F("client-status","C30",(L,"	if res.StatusCode != http.StatusOK {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n\n	if err := json","	if res.StatusCode >= http.StatusInternalServerError {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n\n	if err := json")),
F("client-repos-best","C30",(L,"	if errR != nil {\n		return nil, nil, errR\n	}","	if errR != nil {\n		rep = map[string]*config.Repo{}\n	}")),
F("client-host-hdr","C30",(L,'if strings.ToLower(key) == "host" {','if key == "host" {')),
F("client-hdr-add","C30",(L,"		} else {\n			req.Header.Set(key, val)\n		}","		} else if val != \"\" {\n			req.Header.Set(key, val)\n		}")),
F("client-err-results","C30",(L,'	if r.Error != "" {','	if r.Error != "" && len(r.Results) == 0 {')),
# C12 / C33
F("race-cfg","C12",(M,"	ws := web.Start(&cfg, *flagAddr, *flagDev)\n","	ws := web.Start(&cfg, *flagAddr, *flagDev)\n	cfg.HealthCheckURI = \"/\" + strings.TrimLeft(cfg.HealthCheckURI, \"/\")\n")),
F("race-mux","C12",(W,"	s.lck.Lock()\n	defer s.lck.Unlock()\n	s.mux = m","	s.mux = m")),
F("race-files","C12",(A,"			ch <- &searchResponse{repo, fms, err}","			if fms != nil {\n				*filesOpened += fms.FilesOpened\n			}\n			ch <- &searchResponse{repo, fms, err}"),(A,"		*filesOpened += r.res.FilesOpened\n","")),
F("race-stats","C12",(A,"type searchResponse struct {","var served int\n\ntype searchResponse struct {"),(A,'		query := r.FormValue("q")\n','		query := r.FormValue("q")\n		served++\n')),
F("client-one-ch","C33",(L,"	errS, errR := <-chs, <-chr\n\n	if errS != nil {\n		return nil, nil, errS\n	}\n\n	if errR","	errS := <-chs\n	if errS != nil {\n		return nil, nil, errS\n	}\n	errR := <-chr\n	if errR")),
F("search-timeout","C33",(A,"		r := <-ch\n","		var r *searchResponse\n		select {\n		case r = <-ch:\n		case <-time.After(time.Minute):\n			return nil, errors.New(\"timeout\")\n		}\n"),(A,"make(chan *searchResponse, n)","make(chan *searchResponse, 1)")),
# C13
F("idx-nil","C13",(A,"		if idx[repo] == nil {\n			continue\n		}\n		repos","		if _, err := strconv.Atoi(repo); err == nil && idx[repo] == nil {\n			continue\n		}\n		repos")),
F("prefix-match","C13",(A,"		searcher := idx[repo]\n		if searcher == nil {\n			writeError(w,\n				fmt.Errorf(\"No such repository: %s\", repo),\n				http.StatusNotFound)\n			return\n		}\n\n		res :=","		searcher := idx[repo]\n		for name, s := range idx {\n			if searcher == nil && strings.HasPrefix(name, repo) {\n				searcher = s\n			}\n		}\n		if searcher == nil {\n			writeError(w,\n				fmt.Errorf(\"No such repository: %s\", repo),\n				http.StatusNotFound)\n			return\n		}\n\n		res :=")),
F("unknown-all","C13",(A,"		repos = append(repos, repo)\n	}\n	return repos\n}\n\nfunc parseAsUint","		repos = append(repos, repo)\n	}\n	if len(repos) == 0 {\n		return parseAsRepoList(\"*\", idx)\n	}\n	return repos\n}\n\nfunc parseAsUint")),
F("nil-in-map","C13",(S,"			errs[r.name] = r.err\n			continue\n","			errs[r.name] = r.err\n")),
F("trim-lookup","C13",(A,"		searcher := idx[h.Repository.Full_name]\n","		searcher := idx[strings.ToLower(h.Repository.Full_name)]\n")),
# C16
F("panic-json","C16",(A,"		if err != nil {\n			// TODO","		if err != nil && strings.Contains(err.Error(), \"corrupt\") {\n			log.Fatal(err)\n		}\n		if err != nil {\n			// TODO")),
F("short-ref","C16",(S,'	log.Printf("Rebuilding %s for %s", name, newRev)','	log.Printf("Rebuilding %s for %s", name, newRev[:8])')),
F("re-mustcompile","C16",(I,"		fre, err = regexp.Compile(opt.FileRegexp)","		fre, err = regexp.Compile(opt.FileRegexp)\n			if err != nil {\n				panic(err)\n			}")),
# C09/C10/C22
F("no-limit-initial","C09",(S,"	lim.Acquire()\n	defer lim.Release()\n\n	s, err := newSearcher(dbpath, name, repo, refs, lim)","	if len(refs.refs) == 0 {\n		lim.Acquire()\n		defer lim.Release()\n	}\n\n	s, err := newSearcher(dbpath, name, repo, refs, lim)")),
F("wait-timeout","C10",(M,"		for _, s := range searchers {\n			s.Wait()\n		}\n","		for _, s := range searchers {\n			s := s\n			go s.Wait()\n		}\n")),
F("notify-unbuf","C10",(M,"make(chan os.Signal, 1)","make(chan os.Signal)")),
F("remove-partial","C22",(S,"	if ref == nil {\n		idxDir = nextIndexDir(dbpath)","	if ref == nil {\n		os.RemoveAll(vcsDir + \".tmp\")\n		idxDir = nextIndexDir(dbpath)")),
F("dbpath-sweep","C22",(S,"		if r.claimed[ref] {\n			continue\n		}\n","		if r.claimed[ref] {\n			continue\n		}\n		os.Remove(ref.Dir() + \"/../.lock\")\n")),
# C27
F("writer-trig-dup","C27",(WR,"for _, trigram := range ix.trigram.Dense() {","for _, trigram := range ix.trigram.Dense()[1:] {")),
]
