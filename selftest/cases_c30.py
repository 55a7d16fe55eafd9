C = "client/client.go"
A = "client/ack.go"
M = "cmds/hound/main.go"
T = '''	chs := make(chan error)
	var res Response
	go func() {
		chs <- Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)
	}()

	chr := make(chan error)
	rep := map[string]*config.Repo{}
	go func() {
		chr <- LoadRepos(rep, cfg)
	}()

	// must ready both channels before returning to avoid routine/channel leak.
	errS, errR := <-chs, <-chr

	if errS != nil {
		return nil, nil, errS
	}

	if errR != nil {
		return nil, nil, errR
	}

	return &res, rep, nil
'''
V = '''		url.Values{
			"q":     {pattern},
			"repos": {repos},
			"files": {files},
			"ctx":   {fmt.Sprintf("%d", context)},
			"i":     {fmt.Sprintf("%t", ignoreCase)},
			"stats": {fmt.Sprintf("%t", stats)},
		}.Encode())
'''
S200 = '''	if res.StatusCode != http.StatusOK {
		return fmt.Errorf("Status %d", res.StatusCode)
	}

	if err := json'''
CASES = [
 ("c30-status", "C30", "fire", [(C, S200, '	if err := json')]),
 ("c30-status-500", "C30", "fire", [(C, S200, S200.replace("!= http.StatusOK", ">= http.StatusInternalServerError"))]),
 ("c30-status-2xx", "C30", "fire", [(C, S200, S200.replace("!= http.StatusOK", "/100 != 2"))]),
 ("c30-repos-status", "C30", "fire", [(C, '''	if res.StatusCode != http.StatusOK {
		return fmt.Errorf("Status %d", res.StatusCode)
	}

	return json''', '	return json')]),
 ("c30-error-field", "C30", "fire", [(C, '	if r.Error != "" {\n		return errors.New(r.Error)\n	}\n\n	return nil', '	return nil'), (C, '	"errors"\n', '')]),
 ("c30-error-field-results", "C30", "fire", [(C, 'if r.Error != "" {', 'if r.Error != "" && len(r.Results) == 0 {')]),
 ("c30-error-before-decode", "C30", "fire", [(C, '''	if err := json.NewDecoder(res.Body).Decode(r); err != nil {
		return err
	}

	if r.Error != "" {
		return errors.New(r.Error)
	}

	return nil''', '''	if r.Error != "" {
		return errors.New(r.Error)
	}

	return json.NewDecoder(res.Body).Decode(r)''')]),
 ("c30-decode-lost", "C30", "fire", [(C, '	if err := json.NewDecoder(res.Body).Decode(r); err != nil {\n		return err\n	}\n', '	if err := json.NewDecoder(res.Body).Decode(r); err != nil {\n		return nil\n	}\n')]),
 ("c30-repos-decode-lost", "C30", "fire", [(C, '	return json.NewDecoder(res.Body).Decode(&repos)\n', '	json.NewDecoder(res.Body).Decode(&repos) //nolint\n	return nil\n')]),
 ("c30-send-lost", "C30", "fire", [(C, '	res, err := doHttpGet(cfg, u)\n	if err != nil {\n		return err\n	}\n', '	res, err := doHttpGet(cfg, u)\n	if res == nil {\n		return nil\n	}\n	_ = err\n')]),
 ("c30-swapped", "C30", "fire", [(C, V, V.replace('{repos}', '{x}').replace('{files}', '{repos}').replace('{x}', '{files}'))]),
 ("c30-call-swapped", "C30", "fire", [(C, 'Search(&res, cfg, pattern, repos, files, context', 'Search(&res, cfg, pattern, files, repos, context')]),
 ("c30-bools-swapped", "C30", "fire", [(C, 'context, ignoreCase, stats)\n	}()', 'context, stats, ignoreCase)\n	}()')]),
 ("c30-no-ctx", "C30", "fire", [(C, V, V.replace('			"ctx":   {fmt.Sprintf("%d", context)},\n', '').replace('}.Encode())', '}.Encode())\n	_ = context'))]),
 ("c30-ctx-one-more", "C30", "fire", [(C, V, V.replace('context)', 'context+1)'))]),
 ("c30-hex", "C30", "fire", [(C, V, V.replace('%d', '%x'))]),
 ("c30-unescaped", "C30", "fire", [(C, V, '		"q="+pattern+"&repos="+repos+"&files="+files+fmt.Sprintf("&ctx=%d&i=%t&stats=%t", context, ignoreCase, stats))\n'), (C, '	"net/url"\n', '')]),
 ("c30-trim", "C30", "fire", [(C, V, V.replace('{pattern}', '{strings.TrimSpace(pattern)}'))]),
 ("c30-host", "C30", "fire", [(C, '"http://%s/api/v1/repos", cfg.Host', '"http://%s/api/v1/repos", "localhost:6080"')]),
 ("c30-addr", "C30", "fire", [(C, '/api/v1/repos', '/api/v2/repos')]),
 ("c30-no-headers", "C30", "fire", [(C, 'res, err := doHttpGet(cfg, fmt', 'res, err := http.Get(fmt')]),
 ("c30-host-header", "C30", "fire", [(C, '		if strings.ToLower(key) == "host" {\n			req.Host = val\n		} else {\n			req.Header.Set(key, val)\n		}\n', '		req.Header.Set(key, val)\n')]),
 ("c30-host-exact", "C30", "fire", [(C, '		if strings.ToLower(key) == "host" {\n			req.Host = val\n		} else {\n', '		if len(key) == 4 {\n			req.Host = val\n		} else {\n')]),
 ("c30-header-break", "C30", "fire", [(C, '			req.Host = val\n', '			req.Host = val\n			break\n')]),
 ("c30-header-skip", "C30", "fire", [(C, '		} else {\n			req.Header.Set(key, val)\n', '		} else if val != "" {\n			req.Header.Set(key, val)\n')]),
 ("c30-header-key", "C30", "fire", [(C, 'req.Header.Set(key, val)', 'req.Header.Set(key, key)')]),
 ("c30-errR-lost", "C30", "fire", [(C, '	if errR != nil {\n		return nil, nil, errR\n	}\n', '	_ = errR\n')]),
 ("c30-errR-for-errS", "C30", "fire", [(C, '	if errS != nil {\n		return nil, nil, errS\n	}\n', '	if errS != nil {\n		return nil, nil, errR\n	}\n')]),
 ("c30-not-waited", "C30", "fire", [(C, T, T.replace('	errS, errR := <-chs, <-chr\n', '	errS := <-chs\n').replace('''	if errR != nil {
		return nil, nil, errR
	}
''', '''	select {
	case errR := <-chr:
		if errR != nil {
			return nil, nil, errR
		}
	default:
	}
'''))]),
 ("c30-outcome-dropped", "C30", "fire", [(C, '		chr <- LoadRepos(rep, cfg)\n', '		LoadRepos(rep, cfg) //nolint\n		chr <- nil\n')]),
 ("c30-other-response", "C30", "fire", [(C, '	return &res, rep, nil\n', '	return new(Response), rep, nil\n')]),
 ("c30-print", "C30", "fire", [(A, '''			if _, err := fmt.Fprintln(p.f); err != nil {
				return err
			}
''', '			fmt.Fprintln(p.f) //nolint\n')]),
 ("c30-print-break", "C30", "fire", [(A, '''						line); err != nil {
						return err
''', '''						line); err != nil {
						break
''')]),
 ("c30-cmd-err", "C30", "fire", [(M, '''		*flagStats)
	if err != nil {
		log.Panic(err)
''', '''		*flagStats)
	if err != nil {
		log.Println(err)
''')]),
 ("c30-cmd-err-return", "C30", "fire", [(M, '''		*flagStats)
	if err != nil {
		log.Panic(err)
''', '''		*flagStats)
	if err != nil {
		log.Print(err)
		return
''')]),
 ("c30-cmd-present-err", "C30", "fire", [(M, 'repos, res); err != nil {\n		log.Panic(err)', 'repos, res); err != nil {\n		log.Print(err)')]),
 ("c30-cmd-swapped", "C30", "fire", [(M, '		*flagRepos,\n		*flagFiles,\n', '		*flagFiles,\n		*flagRepos,\n')]),
 ("c30-cmd-bools", "C30", "fire", [(M, '		*flagCase,\n		*flagStats)', '		*flagGrep,\n		*flagStats)')]),
 ("c30-cmd-pattern", "C30", "fire", [(M, 'SearchAndLoadRepos(&cfg,\n		flag.Arg(0),', 'SearchAndLoadRepos(&cfg,\n		pat,')]),
 ("c30-cmd-config", "C30", "fire", [(M, 'loadConfig(&cfg); err != nil {\n		log.Panic(err)', 'loadConfig(&cfg); err != nil {\n		log.Print(err)')]),
 # refactorings
 ("c30-keep-set", "C30", "silent", [(C, '''	u := fmt.Sprintf("http://%s/api/v1/search?%s",
		cfg.Host,
''' + V, '''	v := url.Values{}
	v.Set("q", pattern)
	v.Set("repos", repos)
	v.Set("files", files)
	v.Set("ctx", strconv.Itoa(context))
	v.Set("i", strconv.FormatBool(ignoreCase))
	v.Set("stats", strconv.FormatBool(stats))
	u := "http://" + cfg.Host + "/api/v1/search?" + v.Encode()
'''), (C, '	"regexp"\n', '	"regexp"\n	"strconv"\n')]),
 ("c30-keep-url-helper", "C30", "silent", [(C, '''	u := fmt.Sprintf("http://%s/api/v1/search?%s",
		cfg.Host,
''' + V, '''	u := apiURL(cfg, "/api/v1/search") + "?" + url.Values{
			"q":     []string{pattern},
			"repos": []string{repos},
			"files": []string{files},
			"ctx":   []string{fmt.Sprint(context)},
			"i":     []string{fmt.Sprint(ignoreCase)},
			"stats": []string{fmt.Sprint(stats)},
		}.Encode()
'''), (C, 'fmt.Sprintf("http://%s/api/v1/repos", cfg.Host)', 'apiURL(cfg, "/api/v1/repos")'), (C, '// Executes a search', '''func apiURL(cfg *Config, path string) string {
	return "http://" + cfg.Host + path
}

// Executes a search''')]),
 ("c30-keep-getjson", "C30", "silent", [(C, '''	res, err := doHttpGet(cfg, u)
	if err != nil {
		return err
	}
	defer res.Body.Close()

	if res.StatusCode != http.StatusOK {
		return fmt.Errorf("Status %d", res.StatusCode)
	}

	if err := json.NewDecoder(res.Body).Decode(r); err != nil {
		return err
	}
''', '''	if err := getJSON(cfg, u, r); err != nil {
		return err
	}
'''), (C, '''	res, err := doHttpGet(cfg, fmt.Sprintf("http://%s/api/v1/repos", cfg.Host))
	if err != nil {
		return err
	}
	defer res.Body.Close()

	if res.StatusCode != http.StatusOK {
		return fmt.Errorf("Status %d", res.StatusCode)
	}

	return json.NewDecoder(res.Body).Decode(&repos)
''', '''	return getJSON(cfg, fmt.Sprintf("http://%s/api/v1/repos", cfg.Host), &repos)
'''), (C, '// Executes a search', '''func getJSON(cfg *Config, u string, v interface{}) error {
	res, err := doHttpGet(cfg, u)
	if err != nil {
		return err
	}
	defer res.Body.Close()

	if res.StatusCode != 200 {
		return fmt.Errorf("Status %d", res.StatusCode)
	}
	return json.NewDecoder(res.Body).Decode(v)
}

// Executes a search''')]),
 ("c30-keep-readall", "C30", "silent", [(C, '	if err := json.NewDecoder(res.Body).Decode(r); err != nil {\n		return err\n	}\n', '	b, err := ioutil.ReadAll(res.Body)\n	if err != nil {\n		return err\n	}\n	if err := json.Unmarshal(b, r); err != nil {\n		return err\n	}\n'), (C, '	"fmt"\n', '	"fmt"\n	"io/ioutil"\n')]),
 ("c30-keep-equalfold", "C30", "silent", [(C, 'if strings.ToLower(key) == "host" {', 'if strings.EqualFold(key, "host") {')]),
 ("c30-keep-header-switch", "C30", "silent", [(C, '		if strings.ToLower(key) == "host" {\n			req.Host = val\n		} else {\n			req.Header.Set(key, val)\n		}\n', '		switch strings.ToLower(key) {\n		case "host":\n			req.Host = val\n			continue\n		}\n		req.Header.Set(key, val)\n')]),
 ("c30-keep-header-helper", "C30", "silent", [(C, '''	for key, val := range cfg.HttpHeaders {
		if strings.ToLower(key) == "host" {
			req.Host = val
		} else {
			req.Header.Set(key, val)
		}
	}

	var c''', '''	setHeaders(req, cfg.HttpHeaders)

	var c'''), (C, '// Executes a search', '''func setHeaders(req *http.Request, hs map[string]string) {
	for key := range hs {
		if strings.ToLower(key) != "host" {
			req.Header.Set(key, hs[key])
		} else {
			req.Host = hs[key]
		}
	}
}

// Executes a search''')]),
 ("c30-keep-one-chan", "C30", "silent", [(C, T, '''	ch := make(chan error, 2)
	var res Response
	go func() {
		ch <- Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)
	}()

	rep := map[string]*config.Repo{}
	go func() {
		ch <- LoadRepos(rep, cfg)
	}()

	for i := 0; i < 2; i++ {
		if err := <-ch; err != nil {
			return nil, nil, err
		}
	}

	return &res, rep, nil
''')]),
 ("c30-keep-wg", "C30", "silent", [(C, T, '''	var (
		wg         sync.WaitGroup
		res        Response
		errS, errR error
	)
	rep := map[string]*config.Repo{}
	wg.Add(2)
	go func() {
		defer wg.Done()
		errS = Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)
	}()
	go func() {
		defer wg.Done()
		errR = LoadRepos(rep, cfg)
	}()
	wg.Wait()

	if errS != nil {
		return nil, nil, errS
	}
	if errR != nil {
		return nil, nil, errR
	}

	return &res, rep, nil
'''), (C, '	"strings"\n', '	"strings"\n	"sync"\n')]),
 ("c30-keep-sequential", "C30", "silent", [(C, T, '''	var res Response
	if err := Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats); err != nil {
		return nil, nil, err
	}
	rep := map[string]*config.Repo{}
	if err := LoadRepos(rep, cfg); err != nil {
		return nil, nil, err
	}
	return &res, rep, nil
''')]),
 ("c30-keep-half", "C30", "silent", [(C, T, '''	chr := make(chan error, 1)
	rep := map[string]*config.Repo{}
	go func() {
		chr <- LoadRepos(rep, cfg)
	}()

	var res Response
	errS := Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)
	errR := <-chr
	if errS == nil {
		errS = errR
	}
	if errS != nil {
		return nil, nil, errS
	}
	return &res, rep, nil
''')]),
 ("c30-keep-print-helper", "C30", "silent", [(A, '''			if _, err := fmt.Fprintln(p.f); err != nil {
				return err
			}
''', '''			if err := p.newline(); err != nil {
				return err
			}
'''), (A, 'func (p *ackPresenter) Present(', '''func (p *ackPresenter) newline() error {
	_, err := fmt.Fprintln(p.f)
	return err
}

func (p *ackPresenter) Present(''')]),
 ("c30-keep-fatal", "C30", "silent", [(M, '''		*flagStats)
	if err != nil {
		log.Panic(err)
''', '''		*flagStats)
	if err != nil {
		log.Fatal(err)
''')]),
 ("c30-keep-locals", "C30", "silent", [(M, '	res, repos, err := client.SearchAndLoadRepos(&cfg,\n		flag.Arg(0),\n		*flagRepos,', '	pattern, in := flag.Arg(0), *flagRepos\n	res, repos, err := client.SearchAndLoadRepos(&cfg,\n		pattern,\n		in,')]),
 ("c30-keep-run", "C30", "silent", [(M, 'func main() {', '''func main() {
	if err := run(); err != nil {
		log.Panic(err)
	}
}

func run() error {'''), (M, '		flag.Usage()\n		return\n', '		flag.Usage()\n		return nil\n'), (M, '''		// TODO(knorton): Better error reporting
		log.Panic(err)
''', '		return err\n'), (M, 'loadConfig(&cfg); err != nil {\n		log.Panic(err)\n', 'loadConfig(&cfg); err != nil {\n		return err\n'), (M, '''		*flagStats)
	if err != nil {
		log.Panic(err)
	}
''', '''		*flagStats)
	if err != nil {
		return err
	}
'''), (M, '''	if err := newPresenter(*flagGrep).Present(reg, *flagContext, repos, res); err != nil {
		log.Panic(err)
	}
''', '	return newPresenter(*flagGrep).Present(reg, *flagContext, repos, res)\n')]),
]
