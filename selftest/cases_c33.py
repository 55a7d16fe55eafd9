A = "api/api.go"
S = "searcher/searcher.go"
CL = "client/client.go"
MK = "	ch := make(chan *searchResponse, n)\n"
SP = '''	ch := make(chan *searchResponse, n)
	for _, repo := range repos {
		go func(repo string) {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
	}

	res := map[string]*index.SearchResponse{}
	for i := 0; i < n; i++ {
		r := <-ch
		if r.err != nil {
			return nil, r.err
		}

		if r.res.Matches == nil {
			continue
		}

		res[r.repo] = r.res
		*filesOpened += r.res.FilesOpened
	}
'''
CLG = '''	chs := make(chan error)
	var res Response
	go func() {
		chs <- Search(&res, cfg, pattern, repos, files, context, ignoreCase, stats)
	}()

	chr := make(chan error)
	rep := map[string]*config.Repo{}
	go func() {
		chr <- LoadRepos(rep, cfg)
	}()

'''
CASES = [
 ("c33-unbuffered", "C33", "fire", [(A, MK, "	ch := make(chan *searchResponse)\n")]),
 ("c33-one", "C33", "fire", [(A, MK, "	ch := make(chan *searchResponse, 1)\n")]),
 ("c33-less", "C33", "fire", [(A, MK, "	ch := make(chan *searchResponse, n-1)\n")]),
 ("c33-bounded", "C33", "fire", [(A, MK, "	room := n\n	if room > 64 {\n		room = 64\n	}\n	ch := make(chan *searchResponse, room)\n")]),
 ("c33-twice", "C33", "fire", [(A, "			ch <- &searchResponse{repo, fms, err}\n", "			if err != nil {\n				ch <- &searchResponse{repo, nil, err}\n			}\n			ch <- &searchResponse{repo, fms, err}\n")]),
 ("c33-client-early", "C33", "fire", [(CL, "	errS, errR := <-chs, <-chr\n\n	if errS != nil {", "	errS := <-chs\n	if errS != nil {\n		return nil, nil, errS\n	}\n	errR := <-chr\n	if errS != nil {")]),
 ("c33-client-select", "C33", "fire", [(CL, "	errS, errR := <-chs, <-chr\n", "	var errS, errR error\n	select {\n	case errS = <-chs:\n	case errR = <-chr:\n	}\n")]),
 ("c33-start-early", "C33", "fire", [(S, "	resultCh := make(chan searcherResult, n)\n", "	resultCh := make(chan searcherResult)\n"),
   (S, "			errs[r.name] = r.err\n			continue\n", "			errs[r.name] = r.err\n			if len(errs) == n {\n				return nil, errs, nil\n			}\n			if r.searcher == nil && r.name == \"\" {\n				return nil, nil, r.err\n			}\n			continue\n")]),
 ("c33-timeout", "C33", "fire", [(A, SP, SP.replace("make(chan *searchResponse, n)", "make(chan *searchResponse)").replace('''		r := <-ch
''', '''		var r *searchResponse
		select {
		case r = <-ch:
		case <-time.After(time.Minute):
			return nil, errors.New("timed out")
		}
'''))]),
 ("c33-helper-unbuffered", "C33", "fire", [(A, SP, '''	ch := startAll(query, opts, repos, idx)
''' + SP[SP.index("\n	res := map"):]), (A, '/**\n * Searches all repos in parallel.', '''func startAll(query string, opts *index.SearchOptions, repos []string, idx map[string]*searcher.Searcher) <-chan *searchResponse {
	ch := make(chan *searchResponse)
	for _, repo := range repos {
		go func(repo string) {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
	}
	return ch
}

/**
 * Searches all repos in parallel.''')]),
 ("c33-pool-not-closed", "C33", "fire", [(A, SP, '''	jobs := make(chan string, n)
	ch := make(chan *searchResponse, n)
	for _, repo := range repos {
		jobs <- repo
		go func() {
			for repo := range jobs {
				fms, err := idx[repo].Search(query, opts)
				_, _ = fms, err
			}
		}()
	}
''' + SP[SP.index("\n	res := map"):])]),
 ("c33-fewer-read", "C33", "fire", [(A, SP, SP.replace("make(chan *searchResponse, n)", "make(chan *searchResponse)").replace("			return nil, r.err\n", "			break\n"))]),
 # behaviour kept
 ("c33-keep-len", "C33", "silent", [(A, MK, "	ch := make(chan *searchResponse, len(repos))\n")]),
 ("c33-keep-more", "C33", "silent", [(A, MK, "	ch := make(chan *searchResponse, n+1)\n")]),
 ("c33-keep-double", "C33", "silent", [(A, MK, "	ch := make(chan *searchResponse, 2*n)\n")]),
 ("c33-keep-range-n", "C33", "silent", [(A, "	for i := 0; i < n; i++ {\n		r := <-ch", "	for range repos {\n		r := <-ch")]),
 ("c33-keep-drained", "C33", "silent", [(A, SP, SP.replace("make(chan *searchResponse, n)", "make(chan *searchResponse)").replace('''		if r.err != nil {
			return nil, r.err
		}
''', '''		if r.err != nil {
			failed = r.err
			continue
		}
''').replace("	res := map[", "	var failed error\n	res := map[") + "	if failed != nil {\n		return nil, failed\n	}\n")]),
 ("c33-keep-while", "C33", "silent", [(A, "	for i := 0; i < n; i++ {\n		r := <-ch", "	for left := n; left > 0; left-- {\n		r := <-ch")]),
 ("c33-keep-client-buffered", "C33", "silent", [(CL, CLG, CLG.replace("make(chan error)", "make(chan error, 1)")), (CL, "	errS, errR := <-chs, <-chr\n\n	if errS != nil {", "	errS := <-chs\n	if errS != nil {\n		return nil, nil, errS\n	}\n	errR := <-chr\n	if errS != nil {")]),
 ("c33-keep-client-one-chan", "C33", "silent", [(CL, CLG, CLG.replace("	chr := make(chan error)\n", "").replace("chs := make(chan error)", "chs := make(chan error, 2)").replace("chr <-", "chs <-")), (CL, "	errS, errR := <-chs, <-chr\n", "	errS, errR := <-chs, <-chs\n")]),
 ("c33-keep-client-one", "C33", "silent", [(CL, "	go func() {\n		chr <- LoadRepos(rep, cfg)\n	}()\n\n", ""), (CL, "	chr := make(chan error)\n", ""), (CL, "	errS, errR := <-chs, <-chr\n", "	errR := LoadRepos(rep, cfg)\n	errS := <-chs\n")]),
 ("c33-keep-start-unbuffered", "C33", "silent", [(S, "	resultCh := make(chan searcherResult, n)\n", "	resultCh := make(chan searcherResult)\n")]),
 ("c33-keep-helper", "C33", "silent", [(A, SP, '''	ch := startAll(query, opts, repos, idx)
''' + SP[SP.index("\n	res := map"):]), (A, '/**\n * Searches all repos in parallel.', '''func startAll(query string, opts *index.SearchOptions, repos []string, idx map[string]*searcher.Searcher) <-chan *searchResponse {
	ch := make(chan *searchResponse, len(repos))
	for _, repo := range repos {
		go func(repo string) {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
	}
	return ch
}

/**
 * Searches all repos in parallel.''')]),
 ("c33-keep-named", "C33", "silent", [(A, '''		go func(repo string) {
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
''', '''		go searchOne(repo, idx[repo], query, opts, ch)
'''), (A, '/**\n * Searches all repos in parallel.', '''func searchOne(repo string, s *searcher.Searcher, query string, opts *index.SearchOptions, ch chan<- *searchResponse) {
	fms, err := s.Search(query, opts)
	ch <- &searchResponse{repo, fms, err}
}

/**
 * Searches all repos in parallel.''')]),
 ("c33-keep-waitgroup", "C33", "silent", [(A, SP, '''	ch := make(chan *searchResponse, n)
	var wg sync.WaitGroup
	for _, repo := range repos {
		wg.Add(1)
		go func(repo string) {
			defer wg.Done()
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
	}
	wg.Wait()
	close(ch)

	res := map[string]*index.SearchResponse{}
	for r := range ch {
		if r.err != nil {
			return nil, r.err
		}

		if r.res.Matches == nil {
			continue
		}

		res[r.repo] = r.res
		*filesOpened += r.res.FilesOpened
	}
'''), (A, '	"net/http"\n', '	"net/http"\n	"sync"\n')]),
 ("c33-keep-collector", "C33", "silent", [(A, SP, '''	ch := make(chan *searchResponse)
	var wg sync.WaitGroup
	wg.Add(n)
	for _, repo := range repos {
		go func(repo string) {
			defer wg.Done()
			fms, err := idx[repo].Search(query, opts)
			ch <- &searchResponse{repo, fms, err}
		}(repo)
	}
	go func() {
		wg.Wait()
		close(ch)
	}()

	var failed error
	res := map[string]*index.SearchResponse{}
	for r := range ch {
		if r.err != nil {
			failed = r.err
			continue
		}

		if r.res.Matches == nil {
			continue
		}

		res[r.repo] = r.res
		*filesOpened += r.res.FilesOpened
	}
	if failed != nil {
		return nil, failed
	}
'''), (A, '	"net/http"\n', '	"net/http"\n	"sync"\n')]),
 ("c33-keep-semaphore", "C33", "silent", [(A, SP, SP.replace("	ch := make", "	sem := make(chan struct{}, 8)\n	ch := make").replace("			fms, err", "			sem <- struct{}{}\n			defer func() { <-sem }()\n			fms, err"))]),
 ("c33-keep-done", "C33", "silent", [(A, SP, SP.replace("make(chan *searchResponse, n)", "make(chan *searchResponse)").replace("	for _, repo := range repos {", "	done := make(chan struct{})\n	defer close(done)\n	for _, repo := range repos {").replace("			ch <- &searchResponse{repo, fms, err}\n", "			select {\n			case ch <- &searchResponse{repo, fms, err}:\n			case <-done:\n			}\n"))]),
]
