S = "searcher/searcher.go"
CASES = [
 ("c09-noacquire", "C09", "fire", [(S, "\t// acquire a token from the rate limiter\n\tlim.Acquire()\n\tdefer lim.Release()\n\n\t// the files must not change until the index has been built\n", "\t// the files must not change until the index has been built\n")]),
 ("c09-norelease-err", "C09", "fire", [(S, "\tlim.Acquire()\n\tdefer lim.Release()\n\n\ts, err := newSearcher(", "\tlim.Acquire()\n\n\ts, err := newSearcher("), (S, "\tresultCh <- searcherResult{\n\t\tname:     name,\n\t\tsearcher: s,\n\t}", "\tlim.Release()\n\tresultCh <- searcherResult{\n\t\tname:     name,\n\t\tsearcher: s,\n\t}")]),
 ("c09-early-release", "C09", "fire", [(S, "\tlog.Printf(\"Rebuilding %s for %s\", name, newRev)\n", "\tlog.Printf(\"Rebuilding %s for %s\", name, newRev)\n\tlim.Release()\n\tdefer lim.Acquire()\n")]),
 ("c09-hold-waiting", "C09", "fire", [(S, "\t\t\tif !s.waitForUpdate(delay) {", "\t\t\tlim.Acquire()\n\t\t\tif !s.waitForUpdate(delay) {\n\t\t\t\tlim.Release()")]),
 ("c09-unbounded", "C09", "fire", [(S, "\treturn limiter(make(chan bool, n))", "\treturn limiter(make(chan bool, n*2))")]),
 ("c09-per-repo-limiter", "C09", "fire", [(S, "\t\tgo newSearcherConcurrent(cfg.DbPath, name, repo, refs, lim, resultCh)", "\t\tgo newSearcherConcurrent(cfg.DbPath, name, repo, refs, makeLimiter(cfg.MaxConcurrentIndexers), resultCh)"), (S, "\tlim := makeLimiter(cfg.MaxConcurrentIndexers)\n\n\tn :=", "\tn :=")]),
 ("c09-closure-release", "C09", "silent", [(S, "\tlim.Acquire()\n\tdefer lim.Release()\n\n\ts, err := newSearcher(", "\tlim.Acquire()\n\tdefer func() {\n\t\tlim.Release()\n\t}()\n\n\ts, err := newSearcher(")]),
 ("c09-caller", "C09", "silent", [(S, "\t// acquire a token from the rate limiter\n\tlim.Acquire()\n\tdefer lim.Release()\n\n\t// the files must not change until the index has been built\n", "\t// the files must not change until the index has been built\n"), (S, "\t\t\tnewRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)\n", "\t\t\tlim.Acquire()\n\t\t\tnewRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)\n\t\t\tlim.Release()\n")]),
 ("c09-inline", "C09", "silent", [(S, "\tlim.Acquire()\n\tdefer lim.Release()\n\n\ts, err := newSearcher(", "\tlim <- true\n\tdefer func() { <-lim }()\n\n\ts, err := newSearcher(")]),
]
