S = "searcher/searcher.go"
D = "cmds/houndd/main.go"
HS = '''	go func() {
		<-shutdownCh
		info_log.Printf("Graceful shutdown requested...")
		for _, s := range searchers {
			s.Stop()
		}

		for _, s := range searchers {
			s.Wait()
		}

		os.Exit(0)
	}()
'''
STOPW = '''		for _, s := range searchers {
			s.Stop()
		}

		for _, s := range searchers {
			s.Wait()
		}
'''
STOP = '''	select {
	case s.shutdownCh <- empty{}:
	default:
	}
'''
WFU = '''	select {
	case <-s.updateCh:
	case <-tch:
	case <-s.shutdownCh:
		return false
	}
	return true
'''
LOOP = '''			if !s.waitForUpdate(delay) {
				s.completeShutdown()
				return
			}
'''
OFF = '''		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {
			s.completeShutdown()
			return
		}
'''
GO = "	go func() {\n\n		// each searcher's poller is held until begin is called.\n		<-s.updateCh\n"
BEGIN = '''	for _, s := range searchers {
		s.begin()
	}
'''
REG = "	shutdownCh := registerShutdownSignal()\n	idx, ok, err := makeSearchers(&cfg)\n"
CASES = [
 ("c10-notify-late", "C10", "fire", [(D, REG, "	idx, ok, err := makeSearchers(&cfg)\n"), (D, "	handleShutdown(shutdownCh, idx)\n", "	handleShutdown(registerShutdownSignal(), idx)\n")]),
 ("c10-notify-unbuffered", "C10", "fire", [(D, "make(chan os.Signal, 1)", "make(chan os.Signal)")]),
 ("c10-no-handler", "C10", "fire", [(D, "	handleShutdown(shutdownCh, idx)\n", "	_ = shutdownCh\n	_ = handleShutdown\n")]),
 ("c10-handler-ok-only", "C10", "fire", [(D, "	handleShutdown(shutdownCh, idx)\n", "	if ok {\n		handleShutdown(shutdownCh, idx)\n	}\n")]),
 ("c10-exit-nowait", "C10", "fire", [(D, STOPW, "		for _, s := range searchers {\n			s.Stop()\n		}\n")]),
 ("c10-exit-nostop", "C10", "fire", [(D, STOPW, "		for _, s := range searchers {\n			s.Wait()\n		}\n")]),
 ("c10-one-loop", "C10", "fire", [(D, STOPW, "		for _, s := range searchers {\n			s.Stop()\n			s.Wait()\n		}\n")]),
 ("c10-stop-skips", "C10", "fire", [(D, STOPW, STOPW.replace("			s.Stop()\n", "			if !s.Repo.PollUpdatesEnabled() {\n				continue\n			}\n			s.Stop()\n"))]),
 ("c10-wait-skips", "C10", "fire", [(D, STOPW, STOPW.replace("			s.Wait()\n", "			if s.Repo.PollUpdatesEnabled() {\n				s.Wait()\n			}\n"))]),
 ("c10-wait-break", "C10", "fire", [(D, STOPW, STOPW.replace("			s.Wait()\n", "			s.Wait()\n			if s.Repo.PollUpdatesEnabled() {\n				break\n			}\n"))]),
 ("c10-exit-background-wait", "C10", "fire", [(D, STOPW, STOPW.replace("			s.Wait()\n", "			go s.Wait()\n"))]),
 ("c10-wrong-order", "C10", "fire", [(D, STOPW, "		for _, s := range searchers {\n			s.Wait()\n		}\n		for _, s := range searchers {\n			s.Stop()\n		}\n")]),
 ("c10-exit-early", "C10", "fire", [(D, STOPW, "		if len(searchers) > 100 {\n			os.Exit(1)\n		}\n" + STOPW)]),
 ("c10-ignored", "C10", "fire", [(D, STOPW, "		if len(searchers) > 100 {\n			return\n		}\n" + STOPW)]),
 ("c10-noexit", "C10", "fire", [(D, "		os.Exit(0)\n	}()\n}", "	}()\n}")]),
 ("c10-stop-blocks", "C10", "fire", [(S, STOP, "	s.shutdownCh <- empty{}\n")]),
 ("c10-stop-never", "C10", "fire", [(S, STOP, "	_ = s.shutdownCh\n")]),
 ("c10-stop-unbuffered", "C10", "fire", [(S, "shutdownCh: make(chan empty, 1),", "shutdownCh: make(chan empty),")]),
 ("c10-stop-wrong-channel", "C10", "fire", [(S, STOP, "	select {\n	case s.updateCh <- time.Now():\n	default:\n	}\n")]),
 ("c10-nil-shutdown", "C10", "fire", [(S, "		shutdownCh: make(chan empty, 1),\n", "")]),
 ("c10-nil-done", "C10", "fire", [(S, "		doneCh:     make(chan empty),\n", "")]),
 ("c10-wait-default", "C10", "fire", [(S, "	<-s.doneCh\n", "	select {\n	case <-s.doneCh:\n	case <-time.After(time.Second):\n	}\n")]),
 ("c10-deaf-select", "C10", "fire", [(S, WFU, "	select {\n	case <-s.updateCh:\n	case <-tch:\n	}\n	select {\n	case <-s.shutdownCh:\n		return false\n	default:\n	}\n	return true\n")]),
 ("c10-deaf-nopoll", "C10", "fire", [(S, WFU, "	if tch == nil {\n		<-s.updateCh\n		return true\n	}\n" + WFU)]),
 ("c10-deaf-sleep", "C10", "fire", [(S, LOOP, LOOP + "			time.Sleep(delay)\n")]),
 ("c10-stop-taken-for-update", "C10", "fire", [(S, WFU, WFU.replace("		return false\n	}", "		return len(s.updateCh) > 0\n	}"))]),
 ("c10-unreported-off", "C10", "fire", [(S, OFF, OFF.replace("			s.completeShutdown()\n", ""))]),
 ("c10-unreported-loop", "C10", "fire", [(S, LOOP, LOOP.replace("				s.completeShutdown()\n", ""))]),
 ("c10-early-end", "C10", "fire", [(S, LOOP, "			if delay == 0 {\n				s.completeShutdown()\n			}\n" + LOOP.replace("s.completeShutdown()", "if delay != 0 {\n					s.completeShutdown()\n				}"))]),
 ("c10-twice", "C10", "fire", [(S, GO, "	go func() {\n		defer s.completeShutdown()\n		<-s.updateCh\n")]),
 ("c10-nobegin", "C10", "fire", [(S, BEGIN, BEGIN.replace("		s.begin()\n", "		if s.Repo.PollUpdatesEnabled() || s.Repo.PushUpdatesEnabled() {\n			s.begin()\n		}\n"))]),
 ("c10-begin-conditional", "C10", "fire", [(S, BEGIN, "	if len(errs) == 0 {\n		for _, s := range searchers {\n			s.begin()\n		}\n	}\n")]),
 ("c10-return-on-fail", "C10", "fire", [(S, "			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)\n			if !ok {\n				continue\n			}\n", "			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)\n			if !ok && newRev == \"\" {\n				return\n			}\n			if !ok {\n				continue\n			}\n")]),
 # behaviour kept
 ("c10-keep-one-func", "C10", "silent", [(D, STOPW, "		stopAll(searchers)\n"), (D, "func registerShutdownSignal", "func stopAll(searchers map[string]*searcher.Searcher) {\n	for _, s := range searchers {\n		s.Stop()\n	}\n	for _, s := range searchers {\n		s.Wait()\n	}\n}\n\nfunc registerShutdownSignal")]),
 ("c10-keep-named", "C10", "silent", [(D, HS, "	go waitAndExit(shutdownCh, searchers)\n"), (D, "func registerShutdownSignal", "func waitAndExit(shutdownCh <-chan os.Signal, searchers map[string]*searcher.Searcher) {\n	sig := <-shutdownCh\n	info_log.Printf(\"Graceful shutdown requested... %v\", sig)\n" + STOPW + "	os.Exit(0)\n}\n\nfunc registerShutdownSignal")]),
 ("c10-keep-keys", "C10", "silent", [(D, STOPW, "		for name := range searchers {\n			searchers[name].Stop()\n		}\n		for name := range searchers {\n			searchers[name].Wait()\n		}\n")]),
 ("c10-keep-bigger-buffer", "C10", "silent", [(D, "make(chan os.Signal, 1)", "make(chan os.Signal, 4)"), (S, "shutdownCh: make(chan empty, 1),", "shutdownCh: make(chan empty, 2),")]),
 ("c10-keep-defer-done", "C10", "silent", [(S, GO, "	go func() {\n		defer s.completeShutdown()\n\n		<-s.updateCh\n"), (S, OFF, OFF.replace("			s.completeShutdown()\n", "")), (S, LOOP, LOOP.replace("				s.completeShutdown()\n", ""))]),
 ("c10-keep-method", "C10", "silent", [(S, WFU, "	select {\n	case <-s.shutdownCh:\n		return false\n	case <-s.updateCh:\n		return true\n	case <-tch:\n		return true\n	}\n")]),
 ("c10-keep-check-first", "C10", "silent", [(S, WFU, "	select {\n	case <-s.shutdownCh:\n		return false\n	default:\n	}\n" + WFU)]),
 ("c10-keep-loop-cond", "C10", "silent", [(S, "		for {\n			// Wait for a signal to proceed\n" + LOOP, "		for s.waitForUpdate(delay) {\n"), (S, "			reportOnMemory()\n		}\n	}()", "			reportOnMemory()\n		}\n		s.completeShutdown()\n	}()")]),
 ("c10-keep-stop-inline", "C10", "silent", [(S, "func (s *Searcher) completeShutdown() {\n	close(s.doneCh)\n}\n", ""), (S, OFF, OFF.replace("s.completeShutdown()", "close(s.doneCh)")), (S, LOOP, LOOP.replace("s.completeShutdown()", "close(s.doneCh)"))]),
 ("c10-keep-poller-method", "C10", "silent", [(S, GO, "	go s.poll(func(rev string) (string, bool) {\n		return updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)\n	}, rev)\n	return s, nil\n}\n\nfunc (s *Searcher) poll(update func(string) (string, bool), rev string) {\n	repo := s.Repo\n	{\n		<-s.updateCh\n"), (S, "updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)\n			if", "update(rev)\n			if"), (S, "			reportOnMemory()\n		}\n	}()\n\n	return s, nil\n}", "			reportOnMemory()\n		}\n	}\n}")]),
 ("c10-keep-begin-helper", "C10", "silent", [(S, BEGIN, "	beginAll(searchers)\n"), (S, "// Creates a new Searcher that is available", "func beginAll(searchers map[string]*Searcher) {\n	for _, s := range searchers {\n		s.begin()\n	}\n}\n\n// Creates a new Searcher that is available")]),
 ("c10-keep-inline-notify", "C10", "silent", [(D, REG, "	sigs := make(chan os.Signal, 1)\n	signal.Notify(sigs, gracefulShutdownSignal)\n	idx, ok, err := makeSearchers(&cfg)\n"), (D, "	handleShutdown(shutdownCh, idx)\n", "	handleShutdown(sigs, idx)\n"), (D, "func registerShutdownSignal() <-chan os.Signal {\n	shutdownCh := make(chan os.Signal, 1)\n	signal.Notify(shutdownCh, gracefulShutdownSignal)\n	return shutdownCh\n}\n", "")]),
 ("c10-keep-parallel-wait", "C10", "silent", [(S, STOP, "	select {\n	default:\n	case s.shutdownCh <- empty{}:\n		return\n	}\n")]),
 ("c10-keep-struct-late", "C10", "silent", [(S, "		doneCh:     make(chan empty),\n		shutdownCh: make(chan empty, 1),\n	}\n", "	}\n	s.doneCh = make(chan empty)\n	s.shutdownCh = make(chan empty, 1)\n")]),
]
