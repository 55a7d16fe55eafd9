A = "api/api.go"
S = "searcher/searcher.go"
POSTU = '''		if r.Method != "POST" {
			writeError(w,
				errors.New(http.StatusText(http.StatusMethodNotAllowed)),
				http.StatusMethodNotAllowed)
			return
		}

		repos :='''
POSTW = POSTU.replace("repos :=", "type Webhook")
UPD = '''			if !searcher.Update() {
				writeError(w,
					fmt.Errorf("Push updates are not enabled for repository %s", repo),
					http.StatusForbidden)
				return

			}
'''
Q = '''	if !s.Repo.PushUpdatesEnabled() {
		return false
	}

	// schedule'''
DIS = '''		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {
			s.completeShutdown()
			return
		}
'''
DEL = '''		if repo.PollUpdatesEnabled() {
			delay = time.Duration(repo.MsBetweenPolls) * time.Millisecond
		}
'''
WAIT = '''	if delay.Nanoseconds() > 0 {
		tch = time.After(delay)
	}
'''
WU = '''			if !s.waitForUpdate(delay) {
				s.completeShutdown()
				return
			}
'''
SEL = '''	select {
	case <-s.updateCh:
	case <-tch:
	case <-s.shutdownCh:
		return false
	}
	return true
'''
CASES = [
 ("c17-get", "C17", "fire", [(A, POSTU, POSTU.replace('r.Method != "POST"', 'r.Method == "GET"'))]),
 ("c17-hook-get", "C17", "fire", [(A, POSTW, POSTW.replace('r.Method != "POST"', 'r.Method == ""'))]),
 ("c17-post-noreturn", "C17", "fire", [(A, POSTU, POSTU.replace("			return\n", ""))]),
 ("c17-post-or", "C17", "fire", [(A, POSTU, POSTU.replace('r.Method != "POST"', 'r.Method != "POST" && r.FormValue("force") == ""'))]),
 ("c17-refused-ok", "C17", "fire", [(A, UPD, UPD.replace("				return\n\n", ""))]),
 ("c17-refused-status", "C17", "fire", [(A, UPD, UPD.replace("http.StatusForbidden", "http.StatusNotFound"))]),
 ("c17-refused-skip", "C17", "fire", [(A, UPD, "			if !searcher.Update() {\n				continue\n			}\n")]),
 ("c17-refused-ignored", "C17", "fire", [(A, UPD, "			searcher.Update()\n")]),
 ("c17-first-only", "C17", "fire", [(A, UPD, UPD + "			if len(repo) > 40 {\n				break\n			}\n")]),
 ("c17-skipped", "C17", "fire", [(A, UPD, '			if strings.HasPrefix(repo, "_") {\n				continue\n			}\n' + UPD)]),
 ("c17-queue-poll", "C17", "fire", [(S, Q, Q.replace("!s.Repo.PushUpdatesEnabled()", "!s.Repo.PollUpdatesEnabled()"))]),
 ("c17-queue-and", "C17", "fire", [(S, Q, Q.replace("!s.Repo.PushUpdatesEnabled()", "!s.Repo.PushUpdatesEnabled() && !s.Repo.PollUpdatesEnabled()"))]),
 ("c17-queue-late", "C17", "fire", [(S, Q, "	// schedule"), (S, "		// don't wait to enqueue another update\n	}\n\n	return true", "		// don't wait to enqueue another update\n	}\n\n	return s.Repo.PushUpdatesEnabled()")]),
 ("c17-answer-full", "C17", "fire", [(S, "		// don't wait to enqueue another update\n	}\n\n	return true", "		return false\n	}\n\n	return true")]),
 ("c17-disabled-gone", "C17", "fire", [(S, DIS, "")]),
 ("c17-disabled-or", "C17", "fire", [(S, DIS, DIS.replace("&&", "||"))]),
 ("c17-timer-always", "C17", "fire", [(S, DEL, "		delay = time.Duration(repo.MsBetweenPolls) * time.Millisecond\n")]),
 ("c17-timer-push", "C17", "fire", [(S, DEL, DEL.replace("Poll", "Push", 1))]),
 ("c17-timer-unit", "C17", "fire", [(S, DEL, DEL.replace("time.Millisecond", "time.Second"))]),
 ("c17-timer-nounit", "C17", "fire", [(S, DEL, DEL.replace(" * time.Millisecond", ""))]),
 ("c17-timer-fixed", "C17", "fire", [(S, DEL, DEL.replace("time.Duration(repo.MsBetweenPolls) * time.Millisecond", "30 * time.Second"))]),
 ("c17-timer-never", "C17", "fire", [(S, DEL, "		_ = repo.MsBetweenPolls\n")]),
 ("c17-busy", "C17", "fire", [(S, SEL, SEL.replace("	case <-s.shutdownCh:", "	default:\n		return len(s.shutdownCh) == 0\n	case <-s.shutdownCh:"))]),
 ("c17-busy-retry", "C17", "fire", [(S, WU, "			if rev != \"\" && " + WU.strip()[3:] + "\n")]),
 ("c17-once", "C17", "fire", [(S, WAIT, "	if delay.Nanoseconds() > 0 && len(s.updateCh) > 0 {\n		tch = time.After(delay)\n	}\n")]),
 # refactorings
 ("c17-r-switch", "C17", "silent", [(A, POSTU, '''		switch r.Method {
		case http.MethodPost:
		default:
			writeError(w,
				errors.New(http.StatusText(http.StatusMethodNotAllowed)),
				http.StatusMethodNotAllowed)
			return
		}

		repos :=''')]),
 ("c17-r-helper", "C17", "silent", [(A, POSTU, '''		if !postOnly(w, r) {
			return
		}

		repos :='''), (A, POSTW, '''		if !postOnly(w, r) {
			return
		}

		type Webhook'''), (A, "func Setup(", '''func postOnly(w http.ResponseWriter, r *http.Request) bool {
	if r.Method == "POST" {
		return true
	}
	writeError(w,
		errors.New(http.StatusText(http.StatusMethodNotAllowed)),
		http.StatusMethodNotAllowed)
	return false
}

func Setup(''')]),
 ("c17-r-ok", "C17", "silent", [(A, UPD, UPD.replace("if !searcher.Update() {", "if ok := searcher.Update(); !ok {"))]),
 ("c17-r-index-loop", "C17", "silent", [(A, "		for _, repo := range repos {\n			searcher := idx[repo]\n			if searcher == nil {\n				writeError(w,\n					fmt.Errorf(\"No such repository: %s\", repo),\n					http.StatusNotFound)\n				return\n			}\n\n			if !searcher", "		for i := 0; i < len(repos); i++ {\n			repo := repos[i]\n			searcher := idx[repo]\n			if searcher == nil {\n				writeError(w,\n					fmt.Errorf(\"No such repository: %s\", repo),\n					http.StatusNotFound)\n				return\n			}\n\n			if !searcher")]),
 ("c17-r-queue-nested", "C17", "silent", [(S, Q, "	ok := s.Repo.PushUpdatesEnabled()\n	if !ok {\n		return ok\n	}\n\n	// schedule")]),
 ("c17-r-vars", "C17", "silent", [(S, DIS, "		polls, pushes := repo.PollUpdatesEnabled(), repo.PushUpdatesEnabled()\n		if !(polls || pushes) {\n			s.completeShutdown()\n			return\n		}\n"), (S, DEL, DEL.replace("repo.PollUpdatesEnabled()", "polls"))]),
 ("c17-r-interval", "C17", "silent", [(S, DEL, "		if repo.PollUpdatesEnabled() {\n			ms := time.Duration(repo.MsBetweenPolls)\n			delay = time.Millisecond * ms\n		}\n")]),
 ("c17-r-newtimer", "C17", "silent", [(S, WAIT, "	if delay > 0 {\n		t := time.NewTimer(delay)\n		defer t.Stop()\n		tch = t.C\n	}\n")]),
 ("c17-r-method", "C17", "silent", [(S, DEL, "		delay = pollDelay(repo)\n"), (S, "// Signal the searcher that it is ok", "func pollDelay(repo *config.Repo) time.Duration {\n	if !repo.PollUpdatesEnabled() {\n		return 0\n	}\n	return time.Duration(repo.MsBetweenPolls) * time.Millisecond\n}\n\n// Signal the searcher that it is ok")]),
 ("c17-r-fornot", "C17", "silent", [(S, "		for {\n			// Wait for a signal to proceed\n" + WU, "		for s.waitForUpdate(delay) {\n"), (S, "			reportOnMemory()\n		}\n	}()", "			reportOnMemory()\n		}\n		s.completeShutdown()\n	}()")]),
 ("c17-r-selreturn", "C17", "silent", [(S, SEL, "	select {\n	case <-s.shutdownCh:\n		return false\n	case <-s.updateCh:\n		return true\n	case <-tch:\n		return true\n	}\n")]),
 ("c17-ended-poll", "C17", "fire", [(S, DIS, DIS.replace("!repo.PollUpdatesEnabled() && ", ""))]),
 ("c17-ended-push", "C17", "fire", [(S, DIS, DIS.replace(" && !repo.PushUpdatesEnabled()", ""))]),
 ("c17-ended-not", "C17", "silent", [(S, DIS, DIS.replace("!repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled()", "!(repo.PollUpdatesEnabled() || repo.PushUpdatesEnabled())"))]),
]
