S = "searcher/searcher.go"
CLAIM = '''	r.lock.Lock()
	defer r.lock.Unlock()

	for _, ref := range r.refs {
		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
			r.claimed[ref] = true
			return ref
		}
	}
	return nil
'''
RM = '''	for _, ref := range r.refs {
		if r.claimed[ref] {
			continue
		}

		if err := ref.Remove(); err != nil {
			return err
		}
	}
	return nil
'''
RMCALL = '''	if err := refs.removeUnclaimed(); err != nil {
		return nil, nil, err
	}

'''
RECV = '''	for i := 0; i < n; i++ {
		r := <-resultCh
		if r.err != nil {
			log.Print(r.err)
			errs[r.name] = r.err
			continue
		}
		searchers[r.name] = r.searcher
	}
'''
def claim(s): return (S, CLAIM, s)
CASES = [
 ("c04-norev", "C04", "fire", [(S, "if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref]", "if ref.Url == url && !r.claimed[ref]")]),
 ("c04-nourl", "C04", "fire", [(S, "if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref]", "if ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref]")]),
 ("c04-or", "C04", "fire", [(S, "if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref]", "if ref.Url == url && (ref.Rev == rev || rev == \"\") && !r.claimed[ref]")]),
 ("c04-twice", "C04", "fire", [(S, "&& !r.claimed[ref] {", "{")]),
 ("c04-unlocked", "C04", "fire", [claim(CLAIM.replace("	r.lock.Lock()\n	defer r.lock.Unlock()\n", ""))]),
 ("c04-rlocked-gap", "C04", "fire", [claim('''	var found *index.IndexRef
	r.lock.Lock()
	for _, ref := range r.refs {
		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
			found = ref
			break
		}
	}
	r.lock.Unlock()
	if found != nil {
		r.lock.Lock()
		r.claimed[found] = true
		r.lock.Unlock()
	}
	return found
''')]),
 ("c04-unclaimed-use", "C04", "fire", [claim(CLAIM.replace("			r.claimed[ref] = true\n", ""))]),
 ("c04-claim-false", "C04", "fire", [claim(CLAIM.replace("r.claimed[ref] = true", "r.claimed[ref] = false"))]),
 ("c04-headrev", "C04", "fire", [(S, "	ref := refs.claim(repo.Url, rev, opt)\n", "	ref := refs.claim(repo.Url, name, opt)\n")]),
 ("c04-remove-all", "C04", "fire", [(S, RM, RM.replace("		if r.claimed[ref] {\n			continue\n		}\n\n", ""))]),
 ("c04-remove-claimed", "C04", "fire", [(S, RM, RM.replace("if r.claimed[ref] {", "if !r.claimed[ref] {"))]),
 ("c04-remove-by-url", "C04", "fire", [(S, RM, RM.replace("if r.claimed[ref] {", "if r.claimed[ref] || ref.Url == \"\" {"))]),
 ("c04-remove-early", "C04", "fire", [(S, RMCALL, ""), (S, "	// Collect the results on resultCh channel for all repos.\n", RMCALL)]),
 ("c04-remove-short", "C04", "fire", [(S, "	for i := 0; i < n; i++ {\n		r := <-resultCh", "	for i := 0; i < n-1; i++ {\n		r := <-resultCh")]),
 ("c04-remove-break", "C04", "fire", [(S, RECV, RECV.replace("			continue\n", "			break\n"))]),
 ("c04-remove-skipped", "C04", "fire", [(S, RMCALL, "	if len(errs) == 0 {\n" + RMCALL + "	}\n")]),
 ("c04-remove-unlocked", "C04", "fire", [(S, "func (r *foundRefs) removeUnclaimed() error {\n	r.lock.Lock()\n	defer r.lock.Unlock()\n", "func (r *foundRefs) removeUnclaimed() error {\n")]),
 ("c04-noreport", "C04", "fire", [(S, "	if err != nil {\n		resultCh <- searcherResult{\n			name: name,\n			err:  err,\n		}\n		return\n	}\n", "	if err != nil {\n		log.Print(err)\n		return\n	}\n")]),
 ("c04-double-report", "C04", "fire", [(S, "			err:  err,\n		}\n		return\n	}\n", "			err:  err,\n		}\n	}\n")]),
 ("c04-gap-recheck", "C04", "silent", [claim('''	for _, ref := range r.refs {
		if ref.Url != url || ref.Rev != rev || !ref.BuiltWith(opt) {
			continue
		}
		if r.take(ref) {
			return ref
		}
	}
	return nil
}

func (r *foundRefs) take(ref *index.IndexRef) bool {
	r.lock.Lock()
	defer r.lock.Unlock()
	if r.claimed[ref] {
		return false
	}
	r.claimed[ref] = true
	return true
''')]),
 ("c04-commaok", "C04", "silent", [claim(CLAIM.replace("&& !r.claimed[ref] {", "{\n			if _, ok := r.claimed[ref]; ok {\n				continue\n			}"))]),
 ("c04-range-results", "C04", "silent", [(S, "	for i := 0; i < n; i++ {\n		r := <-resultCh", "	for range cfg.Repos {\n		r := <-resultCh")]),
 ("c04-inline-remove", "C04", "silent", [(S, RM, '''	for i := 0; i < len(r.refs); i++ {
		ref := r.refs[i]
		if !r.claimed[ref] {
			if err := ref.Remove(); err != nil {
				return err
			}
		}
	}
	return nil
''')]),
 ("c04-remove-log", "C04", "silent", [(S, RM, RM.replace("			return err\n", "			log.Print(err)\n"))]),
 ("c04-one-send", "C04", "silent", [(S, '''	if err != nil {
		resultCh <- searcherResult{
			name: name,
			err:  err,
		}
		return
	}

	resultCh <- searcherResult{
		name:     name,
		searcher: s,
	}
''', '''	res := searcherResult{name: name}
	if err != nil {
		res.err = err
	} else {
		res.searcher = s
	}
	resultCh <- res
''')]),
 ("c04-dir-split", "C04", "silent", [(S, '''	var idxDir string
	ref := refs.claim(repo.Url, rev, opt)
	if ref == nil {
		idxDir = nextIndexDir(dbpath)
	} else {
		idxDir = ref.Dir()
	}
''', '''	idxDir := nextIndexDir(dbpath)
	if ref := refs.claim(repo.Url, rev, opt); ref != nil {
		idxDir = ref.Dir()
	}
''')]),
]
