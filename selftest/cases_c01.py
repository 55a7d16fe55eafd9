S = "searcher/searcher.go"
I = "index/index.go"
CASES = [
 ("c01-search-nolock", "C01", "fire", [(S, "\ts.lck.RLock()\n\tdefer s.lck.RUnlock()\n\treturn s.idx.Search(pat, opt)", "\treturn s.idx.Search(pat, opt)")]),
 ("c01-search-early-unlock", "C01", "fire", [(S, "\ts.lck.RLock()\n\tdefer s.lck.RUnlock()\n\treturn s.idx.Search(pat, opt)", "\ts.lck.RLock()\n\tidx := s.idx\n\ts.lck.RUnlock()\n\treturn idx.Search(pat, opt)")]),
 ("c01-swap-rlock", "C01", "fire", [(S, "\ts.lck.Lock()\n\tdefer s.lck.Unlock()\n\n\toldIdx", "\ts.lck.RLock()\n\tdefer s.lck.RUnlock()\n\n\toldIdx")]),
 ("c01-destroy-before-swap", "C01", "fire", [(S, "\ts.lck.Lock()\n\tdefer s.lck.Unlock()\n\n\toldIdx := s.idx\n\ts.idx = idx\n\n\treturn oldIdx.Destroy()", "\ts.lck.RLock()\n\toldIdx := s.idx\n\ts.lck.RUnlock()\n\terr := oldIdx.Destroy()\n\ts.lck.Lock()\n\ts.idx = idx\n\ts.lck.Unlock()\n\treturn err")]),
 ("c01-destroy-after-swap-outside", "C01", "silent", [(S, "\ts.lck.Lock()\n\tdefer s.lck.Unlock()\n\n\toldIdx := s.idx\n\ts.idx = idx\n\n\treturn oldIdx.Destroy()", "\ts.lck.Lock()\n\toldIdx := s.idx\n\ts.idx = idx\n\ts.lck.Unlock()\n\treturn oldIdx.Destroy()")]),
 ("c01-excluded-early-unlock", "C01", "fire", [(S, "\ts.lck.RLock()\n\tdefer s.lck.RUnlock()\n\tpath := filepath.Join(s.idx.GetDir(), \"excluded_files.json\")", "\ts.lck.RLock()\n\tpath := filepath.Join(s.idx.GetDir(), \"excluded_files.json\")\n\ts.lck.RUnlock()")]),
 ("c01-accessor-leak", "C01", "fire", [(S, "// Triggers an immediate poll", "func (s *Searcher) Index() *index.Index {\n\ts.lck.RLock()\n\tdefer s.lck.RUnlock()\n\treturn s.idx\n}\n\n// Triggers an immediate poll")]),
 ("c01-helper-locked", "C01", "silent", [(S, "\ts.lck.RLock()\n\tdefer s.lck.RUnlock()\n\treturn s.idx.Search(pat, opt)\n}", "\tvar r *index.SearchResponse\n\terr := s.withIndex(func(i *index.Index) error {\n\t\tvar err error\n\t\tr, err = i.Search(pat, opt)\n\t\treturn err\n\t})\n\treturn r, err\n}\n\nfunc (s *Searcher) withIndex(f func(*index.Index) error) error {\n\ts.lck.RLock()\n\tdefer s.lck.RUnlock()\n\treturn f(s.idx)\n}")]),
 ("c01-explicit-unlock", "C01", "silent", [(S, "\ts.lck.RLock()\n\tdefer s.lck.RUnlock()\n\treturn s.idx.Search(pat, opt)\n}", "\ts.lck.RLock()\n\tr, err := s.idx.Search(pat, opt)\n\ts.lck.RUnlock()\n\treturn r, err\n}")]),
 ("c01-idx-search-nolock", "C01", "fire", [(I, "\tn.lck.RLock()\n\tdefer n.lck.RUnlock()\n\n\tpatForRe", "\tpatForRe")]),
 ("c01-idx-search-late-lock", "C01", "fire", [(I, "\tn.lck.RLock()\n\tdefer n.lck.RUnlock()\n\n\tpatForRe", "\tpatForRe"), (I, "\tfor _, file := range files {\n", "\tn.lck.RLock()\n\tdefer n.lck.RUnlock()\n\tfor _, file := range files {\n")]),
 ("c01-idx-search-early-unlock", "C01", "fire", [(I, "\tn.lck.RLock()\n\tdefer n.lck.RUnlock()\n\n\tpatForRe", "\tn.lck.RLock()\n\n\tpatForRe"), (I, "\tfor _, file := range files {\n", "\tn.lck.RUnlock()\n\tfor _, file := range files {\n")]),
 ("c01-idx-raw-unlocked", "C01", "fire", [(I, "\t\tif err := g.grep2File(filepath.Join(n.Ref.dir, \"raw\", name)", "\t\tn.lck.RUnlock()\n\t\terr := g.grep2File(filepath.Join(n.Ref.dir, \"raw\", name)"), (I, "\t\t\t\treturn true, nil\n\t\t\t}); err != nil {", "\t\t\t\treturn true, nil\n\t\t\t})\n\t\tn.lck.RLock()\n\t\tif err != nil {")]),
 ("c01-destroy-rlock", "C01", "fire", [(I, "\tn.lck.Lock()\n\tdefer n.lck.Unlock()\n\tif err := n.idx.Close()", "\tn.lck.RLock()\n\tdefer n.lck.RUnlock()\n\tif err := n.idx.Close()")]),
 ("c01-close-nolock", "C01", "fire", [(I, "\tn.lck.Lock()\n\tdefer n.lck.Unlock()\n\treturn n.idx.Close()", "\treturn n.idx.Close()")]),
 ("c01-destroy-remove-outside", "C01", "silent", [(I, "\tn.lck.Lock()\n\tdefer n.lck.Unlock()\n\tif err := n.idx.Close(); err != nil {\n\t\treturn err\n\t}\n\treturn n.Ref.Remove()", "\tn.lck.Lock()\n\terr := n.idx.Close()\n\tn.lck.Unlock()\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn n.Ref.Remove()")]),
 ("c01-destroy-usesclose", "C01", "silent", [(I, "\tif err := n.idx.Close(); err != nil {\n\t\treturn err\n\t}\n\treturn n.Ref.Remove()", "\terr := n.idx.Close()\n\tif err == nil {\n\t\terr = n.Ref.Remove()\n\t}\n\treturn err")]),
 ("c01-swap-helper", "C01", "silent", [(S, "\toldIdx := s.idx\n\ts.idx = idx\n\n\treturn oldIdx.Destroy()", "\treturn s.exchange(idx).Destroy()"), (S, "// Perform a basic search on", "func (s *Searcher) exchange(idx *index.Index) *index.Index {\n\told := s.idx\n\ts.idx = idx\n\treturn old\n}\n\n// Perform a basic search on")]),
 ("c01-remove-first-outside", "C01", "fire", [(I, "\tn.lck.Lock()\n\tdefer n.lck.Unlock()\n\tif err := n.idx.Close(); err != nil {\n\t\treturn err\n\t}\n\treturn n.Ref.Remove()", "\tif err := n.Ref.Remove(); err != nil {\n\t\treturn err\n\t}\n\tn.lck.Lock()\n\tdefer n.lck.Unlock()\n\treturn n.idx.Close()")]),
 ("c01-two-sections", "C01", "fire", [(S, "\tpath := filepath.Join(s.idx.GetDir(), \"excluded_files.json\")\n\tdat, err := ioutil.ReadFile(path)", "\tpath := filepath.Join(s.idx.GetDir(), \"excluded_files.json\")\n\ts.lck.RUnlock()\n\tlog.Print(path)\n\ts.lck.RLock()\n\tdat, err := ioutil.ReadFile(path)")]),
 ("c01-ctor-goroutine-direct", "C01", "fire", [(S, "\t\t<-s.updateCh\n", "\t\t<-s.updateCh\n\t\tlog.Print(s.idx.GetDir())\n")]),
]
