# C34: indexes in use match the repository's settings
S="searcher/searcher.go";I="index/index.go"
def F(n,*e): return ("c34-"+n,"C34","fire",list(e))
def K(n,*e): return ("c34-"+n,"C34","silent",list(e))
LOOP="	if len(r.AutoGeneratedFiles) != len(opt.AutoGeneratedFiles) {\n		return false\n	}\n	for i, name := range r.AutoGeneratedFiles {\n		if name != opt.AutoGeneratedFiles[i] {\n			return false\n		}\n	}\n	return true\n"
DOT="	if r.ExcludeDotFiles != opt.ExcludeDotFiles {\n		return false\n	}\n"
CLAIM="ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref]"
AUTO="	var autoFiles []string\n	if len(repo.AutoGeneratedFiles) > 0 {\n		autoFiles = repo.AutoGeneratedFiles\n	} else {\n		autoFiles = wd.AutoGeneratedFiles(vcsDir)\n	}\n"
OPTS="	return &index.IndexOptions{\n		ExcludeDotFiles:    repo.ExcludeDotFiles,\n		SpecialFiles:       wd.SpecialFiles(),\n		AutoGeneratedFiles: autoFiles,\n	}"
CASES=[
F("claim-any",(S,CLAIM,CLAIM.replace("ref.BuiltWith(opt) && ",""))),
F("claim-or",(S,CLAIM,CLAIM.replace("ref.BuiltWith(opt)","(ref.BuiltWith(opt) || len(r.refs) == 1)"))),
F("dot-not-compared",(I,DOT,"")),
F("dot-one-way",(I,DOT,"	if r.ExcludeDotFiles && !opt.ExcludeDotFiles {\n		return false\n	}\n")),
F("auto-not-compared",(I,LOOP,"	return true\n")),
F("auto-only-counted",(I,LOOP,"	return len(r.AutoGeneratedFiles) == len(opt.AutoGeneratedFiles)\n")),
F("dot-not-recorded",(I,"		ExcludeDotFiles:    opt.ExcludeDotFiles,\n		AutoGeneratedFiles: opt","		AutoGeneratedFiles: opt")),
F("auto-not-recorded",(I,"		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n","")),
F("recorded-late",(I,"		ExcludeDotFiles:    opt.ExcludeDotFiles,\n		AutoGeneratedFiles: opt","		AutoGeneratedFiles: opt"),(I,"	if err := r.writeManifest(); err != nil {\n		return nil, err\n	}\n\n	return r, nil","	if err := r.writeManifest(); err != nil {\n		return nil, err\n	}\n	r.ExcludeDotFiles = opt.ExcludeDotFiles\n\n	return r, nil")),
F("dot-never",(S,"		ExcludeDotFiles:    repo.ExcludeDotFiles,\n","")),
F("dot-negated",(S,"		ExcludeDotFiles:    repo.ExcludeDotFiles,","		ExcludeDotFiles:    !repo.ExcludeDotFiles,")),
F("dot-polls",(S,"		ExcludeDotFiles:    repo.ExcludeDotFiles,","		ExcludeDotFiles:    repo.ExcludeDotFiles && repo.PollUpdatesEnabled(),")),
F("auto-before-pull",(S,"	repo := s.Repo\n	newRev, err := wd.PullOrClone(vcsDir, repo.Url)\n","	repo := s.Repo\n	opt := indexOptionsFor(repo, wd, vcsDir)\n	newRev, err := wd.PullOrClone(vcsDir, repo.Url)\n"),(S,"		indexOptionsFor(repo, wd, vcsDir),\n","		opt,\n")),
F("auto-once",(S,"	name,\n	rev string,\n	wd *vcs.WorkDir,\n	lim limiter) (string, bool) {","	name,\n	rev string,\n	wd *vcs.WorkDir,\n	opt *index.IndexOptions,\n	lim limiter) (string, bool) {"),(S,"		indexOptionsFor(repo, wd, vcsDir),\n","		opt,\n"),(S,"name, rev, wd, lim)","name, rev, wd, opt, lim)")),
F("auto-dropped",(S,"		AutoGeneratedFiles: autoFiles,\n",""),(S,AUTO,AUTO+"	_ = autoFiles\n")),
F("update-without-auto",(S,"		indexOptionsFor(repo, wd, vcsDir),\n","		&index.IndexOptions{\n			ExcludeDotFiles: repo.ExcludeDotFiles,\n			SpecialFiles:    wd.SpecialFiles(),\n		},\n")),
F("update-without-dot",(S,"		indexOptionsFor(repo, wd, vcsDir),\n","		&index.IndexOptions{\n			SpecialFiles:       wd.SpecialFiles(),\n			AutoGeneratedFiles: wd.AutoGeneratedFiles(vcsDir),\n		},\n")),
F("auto-cached",(S,AUTO,"	if len(repo.AutoGeneratedFiles) == 0 {\n		repo.AutoGeneratedFiles = wd.AutoGeneratedFiles(vcsDir)\n	}\n	autoFiles := repo.AutoGeneratedFiles\n")),
K("opts-var",(S,OPTS,"	opt := index.IndexOptions{SpecialFiles: wd.SpecialFiles()}\n	opt.AutoGeneratedFiles = autoFiles\n	opt.ExcludeDotFiles = repo.ExcludeDotFiles\n	return &opt")),
K("auto-default-first",(S,AUTO,"	autoFiles := repo.AutoGeneratedFiles\n	if len(autoFiles) == 0 {\n		autoFiles = wd.AutoGeneratedFiles(vcsDir)\n	}\n")),
K("auto-helper",(S,AUTO,"	autoFiles := generatedFiles(repo, wd, vcsDir)\n"),(S,"// The options for indexing","func generatedFiles(repo *config.Repo, wd *vcs.WorkDir, dir string) []string {\n	if configured := repo.AutoGeneratedFiles; len(configured) > 0 {\n		return configured\n	}\n	return wd.AutoGeneratedFiles(dir)\n}\n\n// The options for indexing")),
K("claim-nested",(S,"		if "+CLAIM+" {\n			r.claimed[ref] = true\n			return ref\n		}\n","		if r.claimed[ref] || ref.Url != url || ref.Rev != rev {\n			continue\n		}\n		if !ref.BuiltWith(opt) {\n			continue\n		}\n		r.claimed[ref] = true\n		return ref\n")),
K("claim-inline",(S,CLAIM,"ref.Url == url && ref.Rev == rev && ref.ExcludeDotFiles == opt.ExcludeDotFiles && reflect.DeepEqual(ref.AutoGeneratedFiles, opt.AutoGeneratedFiles) && !r.claimed[ref]"),(S,"	\"path/filepath\"\n	\"runtime\"","	\"path/filepath\"\n	\"reflect\"\n	\"runtime\"")),
K("same-strings",(I,LOOP,"	return sameStrings(r.AutoGeneratedFiles, opt.AutoGeneratedFiles)\n"),(I,"func containsString","func sameStrings(a, b []string) bool {\n	if len(a) != len(b) {\n		return false\n	}\n	for i := range a {\n		if a[i] != b[i] {\n			return false\n		}\n	}\n	return true\n}\n\nfunc containsString")),
K("built-with-positive",(I,DOT+"\n"+LOOP,"	if r.ExcludeDotFiles == opt.ExcludeDotFiles && len(r.AutoGeneratedFiles) == len(opt.AutoGeneratedFiles) {\n		for i, n := 0, len(r.AutoGeneratedFiles); i < n; i++ {\n			if r.AutoGeneratedFiles[i] != opt.AutoGeneratedFiles[i] {\n				return false\n			}\n		}\n		return true\n	}\n	return false\n")),
K("built-with-joined",(I,DOT+"\n"+LOOP,"	return r.ExcludeDotFiles == opt.ExcludeDotFiles &&\n		strings.Join(r.AutoGeneratedFiles, \"\\x00\") == strings.Join(opt.AutoGeneratedFiles, \"\\x00\")\n"),(I,"	\"path/filepath\"\n	\"sync\"","	\"path/filepath\"\n	\"strings\"\n	\"sync\"")),
K("manifest-fields",(I,"		ExcludeDotFiles:    opt.ExcludeDotFiles,\n		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n","	}\n	r.ExcludeDotFiles = opt.ExcludeDotFiles\n	r.AutoGeneratedFiles = opt.AutoGeneratedFiles\n")),
K("update-opt-var",(S,"	idx, err := buildAndOpenIndex(\n		indexOptionsFor(repo, wd, vcsDir),\n","	opt := indexOptionsFor(repo, wd, vcsDir)\n	idx, err := buildAndOpenIndex(\n		opt,\n")),
K("auto-copied",(S,"		autoFiles = repo.AutoGeneratedFiles\n","		autoFiles = append(autoFiles, repo.AutoGeneratedFiles...)\n")),
K("record-copied",(I,"		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n","		AutoGeneratedFiles: append([]string(nil), opt.AutoGeneratedFiles...),\n	}\n")),
K("record-made",(I,"	r := &IndexRef{","	marked := make([]string, len(opt.AutoGeneratedFiles))\n	copy(marked, opt.AutoGeneratedFiles)\n	r := &IndexRef{"),(I,"		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n","		AutoGeneratedFiles: marked,\n	}\n")),
K("auto-made",(S,"		autoFiles = repo.AutoGeneratedFiles\n","		autoFiles = make([]string, len(repo.AutoGeneratedFiles))\n		copy(autoFiles, repo.AutoGeneratedFiles)\n")),
F("record-cut",(I,"	r := &IndexRef{","	marked := opt.AutoGeneratedFiles\n	if len(marked) > 64 {\n		marked = marked[:64]\n	}\n	r := &IndexRef{"),(I,"		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n","		AutoGeneratedFiles: marked,\n	}\n")),
F("record-cut-copied",(I,"		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n","		AutoGeneratedFiles: append([]string(nil), opt.AutoGeneratedFiles[:len(opt.AutoGeneratedFiles)/2]...),\n	}\n")),
F("record-dot-inverted",(I,"		ExcludeDotFiles:    opt.ExcludeDotFiles,\n","		ExcludeDotFiles:    !opt.ExcludeDotFiles,\n")),
F("prefix-compared",(I,LOOP,"	for i, name := range r.AutoGeneratedFiles {\n		if i < len(opt.AutoGeneratedFiles) && name != opt.AutoGeneratedFiles[i] {\n			return false\n		}\n	}\n	return true\n")),
F("difference-passed-over",(I,LOOP,LOOP.replace("			return false\n		}\n	}","			continue\n		}\n	}"))),
F("any-if-none-given",(I,LOOP,"	if len(opt.AutoGeneratedFiles) == 0 {\n		return true\n	}\n"+LOOP)),
F("any-if-none-recorded",(I,LOOP,"	if len(r.AutoGeneratedFiles) == 0 {\n		return true\n	}\n"+LOOP)),
F("first-equal-enough",(I,LOOP,LOOP.replace("			return false\n		}\n	}","			return false\n		}\n		return true\n	}"))),
F("compared-with-itself",(I,LOOP,LOOP.replace("opt.AutoGeneratedFiles[i]","r.AutoGeneratedFiles[i]"))),
F("claim-zero-options",(S,"refs.claim(repo.Url, rev, opt)","refs.claim(repo.Url, rev, &index.IndexOptions{ExcludeDotFiles: repo.ExcludeDotFiles, AutoGeneratedFiles: repo.AutoGeneratedFiles})")),
F("configured-if-many",(S,"	if len(repo.AutoGeneratedFiles) > 0 {\n","	if len(repo.AutoGeneratedFiles) > 1 {\n")),
F("configured-if-not-nil",(S,"	if len(repo.AutoGeneratedFiles) > 0 {\n","	if repo.AutoGeneratedFiles != nil {\n")),
F("working-copy-first",(S,AUTO,"	autoFiles := wd.AutoGeneratedFiles(vcsDir)\n	if len(autoFiles) == 0 {\n		autoFiles = repo.AutoGeneratedFiles\n	}\n")),
F("both-together",(S,AUTO,"	autoFiles := append(wd.AutoGeneratedFiles(vcsDir), repo.AutoGeneratedFiles...)\n")),
F("auto-of-other-dir",(S,"wd.AutoGeneratedFiles(vcsDir)","wd.AutoGeneratedFiles(filepath.Dir(vcsDir))")),
F("read-forgets",(I,"func (r *IndexRef) Open() (idx","func (r *IndexRef) reset() { r.AutoGeneratedFiles = r.AutoGeneratedFiles[:0] }\n\nfunc (r *IndexRef) Open() (idx"),(I,"		return m, err\n	}\n\n	return m, nil\n","		return m, err\n	}\n	m.reset()\n	return m, nil\n")),
K("wd-answer-copied",(S,AUTO,"	autoFiles := repo.AutoGeneratedFiles\n	if n := len(autoFiles); n < 1 {\n		marked := wd.AutoGeneratedFiles(vcsDir)\n		autoFiles = append([]string{}, marked...)\n	}\n")),
K("configured-method",(S,AUTO,"	autoFiles := repo.AutoGeneratedFiles\n	if !hasNames(autoFiles) {\n		autoFiles = wd.AutoGeneratedFiles(vcsDir)\n	}\n"),(S,"// The options for indexing","func hasNames(l []string) bool { return len(l) != 0 }\n\n// The options for indexing")),
K("switch-auto",(S,AUTO,"	var autoFiles []string\n	switch {\n	case len(repo.AutoGeneratedFiles) != 0:\n		autoFiles = repo.AutoGeneratedFiles\n	default:\n		autoFiles = wd.AutoGeneratedFiles(vcsDir)\n	}\n")),
K("built-with-loop-both",(I,LOOP,"	mine, theirs := r.AutoGeneratedFiles, opt.AutoGeneratedFiles\n	same := len(mine) == len(theirs)\n	for i := 0; same && i < len(mine); i++ {\n		same = mine[i] == theirs[i]\n	}\n	return same\n")),
K("built-with-goto-end",(I,LOOP,"	if n := len(opt.AutoGeneratedFiles); n != len(r.AutoGeneratedFiles) {\n		return false\n	}\n	for i, name := range opt.AutoGeneratedFiles {\n		if r.AutoGeneratedFiles[i] == name {\n			continue\n		}\n		return false\n	}\n	return true\n")),
K("repo-getter",(S,AUTO,"	autoFiles := repo.GeneratedFiles()\n	if len(autoFiles) == 0 {\n		autoFiles = wd.AutoGeneratedFiles(vcsDir)\n	}\n"),("config/config.go","func (r *Repo) PollUpdatesEnabled()","// GeneratedFiles are the names configured.\nfunc (r *Repo) GeneratedFiles() []string {\n	return r.AutoGeneratedFiles\n}\n\nfunc (r *Repo) PollUpdatesEnabled()")),
K("opts-from-index",(S,OPTS,"	return index.NewOptions(repo.ExcludeDotFiles, wd.SpecialFiles(), autoFiles)"),(I,"// BuiltWith","func NewOptions(noDots bool, special, generated []string) *IndexOptions {\n	return &IndexOptions{ExcludeDotFiles: noDots, SpecialFiles: special, AutoGeneratedFiles: generated}\n}\n\n// BuiltWith")),
K("matches-of-options",(S,CLAIM,CLAIM.replace("ref.BuiltWith(opt)","opt.Built(ref)")),(I,"func (r *IndexRef) writeManifest","// Built tells whether an index was built with these options.\nfunc (o *IndexOptions) Built(r *IndexRef) bool {\n	return r.BuiltWith(o)\n}\n\nfunc (r *IndexRef) writeManifest")),
K("auto-closure",(S,AUTO,"	generated := func() []string {\n		if len(repo.AutoGeneratedFiles) == 0 {\n			return wd.AutoGeneratedFiles(vcsDir)\n		}\n		return repo.AutoGeneratedFiles\n	}\n	autoFiles := generated()\n")),
K("auto-override",(S,AUTO,"	autoFiles := wd.AutoGeneratedFiles(vcsDir)\n	if len(repo.AutoGeneratedFiles) > 0 {\n		autoFiles = repo.AutoGeneratedFiles\n	}\n")),
K("claim-matching-helper",(S,CLAIM,"r.fits(ref, url, rev, opt)"),(S,"// The options for indexing","func (r *foundRefs) fits(ref *index.IndexRef, url, rev string, opt *index.IndexOptions) bool {\n	if r.claimed[ref] {\n		return false\n	}\n	same := ref.Url == url && ref.Rev == rev\n	return same && ref.BuiltWith(opt)\n}\n\n// The options for indexing")),
K("opts-by-value",(I,"func (r *IndexRef) BuiltWith(opt *IndexOptions) bool {","func (r *IndexRef) BuiltWith(opt *IndexOptions) bool {\n	return r.sameOptions(*opt)\n}\n\nfunc (r *IndexRef) sameOptions(opt IndexOptions) bool {")),
K("ref-options",(I,"		ExcludeDotFiles:    opt.ExcludeDotFiles,\n		AutoGeneratedFiles: opt.AutoGeneratedFiles,\n	}\n","	}\n	r.setOptions(opt)\n"),(I,"func (r *IndexRef) writeManifest","func (r *IndexRef) setOptions(o *IndexOptions) {\n	r.ExcludeDotFiles, r.AutoGeneratedFiles = o.ExcludeDotFiles, o.AutoGeneratedFiles\n}\n\nfunc (r *IndexRef) writeManifest")),
K("collect-then-claim",(S,"	for _, ref := range r.refs {\n		if "+CLAIM+" {\n			r.claimed[ref] = true\n			return ref\n		}\n	}\n	return nil\n","	var found *index.IndexRef\n	for _, ref := range r.refs {\n		if "+CLAIM+" {\n			found = ref\n			break\n		}\n	}\n	if found != nil {\n		r.claimed[found] = true\n	}\n	return found\n")),
]
