I = "index/index.go"
W = "codesearch/index/write.go"
DOT = '''			excluded = append(excluded, &ExcludedFile{
				rel,
				reasonDotFile,
			})
			return nil
'''
TXT = '''		if !txt {
			excluded = append(excluded, &ExcludedFile{
				rel,
				reasonNotText,
			})
			return nil
		}
'''
MODE = '''		if info.Mode()&os.ModeType != 0 {
			excluded = append(excluded, &ExcludedFile{
				rel,
				reasonInvalidMode,
			})
			return nil
		}
'''
SPEC = '''		if containsString(opt.SpecialFiles, name) {
			if info.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
'''
RSN = '''		if reasonForExclusion != "" {
			excluded = append(excluded, &ExcludedFile{rel, reasonForExclusion})
		}
'''
DOTALL = '''		if opt.ExcludeDotFiles && name[0] == '.' {
			if info.IsDir() {
				return filepath.SkipDir
			}

''' + DOT + "		}\n"
CASES = [
 # ---- C06 ----
 ("c06-nontext-unlisted", "C06", "fire", [(I, TXT, "		if !txt {\n			return nil\n		}\n")]),
 ("c06-reason-ignored", "C06", "fire", [(I, RSN, "		_ = reasonForExclusion\n")]),
 ("c06-reason-filter", "C06", "fire", [(I, 'if reasonForExclusion != "" {', 'if len(reasonForExclusion) > 12 {')]),
 ("c06-reason-dropped-in-helper", "C06", "fire", [(I, "	return reason, w.Close()\n", "	if strings.HasPrefix(reason, \"Too long\") {\n		reason = \"\"\n	}\n	return reason, w.Close()\n"), (I, '	"sync"\n', '	"strings"\n	"sync"\n')]),
 ("c06-list-basename", "C06", "fire", [(I, "&ExcludedFile{rel, reasonForExclusion}", "&ExcludedFile{name, reasonForExclusion}")]),
 ("c06-index-basename", "C06", "fire", [(I, "reason := ix.Add(rel,", "reason := ix.Add(filepath.Base(rel),")]),
 ("c06-empty-reason", "C06", "fire", [(I, DOT, DOT.replace("reasonDotFile", '""'))]),
 ("c06-dotfile-skipdir", "C06", "fire", [(I, DOT, DOT.replace("return nil", "return filepath.SkipDir"))]),
 ("c06-special-skipdir", "C06", "fire", [(I, SPEC, SPEC.replace("			return nil\n", "			return filepath.SkipDir\n"))]),
 ("c06-skipall", "C06", "fire", [(I, TXT, TXT.replace("return nil", "return filepath.SkipAll"))]),
 ("c06-skip-empty-dirname", "C06", "fire", [(I, "		if info.IsDir() {\n			return addDirToIndex(dst, src, path)\n", "		if info.IsDir() {\n			if name == \"node_modules\" {\n				return filepath.SkipDir\n			}\n			return addDirToIndex(dst, src, path)\n")]),
 ("c06-dotdir-always", "C06", "fire", [(I, "		if opt.ExcludeDotFiles && name[0] == '.' {\n			if info.IsDir() {\n				return filepath.SkipDir\n			}\n", "		if name[0] == '.' && info.IsDir() {\n			return filepath.SkipDir\n		}\n		if opt.ExcludeDotFiles && name[0] == '.' {\n			if info.IsDir() {\n				return filepath.SkipDir\n			}\n")]),
 ("c06-mode-unlisted", "C06", "fire", [(I, MODE, "		if info.Mode()&os.ModeType != 0 {\n			return nil\n		}\n")]),
 ("c06-empty-file", "C06", "fire", [(I, "		txt, err := isTextFile(path)\n", "		if info.Size() == 0 {\n			return nil\n		}\n		txt, err := isTextFile(path)\n")]),
 ("c06-unreadable-unlisted", "C06", "fire", [(I, "		txt, err := isTextFile(path)\n		if err != nil {\n			return err\n		}\n", "		txt, err := isTextFile(path)\n		if err != nil {\n			return nil\n		}\n")]),
 ("c06-list-first", "C06", "fire", [(I, "	if err := writeExcludedFilesJson(\n		filepath.Join(dst, excludedFileJsonFilename),\n		excluded); err != nil {\n		return err\n	}\n\n	ix.Flush()\n", "	ix.Flush()\n"), (I, "	// Resolve the symbolic link\n", "	if err := writeExcludedFilesJson(\n		filepath.Join(dst, excludedFileJsonFilename),\n		excluded); err != nil {\n		return err\n	}\n\n	// Resolve the symbolic link\n")]),
 ("c06-list-reset", "C06", "fire", [(I, DOT, DOT.replace("append(excluded,", "append(excluded[:0],"))]),
 ("c06-writer-accepts-long", "C06", "fire", [(W, '			skipReason = "Too long"\n			if ix.LogSkip {\n				log.Printf("%s: %s\\n", name, skipReason)\n			}\n			return skipReason\n', '			if ix.LogSkip {\n				log.Printf("%s: %s\\n", name, "Too long")\n			}\n			return skipReason\n')]),
 ("c06-writer-postloss", "C06", "fire", [(W, "			ix.flushPost()\n		}\n		ix.post = append(", "			ix.flushPost()\n			continue\n		}\n		ix.post = append(")]),
 ("c06-writer-poststop", "C06", "fire", [(W, "			ix.flushPost()\n		}\n		ix.post = append(", "			ix.flushPost()\n			break\n		}\n		ix.post = append(")]),
 ("c06-writer-noname", "C06", "fire", [(W, "	fileid := ix.addName(name)\n", "	if n == 0 {\n		return \"\"\n	}\n	fileid := ix.addName(name)\n")]),
 ("c06-inline-contains", "C06", "silent", [(I, SPEC, '''		for _, sp := range opt.SpecialFiles {
			if sp == name {
				if info.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
''')]),
 ("c06-map-special", "C06", "silent", [(I, SPEC, SPEC.replace("containsString(opt.SpecialFiles, name)", "special[name]")), (I, "	// Resolve the symbolic link\n", "	special := map[string]bool{}\n	for _, s := range opt.SpecialFiles {\n		special[s] = true\n	}\n	// Resolve the symbolic link\n")]),
 ("c06-helper-exclude", "C06", "silent", [(I, DOT, "			exclude(rel, reasonDotFile)\n			return nil\n"), (I, TXT, "		if !txt {\n			exclude(rel, reasonNotText)\n			return nil\n		}\n"), (I, "	// Resolve the symbolic link\n", "	exclude := func(name, reason string) {\n		excluded = append(excluded, &ExcludedFile{Filename: name, Reason: reason})\n	}\n	// Resolve the symbolic link\n")]),
 ("c06-helper-special", "C06", "silent", [(I, SPEC, SPEC.replace("containsString(opt.SpecialFiles, name)", "isSpecial(opt, info)")), (I, "func indexAllFiles(", "func isSpecial(o *IndexOptions, fi os.FileInfo) bool {\n	return containsString(o.SpecialFiles, fi.Name())\n}\n\nfunc indexAllFiles(")]),
 ("c06-hasprefix-dot", "C06", "silent", [(I, "opt.ExcludeDotFiles && name[0] == '.'", 'opt.ExcludeDotFiles && strings.HasPrefix(name, ".")'), (I, '	"sync"\n', '	"strings"\n	"sync"\n')]),
 ("c06-isregular", "C06", "silent", [(I, "if info.Mode()&os.ModeType != 0 {", "if !info.Mode().IsRegular() {")]),
 ("c06-switch", "C06", "silent", [(I, MODE, "		switch {\n		case info.Mode()&os.ModeType != 0:\n			excluded = append(excluded, &ExcludedFile{Reason: reasonInvalidMode, Filename: rel})\n			return nil\n		}\n")]),
 ("c06-unreadable-listed", "C06", "silent", [(I, "		txt, err := isTextFile(path)\n		if err != nil {\n			return err\n		}\n", "		txt, err := isTextFile(path)\n		if err != nil {\n			excluded = append(excluded, &ExcludedFile{rel, err.Error()})\n			return nil\n		}\n")]),
 ("c06-reason-helper", "C06", "silent", [(I, RSN, "		if reasonForExclusion == \"\" {\n			return nil\n		}\n		excluded = append(excluded, &ExcludedFile{rel, reasonForExclusion})\n")]),
 ("c06-named-callback", "C06", "silent", [(I, "	if err := filepath.Walk(src, func(path string", "	visit := func(path string"), (I, "		return nil\n	}); err != nil {\n		return err\n	}\n\n	if err := writeExcluded", "		return nil\n	}\n	if err := filepath.Walk(src, visit); err != nil {\n		return err\n	}\n\n	if err := writeExcluded")]),
 ("c06-post-helper", "C06", "silent", [(W, "		if len(ix.post) >= cap(ix.post) {\n			ix.flushPost()\n		}\n		ix.post = append(ix.post, makePostEntry(trigram, fileid))\n	}\n\n	return \"\"\n}\n", "		ix.addPost(trigram, fileid)\n	}\n\n	return \"\"\n}\n\nfunc (ix *IndexWriter) addPost(t, id uint32) {\n	if len(ix.post) >= cap(ix.post) {\n		ix.flushPost()\n	}\n	ix.post = append(ix.post, makePostEntry(t, id))\n}\n")]),
 ("c06-post-indexloop", "C06", "silent", [(W, "	for _, trigram := range ix.trigram.Dense() {\n", "	dense := ix.trigram.Dense()\n	for i := 0; i < len(dense); i++ {\n		trigram := dense[i]\n")]),
 ("c06-isdot-helper", "C06", "silent", [(I, "opt.ExcludeDotFiles && name[0] == '.'", 'opt.ExcludeDotFiles && dotted(name)'), (I, "func indexAllFiles(", "func dotted(n string) bool {\n	return len(n) > 0 && n[0] == '.'\n}\n\nfunc indexAllFiles(")]),
 ("c06-map-partial", "C06", "fire", [(I, SPEC, SPEC.replace("containsString(opt.SpecialFiles, name)", "!special[name] && special[\"x\"]")), (I, "	// Resolve the symbolic link\n", "	special := map[string]bool{}\n	for _, s := range opt.SpecialFiles {\n		special[s] = true\n	}\n	// Resolve the symbolic link\n")]),
 # ---- C07 ----
 ("c07-after-dir", "C07", "fire", [(I, SPEC, ""), (I, MODE, "		if containsString(opt.SpecialFiles, name) {\n			return nil\n		}\n" + MODE)]),
 ("c07-dirs-only", "C07", "fire", [(I, SPEC, "		if info.IsDir() && containsString(opt.SpecialFiles, name) {\n			return filepath.SkipDir\n		}\n")]),
 ("c07-rel", "C07", "fire", [(I, "containsString(opt.SpecialFiles, name)", "containsString(opt.SpecialFiles, rel)")]),
 ("c07-listed", "C07", "fire", [(I, SPEC, SPEC.replace("			return nil\n", "			excluded = append(excluded, &ExcludedFile{rel, \"special\"})\n			return nil\n"))]),
 ("c07-no-skip", "C07", "fire", [(I, SPEC, "		if containsString(opt.SpecialFiles, name) {\n			return nil\n		}\n")]),
 ("c07-only-if-dot", "C07", "fire", [(I, SPEC, SPEC.replace("if containsString(", "if opt.ExcludeDotFiles && containsString("))]),
 ("c07-not-given", "C07", "fire", [("searcher/searcher.go", "		SpecialFiles:       wd.SpecialFiles(),\n", "")]),
 ("c07-update-opts", "C07", "fire", [("searcher/searcher.go", "		indexOptionsFor(repo, wd, vcsDir),\n		dbpath", "		&index.IndexOptions{ExcludeDotFiles: repo.ExcludeDotFiles, AutoGeneratedFiles: wd.AutoGeneratedFiles(vcsDir)},\n		dbpath")]),
 ("c07-hg", "C07", "fire", [("vcs/hg.go", '		".hg",\n', '		".git",\n')]),
 ("c07-bzr", "C07", "fire", [("vcs/bzr.go", '".bzr"', '".bazaar"')], "first"),
 ("c07-contains-short", "C07", "fire", [(I, "for i, n := 0, len(haystack); i < n; i++ {", "for i, n := 0, len(haystack)-1; i < n; i++ {")]),
 ("c07-contains-late", "C07", "fire", [(I, "for i, n := 0, len(haystack); i < n; i++ {", "for i, n := 1, len(haystack); i < n; i++ {")]),
 ("c07-contains-stop", "C07", "fire", [(I, "		if haystack[i] == needle {\n			return true\n		}\n	}\n	return false", "		if haystack[i] == needle {\n			return true\n		}\n		if len(haystack[i]) > len(needle) {\n			return false\n		}\n	}\n	return false")]),
 ("c07-inline", "C07", "silent", [(I, SPEC, '''		for _, sp := range opt.SpecialFiles {
			if sp == name {
				if info.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
''')]),
 ("c07-map", "C07", "silent", [(I, SPEC, SPEC.replace("containsString(opt.SpecialFiles, name)", "special[name]")), (I, "	// Resolve the symbolic link\n", "	special := map[string]bool{}\n	for _, s := range opt.SpecialFiles {\n		special[s] = true\n	}\n	// Resolve the symbolic link\n")]),
 ("c07-base", "C07", "silent", [(I, "		name := info.Name()\n", "		name := filepath.Base(path)\n")]),
 ("c07-var", "C07", "silent", [("searcher/searcher.go", "	return &index.IndexOptions{\n		ExcludeDotFiles:    repo.ExcludeDotFiles,\n		SpecialFiles:       wd.SpecialFiles(),\n		AutoGeneratedFiles: autoFiles,\n	}\n", "	opt := &index.IndexOptions{\n		ExcludeDotFiles:    repo.ExcludeDotFiles,\n		AutoGeneratedFiles: autoFiles,\n	}\n	special := wd.SpecialFiles()\n	opt.SpecialFiles = append(opt.SpecialFiles, special...)\n	return opt\n")]),
 ("c07-pkgvar", "C07", "silent", [("vcs/hg.go", '	return []string{\n		".hg",\n	}\n', '	return hgSpecial\n'), ("vcs/hg.go", "func init() {", 'var hgSpecial = []string{".hg"}\n\nfunc init() {')]),
 ("c07-optfunc", "C07", "silent", [("searcher/searcher.go", """	return &index.IndexOptions{
		ExcludeDotFiles:    repo.ExcludeDotFiles,
		SpecialFiles:       wd.SpecialFiles(),
		AutoGeneratedFiles: autoFiles,
	}
}
""", """	return optionsFor(repo, wd, autoFiles)
}

func optionsFor(repo *config.Repo, wd *vcs.WorkDir, auto []string) *index.IndexOptions {
	return &index.IndexOptions{
		ExcludeDotFiles:    repo.ExcludeDotFiles,
		SpecialFiles:       wd.SpecialFiles(),
		AutoGeneratedFiles: auto,
	}
}
""")]),
 ("c07-map-partial", "C07", "fire", [(I, SPEC, SPEC.replace("containsString(opt.SpecialFiles, name)", "special[name]")), (I, "	// Resolve the symbolic link\n", "	special := map[string]bool{}\n	for _, s := range opt.SpecialFiles {\n		if s[0] == '.' {\n			continue\n		}\n		special[s] = true\n	}\n	// Resolve the symbolic link\n")]),
 # ---- C29 ----
 ("c29-symlink-ok", "C29", "fire", [(I, "if info.Mode()&os.ModeType != 0 {", "if info.Mode()&(os.ModeType&^os.ModeSymlink) != 0 {")]),
 ("c29-stat", "C29", "fire", [(I, MODE, "		if fi, err := os.Stat(path); err == nil {\n			info = fi\n		}\n" + MODE)]),
 ("c29-text-first", "C29", "fire", [(I, MODE, ""), (I, TXT, MODE + TXT)]),
 ("c29-pipes", "C29", "fire", [(I, "if info.Mode()&os.ModeType != 0 {", "if info.Mode()&os.ModeSymlink != 0 || info.Mode()&os.ModeDevice != 0 {")]),
 ("c29-isregular", "C29", "silent", [(I, "if info.Mode()&os.ModeType != 0 {", "if !info.Mode().IsRegular() {")]),
 ("c29-modetype", "C29", "silent", [(I, "if info.Mode()&os.ModeType != 0 {", "if info.Mode().Type() != 0 {")]),
 ("c29-helper", "C29", "silent", [(I, "if info.Mode()&os.ModeType != 0 {", "if !plain(info) {"), (I, "func indexAllFiles(", "func plain(fi os.FileInfo) bool {\n	return fi.Mode()&os.ModeType == 0\n}\n\nfunc indexAllFiles(")]),
]
