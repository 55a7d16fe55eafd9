S = "searcher/searcher.go"; I = "index/index.go"; W = "codesearch/index/write.go"; A = "api/api.go"; F = "codesearch/index/fail.go"
RE = "codesearch/index/read.go"
CASES = [
 ("c16-fatal-fetch", "C16", "fire", [(S, "	rev, err := wd.PullOrClone(vcsDir, repo.Url)\n	if err != nil {\n		return nil, err\n	}\n", "	rev, err := wd.PullOrClone(vcsDir, repo.Url)\n	if err != nil {\n		log.Fatalf(\"cannot fetch %s: %v\", name, err)\n	}\n")]),
 ("c16-fatal-make", "C16", "fire", [(S, "			log.Print(r.err)\n", "			log.Fatal(r.err)\n")]),
 ("c16-panic-make", "C16", "fire", [(S, "			log.Print(r.err)\n", "			log.Panic(r.err)\n")]),
 ("c16-panic-build", "C16", "fire", [(S, "		log.Printf(\"failed index build (%s): %s\", name, err)\n		return rev, false\n", "		panic(err)\n")]),
 ("c16-helper-build", "C16", "fire", [(S, "		log.Printf(\"failed index build (%s): %s\", name, err)\n		return rev, false\n", "		must(err)\n"), (S, "// Creates a new Searcher that is capable", "func must(err error) {\n	if err != nil {\n		log.Panicln(err)\n	}\n}\n\n// Creates a new Searcher that is capable")]),
 ("c16-exit-handler", "C16", "fire", [(A, '		log.Panicf("Failed to encode JSON: %v\\n", err)', '		log.Fatalf("Failed to encode JSON: %v\\n", err)')]),
 ("c16-recover-gone", "C16", "fire", [(I, "func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {\n	defer index.Recover(&err)\n", "func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {\n")]),
 ("c16-recover-late", "C16", "fire", [(I, "	defer index.Recover(&err)\n\n	ix := index.Create(filepath.Join(dst, \"tri\"))\n", "	ix := index.Create(filepath.Join(dst, \"tri\"))\n	defer index.Recover(&err)\n")]),
 ("c16-other-panic", "C16", "fire", [(W, "		fail(\"copying %s to %s: %v\", src.name, dst.name, err)\n", "		panic(err)\n")]),
 ("c16-writer-fatal", "C16", "fire", [(W, "		fail(\"copying %s to %s: %v\", src.name, dst.name, err)\n", "		log.Fatalf(\"copying %s to %s: %v\", src.name, dst.name, err)\n")]),
 ("c16-recover-fatal", "C16", "fire", [(F, "		*err = fmt.Errorf(\"%s\", string(e))\n", "		log.Fatal(string(e))\n"), (F, "import \"fmt\"", "import (\n	\"fmt\"\n	\"log\"\n)")]),
 ("c16-assert-error", "C16", "fire", [("vcs/hg.go", "	err := cmd.Run()\n	if err != nil {\n		return \"\", err\n	}\n\n	return g.HeadRev(dir)", "	err := cmd.Run()\n	if err != nil {\n		log.Print(err.(*exec.ExitError).ExitCode())\n		return \"\", err\n	}\n\n	return g.HeadRev(dir)"), ("vcs/hg.go", '	"io/ioutil"\n', '	"io/ioutil"\n	"log"\n')], "first"),
 ("c16-mustcompile", "C16", "fire", [(I, "	re, err := regexp.Compile(GetRegexpPattern(patForRe, opt.IgnoreCase))\n	if err != nil {\n		return nil, err\n	}\n", "	re, err := regexp.Compile(GetRegexpPattern(patForRe, opt.IgnoreCase))\n	if err != nil {\n		return nil, err\n	}\n	goregexp.MustCompile(patForRe)\n"), (I, '	"io"\n', '	"io"\n	goregexp "regexp"\n')]),
 ('c16-nil-pipe', 'C16', 'fire', [('vcs/hg.go', '\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n', '\tr, err := cmd.StdoutPipe()\n\tdefer r.Close()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\tif err := cmd.Start(); err != nil {\n\t\treturn "", err\n\t}\n\n\tvar buf bytes.Buffer\n\n\tif _, err := io.Copy(&buf, r); err != nil {\n\t\tr.Close()\n\t\tcmd.Wait() //nolint\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(buf.String()), cmd.Wait()\n'), ('vcs/hg.go', 'import (\n', 'import (\n\t"bytes"\n\t"io"\n')]),
 ("c16-nil-idx", "C16", "fire", [(S, "		idx, err := r.Open()\n		if err != nil {\n			os.RemoveAll(idxDir) //nolint\n		}\n", "		idx, err := r.Open()\n		log.Printf(\"opened %s\", idx.Ref.Rev)\n		if err != nil {\n			os.RemoveAll(idxDir) //nolint\n		}\n")]),
 ("c16-nil-result", "C16", "fire", [(A, "			fms, err := idx[repo].Search(query, opts)\n", "			fms, err := idx[repo].Search(query, opts)\n			log.Printf(\"%s: %d files\", repo, fms.FilesOpened)\n")]),
 ('c16-svn-nil', 'C16', 'fire', [('vcs/svn.go', '\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n', '\tr, err := cmd.StdoutPipe()\n\tif err == nil {\n\t\tdefer r.Close()\n\t}\n\tr.Read(nil)\n\n\tif err := cmd.Start(); err != nil {\n\t\treturn "", err\n\t}\n\n\tvar buf bytes.Buffer\n\n\tif _, err := io.Copy(&buf, r); err != nil {\n\t\tr.Close()\n\t\tcmd.Wait() //nolint\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(buf.String()), cmd.Wait()\n'), ('vcs/svn.go', 'import (\n', 'import (\n\t"bytes"\n\t"io"\n')]),
 ("c16-fail-helper", "C16", "silent", [(W, "		fail(\"copying %s to %s: %v\", src.name, dst.name, err)\n", "		failCopy(dst, src, err)\n"), (W, "func copyFile(", "func failCopy(dst, src *bufWriter, err error) {\n	fail(\"copying %s to %s: %v\", src.name, dst.name, err)\n}\n\nfunc copyFile(")]),
 ("c16-recover-closure", "C16", "silent", [(I, "func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {\n	defer index.Recover(&err)\n", "func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {\n	defer func() {\n		if x := recover(); x != nil {\n			err = fmt.Errorf(\"search failed: %v\", x)\n		}\n	}()\n"), (I, '	"io"\n', '	"fmt"\n	"io"\n')]),
 ("c16-recover-searcher", "C16", "silent", [(I, "func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {\n	defer index.Recover(&err)\n", "func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {\n"), (S, "func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchResponse, error) {\n", "func (s *Searcher) Search(pat string, opt *index.SearchOptions) (res *index.SearchResponse, err error) {\n	defer cindex.Recover(&err)\n"), (S, '	"github.com/hound-search/hound/index"\n', '	cindex "github.com/hound-search/hound/codesearch/index"\n	"github.com/hound-search/hound/index"\n')]),
 ("c16-shutdown-helper", "C16", "silent", [("cmds/houndd/main.go", "		for _, s := range searchers {\n			s.Wait()\n		}\n\n		os.Exit(0)\n", "		for _, s := range searchers {\n			s.Wait()\n		}\n\n		exit()\n"), ("cmds/houndd/main.go", "func registerShutdownSignal()", "func exit() {\n	os.Exit(0)\n}\n\nfunc registerShutdownSignal()")]),
 ("c16-main-fatal", "C16", "silent", [("cmds/houndd/main.go", "	if err := cfg.LoadFromFile(*flagConf); err != nil {\n		panic(err)\n	}\n", "	if err := cfg.LoadFromFile(*flagConf); err != nil {\n		log.Fatal(err)\n	}\n")]),
 ("c16-assert-ok", "C16", "silent", [("vcs/hg.go", "	err := cmd.Run()\n	if err != nil {\n		return \"\", err\n	}\n\n	return g.HeadRev(dir)", "	err := cmd.Run()\n	if err != nil {\n		if e, ok := err.(*exec.ExitError); ok {\n			log.Print(e.ExitCode())\n		}\n		return \"\", err\n	}\n\n	return g.HeadRev(dir)"), ("vcs/hg.go", '	"io/ioutil"\n', '	"io/ioutil"\n	"log"\n')], "first"),
 ('c16-pipe-else', 'C16', 'silent', [('vcs/hg.go', '\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n', '\tr, err := cmd.StdoutPipe()\n\tdefer func() {\n\t\tif r != nil {\n\t\t\tr.Close()\n\t\t}\n\t}()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\tif err := cmd.Start(); err != nil {\n\t\treturn "", err\n\t}\n\n\tvar buf bytes.Buffer\n\n\tif _, err := io.Copy(&buf, r); err != nil {\n\t\tr.Close()\n\t\tcmd.Wait() //nolint\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(buf.String()), cmd.Wait()\n'), ('vcs/hg.go', 'import (\n', 'import (\n\t"bytes"\n\t"io"\n')]),
 ("c16-result-checked", "C16", "silent", [(A, "			fms, err := idx[repo].Search(query, opts)\n", "			fms, err := idx[repo].Search(query, opts)\n			if err == nil {\n				log.Printf(\"%s: %d files\", repo, fms.FilesOpened)\n			}\n")]),
 ("c16-build-pipeline", "C16", "silent", [(S, "		idx, err := r.Open()\n		if err != nil {\n			os.RemoveAll(idxDir) //nolint\n		}\n		return idx, err\n", "		idx, err := r.Open()\n		if err == nil {\n			log.Printf(\"opened %s\", idx.Ref.Rev)\n			return idx, nil\n		}\n		os.RemoveAll(idxDir) //nolint\n		return nil, err\n")]),
 ("c16-mkdirs", "C16", "silent", [(S, "			log.Print(r.err)\n", "			logFailure(r)\n"), (S, "// Creates a new Searcher that is capable", "func logFailure(r searcherResult) {\n	log.Printf(\"%s: %v\", r.name, r.err)\n}\n\n// Creates a new Searcher that is capable")]),
 ("c16-nil-ref", "C16", "fire", [(I, "	if err != nil {\n		return m, err\n	}\n	defer r.Close()\n\n	if err := gob", "	if err != nil {\n		return nil, err\n	}\n	defer r.Close()\n\n	if err := gob")]),
 ("c16-ref-checked", "C16", "silent", [(I, "	if err != nil {\n		return m, err\n	}\n	defer r.Close()\n\n	if err := gob", "	if err != nil {\n		return nil, err\n	}\n	defer r.Close()\n\n	if err := gob"), (S, "		r, _ := index.Read(dir)\n		refs = append(refs, r)\n", "		r, _ := index.Read(dir)\n		if r != nil {\n			refs = append(refs, r)\n		}\n")]),
]
