S = "searcher/searcher.go"; I = "index/index.go"; W = "codesearch/index/write.go"; M = "cmds/houndd/main.go"
CASES = [
 ("c22-glob-all", "C22", "fire", [(S, '"idx-*"', '"*"')]),
 ("c22-remove-vcs", "C22", "fire", [(S, "			os.RemoveAll(idxDir) //nolint\n			return nil, err\n", "			os.RemoveAll(vcsDir) //nolint\n			return nil, err\n")]),
 ("c22-remove-parent", "C22", "fire", [(I, "	return os.RemoveAll(r.dir)", "	return os.RemoveAll(filepath.Dir(r.dir))")]),
 ("c22-name", "C22", "fire", [(S, 'fmt.Sprintf("idx-%08x", r)', 'fmt.Sprintf("%08x", r)')]),
 ("c22-dotdot", "C22", "fire", [(I, 'filepath.Join(r.dir, manifestFilename)', 'filepath.Join(r.dir, "..", manifestFilename)'), ], "first"),
 ("c22-write-src", "C22", "fire", [(I, 'filepath.Join(dst, "excluded_files.json")', 'filepath.Join(src, "excluded_files.json")')], "first"),
 ("c22-swapped-args", "C22", "fire", [(S, "index.Build(opt, idxDir, vcsDir, url, rev)", "index.Build(opt, vcsDir, idxDir, url, rev)")]),
 ("c22-remove-dbpath", "C22", "fire", [(M, "	searchers, errs, err := searcher.MakeAll(cfg)\n	if err != nil {\n", "	searchers, errs, err := searcher.MakeAll(cfg)\n	if err != nil {\n		os.RemoveAll(cfg.DbPath)\n")]),
 ("c22-temp-const", "C22", "fire", [(W, '		f, err = ioutil.TempFile("", "csearch")\n', '		f, err = os.Create(os.TempDir() + "/csearch")\n')]),
 ("c22-remove-in-driver", "C22", "fire", [("vcs/vcs.go", "	if exists(dir) {\n		return w.Pull(dir)\n	}\n", "	if exists(dir) {\n		rev, err := w.Pull(dir)\n		if err == nil {\n			return rev, nil\n		}\n		os.RemoveAll(dir)\n	}\n")]),
 ("c22-dir-exported", "C22", "fire", [(I, '\tdir                string\n', '\tDir_               string\n'), (I, '\treturn r.dir\n', '\treturn r.Dir_\n'), (I, 'filepath.Join(r.dir, manifestFilename)', 'filepath.Join(r.Dir_, manifestFilename)'), (I, 'filepath.Join(r.dir, "tri")', 'filepath.Join(r.Dir_, "tri")'), (I, 'os.RemoveAll(r.dir)', 'os.RemoveAll(r.Dir_)'), (I, '\treturn n.Ref.dir\n', '\treturn n.Ref.Dir_\n'), (I, 'n.Ref.dir, "raw"', 'n.Ref.Dir_, "raw"'), (I, '\t\tdir: dir,\n', '\t\tDir_: dir,\n'), (I, '\t\tdir:                dst,', '\t\tDir_: dst,')]),
 ("c22-readdir", "C22", "silent", [(S, '	dirs, err := filepath.Glob(filepath.Join(dbpath, "idx-*"))\n	if err != nil {\n		return nil, err\n	}\n', '	fis, err := ioutil.ReadDir(dbpath)\n	if err != nil {\n		return nil, err\n	}\n	var dirs []string\n	for _, fi := range fis {\n		if !strings.HasPrefix(fi.Name(), "idx-") {\n			continue\n		}\n		dirs = append(dirs, filepath.Join(dbpath, fi.Name()))\n	}\n'), (S, '	"fmt"\n', '	"fmt"\n	"strings"\n')]),
 ("c22-readdir-all", "C22", "fire", [(S, '	dirs, err := filepath.Glob(filepath.Join(dbpath, "idx-*"))\n	if err != nil {\n		return nil, err\n	}\n', '	fis, err := ioutil.ReadDir(dbpath)\n	if err != nil {\n		return nil, err\n	}\n	var dirs []string\n	for _, fi := range fis {\n		dirs = append(dirs, filepath.Join(dbpath, fi.Name()))\n	}\n')]),
 ("c22-prefix-const", "C22", "silent", [(S, 'fmt.Sprintf("idx-%08x", r)', 'idxPrefix+strconv.FormatUint(r, 16)'), (S, "// Generate a new index directory", 'const idxPrefix = "idx-"\n\n// Generate a new index directory'), (S, '"idx-*"', 'idxPrefix+"*"'), (S, '	"fmt"\n', '	"fmt"\n	"strconv"\n')]),
 ("c22-name-helper", "C22", "silent", [(S, "	return filepath.Join(dbpath, fmt.Sprintf(\"idx-%08x\", r))\n", "	return filepath.Join(dbpath, idxName(r))\n"), (S, "// Generate a new index directory", 'func idxName(r uint64) string {\n	return fmt.Sprintf("idx-%08x", r)\n}\n\n// Generate a new index directory')]),
 ("c22-sprintf-path", "C22", "silent", [(S, "	return filepath.Join(dbpath, fmt.Sprintf(\"idx-%08x\", r))\n", "	return fmt.Sprintf(\"%s/idx-%08x\", dbpath, r)\n")]),
 ("c22-join-raw", "C22", "silent", [(I, "	w, err := os.Create(dup)\n", "	w, err := os.OpenFile(dup, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)\n")]),
 ("c22-remove-partial", "C22", "silent", [(I, "	w, err := os.Create(dup)\n	if err != nil {\n		return \"\", err\n	}\n", "	w, err := os.Create(dup)\n	if err != nil {\n		os.Remove(dup)\n		return \"\", err\n	}\n")]),
 ("c22-rename", "C22", "silent", [(I, "	w, err := os.Create(filepath.Join(r.dir, manifestFilename))\n	if err != nil {\n		return err\n	}\n", "	if err := os.Rename(filepath.Join(r.dir, \"x\"), filepath.Join(r.dir, \"y\")); err != nil {\n		log.Print(err)\n	}\n	w, err := os.Create(filepath.Join(r.dir, manifestFilename))\n	if err != nil {\n		return err\n	}\n"), (I, '	"io"\n', '	"io"\n	"log"\n')]),
 ("c22-tempname", "C22", "silent", [(W, "	return &bufWriter{\n		name: f.Name(),\n", "	name = f.Name()\n	return &bufWriter{\n		name: name,\n")]),
 ("c22-temp-in-dst", "C22", "silent", [(W, '		f, err = ioutil.TempFile("", "csearch")\n', '		f, err = os.CreateTemp("", "csearch")\n')]),
 ("c22-remove-all-helper", "C22", "silent", [(S, "			os.RemoveAll(idxDir) //nolint\n			return nil, err\n", "			discard(idxDir)\n			return nil, err\n"), (S, "// Simply prints out", "func discard(dir string) {\n	if err := os.RemoveAll(dir); err != nil {\n		log.Print(err)\n	}\n}\n\n// Simply prints out")]),
]
