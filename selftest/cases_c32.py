A = "api/api.go"
S = "searcher/searcher.go"
U = "ui/ui.go"
EXC = '		res := searcher.GetExcludedFiles()\n'
CASES = [
 ("c32-file-param", "C32", "fire", [(A, EXC, EXC + '		if name := r.FormValue("list"); name != "" {\n			if b, err := ioutil.ReadFile(filepath.Join("/var/lib/hound", name)); err == nil {\n				res = string(b)\n			}\n		}\n'), (A, '	"fmt"\n', '	"fmt"\n	"io/ioutil"\n	"path/filepath"\n')]),
 ("c32-excluded-name", "C32", "fire", [(A, EXC, '		res := searcher.ExcludedFiles(r.FormValue("file"))\n'), (S, "// Triggers an immediate poll", '// Get one of the lists.\nfunc (s *Searcher) ExcludedFiles(name string) string {\n	if name == "" {\n		return s.GetExcludedFiles()\n	}\n	s.lck.RLock()\n	defer s.lck.RUnlock()\n	dat, _ := ioutil.ReadFile(filepath.Join(s.idx.GetDir(), name))\n	return string(dat)\n}\n\n// Triggers an immediate poll')]),
 ("c32-disk-asset", "C32", "fire", [(U, "	n, err := AssetInfo(name)\n	if err != nil {\n", "	n, err := AssetInfo(name)\n	if err != nil {\n		if _, err := os.Stat(filepath.Join(\"assets\", name)); err == nil {\n			http.ServeFile(w, r, filepath.Join(\"assets\", name))\n			return\n		}\n"), (U, '	"net/http"\n', '	"net/http"\n	"os"\n')]),
 ("c32-dev-template", "C32", "fire", [(U, "html_template.ParseFiles(filepath.Join(root, c.template))", "html_template.ParseFiles(filepath.Join(root, r.URL.Path))")]),
 ("c32-format", "C32", "fire", [("api/api.go", '				fmt.Errorf("No such repository: %s", repo),\n				http.StatusNotFound)\n			return\n		}\n\n		res', '				fmt.Errorf("No such repository: " + repo),\n				http.StatusNotFound)\n			return\n		}\n\n		res')]),
 ("c32-log-format", "C32", "fire", [(A, EXC, '		log.Printf("excludes of " + repo)\n' + EXC)]),
 ("c32-webhook-pull", "C32", "fire", [(A, "		if !searcher.Update() {\n			writeError(w,\n				fmt.Errorf(\"Push updates are not enabled for repository %s\", repo),\n				http.StatusForbidden)\n			return\n		}\n\n		writeResp", "		if !searcher.Update() {\n			writeError(w,\n				fmt.Errorf(\"Push updates are not enabled for repository %s\", repo),\n				http.StatusForbidden)\n			return\n		}\n		exec.Command(\"logger\", h.Repository.Full_name).Run()\n\n		writeResp"), (A, '	"fmt"\n', '	"fmt"\n	"os/exec"\n')]),
 ("c32-callback", "C32", "fire", [(A, EXC, "		if cb := r.FormValue(\"notify\"); cb != \"\" {\n			http.Get(cb)\n		}\n" + EXC)]),
 ("c32-field", "C32", "fire", [(A, EXC, '		lister{r.FormValue("f")}.list()\n' + EXC), (A, "func Setup(", 'type lister struct{ name string }\n\nfunc (l lister) list() {\n	os.Open(l.name)\n}\n\nfunc Setup('), (A, '	"fmt"\n', '	"fmt"\n	"os"\n')]),
 ("c32-keep-error", "C32", "silent", [(A, '				fmt.Errorf("No such repository: %s", repo),\n				http.StatusNotFound)\n			return\n		}\n\n		res', '				errors.New("No such repository: " + repo),\n				http.StatusNotFound)\n			return\n		}\n\n		res')]),
 ("c32-keep-log", "C32", "silent", [(A, EXC, '		log.Printf("excludes of %s", repo)\n' + EXC)]),
 ("c32-keep-dir", "C32", "silent", [(A, EXC, '		dir := searcher.Repo.Url\n		os.Stat(dir)\n' + EXC), (A, '	"fmt"\n', '	"fmt"\n	"os"\n')]),
 ("c32-keep-open-embed", "C32", "silent", [("ui/bindata.go", '	f, err := assetsFS.Open(".build/ui/" + name)\n	if err != nil {\n		return nil, err\n	}\n	return io.ReadAll(f)', '	return assetsFS.ReadFile(".build/ui/" + name)'), ("ui/bindata.go", '	"io"\n', '')]),
]
