G = "vcs/git.go"
H = "vcs/hg.go"
S = "vcs/svn.go"
B = "vcs/bzr.go"
L = "vcs/local.go"
V = "vcs/vcs.go"
RESET = '''	if _, err := run("git reset", dir,
		"git",
		"reset",
		"--hard",
		fmt.Sprintf("origin/%s", targetRef)); err != nil {
		return "", err
	}

'''
FETCH = '''	if _, err := run("git fetch", dir,
		"git",
		"fetch",
		"--prune",
		"--no-tags",
		"--depth", "1",
		"origin",
		fmt.Sprintf("+%s:remotes/origin/%s", targetRef, targetRef)); err != nil {
		return "", err
	}

'''
CASES = [
 ("c21-hg-error", "C21", "fire", [(H, '	err := cmd.Run()\n	if err != nil {\n		return "", err\n	}\n', '	if err := cmd.Run(); err != nil {\n		log.Printf("pull: %s", err)\n	}\n'), (H, '	"io/ioutil"\n', '	"io/ioutil"\n	"log"\n')]),
 ("c21-hg-no-dir", "C21", "fire", [(H, '"pull", "-u")\n	cmd.Dir = dir\n', '"pull", "-u")\n')]),
 ("c21-hg-no-update", "C21", "fire", [(H, '"pull", "-u")', '"pull")')]),
 ("c21-hg-tip", "C21", "fire", [(H, '		".",\n', '		"tip",\n')]),
 ("c21-hg-clone-dir", "C21", "fire", [(H, '	cmd.Dir = par\n', '	cmd.Dir = dir\n	_ = par\n')]),
 ("c21-hg-clone-base", "C21", "fire", [(H, '		url,\n		rep)', '		url)\n	_ = rep')]),
 ('c21-wait-dropped', 'C21', 'fire', [('vcs/hg.go', '\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n', '\tr, err := cmd.StdoutPipe()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\tdefer r.Close()\n\n\tif err := cmd.Start(); err != nil {\n\t\treturn "", err\n\t}\n\n\tvar buf bytes.Buffer\n\n\tif _, err := io.Copy(&buf, r); err != nil {\n\t\tr.Close()\n\t\tcmd.Wait() //nolint\n\t\treturn "", err\n\t}\n\n\tcmd.Wait() //nolint\n\treturn strings.TrimSpace(buf.String()), nil\n'), ('vcs/hg.go', 'import (\n', 'import (\n\t"bytes"\n\t"io"\n')]),
 ("c21-svn-error", "C21", "fire", [(S, '		log.Printf("Failed to SVN update %s, see output below\\n%sContinuing...", dir, out)\n		return "", err\n', '		log.Printf("Failed to SVN update %s, see output below\\n%sContinuing...", dir, out)\n')]),
 ("c21-svn-wrong-error", "C21", "fire", [(S, '	out, err := cmd.CombinedOutput()\n	if err != nil {\n		log.Printf("Failed to checkout', '	out, err := cmd.CombinedOutput()\n	if err != nil && len(out) > 0 {\n		log.Printf("Failed to checkout')]),
 ("c21-svn-cleanup", "C21", "fire", [(S, '		log.Printf("Failed to SVN update %s, see output below\\n%sContinuing...", dir, out)\n		return "", err\n', '		log.Printf("Failed to SVN update %s, see output below\\n%sContinuing...", dir, out)\n		cleanup := exec.Command("svn", "cleanup")\n		cleanup.Dir = dir\n		if err := cleanup.Run(); err != nil {\n			return "", err\n		}\n')]),
 ("c21-svn-rev-before", "C21", "fire", [(S, '	out, err := cmd.CombinedOutput()\n	if err != nil {\n		log.Printf("Failed to SVN', '	rev, rerr := g.HeadRev(dir)\n	out, err := cmd.CombinedOutput()\n	if err != nil {\n		log.Printf("Failed to SVN'), (S, 'Continuing...", dir, out)\n		return "", err\n	}\n\n	return g.HeadRev(dir)', 'Continuing...", dir, out)\n		return "", err\n	}\n\n	return rev, rerr')]),
 ("c21-bzr-url", "C21", "fire", [(B, '		url,\n', '		par,\n')]),
 ("c21-bzr-shell", "C21", "fire", [(B, 'exec.Command("bzr", "pull")', 'exec.Command("sh", "-c", "bzr pull")')]),
 ("c21-bzr-name", "C21", "fire", [(B, 'Register(newBzr, "bzr")', 'Register(newBzr, "bazaar")')]),
 ("c21-hg-name", "C21", "fire", [(H, '"hg", "mercurial")', '"hg")'), (G, '"git")\n}', '"git", "mercurial")\n}')]),
 ("c21-git-no-reset", "C21", "fire", [(G, RESET, "")]),
 ("c21-git-no-fetch", "C21", "fire", [(G, FETCH, "")]),
 ("c21-git-order", "C21", "fire", [(G, FETCH + RESET, RESET + FETCH)]),
 ("c21-git-soft", "C21", "fire", [(G, '"--hard"', '"--keep"')]),
 ("c21-git-head", "C21", "fire", [(G, 'fmt.Sprintf("origin/%s", targetRef)); err', '"origin/HEAD"); err')]),
 ("c21-git-fetch-default", "C21", "fire", [(G, '+%s:remotes/origin/%s", targetRef, targetRef', '+%s:remotes/origin/%s", defaultRef, targetRef')]),
 ("c21-git-ref-after-detect", "C21", "fire", [(G, '	if g.Ref != "" {\n		targetRef = g.Ref\n	} else if g.DetectRef {\n		targetRef = g.refDetetector.detectRef(dir)\n	}\n', '	if g.DetectRef {\n		targetRef = g.refDetetector.detectRef(dir)\n	} else if g.Ref != "" {\n		targetRef = g.Ref\n	}\n')]),
 ("c21-git-detect-ignored", "C21", "fire", [(G, 'else if g.DetectRef {', 'else if g.DetectRef && g.refDetetector == nil {')]),
 ("c21-git-default", "C21", "fire", [(G, 'defaultRef = "master"', 'defaultRef = "main"')]),
 ("c21-git-clone-error", "C21", "fire", [(G, '		log.Printf("Failed to clone %s, see output below\\n%sContinuing...", url, out)\n		return "", err\n', '		log.Printf("Failed to clone %s, see output below\\n%sContinuing...", url, out)\n')]),
 ("c21-git-clone-nopull", "C21", "fire", [(G, '	return g.Pull(dir)\n', '	return g.HeadRev(dir)\n')]),
 ("c21-git-rev-remote", "C21", "fire", [(G, '		"HEAD")', '		"origin/master")')]),
 ("c21-git-head-dir", "C21", "fire", [(G, '		"HEAD")\n	cmd.Dir = dir\n', '		"HEAD")\n	cmd.Dir = filepath.Dir(dir)\n')]),
 ("c21-git-cached-rev", "C21", "fire", [(G, '	return g.HeadRev(dir)\n}\n\nfunc (g *GitDriver) targetRef', '	if g.last == "" {\n		rev, err := g.HeadRev(dir)\n		if err != nil {\n			return "", err\n		}\n		g.last = rev\n	}\n	return g.last, nil\n}\n\nfunc (g *GitDriver) targetRef'), (G, '	refDetetector refDetetector\n}', '	refDetetector refDetetector\n	last string\n}')]),
 ("c21-factory-ignored", "C21", "fire", [(G, '		if err := json.Unmarshal(b, &d); err != nil {\n			return nil, err\n		}\n', '		if err := json.Unmarshal(b, &d); err != nil {\n			log.Print("bad vcs-config")\n		}\n')]),
 ("c21-factory-copy", "C21", "fire", [(S, '	return &d, nil\n', '	return &SVNDriver{Username: d.Username}, nil\n')]),
 ("c21-new-default", "C21", "fire", [(V, '		return nil, fmt.Errorf("vcs: %s is not a valid vcs driver.", name)\n', '		f = drivers["git"]\n'), (V, '	"fmt"\n', '')]),
 ("c21-new-config", "C21", "fire", [(V, '	d, err := f(cfg)\n', '	d, err := f(nil)\n')]),
 ("c21-new-error", "C21", "fire", [(V, '	if err != nil {\n		return nil, err\n	}\n\n	return &WorkDir', '	if err != nil && d == nil {\n		return nil, err\n	}\n\n	return &WorkDir')]),
 ("c21-choice", "C21", "fire", [(V, '	if exists(dir) {', '	if !exists(dir) {')]),
 ("c21-choice-fallback", "C21", "fire", [(V, '		return w.Pull(dir)\n', '		if rev, err := w.Pull(dir); err == nil {\n			return rev, nil\n		}\n		return w.HeadRev(dir)\n')]),
 ("c21-local-link", "C21", "fire", [(L, 'os.Symlink(src, dir)', 'os.Symlink(dir, src)')]),
 ("c21-local-prefix", "C21", "fire", [(L, 'os.Symlink(src, dir)', 'func(a, b string) error { _ = src; return os.Symlink(a, b) }(url, dir)')]),
 ("c21-local-error", "C21", "fire", [(L, '	if err := os.Symlink(src, dir); err != nil {\n		return "", err\n	}\n', '	os.Symlink(src, dir)\n')]),
 ("c21-local-hash-error", "C21", "fire", [(L, '	return hash, err\n', '	if err != nil {\n		return "", nil\n	}\n	return hash, nil\n')]),
 ("c21-local-unreadable", "C21", "fire", [(L, '		r, err := open(file)\n		if err != nil {\n			return "", err\n		}\n', '		r, err := open(file)\n		if err != nil {\n			continue\n		}\n')]),
 ("c21-local-names-only", "C21", "fire", [(L, 'hf.Sum(nil), file)', 'sha1.New().Sum(nil), file)')]),
 ("c21-local-no-name", "C21", "fire", [(L, '"%x  %s\\n", hf.Sum(nil), file)', '"%x\\n", hf.Sum(nil))')]),
 ("c21-local-skip", "C21", "fire", [(L, '		r, err := open(file)\n', '		if strings.HasPrefix(file, ".") {\n			continue\n		}\n		r, err := open(file)\n')]),
 ("c21-local-watch", "C21", "fire", [(L, 'if !g.WatchChanges {', 'if len(g.IgnoredFiles) == 0 && !g.WatchChanges || len(g.IgnoredFiles) > 0 {')]),
 ("c21-keep-C", "C21", "silent", [(G, '		"rev-parse",\n		"HEAD")\n	cmd.Dir = dir\n', '		"-C", dir,\n		"rev-parse",\n		"HEAD")\n')]),
 ('c21-keep-output', 'C21', 'silent', [('vcs/hg.go', '\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n', '\tr, err := cmd.StdoutPipe()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\tdefer r.Close()\n\n\tif err := cmd.Start(); err != nil {\n\t\treturn "", err\n\t}\n\n\tvar buf bytes.Buffer\n\n\tif _, err := io.Copy(&buf, r); err != nil {\n\t\tr.Close()\n\t\tcmd.Wait() //nolint\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(buf.String()), cmd.Wait()\n'), ('vcs/hg.go', 'import (\n', 'import (\n\t"bytes"\n\t"io"\n')]),
 ('c21-keep-stdout', 'C21', 'silent', [('vcs/hg.go', '\tout, err := cmd.Output()\n\tif err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(string(out)), nil\n', '\tvar buf bytes.Buffer\n\tcmd.Stdout = &buf\n\tif err := cmd.Run(); err != nil {\n\t\treturn "", err\n\t}\n\n\treturn strings.TrimSpace(buf.String()), nil\n'), ('vcs/hg.go', 'import (\n', 'import (\n\t"bytes"\n')]),
 ("c21-keep-runin", "C21", "silent", [(B, '	cmd := exec.Command("bzr", "pull")\n	cmd.Dir = dir\n	out, err := cmd.CombinedOutput()\n', '	out, err := inDir(dir, "bzr", "pull")\n'), (V, 'func exists(', 'func inDir(dir, name string, args ...string) ([]byte, error) {\n	cmd := exec.Command(name, args...)\n	cmd.Dir = dir\n	return cmd.CombinedOutput()\n}\n\nfunc exists('), (V, '	"os"\n', '	"os"\n	"os/exec"\n')]),
 ("c21-keep-svn-args", "C21", "silent", [(S, '''	cmd := exec.Command(
		"svn",
		"update",
		"--ignore-externals",
		"--username",
		g.Username,
		"--password",
		g.Password)
''', '''	cmd := exec.Command("svn", append([]string{"update", "--ignore-externals"}, g.login()...)...)
'''), (S, 'func (g *SVNDriver) Pull(', 'func (g *SVNDriver) login() []string {\n	return []string{"--username", g.Username, "--password", g.Password}\n}\n\nfunc (g *SVNDriver) Pull(')]),
 ("c21-keep-base", "C21", "silent", [(H, '	par, rep := filepath.Split(dir)\n', '	par, rep := filepath.Dir(dir), filepath.Base(dir)\n')]),
 ("c21-keep-abs-clone", "C21", "silent", [(H, '	par, rep := filepath.Split(dir)\n', ''), (H, '		url,\n		rep)\n	cmd.Dir = par\n', '		url,\n		dir)\n'), (H, '	"path/filepath"\n', '')]),
 ("c21-keep-concat", "C21", "silent", [(G, 'fmt.Sprintf("origin/%s", targetRef)', '"origin/"+targetRef')]),
 ("c21-keep-fetchhead", "C21", "silent", [(G, 'fmt.Sprintf("origin/%s", targetRef)); err', '"FETCH_HEAD"); err')]),
 ("c21-keep-ref-early", "C21", "silent", [(G, '''	var targetRef string
	if g.Ref != "" {
		targetRef = g.Ref
	} else if g.DetectRef {
		targetRef = g.refDetetector.detectRef(dir)
	}

	if targetRef == "" {
		targetRef = defaultRef
	}

	return targetRef
''', '''	if g.Ref != "" {
		return g.Ref
	}
	if g.DetectRef {
		if ref := g.refDetetector.detectRef(dir); ref != "" {
			return ref
		}
	}
	return defaultRef
''')]),
 ("c21-keep-new", "C21", "silent", [(V, '	f := drivers[name]\n	if f == nil {', '	f, ok := drivers[name]\n	if !ok || f == nil {')]),
 ("c21-keep-choice", "C21", "silent", [(V, '	if exists(dir) {\n		return w.Pull(dir)\n	}\n	return w.Clone(dir, url)', '	if _, err := os.Stat(dir); err != nil {\n		return w.Clone(dir, url)\n	}\n	return w.Pull(dir)'), (V, 'func exists(path string) bool {\n	if _, err := os.Stat(path); err != nil {\n		return false\n	}\n	return true\n}\n', '')]),
 ("c21-keep-hash-helper", "C21", "silent", [(L, '''		r, err := open(file)
		if err != nil {
			return "", err
		}
		hf := sha1.New()
		_, err = io.Copy(hf, r)
		r.Close()
		if err != nil {
			return "", err
		}
		fmt.Fprintf(h, "%x  %s\\n", hf.Sum(nil), file)
''', '''		sum, err := sumOf(file, open)
		if err != nil {
			return "", err
		}
		fmt.Fprintf(h, "%x  %s\\n", sum, file)
'''), (L, 'func (g *LocalDriver) HeadRev', '''func sumOf(file string, open func(string) (io.ReadCloser, error)) ([]byte, error) {
	r, err := open(file)
	if err != nil {
		return nil, err
	}
	defer r.Close()
	hf := sha1.New()
	if _, err := io.Copy(hf, r); err != nil {
		return nil, err
	}
	return hf.Sum(nil), nil
}

func (g *LocalDriver) HeadRev''')]),
 ("c21-keep-git-run-err", "C21", "silent", [(G, '	return string(out), nil\n', '	return string(out), err\n')]),
]
