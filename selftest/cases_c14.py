C = "config/config.go"
A = "api/api.go"
V = "vcs/svn.go"
G = "vcs/git.go"
S = "searcher/searcher.go"
U = "ui/ui.go"
M = 'func (s *SecretMessage) MarshalJSON() ([]byte, error) {\n	return []byte("{}"), nil\n}\n'
SVNC = '		log.Printf("Failed to checkout %s, see output below\\n%sContinuing...", url, out)\n'
SVNP = '		log.Printf("Failed to SVN update %s, see output below\\n%sContinuing...", dir, out)\n'
CASES = [
 ("c14-marshal-content", "C14", "fire", [(C, M, M.replace('	return []byte("{}"), nil', '	if len(*s) > 0 {\n		return *s, nil\n	}\n	return []byte("{}"), nil'))]),
 ("c14-no-marshaller", "C14", "fire", [(C, M, "")]),
 ("c14-raw", "C14", "fire", [(C, "	VcsConfigMessage   *SecretMessage ", "	VcsConfigMessage   *json.RawMessage "), (C, "repoMessage := SecretMessage(", "repoMessage := json.RawMessage(")]),
 ("c14-by-value", "C14", "fire", [(C, "	VCSConfigMessages     map[string]*SecretMessage ", "	VCSConfigMessages     map[string]SecretMessage "), (C, "json.Unmarshal(*configBytes,", "json.Unmarshal(configBytes,"), (C, "b, err := json.Marshal(c.Repos)", "b, err := json.Marshal(c)")]),
 ("c14-config-string", "C14", "fire", [(C, "	return *r.VcsConfigMessage\n}\n", "	return *r.VcsConfigMessage\n}\n\nfunc (r *Repo) Describe() string {\n	return r.Url + string(r.VcsConfig())\n}\n"), (S, 'log.Printf("Searcher started for %s", name)', 'log.Printf("Searcher started for %s", repo.Describe())')]),
 ("c14-log-args", "C14", "fire", [(V, SVNC, '		log.Printf("Failed to checkout %s (%v), see output below\\n%sContinuing...", url, cmd.Args, out)\n')]),
 ("c14-log-cmd", "C14", "fire", [(V, SVNP, '		log.Printf("Failed: %s, see output below\\n%sContinuing...", cmd, out)\n')]),
 ("c14-log-cmd-string", "C14", "fire", [(V, SVNP, '		log.Printf("Failed: %s, see output below\\n%sContinuing...", cmd.String(), out)\n')]),
 ("c14-log-driver", "C14", "fire", [(V, SVNP, '		log.Printf("Failed: %+v, see output below\\n%sContinuing...", g, out)\n')]),
 ("c14-driver-error", "C14", "fire", [(V, SVNC, SVNC + '		return "", fmt.Errorf("svn %v: %v", cmd.Args, err)\n'), (V, '	"encoding/json"\n', '	"encoding/json"\n	"fmt"\n')]),
 ("c14-shared-run", "C14", "fire", [(V, '''	cmd := exec.Command(
		"svn",
		"update",
		"--ignore-externals",
		"--username",
		g.Username,
		"--password",
		g.Password)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
''' + SVNP, '''	if _, err := run("svn update", dir,
		"svn",
		"update",
		"--ignore-externals",
		"--username",
		g.Username,
		"--password",
		g.Password); err != nil {
'''), (V, '''		log.Printf("Failed to SVN update %s, see output below\\n%sContinuing...", dir, out)
''', "") if False else (V, 'func init() {\n	Register(newSvn', 'func init() {\n	Register(newSvn')]),
 ("c14-bad-config-error", "C14", "fire", [(V, "		if err := json.Unmarshal(b, &d); err != nil {\n			return nil, err\n", '		if err := json.Unmarshal(b, &d); err != nil {\n			return nil, fmt.Errorf("invalid svn config %s: %s", b, err)\n'), (V, '	"encoding/json"\n', '	"encoding/json"\n	"fmt"\n')]),
 ("c14-merge-log", "C14", "fire", [(C, "		repoMessage := SecretMessage(", '		log.Printf("%s: %v", repo.Url, repoVals)\n		repoMessage := SecretMessage('), (C, '	"errors"\n', '	"errors"\n	"log"\n')]),
 ("c14-merge-error", "C14", "fire", [(C, "			return err\n		}\n\n		globalConfigVals[vcs] = configVals", '			return errors.New(err.Error() + string(*configBytes))\n		}\n\n		globalConfigVals[vcs] = configVals')]),
 ("c14-api-map", "C14", "fire", [(A, "		writeResp(w, res)\n", '		cfgs := map[string]interface{}{}\n		for name, srch := range idx {\n			cfgs[name] = string(srch.Repo.VcsConfig())\n		}\n		writeResp(w, map[string]interface{}{"repos": res, "settings": cfgs})\n')]),
 ("c14-ui", "C14", "fire", [(C, "	b, err := json.Marshal(c.Repos)\n", '	all := map[string]interface{}{}\n	for name, r := range c.Repos {\n		all[name] = map[string]interface{}{"url": r.Url, "vcs": r.Vcs, "settings": json.RawMessage(r.VcsConfig())}\n	}\n	b, err := json.Marshal(all)\n')]),
 ("c14-new-error", "C14", "fire", [("vcs/vcs.go", 'return nil, fmt.Errorf("vcs: %s is not a valid vcs driver.", name)', 'return nil, fmt.Errorf("vcs: %s is not a valid vcs driver. (%s)", name, cfg)')]),
 ("c14-new-driver-printed", "C14", "fire", [("vcs/vcs.go", "	return &WorkDir{d}, nil\n", '	log.Printf("driver for %s: %+v", name, struct{ N string; P string }{name, string(cfg)})\n	return &WorkDir{d}, nil\n')]),
 ("c14-keep-raw-hidden", "C14", "silent", [(C, "	VcsConfigMessage   *SecretMessage ", "	VcsConfigMessage   *SecretMessage ")]),
 ("c14-keep-null", "C14", "silent", [(C, M, M.replace('[]byte("{}")', '[]byte("null")'))]),
 ("c14-keep-const", "C14", "silent", [(C, M, 'const hidden = "{}"\n\n' + M.replace('[]byte("{}")', '[]byte(hidden)'))]),
 ("c14-keep-value-recv", "C14", "silent", [(C, "func (s *SecretMessage) MarshalJSON", "func (s SecretMessage) MarshalJSON")]),
 ("c14-keep-whole-config", "C14", "silent", [(C, "b, err := json.Marshal(c.Repos)", "b, err := json.Marshal(c)")]),
 ("c14-keep-log-repo", "C14", "silent", [(S, 'log.Printf("Searcher started for %s", name)', 'log.Printf("Searcher started for %s: %s %v", name, repo.Url, len(repo.VcsConfig()) > 0)')]),
 ("c14-keep-helper", "C14", "silent", [(V, "		g.Username,\n		\"--password\",\n		g.Password)\n	cmd.Dir = dir\n", "		g.user(),\n		\"--password\",\n		g.pass())\n	cmd.Dir = dir\n"), (V, "func (g *SVNDriver) SpecialFiles", "func (g *SVNDriver) user() string { return g.Username }\n\nfunc (g *SVNDriver) pass() string { return g.Password }\n\nfunc (g *SVNDriver) SpecialFiles")]),
 ("c14-keep-shared-exec", "C14", "silent", [(V, '''	out, err := cmd.CombinedOutput()
	if err != nil {
		log.Printf("Failed to SVN''', '''	out, err := runCmd(cmd)
	if err != nil {
		log.Printf("Failed to SVN'''), (V, "func (g *SVNDriver) SpecialFiles", 'func runCmd(c *exec.Cmd) ([]byte, error) {\n	out, err := c.CombinedOutput()\n	if err != nil {\n		log.Printf("command failed in %s", c.Dir)\n	}\n	return out, err\n}\n\nfunc (g *SVNDriver) SpecialFiles')]),
 ("c14-keep-args-slice", "C14", "silent", [(V, '''	cmd := exec.Command(
		"svn",
		"checkout",
		"--ignore-externals",
		"--username",
		g.Username,
		"--password",
		g.Password,
		url,
		rep)
''', '''	cmd := exec.Command("svn", g.args("checkout", url, rep)...)
'''), (V, "func (g *SVNDriver) SpecialFiles", 'func (g *SVNDriver) args(verb string, more ...string) []string {\n	return append([]string{verb, "--ignore-externals", "--username", g.Username, "--password", g.Password}, more...)\n}\n\nfunc (g *SVNDriver) SpecialFiles')]),
 ("c14-keep-merge-helper", "C14", "silent", [(C, '''		for name, val := range globalVals {
			if _, ok := repoVals[name]; !ok {
				repoVals[name] = val
			}
		}
''', "		merge(repoVals, globalVals)\n"), (C, "func mergeVCSConfigs(", "func merge(to, from map[string]interface{}) {\n	for k, v := range from {\n		if _, ok := to[k]; !ok {\n			to[k] = v\n		}\n	}\n}\n\nfunc mergeVCSConfigs(")]),
 ("c14-keep-merge-error", "C14", "silent", [(C, "			return err\n		}\n\n		globalConfigVals[vcs] = configVals", '			return fmt.Errorf("vcs-config of %s: %s", vcs, err)\n		}\n\n		globalConfigVals[vcs] = configVals'), (C, '	"errors"\n', '	"errors"\n	"fmt"\n')]),
 ("c14-keep-main-error", "C14", "silent", [("cmds/houndd/main.go", "		panic(err)\n	}\n\n	// Start", '		panic(fmt.Errorf("config: %v", err))\n	}\n\n	// Start')]),
 ("c14-keep-unknown-driver", "C14", "silent", [(S, "	wd, err := vcs.New(repo.Vcs, repo.VcsConfig())\n	if err != nil {\n		return nil, err", '	wd, err := vcs.New(repo.Vcs, repo.VcsConfig())\n	if err != nil {\n		return nil, fmt.Errorf("%s: %v", name, err)')]),
]
CASES = [c for c in CASES]
