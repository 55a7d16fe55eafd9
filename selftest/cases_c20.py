C = "config/config.go"
VCSD = '	if r.Vcs == "" {\n		r.Vcs = defaultVcs\n	}\n'
LOOP = '	for _, repo := range c.Repos {\n		initRepo(repo)\n	}\n\n'
MERGE = '			if _, ok := repoVals[name]; !ok {\n				repoVals[name] = val\n			}\n'
FOUND = '		globalVals, valsExist := globalConfigVals[repo.Vcs]\n		if !valsExist {\n			continue\n		}\n'
ABS = '		path, err := filepath.Abs(\n			filepath.Join(filepath.Dir(filename), c.DbPath))\n'
PAT = '''	} else {
		if r.UrlPattern.BaseUrl == "" {
			r.UrlPattern.BaseUrl = defaultBaseUrl
		}

		if r.UrlPattern.Anchor == "" {
			r.UrlPattern.Anchor = defaultAnchor
		}
	}
'''
CASES = [
 ("c20-override-poll", "C20", "fire", [(C, "	if r.MsBetweenPolls == 0 {", "	if r.MsBetweenPolls < defaultMsBetweenPoll {")]),
 ("c20-override-vcs", "C20", "fire", [(C, '	if r.Vcs == "" {', '	if r.Vcs == "" || r.VcsConfigMessage == nil {')]),
 ("c20-wrong-constant", "C20", "fire", [(C, "defaultMsBetweenPoll         = 30000", "defaultMsBetweenPoll         = 300000")]),
 ("c20-wrong-uri", "C20", "fire", [(C, '"/healthz"', '"/health"')]),
 ("c20-crossed", "C20", "fire", [(C, "r.UrlPattern.Anchor = defaultAnchor", "r.UrlPattern.Anchor = defaultBaseUrl")]),
 ("c20-no-else", "C20", "fire", [(C, PAT, "	}\n")]),
 ("c20-else-if", "C20", "fire", [(C, PAT, PAT.replace('		}\n\n		if r', '		} else if r'))]),
 ("c20-replace-pattern", "C20", "fire", [(C, "	if r.UrlPattern == nil {", '	if r.UrlPattern == nil || r.UrlPattern.BaseUrl == "" {')]),
 ("c20-result-limit-missing", "C20", "fire", [(C, "	if c.ResultLimit == 0 {\n		c.ResultLimit = defaultResultLimit\n	}\n", "")]),
 ("c20-title-missing", "C20", "fire", [(C, '	if c.Title == "" {\n		c.Title = defaultTitle\n	}\n', "")]),
 ("c20-merge-first", "C20", "fire", [(C, LOOP + "	return initConfig(c)\n", "	if err := initConfig(c); err != nil {\n		return err\n	}\n\n" + LOOP + "	return nil\n")]),
 ("c20-init-one", "C20", "fire", [(C, LOOP, LOOP.replace("		initRepo(repo)\n", "		if repo.Url != \"\" && repo.VcsConfigMessage != nil {\n			continue\n		}\n		initRepo(repo)\n"))]),
 ("c20-init-break", "C20", "fire", [(C, LOOP, LOOP.replace("		initRepo(repo)\n", "		if repo.DisplayName == \"\" {\n			break\n		}\n		initRepo(repo)\n"))]),
 ("c20-merge-override", "C20", "fire", [(C, MERGE, '			repoVals[name] = val\n')]),
 ("c20-merge-inverted", "C20", "fire", [(C, MERGE, MERGE.replace("!ok", "ok"))]),
 ("c20-merge-if-nonempty", "C20", "fire", [(C, MERGE, MERGE.replace("!ok", '!ok && val != ""'))]),
 ("c20-merge-break", "C20", "fire", [(C, MERGE, MERGE.replace("			}\n", "			} else {\n				break\n			}\n"))]),
 ("c20-merge-wrong-vcs", "C20", "fire", [(C, "globalConfigVals[repo.Vcs]", "globalConfigVals[defaultVcs]")]),
 ("c20-merge-only-missing", "C20", "fire", [(C, FOUND, FOUND.replace("!valsExist", "!valsExist || repo.VcsConfigMessage != nil"))]),
 ("c20-merge-only-own", "C20", "fire", [(C, FOUND, FOUND.replace("!valsExist", "!valsExist || repo.VcsConfigMessage == nil"))]),
 ("c20-merge-stops", "C20", "fire", [(C, FOUND, FOUND.replace("continue", "break"))]),
 ("c20-merge-aliased", "C20", "fire", [(C, "			repoVals = make(map[string]interface{}, len(globalVals))\n", "			repoVals = globalVals\n		} else if globalVals == nil {\n			return nil\n")]),
 ("c20-merge-marshal-global", "C20", "fire", [(C, "json.Marshal(&repoVals)", "json.Marshal(&globalVals)")]),
 ("c20-merge-global-break", "C20", "fire", [(C, "		globalConfigVals[vcs] = configVals\n", "		if len(configVals) == 0 {\n			break\n		}\n		globalConfigVals[vcs] = configVals\n")]),
 ("c20-merge-hoisted", "C20", "fire", [(C, "		var configVals map[string]interface{}\n", ""), (C, "	for vcs, configBytes := range", "	var configVals map[string]interface{}\n	for vcs, configBytes := range")]),
 ("c20-merge-one-repo", "C20", "fire", [(C, "	if globalConfigLen == 0 {", "	if globalConfigLen == 0 || len(cfg.Repos) < 2 {")]),
 ("c20-merge-error-ignored", "C20", "fire", [(C, "json.Unmarshal(*configBytes, &configVals); err != nil {\n			return err\n", "json.Unmarshal(*configBytes, &configVals); err != nil {\n			continue\n")]),
 ("c20-own-error-ignored", "C20", "fire", [(C, "json.Unmarshal(repoBytes, &repoVals); err != nil {\n			return err\n", "json.Unmarshal(repoBytes, &repoVals); err != nil {\n			repoVals = make(map[string]interface{})\n")]),
 ("c20-path-cwd", "C20", "fire", [(C, ABS, '		path, err := filepath.Abs(c.DbPath)\n')]),
 ("c20-path-file", "C20", "fire", [(C, ABS, ABS.replace("filepath.Dir(filename)", "filename"))]),
 ("c20-path-relative", "C20", "fire", [(C, ABS + "		if err != nil {\n			return err\n		}\n", "		path := filepath.Join(filepath.Dir(filename), c.DbPath)\n")]),
 ("c20-path-always", "C20", "fire", [(C, "	if !filepath.IsAbs(c.DbPath) {", "	if c.DbPath != \"\" {")]),
 ("c20-path-only-dot", "C20", "fire", [(C, "	if !filepath.IsAbs(c.DbPath) {", "	if !filepath.IsAbs(c.DbPath) && c.DbPath != \"\" {")]),
 ("c20-decode-ignored", "C20", "fire", [(C, "json.NewDecoder(r).Decode(c); err != nil {", "json.NewDecoder(r).Decode(c); err != nil && c.Repos == nil {")]),
 ("c20-switch-default", "C20", "fire", [(C, "defaultPushEnabled           = false", "defaultPushEnabled           = true")]),
 ("c20-switch-crossed", "C20", "fire", [(C, "optionToBool(r.EnablePushUpdates, defaultPushEnabled)", "optionToBool(r.EnablePollUpdates, defaultPushEnabled)")]),
 ("c20-switch-or", "C20", "fire", [(C, "	return *val\n", "	return *val || def\n")]),
 ("c20-switch-both", "C20", "fire", [(C, "	return optionToBool(r.EnablePollUpdates, defaultPollEnabled)", "	return optionToBool(r.EnablePollUpdates, defaultPollEnabled) || r.PushUpdatesEnabled()")]),
 ("c20-keep-helper", "C20", "silent", [(C, VCSD, '	orDefault(&r.Vcs, defaultVcs)\n'), (C, "// Populate missing config values with default values.\n", 'func orDefault(p *string, def string) {\n	if *p == "" {\n		*p = def\n	}\n}\n\n// Populate missing config values with default values.\n')]),
 ("c20-keep-value-helper", "C20", "silent", [(C, VCSD, '	r.Vcs = orDefault(r.Vcs, defaultVcs)\n'), (C, "// Populate missing config values with default values.\n", 'func orDefault(v, def string) string {\n	if v == "" {\n		return def\n	}\n	return v\n}\n\n// Populate missing config values with default values.\n')]),
 ("c20-keep-pattern", "C20", "silent", [(C, "		r.UrlPattern = &UrlPattern{\n			BaseUrl: defaultBaseUrl,\n			Anchor:  defaultAnchor,\n		}\n	} else {\n", "		r.UrlPattern = &UrlPattern{}\n	}\n	{\n")]),
 ("c20-keep-len", "C20", "silent", [(C, '	if r.Vcs == "" {', '	if len(r.Vcs) == 0 {')]),
 ("c20-keep-inverted", "C20", "silent", [(C, MERGE, '			if _, ok := repoVals[name]; ok {\n				continue\n			}\n			repoVals[name] = val\n')]),
 ("c20-keep-exist", "C20", "silent", [(C, FOUND, '		globalVals = globalConfigVals[repo.Vcs]\n		if globalVals == nil {\n			continue\n		}\n')]),
 ("c20-keep-lenexist", "C20", "silent", [(C, FOUND, '		globalVals = globalConfigVals[repo.Vcs]\n		if len(globalVals) == 0 {\n			continue\n		}\n')]),
 ("c20-keep-nolen", "C20", "silent", [(C, "	globalConfigLen := len(cfg.VCSConfigMessages)\n	if globalConfigLen == 0 {\n		return nil\n	}\n\n	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)", "	globalConfigVals := make(map[string]map[string]interface{})")]),
 ("c20-keep-newmap", "C20", "silent", [(C, "		for name, val := range globalVals {\n" + MERGE + "		}\n\n		repoBytes, err := json.Marshal(&repoVals)", "		merged := map[string]interface{}{}\n		for name, val := range globalVals {\n			merged[name] = val\n		}\n		for name, val := range repoVals {\n			merged[name] = val\n		}\n\n		repoBytes, err := json.Marshal(merged)")]),
 ("c20-keep-one-loop", "C20", "silent", [(C, LOOP, ""), (C, "	return mergeVCSConfigs(c)", LOOP + "	return mergeVCSConfigs(c)")]),
 ("c20-keep-mergehelper", "C20", "silent", [(C, "		for name, val := range globalVals {\n" + MERGE + "		}\n", "		fill(repoVals, globalVals)\n"), (C, "func mergeVCSConfigs(", "func fill(own, global map[string]interface{}) {\n	for name, val := range global {\n		if _, ok := own[name]; !ok {\n			own[name] = val\n		}\n	}\n}\n\nfunc mergeVCSConfigs(")]),
 ("c20-keep-path", "C20", "silent", [(C, ABS, "		dir := filepath.Dir(filename)\n		path, err := filepath.Abs(filepath.Join(dir, c.DbPath))\n")]),
 ("c20-keep-path-helper", "C20", "silent", [(C, "	if !filepath.IsAbs(c.DbPath) {\n" + ABS + "		if err != nil {\n			return err\n		}\n		c.DbPath = path\n	}\n", "	if c.DbPath, err = absFrom(filename, c.DbPath); err != nil {\n		return err\n	}\n"), (C, "func (c *Config) LoadFromFile", "func absFrom(filename, p string) (string, error) {\n	if filepath.IsAbs(p) {\n		return p, nil\n	}\n	return filepath.Abs(filepath.Join(filepath.Dir(filename), p))\n}\n\nfunc (c *Config) LoadFromFile")]),
 ("c20-keep-switch", "C20", "silent", [(C, "	return optionToBool(r.EnablePollUpdates, defaultPollEnabled)", "	return r.EnablePollUpdates == nil || *r.EnablePollUpdates")]),
 ("c20-keep-readfile", "C20", "silent", [(C, "	r, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n	defer r.Close()\n\n	if err := json.NewDecoder(r).Decode(c)", "	b, err := os.ReadFile(filename)\n	if err != nil {\n		return err\n	}\n\n	if err := json.Unmarshal(b, c)")]),
 ("c20-keep-decode-over", "C20", "silent", [(C, """		var repoVals map[string]interface{}
		if len(repoBytes) == 0 {
			repoVals = make(map[string]interface{}, len(globalVals))
		} else if err := json.Unmarshal(repoBytes, &repoVals); err != nil {
			return err
		}

		for name, val := range globalVals {
""" + MERGE + """		}
""", """		repoVals := make(map[string]interface{}, len(globalVals))
		for name, val := range globalVals {
			repoVals[name] = val
		}
		if len(repoBytes) != 0 {
			if err := json.Unmarshal(repoBytes, &repoVals); err != nil {
				return err
			}
		}
""")]),
]
