U = "ui/ui.go"
T = "ui/content.go"
W = "web/web.go"
PRD = '''		switch cnt.tplType {
		case "html":
			// Use html/template to parse the html template
			cnt.tpl, err = html_template.New(cnt.template).Parse(string(a))
			if err != nil {
				return nil, err
			}
		case "xml", "text":
			// Use text/template to parse the xml or text templates
			// We are using text/template here for parsing xml to keep things
			// consistent with html/template parsing.
			cnt.tpl, err = text_template.New(cnt.template).Parse(string(a))
			if err != nil {
				return nil, err
			}
		default:
			return nil, errors.New("invalid tplType for content")
		}
'''
SRC = '		"Source":       html_template.HTML(buf.String()),\n		"Host":         r.Host,\n	})\n}\n\n// Used for dev'
CASES = [
 ("c24-json-as-js", "C24", "fire", [(U, '		"ReposAsJson":  cfgJson,', '		"ReposAsJson":  html_template.JS(cfgJson),')]),
 ("c24-title-html", "C24", "fire", [(U, '		"ReposAsJson":  cfgJson,\n		"Title":        cfg.Title,', '		"ReposAsJson":  cfgJson,\n		"Title":        html_template.HTML(cfg.Title),')]),
 ("c24-host-url", "C24", "fire", [(U, SRC, SRC.replace("r.Host", "html_template.URL(r.Host)"))]),
 ("c24-query-in-source", "C24", "fire", [(U, '	buf.WriteString("<script>")\n', '	fmt.Fprintf(&buf, "<script>/* %s */", r.URL.Path)\n')]),
 ("c24-dev-config-in-source", "C24", "fire", [(U, "	var buf bytes.Buffer\n	for _, path := range c.sources {\n", '	var buf bytes.Buffer\n	if cfg.Title != "" {\n		buf.WriteString("<!-- " + cfg.Title + " -->")\n	}\n	for _, path := range c.sources {\n')]),
 ("c24-dev-host-src", "C24", "fire", [(U, '"<script src=\\"http://localhost:8080/ui/%s\\"></script>", path)', '"<script src=\\"http://%s/ui/%s\\"></script>", r.Host, path)')]),
 ("c24-helper-source", "C24", "fire", [(U, "// Used for dev-mode only", 'func trusted(s string) html_template.HTML {\n	return html_template.HTML(s)\n}\n\n// Used for dev-mode only'), (U, '		"ReposAsJson":  cfgJson,\n		"Title":        cfg.Title,', '		"ReposAsJson":  cfgJson,\n		"Title":        trusted(cfg.Title),')]),
 ("c24-text-engine", "C24", "fire", [(U, PRD, PRD.replace("html_template.New", "text_template.New"))]),
 ("c24-text-default", "C24", "fire", [(U, '		case "html":\n			// Use html/template to parse the html template\n			cnt.tpl', '		case "htm":\n			// Use html/template to parse the html template\n			cnt.tpl'), (U, '		case "xml", "text":\n			// Use text/template to parse the xml or text templates\n			// We are using text/template here for parsing xml to keep things\n			// consistent with html/template parsing.\n			cnt.tpl', '		default:\n			cnt.tpl'), (U, '		default:\n			return nil, errors.New("invalid tplType for content")\n		}\n	}', '		}\n	}')]),
 ("c24-kind-wrong", "C24", "fire", [(T, '				"js/excluded_files.js",\n			},\n			tplType: "html",', '				"js/excluded_files.js",\n			},\n			tplType: "text",')]),
 ("c24-dev-text", "C24", "fire", [(U, "tpl, err = html_template.ParseFiles(", "tpl, err = text_template.ParseFiles(")]),
 ("c24-raw-error", "C24", "fire", [(U, "		h.Handler.ServeHTTP(w, r)\n		return\n", '		fmt.Fprintf(w, "<h1>%s</h1>", p)\n		return\n')]),
 ("c24-funcs", "C24", "fire", [(U, "html_template.New(cnt.template).Parse(", 'html_template.New(cnt.template).Funcs(html_template.FuncMap{"raw": func(s string) html_template.HTML { return html_template.HTML(s) }}).Parse(')]),
 ("c24-keep-struct-helper", "C24", "silent", [(U, SRC, SRC.replace("html_template.HTML(buf.String())", "script(&buf)")), (U, "// Used for dev-mode only", 'func script(b *bytes.Buffer) html_template.HTML {\n	return html_template.HTML(b.String())\n}\n\n// Used for dev-mode only')]),
 ("c24-keep-if", "C24", "silent", [(U, PRD, '''		if cnt.tplType == "html" {
			cnt.tpl, err = html_template.New(cnt.template).Parse(string(a))
		} else if cnt.tplType == "xml" || cnt.tplType == "text" {
			cnt.tpl, err = text_template.New(cnt.template).Parse(string(a))
		} else {
			return nil, errors.New("invalid tplType for content")
		}
		if err != nil {
			return nil, err
		}
''')]),
 ("c24-keep-parse-helper", "C24", "silent", [(U, PRD, '''		if cnt.tpl, err = parseTpl(cnt, string(a)); err != nil {
			return nil, err
		}
'''), (U, "// Create an http.Handler for prd-mode.", '''func parseTpl(c *content, src string) (renderer, error) {
	switch c.tplType {
	case "html":
		return html_template.New(c.template).Parse(src)
	case "xml", "text":
		return text_template.New(c.template).Parse(src)
	}
	return nil, errors.New("invalid tplType for content")
}

// Create an http.Handler for prd-mode.''')]),
 ("c24-keep-parse-args", "C24", "silent", [(U, PRD, '''		if cnt.tpl, err = parseTpl(cnt.template, cnt.tplType, string(a)); err != nil {
			return nil, err
		}
'''), (U, "// Create an http.Handler for prd-mode.", '''func parseTpl(name, kind, src string) (renderer, error) {
	switch kind {
	case "html":
		return html_template.New(name).Parse(src)
	case "xml", "text":
		return text_template.New(name).Parse(src)
	}
	return nil, errors.New("invalid tplType for content")
}

// Create an http.Handler for prd-mode.''')]),
 ("c24-keep-const", "C24", "silent", [(T, 'func init() {', 'const htmlType = "html"\n\nfunc init() {'), (T, '				"js/excluded_files.js",\n			},\n			tplType: "html",', '				"js/excluded_files.js",\n			},\n			tplType: htmlType,'), (U, '		switch cnt.tplType {\n		case "html":', '		switch cnt.tplType {\n		case htmlType:')]),
 ("c24-keep-data", "C24", "silent", [(U, '	return c.tpl.Execute(w, map[string]interface{}{\n		"ReactVersion": ReactVersion,\n		"ReposAsJson":  cfgJson,\n		"Title":        cfg.Title,\n		"Source":       html_template.HTML(buf.String()),\n		"Host":         r.Host,\n	})', '	data := make(map[string]interface{})\n	data["ReactVersion"] = ReactVersion\n	data["ReposAsJson"] = cfgJson\n	data["Title"] = cfg.Title\n	data["Host"] = r.Host\n	data["Source"] = html_template.HTML(buf.String())\n	return c.tpl.Execute(w, data)')]),
 ("c24-keep-builder", "C24", "silent", [(U, '	for _, path := range c.sources {\n		fmt.Fprintf(&buf, "<script src=\\"http://localhost:8080/ui/%s\\"></script>", path)\n	}\n', '	for i := range c.sources {\n		buf.WriteString("<script src=\\"http://localhost:8080/ui/" + c.sources[i] + "\\"></script>")\n	}\n'), (U, '	"fmt"\n', '')]),
 ("c24-keep-struct", "C24", "silent", [(U, '	return c.tpl.Execute(w, map[string]interface{}{\n		"ReactVersion": ReactVersion,\n		"ReposAsJson":  cfgJson,\n		"Title":        cfg.Title,\n		"Source":       html_template.HTML(buf.String()),\n		"Host":         r.Host,\n	})', '	return c.tpl.Execute(w, &page{ReactVersion, cfgJson, cfg.Title, html_template.HTML(buf.String()), r.Host})'), (U, "// Used for dev-mode only", 'type page struct {\n	ReactVersion string\n	ReposAsJson  string\n	Title        string\n	Source       html_template.HTML\n	Host         string\n}\n\n// Used for dev-mode only')]),
 ("c24-struct-string", "C24", "fire", [(U, '	return c.tpl.Execute(w, map[string]interface{}{\n		"ReactVersion": ReactVersion,\n		"ReposAsJson":  cfgJson,\n		"Title":        cfg.Title,\n		"Source":       html_template.HTML(buf.String()),\n		"Host":         r.Host,\n	})', '	return c.tpl.Execute(w, &page{ReactVersion, html_template.JS(cfgJson), cfg.Title, html_template.HTML(buf.String()), r.Host})'), (U, "// Used for dev-mode only", 'type page struct {\n	ReactVersion string\n	ReposAsJson  html_template.JS\n	Title        string\n	Source       html_template.HTML\n	Host         string\n}\n\n// Used for dev-mode only')]),
]
