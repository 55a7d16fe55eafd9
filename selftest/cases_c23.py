A = "api/api.go"; S = "searcher/searcher.go"
FIX = '''		if res == "" {
			writeError(w,
				fmt.Errorf("Cannot read the excluded files of %s", repo),
				http.StatusInternalServerError)
			return
		}
'''
WJ = '''	w.Header().Set("Content-Type", "application/json;charset=utf-8")
	w.Header().Set("Access-Control-Allow-Origin", "*")
	w.WriteHeader(status)
	if err :='''
EXC = '''		w.Header().Set("Content-Type", "application/json;charset=utf-8")
		w.Header().Set("Access-Control-Allow-Origin", "*")
		fmt.Fprint(w, res)
'''
SE = '''			writeError(w, err, http.StatusOK)
			return
'''
CASES = [
 ("c23-order", "C23", "fire", [(A, WJ, WJ.replace("	w.WriteHeader(status)\n", "").replace("	w.Header().Set(\"Access", "	w.WriteHeader(status)\n	w.Header().Set(\"Access"))]),
 ("c23-type", "C23", "fire", [(A, EXC, EXC.replace("application/json;charset=utf-8", "text/plain"))]),
 ("c23-cors", "C23", "fire", [(A, EXC, EXC.replace('		w.Header().Set("Access-Control-Allow-Origin", "*")\n', ""))]),
 ("c23-cors-err", "C23", "fire", [(A, WJ, WJ.replace('	w.Header().Set("Access-Control-Allow-Origin", "*")\n', '	if status == http.StatusOK {\n		w.Header().Set("Access-Control-Allow-Origin", "*")\n	}\n'))]),
 ("c23-noreturn", "C23", "fire", [(A, SE, SE.replace("			return\n", ""))]),
 ("c23-update-loop", "C23", "fire", [(A, "		for _, repo := range repos {\n			searcher := idx[repo]\n", "		for _, repo := range repos {\n			searcher := idx[repo]\n			defer writeResp(w, repo)\n")]),
 ("c23-update-silent", "C23", "fire", [(A, "			if !searcher.Update() {\n				writeError(w,\n					fmt.Errorf(\"Push updates are not enabled for repository %s\", repo),\n					http.StatusForbidden)\n				return\n", "			if !searcher.Update() {\n				log.Printf(\"Push updates are not enabled for repository %s\", repo)\n				return\n")]),
 ("c23-update-cont", "C23", "fire", [(A, "					http.StatusForbidden)\n				return\n\n			}", "					http.StatusForbidden)\n				continue\n\n			}")]),
 ("c23-hook-decode", "C23", "fire", [(A, "		if err != nil {\n		   writeError(w,\n				errors.New(http.StatusText(http.StatusBadRequest)),\n				http.StatusBadRequest)\n			return\n		}\n", "		if err != nil {\n			log.Print(err)\n			writeResp(w, \"ok\")\n			return\n		}\n")]),
 ("c23-hook-status", "C23", "fire", [(A, "				errors.New(http.StatusText(http.StatusBadRequest)),\n				http.StatusBadRequest)\n", "				errors.New(http.StatusText(http.StatusBadRequest)),\n				http.StatusOK)\n")]),
 ("c23-search-swallow", "C23", "fire", [(A, SE, "			log.Print(err)\n			writeResp(w, map[string]string{})\n			return\n")]),
 ("c23-http-error", "C23", "fire", [(A, "			writeError(w,\n				fmt.Errorf(\"No such repository: %s\", repo),\n				http.StatusNotFound)\n			return\n		}\n\n		res :=", "			http.Error(w, \"No such repository\", http.StatusNotFound)\n			return\n		}\n\n		res :=")]),
 ("c23-twice", "C23", "fire", [(A, "func writeResp(w http.ResponseWriter, data interface{}) {\n", "func writeResp(w http.ResponseWriter, data interface{}) {\n	w.WriteHeader(http.StatusOK)\n")]),
 ("c23-hdr-var", "C23", "silent", [(A, WJ, '''	h := w.Header()
	h.Set("Access-Control-Allow-Origin", "*")
	h.Set("content-type", "application/json;charset=utf-8")
	w.WriteHeader(status)
	if err :=''')]),
 ("c23-hdr-helper", "C23", "silent", [(A, WJ, '''	jsonHeaders(w)
	w.WriteHeader(status)
	if err :='''), (A, EXC, "		jsonHeaders(w)\n		fmt.Fprint(w, res)\n"), (A, "func writeResp(", '''func jsonHeaders(w http.ResponseWriter) {
	for k, v := range map[string]string{} {
		_, _ = k, v
	}
	w.Header().Set("Content-Type", "application/json;charset=utf-8")
	w.Header().Set("Access-Control-Allow-Origin", "*")
}

func writeResp(''')]),
 ("c23-write", "C23", "silent", [(A, "		fmt.Fprint(w, res)\n", "		io.WriteString(w, res)\n"), (A, '	"fmt"\n', '	"fmt"\n	"io"\n')]),
 ("c23-marshal", "C23", "silent", [(A, "	if err := json.NewEncoder(w).Encode(data); err != nil {\n", "	enc := json.NewEncoder(w)\n	enc.SetEscapeHTML(true)\n	if err := enc.Encode(data); err != nil {\n")]),
 ("c23-err-struct", "C23", "silent", [(A, '''	writeJson(w, map[string]string{
		"Error": err.Error(),
	}, status)
''', '''	var msg struct {
		Error string
	}
	msg.Error = err.Error()
	writeJson(w, &msg, status)
''')]),
 ("c23-post-helper", "C23", "silent", [(A, '''		if r.Method != "POST" {
			writeError(w,
				errors.New(http.StatusText(http.StatusMethodNotAllowed)),
				http.StatusMethodNotAllowed)
			return
		}

		type Webhook''', '''		if !posted(w, r) {
			return
		}

		type Webhook'''), (A, "func Setup(", '''func posted(w http.ResponseWriter, r *http.Request) bool {
	if r.Method == http.MethodPost {
		return true
	}
	writeError(w,
		errors.New(http.StatusText(http.StatusMethodNotAllowed)),
		http.StatusMethodNotAllowed)
	return false
}

func Setup(''')]),
 ("c23-else", "C23", "silent", [(A, '''		if !searcher.Update() {
			writeError(w,
				fmt.Errorf("Push updates are not enabled for repository %s", repo),
				http.StatusForbidden)
			return
		}

		writeResp(w, "ok")
''', '''		if searcher.Update() {
			writeResp(w, "ok")
		} else {
			writeError(w,
				fmt.Errorf("Push updates are not enabled for repository %s", repo),
				http.StatusForbidden)
		}
''')]),
 ("c23-excludes-empty", "C23", "fire", [(A, FIX, "")]),
 ("c23-excludes-empty-len", "C23", "silent", [(A, FIX, FIX.replace('res == ""', "len(res) == 0"))]),
 ("c23-excludes-empty-inverted", "C23", "silent", [(A, FIX + "\n" + EXC, "		if res != \"\" {\n" + EXC + "			return\n		}\n" + FIX.replace('		if res == "" {\n', "").replace("			return\n		}\n", ""))]),
 ("c23-excludes-write", "C23", "silent", [(A, "		fmt.Fprint(w, res)\n", "		io.WriteString(w, res)\n"), (A, '	"fmt"\n', '	"fmt"\n	"io"\n')]),
 ("c23-excludes-printf", "C23", "silent", [(A, "		fmt.Fprint(w, res)\n", "		fmt.Fprintf(w, \"%s\", res)\n")]),
 ("c23-excludes-error", "C23", "silent", [(A, "		res := searcher.GetExcludedFiles()\n" + FIX, """		res, err := searcher.GetExcludedFiles()
		if err != nil {
			writeError(w, err, http.StatusInternalServerError)
			return
		}
"""), (S, "GetExcludedFiles() string {", "GetExcludedFiles() (string, error) {"), (S, '''		log.Printf("Couldn't read excluded_files.json %v\\n", err)
	}
	return string(dat)
''', '''		log.Printf("Couldn't read excluded_files.json %v\\n", err)
		return "", err
	}
	return string(dat), nil
''')]),
]
