# C25: what an operation opens for itself is closed when it returns
S="searcher/searcher.go";I="index/index.go";M="cmds/houndd/main.go";C="config/config.go";L="client/client.go";G="vcs/git.go";GR="index/grep.go";WR="codesearch/index/write.go";RD="codesearch/index/read.go";HM="cmds/hound/main.go"
def F(n,*e): return ("c25-"+n,"C25","fire",list(e))
def K(n,*e): return ("c25-"+n,"C25","silent",list(e))
OPEN=(I,"	r, err := os.Open(path)\n	if err != nil {\n		return \"\", err\n	}\n	defer r.Close()\n","	r, err := os.Open(path)\n	if err != nil {\n		return \"\", err\n	}\n")
GREP2="	r, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n	defer r.Close()\n\n	c, err := gzip.NewReader(r)\n	if err != nil {\n		return err\n	}\n	defer c.Close()\n\n	return g.grep2(c, re, nctx, fn)"
BODY="	res, err := doHttpGet(cfg, u)\n	if err != nil {\n		return err\n	}\n	defer res.Body.Close()\n"
REPOS="	defer res.Body.Close()\n\n	if res.StatusCode != http.StatusOK {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n\n	return json.NewDecoder(res.Body).Decode(&repos)"
CASES=[
F("body-after-status",(L,REPOS,"	if res.StatusCode != http.StatusOK {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n	defer res.Body.Close()\n\n	return json.NewDecoder(res.Body).Decode(&repos)")),
F("search-body",(L,BODY,"	res, err := doHttpGet(cfg, u)\n	if err != nil {\n		return err\n	}\n")),
F("source-close-late",OPEN,(I,"	g := gzip.NewWriter(w)\n	reason := ix.Add(rel, io.TeeReader(r, g))\n","	defer r.Close()\n\n	g := gzip.NewWriter(w)\n	reason := ix.Add(rel, io.TeeReader(r, g))\n")),
F("dup-close-last",(I,"	defer w.Close()\n\n	g := gzip","	g := gzip")),
F("grep-close-after",(GR,GREP2,GREP2.replace("	defer r.Close()\n\n","\n").replace("	return g.grep2","	defer r.Close()\n\n	return g.grep2"))),
F("grep-only-gzip",(GR,GREP2,GREP2.replace("	defer r.Close()\n\n","\n"))),
F("text-peek",(I,"	defer r.Close()\n\n	n, err := io.ReadFull(r, buf)\n	if err != nil && err != io.ErrUnexpectedEOF && err != io.EOF {\n		return false, err\n	}\n","	n, err := io.ReadFull(r, buf)\n	if err != nil && err != io.ErrUnexpectedEOF && err != io.EOF {\n		return false, err\n	}\n	r.Close()\n")),
F("excluded-encode",(I,"	defer w.Close()\n\n	return json.NewEncoder(w).Encode(files)","	if err := json.NewEncoder(w).Encode(files); err != nil {\n		return err\n	}\n	return w.Close()")),
F("manifest-read",(I,"	defer r.Close()\n\n	if err := gob.NewDecoder(r).Decode(m); err != nil {\n		return m, err\n	}\n\n	return m, nil","	if err := gob.NewDecoder(r).Decode(m); err != nil {\n		return m, err\n	}\n\n	return m, r.Close()")),
F("manifest-write",(I,"	defer w.Close()\n\n	return gob.NewEncoder(w).Encode(r)","	return gob.NewEncoder(w).Encode(r)")),
F("config-decode",(C,"	defer r.Close()\n\n	if err := json.NewDecoder(r).Decode(c); err != nil {\n		return err\n	}\n","	if err := json.NewDecoder(r).Decode(c); err != nil {\n		return err\n	}\n	r.Close()\n")),
F("helper-open",(HM,"	r, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n	defer r.Close()\n\n	return json.NewDecoder(r).Decode(cfg)","	r, err := openConfig(filename)\n	if err != nil {\n		return err\n	}\n\n	return json.NewDecoder(r).Decode(cfg)"),(HM,"// Attempt to populate a client.Config from the json found in\n// filename.","func openConfig(filename string) (*os.File, error) {\n	return os.Open(filename)\n}\n\n// Attempt to populate a client.Config from the json found in\n// filename.")),
F("writer-close",(I,"	ix := index.Create(filepath.Join(dst, \"tri\"))\n	defer ix.Close()\n","	ix := index.Create(filepath.Join(dst, \"tri\"))\n")),
F("writer-close-success",(I,"	defer ix.Close()\n",""),(I,"	ix.Flush()\n","	ix.Flush()\n	ix.Close()\n")),
F("ls-files-wait",(G,"		pipe.Close()\n		filesCmd.Wait()\n","		pipe.Close()\n")),
F("ls-files-wait-empty",(G,"	// Split by NUL","	if len(out) == 0 {\n		return files\n	}\n\n	// Split by NUL")),
F("handle-retry",(GR,GREP2,GREP2.replace("	defer c.Close()","	if r, err = os.Open(filename); err != nil {\n		return err\n	}\n	c.Reset(r) //nolint\n	defer c.Close()"))),
F("named-closer-wrong",(I,"	defer r.Close()\n\n	dup := filepath","	dup := filepath"),(I,"	defer w.Close()\n\n	g := gzip","	defer w.Close()\n	defer w.Close()\n\n	g := gzip")),
K("grep-closure",(GR,GREP2,GREP2.replace("	defer r.Close()","	defer func() {\n		if err := r.Close(); err != nil {\n			println(err.Error())\n		}\n	}()"))),
K("grep-explicit",(GR,GREP2,"	r, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n\n	c, err := gzip.NewReader(r)\n	if err != nil {\n		r.Close()\n		return err\n	}\n\n	err = g.grep2(c, re, nctx, fn)\n	c.Close()\n	r.Close()\n	return err")),
K("grep-helper",(GR,GREP2,"	r, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n	return g.grepOpened(r, re, nctx, fn)"),(GR,"func (g *grepper) fillFrom","func (g *grepper) grepOpened(r *os.File, re *regexp.Regexp, nctx int,\n	fn func(line []byte, lineno int, before [][]byte, after [][]byte) (bool, error)) error {\n	defer r.Close()\n\n	c, err := gzip.NewReader(r)\n	if err != nil {\n		return err\n	}\n	defer c.Close()\n\n	return g.grep2(c, re, nctx, fn)\n}\n\nfunc (g *grepper) fillFrom")),
K("grep-close-helper",(GR,GREP2,GREP2.replace("defer r.Close()","defer closeFile(r)")),(GR,"func (g *grepper) fillFrom","func closeFile(c io.Closer) {\n	_ = c.Close()\n}\n\nfunc (g *grepper) fillFrom")),
K("grep-struct",(GR,GREP2,"	c, err := openZipped(filename)\n	if err != nil {\n		return err\n	}\n	defer c.Close()\n\n	return g.grep2(c, re, nctx, fn)"),(GR,"func (g *grepper) fillFrom","type zipped struct {\n	*gzip.Reader\n	f *os.File\n}\n\nfunc openZipped(filename string) (*zipped, error) {\n	r, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	c, err := gzip.NewReader(r)\n	if err != nil {\n		r.Close()\n		return nil, err\n	}\n	return &zipped{c, r}, nil\n}\n\nfunc (z *zipped) Close() error {\n	z.Reader.Close()\n	return z.f.Close()\n}\n\nfunc (g *grepper) fillFrom")),
K("helper-opener",(HM,"	r, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n	defer r.Close()\n","	r, err := openConfig(filename)\n	if err != nil {\n		return err\n	}\n	defer r.Close()\n"),(HM,"// Attempt to populate a client.Config from the json found in\n// filename.","func openConfig(filename string) (io.ReadCloser, error) {\n	r, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	return r, nil\n}\n\n// Attempt to populate a client.Config from the json found in\n// filename."),(HM,'import (\n','import (\n	"io"\n')),
K("body-helper",(L,REPOS,"	defer closeBody(res)\n\n	if res.StatusCode != http.StatusOK {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n\n	return json.NewDecoder(res.Body).Decode(&repos)"),(L,"// Load the list of repositories","func closeBody(res *http.Response) {\n	res.Body.Close()\n}\n\n// Load the list of repositories")),
K("body-var",(L,REPOS,"	body := res.Body\n	defer body.Close()\n\n	if res.StatusCode != http.StatusOK {\n		return fmt.Errorf(\"Status %d\", res.StatusCode)\n	}\n\n	return json.NewDecoder(body).Decode(&repos)")),
K("writer-closure",(I,"	defer ix.Close()\n","	defer func() {\n		ix.Close()\n	}()\n")),
K("ls-files-helper",(G,"		pipe.Close()\n		filesCmd.Wait()\n","		abandon(filesCmd, pipe)\n"),(G,"func (g *GitDriver) AutoGeneratedFiles","func abandon(cmd *exec.Cmd, out io.Closer) {\n	out.Close()\n	if err := cmd.Wait(); err != nil {\n		log.Print(err)\n	}\n}\n\nfunc (g *GitDriver) AutoGeneratedFiles"),(G,'import (\n','import (\n	"io"\n')),
K("text-split",(I,"	r, err := os.Open(filename)\n	if err != nil {\n		return false, err\n	}\n	defer r.Close()\n\n	n, err := io.ReadFull(r, buf)\n	if err != nil && err","	n, err := peek(filename, buf)\n	if err != nil && err"),(I,"func isTextFile","func peek(filename string, buf []byte) (int, error) {\n	r, err := os.Open(filename)\n	if err != nil {\n		return 0, err\n	}\n	defer r.Close()\n	return io.ReadFull(r, buf)\n}\n\nfunc isTextFile")),
K("temp-manifest",(I,"	w, err := os.Create(filepath.Join(r.dir, manifestFilename))\n	if err != nil {\n		return err\n	}\n	defer w.Close()\n\n	return gob.NewEncoder(w).Encode(r)","	w, err := ioutil.TempFile(r.dir, \"metadata\")\n	if err != nil {\n		return err\n	}\n	defer os.Remove(w.Name())\n	defer w.Close()\n\n	if err := gob.NewEncoder(w).Encode(r); err != nil {\n		return err\n	}\n\n	return os.Rename(w.Name(), filepath.Join(r.dir, manifestFilename))"),(I,'	"io"\n','	"io"\n	"io/ioutil"\n')),
F("temp-manifest-left",(I,"	w, err := os.Create(filepath.Join(r.dir, manifestFilename))\n	if err != nil {\n		return err\n	}\n	defer w.Close()\n\n	return gob.NewEncoder(w).Encode(r)","	w, err := ioutil.TempFile(r.dir, \"metadata\")\n	if err != nil {\n		return err\n	}\n	defer w.Close()\n\n	if err := gob.NewEncoder(w).Encode(r); err != nil {\n		return err\n	}\n\n	return os.Rename(w.Name(), filepath.Join(r.dir, manifestFilename))"),(I,'	"io"\n','	"io"\n	"io/ioutil"\n')),
]
M="cmds/houndd/main.go"
CASES += [
K("main-serve-helper",(M,"		webpack := exec.Command(\"./node_modules/.bin/webpack-dev-server\", \"--mode\", \"development\")\n		webpack.Dir = basepath + \"/../../\"\n		webpack.Stdout = os.Stdout\n		webpack.Stderr = os.Stderr\n		err = webpack.Start()\n		if err != nil {\n			error_log.Println(err)\n		}\n	}","		if err := startWebpack(); err != nil {\n			error_log.Println(err)\n		}\n	}"),(M,"func main() {","func startWebpack() error {\n	webpack := exec.Command(\"./node_modules/.bin/webpack-dev-server\", \"--mode\", \"development\")\n	webpack.Dir = basepath + \"/../../\"\n	webpack.Stdout = os.Stdout\n	webpack.Stderr = os.Stderr\n	return webpack.Start()\n}\n\nfunc main() {")),
]
