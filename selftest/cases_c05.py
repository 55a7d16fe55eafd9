I = "index/index.go"
W = "codesearch/index/write.go"
CASES = [
 ("c05-gzclose", "C05", "fire", [(I, "	if err := g.Close(); err != nil {\n		return \"\", err\n	}\n", "	g.Close()\n")]),
 ("c05-gzclose-defer", "C05", "silent", [(I, "	if err := g.Close(); err != nil {\n		return \"\", err\n	}\n\n	return reason, w.Close()", "	err = g.Close()\n	if err == nil {\n		err = w.Close()\n	}\n	return reason, err")]),
 ("c05-walk", "C05", "fire", [(I, "		return nil\n	}); err != nil {\n		return err\n	}\n", "		return nil\n	}); err != nil && !os.IsPermission(err) {\n		return err\n	}\n")]),
 ("c05-callback", "C05", "silent", [(I, "		if err != nil {\n			return err\n		}\n\n		name := info.Name()\n", "		if info == nil {\n			return err\n		}\n		if err != nil {\n			return err\n		}\n\n		name := info.Name()\n")]),
 ("c05-mkdir", "C05", "fire", [(I, "	return os.Mkdir(dup, os.ModePerm)\n", "	os.Mkdir(dup, os.ModePerm)\n	return nil\n")]),
 ("c05-mkdir-exist", "C05", "silent", [(I, "	return os.Mkdir(dup, os.ModePerm)\n", "	if err := os.Mkdir(dup, os.ModePerm); err != nil {\n		return err\n	}\n	return nil\n")]),
 ("c05-excl-json", "C05", "fire", [(I, "		excluded); err != nil {\n		return err\n	}\n", "		excluded); err != nil {\n		os.Remove(filepath.Join(dst, excludedFileJsonFilename))\n	}\n")]),
 ("c05-json-enc", "C05", "fire", [(I, "	return json.NewEncoder(w).Encode(files)\n", "	json.NewEncoder(w).Encode(files)\n	return nil\n")]),
 ("c05-manifest-enc", "C05", "fire", [(I, "	return gob.NewEncoder(w).Encode(r)\n", "	err = gob.NewEncoder(w).Encode(r)\n	return w.Close()\n")]),
 ("c05-text-read", "C05", "fire", [(I, "	if err != nil && err != io.ErrUnexpectedEOF && err != io.EOF {\n		return false, err\n	}\n", "	if err != nil && n == 0 && err != io.EOF {\n		return false, err\n	}\n")]),
 ("c05-create-raw", "C05", "fire", [(I, "	w, err := os.Create(dup)\n	if err != nil {\n		return \"\", err\n	}\n	defer w.Close()\n\n	g :=", "	w, err := os.Create(dup)\n	if err != nil {\n		return err.Error()[:0], nil\n	}\n	defer w.Close()\n\n	g :=")]),
 ("c05-shadow", "C05", "fire", [(I, "		reasonForExclusion, err := addFileToIndex(ix, dst, src, path)\n		if err != nil {\n			return err\n		}\n", "		reasonForExclusion, err := addFileToIndex(ix, dst, src, path)\n		if err != nil && reasonForExclusion != \"\" {\n			return err\n		}\n")]),
 ("c05-writer-flush", "C05", "fire", [(W, "	_, err := b.file.Write(b.buf)\n	if err != nil {\n		fail(", "	_, err := b.file.Write(b.buf)\n	if err != nil {\n		log.Printf(")]),
 ("c05-writer-copy", "C05", "fire", [(W, "	_, err := io.Copy(dst.file, src.finish())\n	if err != nil {\n		fail(\"copying %s to %s: %v\", src.name, dst.name, err)\n	}\n", "	io.Copy(dst.file, src.finish())\n")]),
 ("c05-writer-post", "C05", "fire", [(W, "err != nil || n < len(data) {\n		if err != nil {\n			fail(\"%v\", err)\n		}\n		fail(", "err != nil && n < len(data) {\n		fail(")]),
 ("c05-writer-readerr", "C05", "fire", [(W, "					log.Printf(\"%s: %v\\n\", name, err)\n					return fmt.Sprintf(\"Read error: %v\", err)\n", "					log.Printf(\"%s: %v\\n\", name, err)\n					break\n")]),
 ("c05-writer-big", "C05", "fire", [(W, "			if _, err := b.file.WriteString(s); err != nil {\n				fail(\"writing %s: %v\", b.name, err)\n			}\n			return\n", "			b.file.WriteString(s)\n			return\n")]),
 ("c05-check-helper", "C05", "silent", [(W, "	_, err := b.file.Write(b.buf)\n	if err != nil {\n		fail(\"writing %s: %v\", b.name, err)\n	}\n", "	_, err := b.file.Write(b.buf)\n	b.check(err)\n"), (W, "func (b *bufWriter) flush() {", "func (b *bufWriter) check(err error) {\n	if err != nil {\n		fail(\"writing %s: %v\", b.name, err)\n	}\n}\n\nfunc (b *bufWriter) flush() {")]),
 ("c05-panic", "C05", "silent", [(W, "	_, err := io.Copy(dst.file, src.finish())\n	if err != nil {\n		fail(\"copying %s to %s: %v\", src.name, dst.name, err)\n	}\n", "	if _, err := io.Copy(dst.file, src.finish()); err != nil {\n		panic(err)\n	}\n")]),
 ("c05-wrap", "C05", "silent", [(I, "	if err := indexAllFiles(opt, dst, src); err != nil {\n		return nil, err\n	}\n", "	if err := indexAllFiles(opt, dst, src); err != nil {\n		return nil, fmt.Errorf(\"indexing %s: %v\", src, err)\n	}\n"), (I, '	"io"\n', '	"fmt"\n	"io"\n')]),
 ("c05-named-result", "C05", "silent", [(I, "func writeExcludedFilesJson(filename string, files []*ExcludedFile) error {\n	w, err := os.Create(filename)\n	if err != nil {\n		return err\n	}\n	defer w.Close()\n\n	return json.NewEncoder(w).Encode(files)\n", "func writeExcludedFilesJson(filename string, files []*ExcludedFile) (err error) {\n	w, err := os.Create(filename)\n	if err != nil {\n		return err\n	}\n	defer func() {\n		if e := w.Close(); err == nil {\n			err = e\n		}\n	}()\n\n	return json.NewEncoder(w).Encode(files)\n")]),
 ("c05-steps", "C05", "silent", [(I, "	if err := indexAllFiles(opt, dst, src); err != nil {\n		return nil, err\n	}\n\n	r :=", "	step := func() error { return indexAllFiles(opt, dst, src) }\n	if err := step(); err != nil {\n		return nil, err\n	}\n\n	r :=")]),
 ("c05-errors-is", "C05", "silent", [(I, "	if err != nil && err != io.ErrUnexpectedEOF && err != io.EOF {\n", "	if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, io.EOF) {\n"), (I, '	"io"\n', '	"errors"\n	"io"\n')]),
 ("c05-walkerr", "C05", "fire", [(I, "		if err != nil {\n			return err\n		}\n\n		name := info.Name()\n", "		if info == nil {\n			return nil\n		}\n		if err != nil {\n			return err\n		}\n\n		name := info.Name()\n")]),
 ("c05-walkerr-skip", "C05", "fire", [(I, "		if err != nil {\n			return err\n		}\n\n		name := info.Name()\n", "		if err != nil {\n			if info != nil && info.IsDir() {\n				return filepath.SkipDir\n			}\n			return err\n		}\n\n		name := info.Name()\n")]),
 ("c05-walkerr-wrap", "C05", "silent", [(I, "		if err != nil {\n			return err\n		}\n\n		name := info.Name()\n", "		if err != nil {\n			return fmt.Errorf(\"%s: %v\", path, err)\n		}\n\n		name := info.Name()\n"), (I, '	"io"\n', '	"fmt"\n	"io"\n')]),
 ("c05-recover-quiet", "C05", "fire", [("codesearch/index/fail.go", '*err = fmt.Errorf("%s", string(e))', 'fmt.Println(string(e))')]),
 ("c05-recover-if", "C05", "fire", [("codesearch/index/fail.go", '*err = fmt.Errorf("%s", string(e))', 'if len(e) > 0 {\n\t\t\t*err = fmt.Errorf("%s", string(e))\n\t\t}')]),
 ("c05-recover-if2", "C05", "silent", [("codesearch/index/fail.go", 'switch e := recover().(type) {\n\tcase nil:\n\tcase failure:\n\t\t*err = fmt.Errorf("%s", string(e))\n\tdefault:\n\t\tpanic(e)\n\t}', 'x := recover()\n\tif x == nil {\n\t\treturn\n\t}\n\tif e, ok := x.(failure); ok {\n\t\t*err = fmt.Errorf("index: %s", string(e))\n\t\treturn\n\t}\n\tpanic(x)')]),
]
