S = "searcher/searcher.go"
I = "index/index.go"
EX = "\tif err := writeExcludedFilesJson(\n\t\tfilepath.Join(dst, excludedFileJsonFilename),\n\t\texcluded); err != nil {\n\t\treturn err\n\t}\n\n\tix.Flush()\n\n\treturn nil\n}"
MAN = "\tif err := indexAllFiles(opt, dst, src); err != nil {\n\t\treturn nil, err\n\t}\n\n\tr := &IndexRef{\n\t\tUrl:                url,\n\t\tRev:                rev,\n\t\tTime:               time.Now(),\n\t\tdir:                dst,\n\t\tExcludeDotFiles:    opt.ExcludeDotFiles,\n\t\tAutoGeneratedFiles: opt.AutoGeneratedFiles,\n\t}\n\n\tif err := r.writeManifest(); err != nil {\n\t\treturn nil, err\n\t}\n"
BO = "\tif _, err := os.Stat(idxDir); err != nil {"
CASES = [
 ("c03-manifest-first", "C03", "fire", [(I, MAN, "\tr := &IndexRef{\n\t\tUrl:                url,\n\t\tRev:                rev,\n\t\tTime:               time.Now(),\n\t\tdir:                dst,\n\t\tExcludeDotFiles:    opt.ExcludeDotFiles,\n\t\tAutoGeneratedFiles: opt.AutoGeneratedFiles,\n\t}\n\n\tif err := r.writeManifest(); err != nil {\n\t\treturn nil, err\n\t}\n\tif err := indexAllFiles(opt, dst, src); err != nil {\n\t\treturn nil, err\n\t}\n")]),
 ("c03-noflush", "C03", "fire", [(I, EX, EX.replace("\tix.Flush()\n\n", "")) ]),
 ("c03-defer-flush", "C03", "silent", [(I, EX, EX.replace("\tix.Flush()\n\n", "")), (I, "\tdefer ix.Close()\n\n\texcluded :=", "\tdefer ix.Close()\n\tdefer ix.Flush()\n\n\texcluded :=")]),
 ("c03-walk-ignored", "C03", "fire", [(I, "\t\treturn nil\n\t}); err != nil {\n\t\treturn err\n\t}", "\t\treturn nil\n\t}); err != nil && len(excluded) == 0 {\n\t\treturn err\n\t}")]),
 ("c03-excl-ignored", "C03", "fire", [(I, "\t\texcluded); err != nil {\n\t\treturn err\n\t}", "\t\texcluded); err != nil {\n\t\tix.LogSkip = true\n\t}")]),
 ("c03-excl-after", "C03", "fire", [(I, EX, "\tix.Flush()\n\n\treturn nil\n}"), (I, "\tif err := r.writeManifest(); err != nil {\n\t\treturn nil, err\n\t}\n", "\tif err := r.writeManifest(); err != nil {\n\t\treturn nil, err\n\t}\n\tif err := writeExcludedFilesJson(filepath.Join(dst, excludedFileJsonFilename), nil); err != nil {\n\t\treturn nil, err\n\t}\n")]),
 ("c03-excl-flush-swapped", "C03", "silent", [(I, EX, "\tix.Flush()\n\n\tif err := writeExcludedFilesJson(\n\t\tfilepath.Join(dst, excludedFileJsonFilename),\n\t\texcluded); err != nil {\n\t\treturn err\n\t}\n\n\treturn nil\n}")]),
 ("c03-manifest-conditional", "C03", "fire", [(I, "\tif err := r.writeManifest(); err != nil {", "\tif rev == \"\" {\n\t\treturn r, nil\n\t}\n\tif err := r.writeManifest(); err != nil {")]),
 ("c03-manifest-async", "C03", "fire", [(I, "\tif err := r.writeManifest(); err != nil {\n\t\treturn nil, err\n\t}\n", "\tgo r.writeManifest()\n")]),
 ("c03-read-nodecode", "C03", "fire", [(I, "\tif err := gob.NewDecoder(r).Decode(m); err != nil {\n\t\treturn m, err\n\t}", "\tif err := gob.NewDecoder(r).Decode(m); err != nil && m.Url == \"\" {\n\t\treturn m, err\n\t}")]),
 ("c03-open-unread", "C03", "fire", [(I, "\tr, err := Read(dir)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn r.Open()", "\tr, err := Read(dir)\n\tif err != nil && r.Url == \"\" {\n\t\treturn nil, err\n\t}\n\n\treturn r.Open()")]),
 ("c03-open-failed-build", "C03", "fire", [(S, "\t\tif err != nil {\n\t\t\tos.RemoveAll(idxDir) //nolint\n\t\t\treturn nil, err\n\t\t}\n\n\t\tidx, err := r.Open()", "\t\tif err != nil && r == nil {\n\t\t\tos.RemoveAll(idxDir) //nolint\n\t\t\treturn nil, err\n\t\t}\n\n\t\tidx, err := r.Open()")]),
 ("c03-fixed-dir", "C03", "fire", [(S, "\tr := uint64(rand.Uint32())<<32 | uint64(rand.Uint32())\n\treturn filepath.Join(dbpath, fmt.Sprintf(\"idx-%08x\", r))", "\treturn filepath.Join(dbpath, fmt.Sprintf(\"idx-%s\", filepath.Base(dbpath)))")]),
 ("c03-noseed", "C03", "fire", [(S, "\trand.Seed(time.Now().UnixNano())", "\trand.Seed(42)")]),
 ("c03-reuse-live-dir", "C03", "fire", [(S, "\t\tnextIndexDir(dbpath),\n\t\trepo.Url,\n\t\tnewRev)", "\t\tfilepath.Join(dbpath, \"idx-\"+newRev),\n\t\trepo.Url,\n\t\tnewRev)")]),
 ("c03-tempdir", "C03", "silent", [(S, "\tr := uint64(rand.Uint32())<<32 | uint64(rand.Uint32())\n", "\tr := rand.Uint64()\n")]),
 ("c03-split-build", "C03", "silent", [(I, "\tr := &IndexRef{\n\t\tUrl:                url,\n\t\tRev:                rev,\n\t\tTime:               time.Now(),\n\t\tdir:                dst,\n\t\tExcludeDotFiles:    opt.ExcludeDotFiles,\n\t\tAutoGeneratedFiles: opt.AutoGeneratedFiles,\n\t}\n\n\tif err := r.writeManifest(); err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn r, nil\n}", "\treturn finish(opt, dst, url, rev)\n}\n\nfunc finish(opt *IndexOptions, dst, url, rev string) (*IndexRef, error) {\n\tr := new(IndexRef)\n\tr.Url = url\n\tr.Rev = rev\n\tr.Time = time.Now()\n\tr.dir = dst\n\tr.ExcludeDotFiles = opt.ExcludeDotFiles\n\tr.AutoGeneratedFiles = opt.AutoGeneratedFiles\n\terr := r.writeManifest()\n\tif err == nil {\n\t\treturn r, nil\n\t}\n\treturn nil, err\n}")]),
 ("c03-split-walk", "C03", "silent", [(I, "\tif err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint", "\terrWalk := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint"), (I, "\t\treturn nil\n\t}); err != nil {\n\t\treturn err\n\t}", "\t\treturn nil\n\t})\n\tif errWalk != nil {\n\t\treturn errWalk\n\t}")]),
]
