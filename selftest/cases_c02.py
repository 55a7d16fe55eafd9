S = "searcher/searcher.go"
I = "index/index.go"
SW = "\toldIdx := s.idx\n\ts.idx = idx\n\n\treturn oldIdx.Destroy()"
CASES = [
 ("c02-leak", "C02", "fire", [(S, SW, "\ts.idx = idx\n\n\treturn nil")]),
 ("c02-destroy-new", "C02", "fire", [(S, SW, "\tn := idx\n\tif n != nil {\n\t\treturn n.Destroy()\n\t}\n\ts.idx = idx\n\treturn nil")]),
 ("c02-err-swap", "C02", "silent", [(S, "\t\tlog.Printf(\"failed index build (%s): %s\", name, err)\n\t\treturn rev, false", "\t\tlog.Printf(\"failed index build (%s): %s\", name, err)\n\t\tif idx == nil {\n\t\t\treturn rev, false\n\t\t}")]),
 ("c02-err-swap2", "C02", "fire", [(S, "\t\tlog.Printf(\"failed index build (%s): %s\", name, err)\n\t\treturn rev, false", "\t\tlog.Printf(\"failed index build (%s): %s\", name, err)")]),
 ("c02-destroy-early", "C02", "fire", [(S, SW, "\tif err := s.idx.Destroy(); err != nil {\n\t\treturn err\n\t}\n\ts.idx = idx\n\treturn nil")]),
 ("c02-destroy-then-swap-locked", "C02", "silent", [(S, SW, "\terr := s.idx.Destroy()\n\ts.idx = idx\n\treturn err")]),
 ("c02-destroy-before-build", "C02", "fire", [(S, "\tlog.Printf(\"Rebuilding %s for %s\", name, newRev)\n", "\tlog.Printf(\"Rebuilding %s for %s\", name, newRev)\n\ts.lck.Lock()\n\ts.idx.Destroy()\n\ts.lck.Unlock()\n")]),
 ("c02-close-only", "C02", "fire", [(S, SW, "\toldIdx := s.idx\n\ts.idx = idx\n\n\treturn oldIdx.Close()")]),
 ("c02-go-destroy", "C02", "silent", [(S, SW, "\toldIdx := s.idx\n\ts.idx = idx\n\tgo oldIdx.Destroy()\n\treturn nil")]),
 ("c02-go-closure-destroy", "C02", "silent", [(S, SW, "\toldIdx := s.idx\n\ts.idx = idx\n\tgo func() {\n\t\tif err := oldIdx.Destroy(); err != nil {\n\t\t\tlog.Print(err)\n\t\t}\n\t}()\n\treturn nil")]),
 ("c02-go-closure-conditional", "C02", "fire", [(S, SW, "\toldIdx := s.idx\n\ts.idx = idx\n\tgo func() {\n\t\tif s.Repo != nil {\n\t\t\toldIdx.Destroy()\n\t\t}\n\t}()\n\treturn nil")]),
 ("c02-return-old", "C02", "silent", [(S, SW, "\toldIdx := s.idx\n\ts.idx = idx\n\n\tif err := oldIdx.Destroy(); err != nil {\n\t\treturn err\n\t}\n\treturn nil")]),
 ("c02-destroy-noremove", "C02", "fire", [(I, "\tif err := n.idx.Close(); err != nil {\n\t\treturn err\n\t}\n\treturn n.Ref.Remove()", "\treturn n.idx.Close()")]),
 ("c02-destroy-noclose", "C02", "fire", [(I, "\tif err := n.idx.Close(); err != nil {\n\t\treturn err\n\t}\n\treturn n.Ref.Remove()", "\treturn n.Ref.Remove()")]),
 ("c02-destroy-parent", "C02", "fire", [(I, "\treturn os.RemoveAll(r.dir)", "\treturn os.RemoveAll(filepath.Dir(r.dir))")]),
 ("c02-lost-new", "C02", "fire", [(S, "\t// The new index is live even", "\tif s.Repo.Vcs == \"hg\" {\n\t\treturn newRev, true\n\t}\n\t// The new index is live even")]),
 ("c02-inline-swap", "C02", "silent", [(S, "\tif err := s.swapIndexes(idx); err != nil {", "\ts.lck.Lock()\n\told := s.idx\n\ts.idx = idx\n\ts.lck.Unlock()\n\tif err := old.Destroy(); err != nil {")]),
 ("c02-same-guard", "C02", "silent", [(S, SW, "\toldIdx := s.idx\n\ts.idx = idx\n\tif oldIdx == nil {\n\t\treturn nil\n\t}\n\treturn oldIdx.Destroy()")]),
]
