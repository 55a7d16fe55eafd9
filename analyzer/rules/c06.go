package rules

import (
	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "Every file is indexed or listed as excluded",
		"per-entry obligation over every path of the walk callback and of the index writer: an entry which is neither a directory nor special must, when the callback reports success for it, have been given to the index writer under its relative path with an empty reason, or have been appended with its relative path and a non-empty reason to the list that is written out; directories are skipped only if special or an excluded dot directory; the writer returns an empty reason only after it recorded the name, and posts every trigram it collected",
		func(r *Report) {
			r.entryRule()
			r.writerAddRule()
			r.Need("end of the handling of an entry", 4)
			r.Need("listing of an excluded file", 3)
			r.Need("writing of the list of excluded files", 1)
			r.Need("end of adding a file", 2)
		})
	register("C07", "Version control metadata is never indexed",
		"per-entry obligation over every path of the walk callback: before an entry is indexed, copied, created or listed, its name has been compared with the special names and found different; a special directory is skipped as a whole; the special names given to the build are those of the driver in use, and each driver names its own metadata directory",
		func(r *Report) {
			r.specialRule()
			r.driverSpecialRule()
			r.Need("handling of a special entry", 1)
			r.Need("indexing of an entry", 1)
			r.Need("driver with metadata", 4)
			r.Need("special names given to a build", 1)
		})
	register("C29", "Symbolic links and special files are never followed",
		"per-entry obligation over every path of the walk callback: a file of the source tree is opened only where its mode, from the walk's own (non-following) inspection, is known to be regular",
		func(r *Report) {
			w := &walker{r: r}
			w.call = func(s *eng.State, c *eng.Call, in bool) {
				if isWalk(c.Name) && !walkCallback(c) {
					r.Seen("walk of the source tree", c.Instr)
				}
				if !in {
					return
				}
				m := mon(s)
				p := m.one("path")
				switch c.Name {
				case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile", "os.Stat", "os.ReadDir", "io/ioutil.ReadDir", "path/filepath.EvalSymlinks", "path/filepath.Walk", "path/filepath.WalkDir":
					if len(c.Args) == 0 || p == nil || !c.Args[0].Mentions(p) {
						return
					}
					if c.Args[0].Any(func(x *eng.Val) bool { t, ok := x.Str(); return ok && t == "raw" }) {
						return // the copy in the index directory
					}
					r.Seen("opening of a source file", c.Instr)
					if m.Flags["reg"] != 1 {
						r.Violate("C29.open", c.Instr, "%s of an entry of the source tree which is not known to be a regular file", c.Name)
					}
				}
			}
			w.run()
			r.Need("walk of the source tree", 1)
			r.Need("opening of a source file", 1)
		})
}

func (r *Report) entryRule() {
	w := &walker{r: r}
	w.judge = func(s *eng.State, c *eng.Call, res *eng.Val) {
		m := mon(s)
		if m.Flags["bad"] == 1 {
			return
		}
		r.SeenAt("end of the handling of an entry", describe(m)+skipText(res))
		at := c.Instr
		fn := FnName(c.Fn)
		if sk := isSkip(res); sk != "" {
			if sk != "SkipDir" {
				r.ViolateFn("C06.skip", fn, c.Fn.Pos(), "the rest of the source tree is skipped (%s)", sk)
				return
			}
			if m.Flags["dir"] != 1 {
				r.ViolateFn("C06.skip", fn, c.Fn.Pos(), "the rest of a directory is skipped because of an entry that is not known to be a directory")
			} else if !(m.Flags["spec"] == 1 || m.Flags["dot"] == 1 && m.Flags["dopt"] == 1) {
				r.ViolateFn("C06.skip", fn, c.Fn.Pos(), "a directory is skipped which is neither special nor an excluded dot directory")
			}
			return
		}
		if s.Nilness(res) == eng.False {
			return
		}
		_ = at
		if m.Flags["dir"] == 1 || m.Flags["spec"] == 1 {
			return
		}
		if m.Flags["lost"] == 1 {
			r.ViolateFn("C06.name", fn, c.Fn.Pos(), "an entry is indexed or listed not under its path below the root, or without a reason")
			return
		}
		if m.Flags["excl"] == 1 {
			return
		}
		if m.Flags["added"] == 1 {
			for _, v := range m.members("reason") {
				if emptyStr(s, v) != eng.True {
					r.ViolateFn("C06.reason", fn, c.Fn.Pos(), "an entry the index writer may have refused is not listed as excluded")
				}
			}
			return
		}
		r.ViolateFn("C06.lost", fn, c.Fn.Pos(), "an entry may be neither indexed nor listed as excluded (%s)", describe(m))
	}
	w.call = func(s *eng.State, c *eng.Call, in bool) {
		m := mon(s)
		if c.Name == "(*encoding/json.Encoder).Encode" || c.Name == "encoding/json.Marshal" || c.Name == "encoding/json.MarshalIndent" {
			for _, a := range c.Args {
				v := a.Strip()
				for v.Kind == eng.KIface {
					v = v.Args[0]
				}
				if !r.isExcludedList(v) {
					continue
				}
				r.Seen("writing of the list of excluded files", c.Instr)
				for _, cell := range m.members("exlist") {
					if s.Read(cell, v.T) != v && cell != v {
						r.Violate("C06.list", c.Instr, "the list written is not the one the excluded files were appended to")
					}
				}
				m.Flags["written"] = 1
			}
		}
		if isWalk(c.Name) && m.Flags["written"] == 1 && !walkCallback(c) {
			r.Violate("C06.list", c.Instr, "the list of excluded files is written before the sources are walked")
		}
	}
	w.run()
}

func (r *Report) isExcludedList(v *eng.Val) bool {
	if v.T == nil {
		return false
	}
	t := v.T.String()
	for i := 0; i < 3; i++ {
		if len(t) > 0 && t[0] == '*' {
			t = t[1:]
		}
		if len(t) > 1 && t[:2] == "[]" {
			t = t[2:]
			if len(t) > 0 && t[0] == '*' {
				t = t[1:]
			}
			return t == r.P.Module+"/index.ExcludedFile"
		}
	}
	return false
}

func describe(m *M) string {
	t := ""
	add := func(f, yes, no string) {
		switch m.Flags[f] {
		case 1:
			t += " " + yes
		case -1:
			t += " " + no
		}
	}
	add("dir", "directory", "not a directory")
	add("reg", "regular", "not regular")
	add("spec", "special", "not special")
	add("dot", "dot name", "no dot name")
	add("dopt", "dot files excluded", "dot files included")
	add("excl", "listed", "")
	add("added", "added", "")
	if t == "" {
		return "any entry"
	}
	return t[1:]
}

func skipText(v *eng.Val) string {
	if sk := isSkip(v); sk != "" {
		return ": " + sk
	}
	return ""
}

// writerAddRule: the index writer accepts a file (empty reason) only after
// recording its name and posting its trigrams.
func (r *Report) writerAddRule() {
	add := r.P.Method("codesearch/index", "IndexWriter", "Add")
	if add == nil {
		r.Undecided("the method adding a file to the index was not found")
		return
	}
	isW := func(a *eng.Val, f string) bool {
		return a.Kind == eng.KField && a.Fld.Name() == f && r.isNamed(a.Args[0].T, "codesearch/index", "IndexWriter")
	}
	name := r.P.In.Param(add, add.Params[1].Name(), 1, add.Params[1].Type())
	hasF := func(v *eng.Val, f string) bool {
		return v.Any(func(x *eng.Val) bool { return isW(x, f) })
	}
	dense := func(s *eng.State, v *eng.Val) bool {
		for a, c := range s.Mem {
			if c == v && a.Kind == eng.KField && r.isNamed(a.Args[0].T, "codesearch/sparse", "Set") {
				return true
			}
		}
		return v.Any(func(x *eng.Val) bool {
			if hasF(x, "trigram") {
				return true
			}
			c, ok := instrCall(x)
			return ok && len(c.Args) > 0 && eng.CalleeName(c) == "(*"+r.P.Module+"/codesearch/sparse.Set).Dense"
		})
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if c.Fn != nil && c.Fn.Signature.Recv() != nil && r.isNamed(c.Fn.Signature.Recv().Type(), "codesearch/index", "bufWriter") {
				if len(c.Args) > 1 && hasF(c.Args[0], "nameData") && c.Args[1].Mentions(name) {
					m.Flags["named"] = 1
				}
				return eng.Opaque
			}
			if c.Name == "("+"*"+r.P.Module+"/codesearch/sparse.Set).Add" {
				m.Flags["collected"] = 1
			}
			return eng.Default
		},
		OnStore: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			m := mon(s)
			if isW(a, "numName") {
				m.Flags["counted"] = 1
			}
			if isW(a, "post") && m.has("posted", v) {
				m.Flags["pend"] = 0
				m.Flags["post"] = 1
				m.clear("posted")
			}
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			if hasF(base, "post") || s.Mon != nil && r.isPostSlice(base) {
				mon(s).put("posted", res, 1)
			}
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			if !dense(s, cont) && !m.has("cont", cont) {
				return
			}
			m.put("cont", cont, 1)
			if !more {
				m.clear("cont")
			}
			r.Seen("loop over the trigrams of a file", at.Instr)
			if m.Flags["pend"] == 1 {
				r.Violate("C06.post", at.Instr, "a trigram of an indexed file may not be posted")
			}
			m.Flags["pend"] = 0
			if more {
				m.Flags["pend"] = 1
				m.Flags["looping"] = 1
			} else {
				m.Flags["looping"] = 0
				m.Flags["looped"] = 1
			}
		},
	})
	r.slice(x, func(i ssa.Instruction) bool {
		_, v := fieldOf(i)
		return v != nil && (v.Name() == "numName" || v.Name() == "post" || v.Name() == "nameData")
	})
	x.Lim, x.FactLim = 16, 12
	for _, e := range x.Run(add, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 1 {
			continue
		}
		m := mon(e.S)
		res := e.Results[0]
		r.SeenAt("end of adding a file", res.String())
		if emptyStr(e.S, res) == eng.False || notEmptyTerm(res) {
			continue
		}
		if m.Flags["counted"] == 0 || m.Flags["named"] == 0 {
			r.ViolateFn("C06.add", FnName(add), add.Pos(), "a file may be reported as indexed although its name was not recorded")
		} else if m.Flags["looping"] == 1 || m.Flags["looped"] == 0 && m.Flags["post"] == 0 {
			r.ViolateFn("C06.post", FnName(add), add.Pos(), "a file may be reported as indexed although not all its trigrams were posted")
		}
	}
	r.Absorb(x, FnName(add))
	// every byte read takes part: the trigrams are collected in this function or below
}

func (r *Report) isPostSlice(v *eng.Val) bool {
	return v.T != nil && v.T.String() == "[]"+r.P.Module+"/codesearch/index.postEntry"
}

// notEmptyTerm: the string is formatted from a non-empty format or joined with
// a non-empty constant.
func notEmptyTerm(v *eng.Val) bool {
	if pureTerm(v, "fmt.Sprintf") {
		if t, ok := v.Args[0].Args[0].Str(); ok && t != "" && t[0] != '%' {
			return true
		}
	}
	if v.Kind == eng.KBin && v.Op == "+" {
		for _, a := range v.Args {
			if t, ok := a.Str(); ok && t != "" {
				return true
			}
			if notEmptyTerm(a) {
				return true
			}
		}
	}
	return false
}

// ---- C07 ----

func (r *Report) specialRule() {
	w := &walker{r: r}
	need := func(s *eng.State, at ssa.Instruction, what string) {
		m := mon(s)
		r.Seen("indexing of an entry", at)
		if m.Flags["spec"] != -1 {
			r.Violate("C07.test", at, "%s of an entry not known to differ from the version control metadata", what)
		}
	}
	w.call = func(s *eng.State, c *eng.Call, in bool) {
		if !in {
			return
		}
		switch r.writerMethod(c) {
		case "Add", "AddFile":
			need(s, c.Instr, "indexing")
		}
		if i, ok := fileWrite(c.Name); ok && i < len(c.Args) {
			if p := mon(s).one("path"); p != nil && c.Args[i].Mentions(p) {
				need(s, c.Instr, c.Name)
			}
		}
	}
	w.judge = func(s *eng.State, c *eng.Call, res *eng.Val) {
		m := mon(s)
		if m.Flags["bad"] == 1 || m.Flags["spec"] != 1 {
			return
		}
		r.SeenAt("handling of a special entry", describe(m)+skipText(res))
		if m.Flags["excl"] == 1 {
			r.ViolateFn("C07.listed", FnName(c.Fn), c.Fn.Pos(), "version control metadata is listed as excluded")
		}
		if m.Flags["dir"] != -1 && m.Flags["reg"] != 1 && isSkip(res) == "" && s.Nilness(res) != eng.False {
			r.ViolateFn("C07.descend", FnName(c.Fn), c.Fn.Pos(), "the walk descends into a directory of version control metadata")
		}
	}
	w.run()
}

func (r *Report) driverSpecialRule() {
	// metadata directory per registered driver name
	want := map[string]string{"git": ".git", "hg": ".hg", "mercurial": ".hg", "svn": ".svn", "subversion": ".svn", "bzr": ".bzr"}
	drv := r.drivers()
	for _, d := range drv {
		dir := want[d.name]
		if dir == "" {
			continue
		}
		for _, t := range d.types {
			m := r.P.In // keep
			_ = m
			f := r.methodOfType(t, "SpecialFiles")
			if f == nil {
				r.Undecided("driver %s has no list of special files", d.name)
				continue
			}
			r.SeenAt("driver with metadata", d.name+" "+FnName(f))
			x := eng.NewExec(r.P, eng.Hooks{})
			for _, e := range x.Run(f, nil) {
				if e.Kind != eng.ExRet {
					continue
				}
				if !sliceHasStr(e.S, e.Results[0], dir) {
					r.ViolateFn("C07.driver", FnName(f), f.Pos(), "the special files of %s do not include %s", d.name, dir)
				}
			}
			r.Absorb(x, FnName(f))
		}
	}
	// what the build is given
	build := r.buildRoot()
	if build == nil {
		return
	}
	target := func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() == build
		})
	}
	spName := "(" + r.P.Module + "/vcs.Driver).SpecialFiles"
	pullName := map[string]bool{"(" + r.P.Module + "/vcs.Driver).Pull": true, "(" + r.P.Module + "/vcs.Driver).Clone": true}
	for _, root := range r.roots(target, "searcher") {
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				if c.Invoke != nil && pullName[c.Invoke.FullName()] {
					m.clear("drv")
					m.put("drv", c.Args[0].Strip(), 1)
					return eng.Opaque
				}
				if c.Invoke != nil && c.Invoke.FullName() == spName {
					m.clear("asked")
					m.put("asked", c.Args[0].Strip(), 1)
					return eng.Opaque
				}
				if c.Fn != build {
					return eng.Default
				}
				r.Seen("special names given to a build", c.Instr)
				ok := false
				if v := r.fieldContent(s, c.Args[0], "SpecialFiles"); v != nil {
					ok = v.Any(func(x *eng.Val) bool { return m.has("spres", x) })
				}
				if !ok {
					r.Violate("C07.given", c.Instr, "the build is not given the special names of the driver in use")
				}
				return eng.Opaque
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				m := mon(s)
				if c.Invoke != nil && c.Invoke.FullName() == spName {
					d, a := m.one("drv"), m.one("asked")
					if d == nil || d == a {
						m.put("spres", res, 1)
					}
				}
				return nil
			},
			OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
				m := mon(s)
				for _, v := range append([]*eng.Val{base}, elems...) {
					if v.Any(func(x *eng.Val) bool { return m.has("spres", x) }) {
						m.put("spres", res, 1)
					}
				}
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			if _, v := fieldOf(i); v != nil && v.Name() == "SpecialFiles" {
				return true
			}
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if ci.Common().IsInvoke() {
				n := ci.Common().Method.FullName()
				return pullName[n] || n == spName
			}
			return ci.Common().StaticCallee() == build
		})
		x.Lim, x.FactLim = 12, 8
		x.Run(root, newM())
		x.RunThreads(func(t *eng.Thread) eng.Monitor { return t.S.Mon.Clone() }, nil)
		r.Absorb(x, FnName(root))
	}
}

func sliceHasStr(s *eng.State, v *eng.Val, want string) bool {
	for _, e := range variadic(s, v) {
		if t, ok := e.Str(); ok && t == want {
			return true
		}
	}
	hit := false
	// slices held in package variables
	v.Any(func(x *eng.Val) bool {
		if x.Kind == eng.KGlobal {
			if globalInitHas(x.G, want) {
				hit = true
			}
		}
		return false
	})
	return hit
}

// globalInitHas: the initialiser of the package variable's package stores the
// string into an array whose slice is stored into g.
func globalInitHas(g *ssa.Global, want string) bool {
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			sl, ok := st.Val.(*ssa.Slice)
			if !ok {
				continue
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, ref := range *al.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if s2, ok := r2.(*ssa.Store); ok {
						if c, ok := s2.Val.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "\""+want+"\"" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
