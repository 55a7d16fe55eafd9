package rules

import (
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C34", "Indexes in use match the repository's settings",
		"provenance of the options of every index build from every entry point through the update goroutine (dot files as the repository says; generated files as configured, or as the working copy said after its last update); every claim of an existing index is preceded, in its path condition, by the comparison of the options recorded with it; the options are recorded with each index",
		func(r *Report) {
			r.optionsGiven()
			r.optionsRecorded()
			r.optionsKept()
			r.optionsCompared()
			r.Need("options given to a build", 1)
			r.Need("manifest written", 1)
			r.Need("claim of an existing index", 1)
		})
	r.Assume = []string{"the version control programs report what they are documented to report"}
}

const autoName = "AutoGeneratedFiles"

func (r *Report) asksGenerated(c *ssa.CallCommon) bool {
	return c.IsInvoke() && c.Method.FullName() == "("+r.P.Module+"/vcs.Driver)."+autoName
}

// fieldOfRepo: v is the content of the field of a repository's configuration.
func (r *Report) fieldOfRepo(v *eng.Val, name string) bool {
	v = v.Strip()
	return v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField && v.Args[0].Fld.Name() == name && r.isNamed(v.Args[0].Args[0].T, "config", "Repo")
}

// optionsGiven: each build is given the repository's own options.
func (r *Report) optionsGiven() {
	build := r.P.Func("index", "Build")
	if build == nil {
		r.Undecided("the function building an index was not found")
		return
	}
	building := r.P.Reach(build)
	target := func(f *ssa.Function) bool { return mentions(f, r.isHeavyInstr) }
	for _, root := range r.roots(target, "searcher") {
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				if c.Invoke != nil && r.asksGenerated(c.Instr.Common()) {
					if dir := c.Args[len(c.Args)-1].Strip(); m.Flags["pulled"] == 1 && !m.has("dirs", dir) {
						r.Violate("C34.generated", c.Instr, "the names of generated files may be asked for in another directory than the working copy's")
					}
					return eng.Opaque
				}
				if dir := r.pullCall(c); dir != nil {
					m.put("dirs", dir.Strip(), 1)
					// what was said of the files before is outdated
					for _, v := range m.members("said") {
						m.put("old", v, 1)
						m.del("said", v)
					}
					m.Flags["pulled"] = 1
					return eng.Opaque
				}
				if c.Fn != build {
					return eng.Default
				}
				r.Seen("options given to a build", c.Instr)
				dot := r.fieldContent(s, c.Args[0], "ExcludeDotFiles")
				if dot == nil || !r.fieldOfRepo(dot, "ExcludeDotFiles") {
					r.Violate("C34.dot", c.Instr, "an index may be built with dot files treated otherwise than the repository's configuration says")
				}
				auto := r.fieldContent(s, c.Args[0], autoName)
				switch {
				case auto == nil || cut(auto):
					r.Violate("C34.generated", c.Instr, "an index may be built without the names of the generated files")
				default:
					if w := r.misjudged(s, auto); w != "" {
						r.Violate("C34.generated", c.Instr, "the names of generated files an index is built with may be %s", w)
					}
				}
				return eng.Opaque
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				if c.Invoke != nil && r.asksGenerated(c.Instr.Common()) {
					mon(s).put("said", res, 1)
				}
				return nil
			},
			OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) { r.settled(s, cond) },
		})
		r.copies(&x.H)
		r.slice(x, func(i ssa.Instruction) bool {
			if _, v := fieldOf(i); v != nil && (v.Name() == "ExcludeDotFiles" || v.Name() == autoName) {
				return true
			}
			if ci, ok := i.(ssa.CallInstruction); ok && r.asksGenerated(ci.Common()) {
				return true
			}
			return r.isHeavyInstr(i)
		})
		sl := x.OpaqueFn
		x.OpaqueFn = func(f *ssa.Function) bool {
			if r.P.RelPkg(f) == "index" && f != build {
				return building[f] || sl(f)
			}
			if listTest(f) {
				return false
			}
			return sl(f)
		}
		x.Lim, x.FactLim = 24, 24
		x.Run(root, newM())
		x.RunThreads(func(t *eng.Thread) eng.Monitor { return t.S.Mon.Clone() }, nil)
		r.Absorb(x, FnName(root))
	}
}

// cut: v may be only a part of what it was made from.
func cut(v *eng.Val) bool {
	return v.Any(func(x *eng.Val) bool { return x.Kind == eng.KUn && strings.HasPrefix(x.Op, "slice[") })
}

// taken: res holds the names v holds.
func (r *Report) taken(s *eng.State, res, v *eng.Val) {
	if v == nil {
		return
	}
	m := mon(s)
	if r.mentionsRepo(v) {
		m.put("configured", res, 1)
	}
	for _, set := range []string{"said", "old", "configured"} {
		if v.Any(func(x *eng.Val) bool { return m.has(set, x) }) {
			m.put(set, res, 1)
		}
	}
}

// copies follows the names of generated files into other lists.
func (r *Report) copies(h *eng.Hooks) {
	h.OnAppend = func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
		r.taken(s, res, base)
		for _, v := range elems {
			if !cut(v) {
				r.taken(s, res, v)
			}
		}
	}
	iter := h.OnIter
	h.OnIter = func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
		if more && el != nil {
			r.taken(s, el, cont)
		}
		if iter != nil {
			iter(s, cont, more, k, el, at)
		}
	}
	h.OnCopy = func(s *eng.State, dst, src *eng.Val, at eng.Site) {
		if !cut(src) {
			r.taken(s, whole(dst), src)
		}
	}
}

// settled notes what a branch tells about whether names are configured.
func (r *Report) settled(s *eng.State, cond *eng.Val) {
	m := mon(s)
	cond.Any(func(x *eng.Val) bool {
		if x.Kind == eng.KUn && x.Op == "len" && r.fieldOfRepo(x.Args[0], autoName) {
			switch lo, hi := s.Interval(x); {
			case lo == 0 && hi == 0:
				m.Flags["none"] = 1
				delete(m.Flags, "some")
			case lo > 0:
				m.Flags["some"] = 1
				delete(m.Flags, "none")
			}
		}
		return false
	})
}

// misjudged tells what is wrong with names of generated files, if anything.
func (r *Report) misjudged(s *eng.State, v *eng.Val) string {
	m := mon(s)
	in := func(set string) bool { return v.Any(func(x *eng.Val) bool { return m.has(set, x) }) }
	conf, said := r.mentionsRepo(v) || in("configured"), in("said")
	switch {
	case in("old"):
		return "those of an earlier revision"
	case said && m.Flags["none"] == 0:
		return "those of the working copy although others may be configured"
	case conf && !said && m.Flags["some"] == 0:
		return "those configured although none may be"
	case !conf && !said:
		return "neither configured nor those of the working copy"
	}
	return ""
}

// listTest: a function which decides something about a list of names.
func listTest(f *ssa.Function) bool {
	sg := f.Signature
	if sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type().Underlying(), types.Typ[types.Bool]) || len(f.Blocks) > 3 || sg.Params().Len() != 1 {
		return false
	}
	sl, ok := sg.Params().At(0).Type().Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), types.Typ[types.String])
}

// whole: what v is a slice of.
func whole(v *eng.Val) *eng.Val {
	for v = v.Strip(); v.Kind == eng.KUn && strings.HasPrefix(v.Op, "slice"); {
		v = v.Args[0].Strip()
	}
	return v
}

func (r *Report) mentionsRepo(v *eng.Val) bool {
	return v.Any(func(x *eng.Val) bool { return r.fieldOfRepo(x, autoName) })
}

// optionsRecorded: what is written about an index names the options it was
// built with.
func (r *Report) optionsRecorded() {
	build := r.P.Func("index", "Build")
	if build == nil {
		return
	}
	given := func(x *eng.Val, f string) bool {
		return x.Kind == eng.KLoad && x.Args[0].Kind == eng.KField && x.Args[0].Fld.Name() == f && r.isNamed(x.Args[0].Args[0].T, "index", "IndexOptions")
	}
	copied := func(s *eng.State, dst, v *eng.Val) {
		if !cut(v) && v.Any(func(x *eng.Val) bool { return given(x, autoName) || mon(s).has("copy", x) }) {
			mon(s).put("copy", dst, 1)
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if !strings.HasSuffix(c.Name, "gob.Encoder).Encode") && !strings.HasSuffix(c.Name, "json.Encoder).Encode") && c.Name != "encoding/json.Marshal" {
				return eng.Default
			}
			for _, a := range c.Args {
				v := a.Strip()
				for v.Kind == eng.KIface {
					v = v.Args[0]
				}
				if !r.isRefT(v.T) {
					continue
				}
				r.Seen("manifest written", c.Instr)
				for _, f := range []string{"ExcludeDotFiles", autoName} {
					w := r.fieldContent(s, v, f)
					if ok := w != nil && !cut(w) && w.Any(func(x *eng.Val) bool {
						return given(x, f) || f == autoName && mon(s).has("copy", x)
					}); !ok || f != autoName && !given(w.Strip(), f) {
						r.Violate("C34.record", c.Instr, "an index is recorded without the options it was built with (%s)", f)
					}
				}
			}
			return eng.Default
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			for _, v := range elems {
				copied(s, res, v)
			}
		},
		OnCopy: func(s *eng.State, dst, src *eng.Val, at eng.Site) { copied(s, whole(dst), src) },
	})
	r.slice(x, func(i ssa.Instruction) bool {
		if _, v := fieldOf(i); v != nil && (v.Name() == "ExcludeDotFiles" || v.Name() == autoName) {
			return true
		}
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := eng.CalleeName(ci.Common())
		return strings.HasSuffix(n, "gob.Encoder).Encode") || strings.HasSuffix(n, "json.Encoder).Encode") || n == "encoding/json.Marshal"
	})
	x.Lim, x.FactLim = 12, 8
	x.Run(build, newM())
	r.Absorb(x, FnName(build))
}

// optionsKept: the recorded options of an index are set where it is built
// (and where they are read), and not changed elsewhere.
func (r *Report) optionsKept() {
	build := r.P.Func("index", "Build")
	if build == nil {
		return
	}
	building := r.P.Reach(build)
	for _, f := range r.P.Funcs {
		if building[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !r.isRefT(fa.X.Type()) {
					continue
				}
				_, fld := fieldOf(fa)
				if fld == nil || fld.Name() != "ExcludeDotFiles" && fld.Name() != autoName {
					continue
				}
				// taken over as it is from elsewhere
				if u, ok := st.Val.(*ssa.UnOp); ok {
					if from, ok := u.X.(*ssa.FieldAddr); ok {
						if _, g := fieldOf(from); g.Name() == fld.Name() {
							continue
						}
					}
				}
				r.Violate("C34.kept", i, "the recorded options of an index may be changed after it was built")
			}
		}
	}
}

// optionsCompared: an index is claimed only where the recorded options are
// known to be those at hand.
func (r *Report) optionsCompared() {
	of := func(v *eng.Val, ref *eng.Val, name string) bool {
		return v.Any(func(x *eng.Val) bool {
			return x.Kind == eng.KField && x.Fld.Name() == name && x.Args[0] == ref
		})
	}
	other := func(v *eng.Val, ref *eng.Val, name string) bool {
		return v.Any(func(x *eng.Val) bool {
			return x.Kind == eng.KField && x.Fld.Name() == name && x.Args[0] != ref && !r.isRefT(x.Args[0].T)
		})
	}
	isMine := func(m *M, v *eng.Val) bool {
		return v.Any(func(x *eng.Val) bool {
			return m.has("mineEl", x) || x.Kind == eng.KField && x.Fld.Name() == autoName && r.isRefT(x.Args[0].T)
		})
	}
	isTheirs := func(m *M, v *eng.Val) bool {
		return v.Any(func(x *eng.Val) bool {
			return m.has("theirEl", x) || m.has("said", x) || m.has("configured", x) || x.Kind == eng.KField && x.Fld.Name() == autoName && !r.isRefT(x.Args[0].T)
		})
	}
	refTable := func(mp *eng.Val) bool {
		if mp.T == nil {
			return false
		}
		t, ok := mp.T.Underlying().(*types.Map)
		return ok && r.isRefT(t.Key())
	}
	target := func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool {
			u, ok := i.(*ssa.MapUpdate)
			if !ok {
				return false
			}
			t, ok := u.Map.Type().Underlying().(*types.Map)
			return ok && r.isRefT(t.Key())
		})
	}
	for _, root := range r.roots(target, "searcher") {
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				if r.pullCall(c) != nil || r.heavyCall(c) != "" || c.Invoke != nil && r.asksGenerated(c.Instr.Common()) {
					return eng.Opaque
				}
				return eng.Default
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				m := mon(s)
				if c.Invoke != nil && r.asksGenerated(c.Instr.Common()) {
					m.put("said", res, 1)
				}
				if res == nil || res.T == nil {
					return nil
				}
				if b, ok := res.T.Underlying().(*types.Basic); !ok || b.Info()&(types.IsBoolean|types.IsString) == 0 {
					return nil
				}
				for _, a := range s.Args(c) {
					a = a.Strip()
					if a.Any(func(x *eng.Val) bool {
						return m.has("said", x) || x.Kind == eng.KField && x.Fld.Name() == autoName
					}) {
						m.rel("about", res, a)
					}
				}
				return nil
			},
			OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
				r.settled(s, cond)
				for cond.Kind == eng.KUn && cond.Op == "!" {
					cond, taken = cond.Args[0], !taken
				}
				if cond.Kind != eng.KBin || !(cond.Op == "==" && taken || cond.Op == "!=" && !taken) {
					return
				}
				m := mon(s)
				for i := 0; i < 2; i++ {
					if isMine(m, cond.Args[i]) && !isMine(m, cond.Args[1-i]) && isTheirs(m, cond.Args[1-i]) {
						m.Flags["equal"] = 1
					}
				}
			},
			OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
				m := mon(s)
				// another reference, another comparison
				if sl, ok := cont.T.Underlying().(*types.Slice); ok && r.isRefT(sl.Elem()) {
					for _, f := range []string{"iterating", "equal", "skipped", "compared"} {
						delete(m.Flags, f)
					}
					return
				}
				mine, theirs := isMine(m, cont), isTheirs(m, cont)
				if !mine && !theirs {
					return
				}
				if m.Flags["iterating"] == 1 && m.Flags["equal"] == 0 {
					m.Flags["skipped"] = 1
				}
				delete(m.Flags, "equal")
				if more {
					m.Flags["iterating"] = 1
					if el != nil && mine {
						m.put("mineEl", el, 1)
					} else if el != nil {
						m.put("theirEl", el, 1)
					}
					return
				}
				delete(m.Flags, "iterating")
				if m.Flags["skipped"] == 0 {
					m.Flags["compared"] = 1
				}
			},
			OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
				if !refTable(mp) || v == nil {
					return
				}
				m := mon(s)
				ref := k.Strip()
				r.Seen("claim of an existing index", at.Instr)
				dot, sizes, call := false, false, false
				// at hand: what a new index would be built with
				atHand := func(a *eng.Val) bool {
					return r.misjudged(s, a) == ""
				}
				made := func(v *eng.Val) (mine, theirs bool) {
					for _, a := range m.Rel2("about", v) {
						mine = mine || of(a, ref, autoName)
						theirs = theirs || atHand(a)
					}
					return
				}
				for f, b := range s.Facts {
					if b.Bool <= 0 {
						continue
					}
					if f.Kind == eng.KBin && f.Op == "==" {
						for i := 0; i < 2; i++ {
							if of(f.Args[i], ref, "ExcludeDotFiles") && other(f.Args[1-i], ref, "ExcludeDotFiles") {
								dot = true
							}
							if l := f.Args[1-i]; of(f.Args[i], ref, autoName) && !of(l, ref, autoName) && (l.Kind != eng.KUn || r.misjudged(s, l.Args[0]) == "") {
								sizes = true
							}
						}
						// what was made of the one is what was made of the other
						a1, b1 := made(f.Args[0])
						a2, b2 := made(f.Args[1])
						call = call || a1 && b2 || a2 && b1
						continue
					}
					// a function which was given both
					mine, theirs := made(f)
					mine = mine || of(f, ref, autoName)
					theirs = theirs || atHand(f)
					call = call || mine && theirs
				}
				if !dot {
					r.Violate("C34.claim", at.Instr, "an index is claimed which may have been built with dot files treated otherwise")
				}
				if !call && !(sizes && m.Flags["compared"] == 1) {
					r.Violate("C34.claim", at.Instr, "an index is claimed although its generated files may not be those at hand")
				}
			},
		})
		r.copies(&x.H)
		r.slice(x, func(i ssa.Instruction) bool {
			if _, v := fieldOf(i); v != nil && (v.Name() == "ExcludeDotFiles" || v.Name() == autoName) {
				return true
			}
			switch i := i.(type) {
			case *ssa.MapUpdate, *ssa.Lookup:
				for _, o := range i.Operands(nil) {
					if mt, ok := (*o).Type().Underlying().(*types.Map); ok && r.isRefT(mt.Key()) {
						return true
					}
				}
				return false
			case ssa.CallInstruction:
				return r.asksGenerated(i.Common())
			}
			return false
		})
		sl := x.OpaqueFn
		build := r.P.Func("index", "Build")
		x.OpaqueFn = func(f *ssa.Function) bool { return f == build || !listTest(f) && sl(f) }
		x.Lim, x.FactLim = 24, 24
		x.Run(root, newM())
		x.RunThreads(func(t *eng.Thread) eng.Monitor { return t.S.Mon.Clone() }, nil)
		r.Absorb(x, FnName(root))
	}
}
