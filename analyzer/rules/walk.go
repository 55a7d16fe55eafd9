package rules

import (
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// The walk over the source tree: what is known about the entry being visited.
//
// Flags per visited entry:
//
//	in    1 inside the callback
//	bad   1 the walk reports an error for the entry
//	dir   1 known directory, -1 known not to be one
//	reg   1 known regular file, -1 known not to be one
//	spec  1 known special name, -1 known not special
//	dot   1 known dot name, -1 known not
//	dopt  1 dot files are excluded, -1 they are not
//	excl  1 listed as excluded with its path and a reason
//	added 1 given to the index writer under its path
//	lost  1 listed as excluded in a wrong way
type walker struct {
	r *Report
	// judge is called when the callback returns r for an entry.
	judge func(s *eng.State, c *eng.Call, res *eng.Val)
	// call sees every call; in tells whether it happens for a walked entry.
	call func(s *eng.State, c *eng.Call, in bool)
	// after sees every opaque result.
	after func(s *eng.State, c *eng.Call, res *eng.Val)
	// branch sees every branch, after the flags have been updated.
	branch func(s *eng.State, cond *eng.Val, taken bool)
	store  func(s *eng.State, a, v *eng.Val, at eng.Site)

	// maps made from all the special names, found by a first run
	spMaps  map[ssa.Value]bool
	partial bool
}

var iterFlags = []string{"bad", "dir", "reg", "spec", "dot", "excl", "added", "lost", "root"}

func pureTerm(v *eng.Val, name string) bool { return v.Kind == eng.KUn && v.Op == "pure:"+name }

func anyPure(v *eng.Val, names ...string) bool {
	return v.Any(func(x *eng.Val) bool {
		for _, n := range names {
			if pureTerm(x, n) {
				return true
			}
		}
		return false
	})
}

func (m *M) one(set string) *eng.Val {
	for _, v := range m.members(set) {
		return v
	}
	return nil
}

func (m *M) clear(set string) { delete(m.Sets, set) }

// isFileName: v is the name of the visited entry, without its directory.
func (m *M) isFileName(v *eng.Val) bool {
	info, path := m.one("info"), m.one("path")
	return v.Any(func(x *eng.Val) bool {
		if pureTerm(x, "(io/fs.FileInfo).Name") || pureTerm(x, "(io/fs.DirEntry).Name") {
			return info != nil && x.Mentions(info)
		}
		if pureTerm(x, "path/filepath.Base") || pureTerm(x, "path.Base") {
			return path != nil && x.Mentions(path)
		}
		return false
	})
}

func (w *walker) spDerived(m *M, v *eng.Val) bool {
	return v.Any(func(x *eng.Val) bool {
		return x.Kind == eng.KField && x.Fld.Name() == "SpecialFiles" || m.has("sp", x) || x.Instr != nil && w.spMaps[x.Instr]
	})
}

func (w *walker) hooks() eng.Hooks {
	r := w.r
	set := func(m *M, f string, b bool) {
		if b {
			m.Flags[f] = 1
		} else if m.Flags[f] != 1 {
			m.Flags[f] = -1
		}
	}
	return eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if walkCallback(c) {
				for _, f := range iterFlags {
					delete(m.Flags, f)
				}
				m.Flags["in"] = 1
				m.clear("reason")
				m.clear("info")
				m.clear("info2")
				m.clear("path")
				m.put("path", c.Args[0], 1)
				m.put("info", c.Args[1], 1)
				if s.Nilness(c.Args[2]) == eng.False {
					m.Flags["bad"] = 1
				}
				if w.call != nil {
					w.call(s, c, false)
				}
				return eng.Default
			}
			if w.call != nil {
				w.call(s, c, m.Flags["in"] == 1)
			}
			if m.Flags["in"] == 1 && r.writerMethod(c) == "Add" {
				p := m.one("path")
				if len(c.Args) > 1 && w.relName(m, c.Args[1]) {
					m.Flags["added"] = 1
				} else {
					_ = p
					m.Flags["lost"] = 1
				}
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if r.writerMethod(c) == "Add" && m.Flags["in"] == 1 {
				m.put("reason", res, 1)
			}
			if m.Flags["in"] == 1 && c.Name == "os.Lstat" && !c.Defer && c.Args[0].Strip() == m.one("path") {
				// a second look at the entry itself
				m.put("info2", r.P.In.Extract(res, 0, c.Instr.(*ssa.Call).Call.Signature().Results().At(0).Type()), 1)
			}
			if !c.Defer {
				der, named := false, 0
				for _, a := range s.Args(c) {
					if w.spDerived(m, a) {
						der = true
					}
					if m.isFileName(a) {
						named = 1
					}
				}
				if der {
					m.put("sp", res, named)
				}
			}
			if w.after != nil {
				w.after(s, c, res)
			}
			return nil
		},
		Returned: func(s *eng.State, c *eng.Call, res []*eng.Val) {
			if !walkCallback(c) || len(res) != 1 {
				return
			}
			m := mon(s)
			if w.judge != nil {
				w.judge(s, c, res[0])
			}
			for _, f := range iterFlags {
				delete(m.Flags, f)
			}
			delete(m.Flags, "in")
			m.clear("info")
			m.clear("info2")
			m.clear("path")
			m.clear("reason")
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			m := mon(s)
			if v != nil && w.spDerived(m, k) {
				m.put("sp", mp, 0)
				delete(m.Flags, "unput")
				mp.Any(func(x *eng.Val) bool {
					if mm, ok := x.Instr.(*ssa.MakeMap); ok && w.spMaps != nil {
						w.spMaps[mm] = true
					}
					return false
				})
			}
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			if !w.spDerived(m, cont) || cont.T == nil {
				return
			}
			if _, counted := cont.T.Underlying().(*types.Basic); counted {
				return // a loop over something else than the whole list
			}
			if m.Flags["in"] == 1 {
				if !more {
					set(m, "spec", false)
				}
				return
			}
			if m.Flags["unput"] == 1 {
				w.partial = true
			}
			delete(m.Flags, "unput")
			if more {
				m.Flags["unput"] = 1
			}
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			m := mon(s)
			if m.Flags["in"] != 1 || len(elems) != 1 {
				return
			}
			for _, e := range r.excludedElems(s, elems[0]) {
				r.Seen("listing of an excluded file", at.Instr)
				if w.relName(m, e[0]) && w.reason(s, m, e[1]) {
					m.put("exapp", res, 1)
					m.put("exbase", base, 1)
				} else {
					m.Flags["lost"] = 1
				}
			}
		},
		OnStore: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			m := mon(s)
			if m.has("exapp", v) {
				cur := s.Read(a, v.T)
				if m.has("exbase", cur) || cur.IsNil() {
					m.Flags["excl"] = 1
					m.put("exlist", a, 1)
				} else {
					m.Flags["lost"] = 1
				}
				m.clear("exapp")
				m.clear("exbase")
			}
			if w.store != nil {
				w.store(s, a, v, at)
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			for cond.Kind == eng.KUn && cond.Op == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if m.Flags["in"] == 1 {
				w.classify(s, m, cond, taken, set)
			}
			if w.branch != nil {
				w.branch(s, cond, taken)
			}
		},
	}
}

// relName: v is the path of the visited entry below the root of the walk.
func (w *walker) relName(m *M, v *eng.Val) bool {
	p := m.one("path")
	if p == nil || !v.Mentions(p) || m.isFileName(v) {
		return false
	}
	return anyPure(v, "path/filepath.Rel", "strings.TrimPrefix") || v.Any(func(x *eng.Val) bool {
		return x.Kind == eng.KUn && strings.HasPrefix(x.Op, "slice[")
	})
}

// reason: v is a reason, that is, not empty.
func (w *walker) reason(s *eng.State, m *M, v *eng.Val) bool {
	if t, ok := v.Str(); ok {
		return t != ""
	}
	if v.Kind == eng.KZero {
		return false
	}
	if m.has("reason", v) {
		return emptyStr(s, v) == eng.False
	}
	return true
}

// emptyStr decides whether the string is empty.
func emptyStr(s *eng.State, v *eng.Val) eng.Tri {
	if t, ok := v.Str(); ok {
		if t == "" {
			return eng.True
		}
		return eng.False
	}
	for k, f := range s.Facts {
		switch {
		case k.Kind == eng.KBin && k.Op == "==" && f.Bool != 0:
			for i := 0; i < 2; i++ {
				if t, ok := k.Args[1-i].Str(); ok && k.Args[i] == v {
					if t == "" {
						return eng.Tri(f.Bool)
					} else if f.Bool > 0 {
						return eng.False
					}
				}
			}
		case k.Kind == eng.KUn && k.Op == "len" && k.Args[0] == v:
			lo, hi := s.Interval(k)
			if hi == 0 {
				return eng.True
			}
			if lo > 0 {
				return eng.False
			}
		}
	}
	return eng.Unknown
}

func isZeroConst(v *eng.Val) bool {
	i, ok := v.IntVal()
	return ok && i == 0
}

func (w *walker) classify(s *eng.State, m *M, cond *eng.Val, taken bool, set func(*M, string, bool)) {
	info := m.one("info")
	if info == nil {
		return
	}
	// type of the entry
	mine := cond.Mentions(info)
	for _, v := range m.members("info2") {
		mine = mine || cond.Mentions(v)
	}
	if mine {
		switch {
		case pureTerm(cond, "(io/fs.FileInfo).IsDir"), pureTerm(cond, "(io/fs.DirEntry).IsDir"), pureTerm(cond, "(io/fs.FileMode).IsDir"):
			set(m, "dir", taken)
			if taken {
				set(m, "reg", false)
			}
		case pureTerm(cond, "(io/fs.FileMode).IsRegular"):
			set(m, "reg", taken)
			if taken {
				set(m, "dir", false)
			}
		case cond.Kind == eng.KBin && cond.Op == "==":
			for i := 0; i < 2; i++ {
				x, y := cond.Args[i], cond.Args[1-i]
				if !isZeroConst(y) || !anyPure(x, "(io/fs.FileInfo).Mode", "(io/fs.DirEntry).Type") {
					continue
				}
				mask := int64(0)
				if x.Kind == eng.KBin && x.Op == "&" {
					for j := 0; j < 2; j++ {
						if k, ok := x.Args[j].IntVal(); ok {
							mask = k
						}
					}
				} else if x.Any(func(z *eng.Val) bool { return pureTerm(z, "(io/fs.FileMode).Type") }) || pureTerm(x, "(io/fs.DirEntry).Type") {
					mask = modeType
				}
				const modeDir = 1 << 31
				if mask&modeType == modeType {
					set(m, "reg", taken)
					if taken {
						set(m, "dir", false)
					}
				} else if mask == modeDir {
					set(m, "dir", !taken)
				}
			}
		}
	}
	// special name
	if w.spDerived(m, cond) {
		named := m.isFileName(cond)
		cond.Any(func(x *eng.Val) bool {
			if m.get("sp", x) == 1 {
				named = true
			}
			return false
		})
		if named {
			switch {
			case cond.Kind == eng.KBin && cond.Op == "<":
				set(m, "spec", !taken)
			case cond.Kind == eng.KBin && cond.Op == "==":
				ic := false
				for _, a := range cond.Args {
					if _, ok := a.IntVal(); ok {
						ic = true
					}
				}
				if ic {
					set(m, "spec", !taken)
				} else if taken {
					set(m, "spec", true)
				}
			default:
				set(m, "spec", taken)
			}
		}
	}
	// dot name
	if cond.Any(func(x *eng.Val) bool { return x.Kind == eng.KField && x.Fld.Name() == "ExcludeDotFiles" }) {
		set(m, "dopt", taken)
	}
	if m.isFileName(cond) {
		if cond.Kind == eng.KBin && cond.Op == "==" {
			for i := 0; i < 2; i++ {
				x, y := cond.Args[i], cond.Args[1-i]
				if k, ok := y.IntVal(); ok && k == '.' && x.Any(func(z *eng.Val) bool { return z.Kind == eng.KUn && strings.HasPrefix(z.Op, "index:") }) {
					set(m, "dot", taken)
				}
				if t, ok := y.Str(); ok && t == "." && x.Kind == eng.KUn && strings.HasPrefix(x.Op, "slice[") {
					set(m, "dot", taken)
				}
			}
		}
		if pureTerm(cond, "strings.HasPrefix") {
			if t, ok := cond.Args[0].Args[1].Str(); ok && t == "." {
				set(m, "dot", taken)
			}
		}
	}
}

// os.ModeType
const modeType = 1<<31 | 1<<27 | 1<<26 | 1<<25 | 1<<24 | 1<<21 | 1<<19

// excludedElems are the (file name, reason) pairs appended.
func (r *Report) excludedElems(s *eng.State, v *eng.Val) [][2]*eng.Val {
	var out [][2]*eng.Val
	st := r.P.Type("index", "ExcludedFile")
	if st == nil {
		return nil
	}
	u, ok := st.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	fi := func(n string) int {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n {
				return i
			}
		}
		return -1
	}
	f, g := fi("Filename"), fi("Reason")
	if f < 0 || g < 0 {
		return nil
	}
	for _, e := range variadic(s, v)[1:] {
		if r.isNamed(e.T, "index", "ExcludedFile") {
			if _, isP := e.T.Underlying().(*types.Pointer); isP {
				out = append(out, [2]*eng.Val{
					s.Read(r.P.In.Field(e, f, u.Field(f)), u.Field(f).Type()),
					s.Read(r.P.In.Field(e, g, u.Field(g)), u.Field(g).Type())})
			} else {
				out = append(out, [2]*eng.Val{s.FieldOf(e, f, u.Field(f)), s.FieldOf(e, g, u.Field(g))})
			}
		}
	}
	if len(out) == 0 {
		// elements built in place
		b := v
		if b.Kind == eng.KUn && strings.HasPrefix(b.Op, "slice") {
			b = b.Args[0]
		}
		for a, c := range s.Mem {
			if a.Kind == eng.KField && a.Fld == u.Field(f) && a.Args[0].Kind == eng.KIndex && a.Args[0].Args[0] == b {
				out = append(out, [2]*eng.Val{c, s.Read(r.P.In.Field(a.Args[0], g, u.Field(g)), u.Field(g).Type())})
			}
		}
	}
	return out
}

// run executes index building with the tracking hooks.
func (w *walker) run() ([]eng.Exit, *eng.Exec) {
	r := w.r
	root := r.buildRoot()
	if root == nil {
		return nil, nil
	}
	w.spMaps = map[ssa.Value]bool{}
	first := &walker{r: r, spMaps: w.spMaps}
	first.exec().Run(root, newM())
	if first.partial {
		w.spMaps = nil
	}
	x := w.exec()
	ex := x.Run(root, newM())
	r.Absorb(x, FnName(root))
	return ex, x
}

func (w *walker) exec() *eng.Exec {
	r := w.r
	x := r.buildExec(w.hooks())
	sl := x.OpaqueFn
	memo := map[*ssa.Function]bool{}
	x.OpaqueFn = func(f *ssa.Function) bool {
		if !sl(f) {
			return false
		}
		if v, ok := memo[f]; ok {
			return v
		}
		op := true
		for g := range r.P.Reach(f) {
			if mentions(g, func(i ssa.Instruction) bool {
				_, v := fieldOf(i)
				return v != nil && (v.Name() == "SpecialFiles" || v.Name() == "ExcludeDotFiles")
			}) {
				op = false
			}
		}
		if r.P.RelPkg(f) == "index" && aboutEntry(f.Signature) {
			op = false
		}
		memo[f] = op
		return op
	}
	return x
}

// aboutEntry: the function may tell something about an entry.
func aboutEntry(s *types.Signature) bool {
	is := func(t types.Type, names ...string) bool {
		for _, n := range names {
			if types.Unalias(t).String() == n {
				return true
			}
		}
		return false
	}
	in, out := false, false
	ps := []*types.Var{}
	if s.Recv() != nil {
		ps = append(ps, s.Recv())
	}
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, s.Params().At(i))
	}
	for _, p := range ps {
		in = in || is(p.Type(), "string", "io/fs.FileInfo", "io/fs.FileMode", "io/fs.DirEntry")
	}
	for i := 0; i < s.Results().Len(); i++ {
		out = out || is(s.Results().At(i).Type(), "bool", "io/fs.FileMode")
	}
	return in && out
}

// isSkip reports that the callback result tells the walk to skip.
func isSkip(v *eng.Val) string {
	if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KGlobal && strings.HasPrefix(v.Args[0].G.Name(), "Skip") {
		return v.Args[0].G.Name()
	}
	return ""
}
