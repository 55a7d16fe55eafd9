package rules

import (
	"go/types"
	"sort"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// guard is a field holding an index object that requests read while it may be
// replaced or closed.
type guard struct {
	rel, typ string     // struct type
	fld      *types.Var // the field
	own      types.Type
	pkgs     []string // packages whose functions may touch it
}

// guardedFields finds the fields of struct types in package rel whose type is
// a pointer to (or the) named type want.
func (r *Report) guardedFields(rel string, want *types.Named) []guard {
	q := r.P.Pkg(rel)
	if q == nil || want == nil {
		return nil
	}
	var out []guard
	sc := q.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			t := f.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if types.Identical(t, want) {
				g := guard{rel, tn.Name(), f, tn.Type(), []string{rel}}
				if f.Exported() {
					g.pkgs = nil
				}
				out = append(out, g)
			}
		}
	}
	return out
}

// access is one use of guarded data with the locks held at that point.
type access struct {
	at    ssa.Instruction
	write bool
	what  string
	held  map[string]int // lock name relative to the object -> mode
}

// isFileOpen matches calls which read or write a file by path; the index of
// the path argument is returned.
func fileOp(name string) (arg int, remove bool, ok bool) {
	switch name {
	case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile", "os.Stat", "os.Lstat", "os.ReadDir", "io/ioutil.ReadDir":
		return 0, false, true
	case "os.Remove", "os.RemoveAll", "os.Rename":
		return 0, true, true
	}
	return 0, false, false
}

func pathFn(name string) bool {
	switch name {
	case "path/filepath.Join", "path.Join", "fmt.Sprintf", "path/filepath.Clean", "path/filepath.Abs", "path/filepath.FromSlash", "path/filepath.ToSlash", "strings.Join":
		return true
	}
	return false
}

func init() {
	r := register("C01", "A request reads one live index from start to end",
		"lockset and escape typestate: every load or store of a field holding an index (the searcher's live index; the index's open trigram file), every use of what was loaded, and every file opened below the directory of an index happen while one common lock of the owning object is held (exclusively for replacing, closing and removing) without having been released since the load; a value taken out of its field under the exclusive lock is owned from then on",
		func(r *Report) {
			n1 := r.guardedFields("searcher", r.P.Type("index", "Index"))
			n2 := r.guardedFields("index", r.P.Type("codesearch/index", "Index"))
			if len(n1) == 0 || len(n2) == 0 {
				r.Undecided("no field holding an index was found")
				return
			}
			for _, g := range append(n1, n2...) {
				r.guardRule(g)
			}
			r.Need("load of a guarded index", 4)
			r.Need("replacement of a guarded index", 1)
			r.Need("use of a guarded index", 4)
			r.Need("file below an index directory", 2)
		})
	r.Assume = []string{
		"file system operations on paths which do not derive from an index object do not touch index directories",
		"the object a method is called on is not shared before its constructor returns or starts a goroutine",
	}
}

func (r *Report) guardRule(g guard) {
	var acc []access
	inner := g.rel == "index"
	isField := func(a *eng.Val) bool { return a.Kind == eng.KField && a.Fld == g.fld }
	event := func(i ssa.Instruction) bool {
		if _, f := fieldOf(i); f == g.fld {
			return true
		}
		if ci, ok := i.(ssa.CallInstruction); ok && inner {
			if _, _, ok := fileOp(eng.CalleeName(ci.Common())); ok {
				return true
			}
		}
		return isLockInstr(i)
	}
	touches := func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool { _, v := fieldOf(i); return v == g.fld })
	}
	// objects of the guarding type reached from a path value
	ownerOf := func(v *eng.Val) *eng.Val {
		var o *eng.Val
		v.Any(func(x *eng.Val) bool {
			if x.Kind == eng.KField && r.isNamed(x.Args[0].T, g.rel, g.typ) {
				o = x.Args[0]
				return true
			}
			return false
		})
		return o
	}
	lockSet := func(m *M, base *eng.Val, only func(l *eng.Val) bool) map[string]int {
		h := map[string]int{}
		for l, mode := range m.Sets["lock"] {
			if only != nil && !only(l) {
				continue
			}
			b, n := lockBase(l)
			if b == base || b == nil && strings.HasPrefix(n, "global ") {
				h[n] = mode
			}
		}
		return h
	}
	// prot values: m.Rel["under"] (val, lock) ; m.Sets["prot"][val] ; Rel["of"](val, base)
	baseOf := func(m *M, v *eng.Val) *eng.Val {
		for k := range m.Rel["of"] {
			if k[0] == v {
				return k[1]
			}
		}
		return nil
	}
	protIn := func(m *M, v *eng.Val) []*eng.Val {
		var out []*eng.Val
		for _, p := range m.members("prot") {
			if v.Mentions(p) {
				out = append(out, p)
			}
		}
		return out
	}
	use := func(s *eng.State, v *eng.Val, at ssa.Instruction, write bool, what string) bool {
		m := mon(s)
		hit := false
		for _, p := range protIn(m, v) {
			hit = true
			if m.has("owned", p) {
				continue
			}
			base := baseOf(m, p)
			h := lockSet(m, base, func(l *eng.Val) bool { return m.Rel["under"][[2]*eng.Val{p, l}] })
			acc = append(acc, access{at, write, what, h})
			r.Seen("use of a guarded index", at)
		}
		return hit
	}
	fresh := func(m *M, base *eng.Val, at *eng.Ctx) bool {
		return base.Kind == eng.KAlloc && base.Ctx != nil && threadRoot(base.Ctx) == threadRoot(at) && !m.has("esc", base)
	}
	h := eng.Hooks{
		OnLoad: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			if !isField(a) {
				return
			}
			m := mon(s)
			base := a.Args[0]
			if fresh(m, base, at.Ctx) {
				return
			}
			r.Seen("load of a guarded index", at.Instr)
			acc = append(acc, access{at.Instr, false, "load of " + g.typ + "." + g.fld.Name(), lockSet(m, base, nil)})
			if m.has("dead", base) {
				r.Violate("C01.split", at.Instr, "the live index is read again after the lock under which it was first read was released: one request may see two indexes")
			}
			m.put("prot", v, 1)
			m.rel("of", v, base)
			for l := range m.Sets["lock"] {
				m.rel("under", v, l)
			}
		},
		OnStore: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			m := mon(s)
			if isField(a) {
				base := a.Args[0]
				if fresh(m, base, at.Ctx) {
					return
				}
				r.Seen("replacement of a guarded index", at.Instr)
				acc = append(acc, access{at.Instr, true, "store to " + g.typ + "." + g.fld.Name(), lockSet(m, base, nil)})
				for _, p := range m.members("prot") {
					if baseOf(m, p) == base {
						h := lockSet(m, base, func(l *eng.Val) bool { return m.Rel["under"][[2]*eng.Val{p, l}] })
						for _, mode := range h {
							if mode == 2 {
								m.put("owned", p, 1)
							}
						}
					}
				}
				return
			}
			if m.has("prot", v) && !m.has("owned", v) && a.Root().Kind != eng.KAlloc {
				r.Violate("C01.escape", at.Instr, "the live index is stored where it can be used after its lock is released")
			}
		},
		OnDeref: func(s *eng.State, v *eng.Val, at eng.Site) {
			if v.Kind == eng.KField && isField(v) {
				return
			}
			b := v
			if b.Kind == eng.KField {
				b = b.Args[0]
			}
			if mon(s).has("prot", b) {
				use(s, b, at.Instr, false, "use of the "+g.typ+"'s index")
			}
		},
		OnGo: func(s *eng.State, c *eng.Call) {
			m := mon(s)
			for o := range reachAllocs(s, append(append([]*eng.Val(nil), c.Args...), c.Binds...)) {
				m.put("esc", o, 1)
			}
			for _, a := range append(append([]*eng.Val(nil), c.Args...), c.Binds...) {
				v := a
				if a.Kind == eng.KAlloc {
					if w, ok := s.Mem[a]; ok {
						v = w
					}
				}
				if m.has("prot", v) && !m.has("owned", v) {
					r.Violate("C01.escape", c.Instr, "the live index is handed to a goroutine which does not hold its lock")
				}
			}
		},
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if k, a := lockOp(c); k != lkNone {
				if k == lkUnlock || k == lkRUnlock {
					b, _ := lockBase(a)
					for p := range m.Rel["under"] {
						if p[1] == a {
							if base := baseOf(m, p[0]); b != nil && base == b && !m.has("owned", p[0]) && m.Flags["thread"] == 0 && c.Ctx.Parent == nil {
								m.put("dead", b, 1)
							}
						}
					}
					m.unrel("under", func(_, l *eng.Val) bool { return l == a })
				}
				trackLocks(m, c)
				return eng.Opaque
			}
			args := callArgs(s, c)
			if i, rm, ok := fileOp(c.Name); ok && i < len(c.Args) {
				p := c.Args[i]
				var srcs []*eng.Val
				srcs = append(srcs, p)
				for k := range m.Rel["derived"] {
					if k[0] == p {
						srcs = append(srcs, k[1])
					}
				}
				for _, src := range srcs {
					if use(s, src, c.Instr, rm, "file below the index directory") {
						r.Seen("file below an index directory", c.Instr)
						break
					}
					if inner {
						if o := ownerOf(src); o != nil && !fresh(m, o, c.Ctx) && !m.has("retired", o) {
							r.Seen("file below an index directory", c.Instr)
							acc = append(acc, access{c.Instr, rm, "file below the index directory", lockSet(m, o, nil)})
							break
						}
					}
				}
				return eng.Default
			}
			closing := c.Fn != nil && (c.Fn.Name() == "Close" || c.Fn.Name() == "Destroy" || c.Fn.Name() == "Remove")
			if r.moduleCall(c) {
				for i, a := range args {
					if m.has("prot", a) {
						// inlined calls are judged by what they do, but closing
						// an index always needs exclusive access
						if i == 0 && closing {
							if b := baseOf(m, a); b != nil {
								for l, mode := range m.Sets["lock"] {
									if lb, _ := lockBase(l); mode == 2 && lb == b && m.Rel["under"][[2]*eng.Val{a, l}] {
										m.put("retired", b, 1)
									}
								}
							}
						}
						if (i == 0 && closing) || !inner {
							use(s, a, c.Instr, closing && i == 0, "call of "+calleeShort(c))
						} else {
							use(s, a, c.Instr, false, "call of "+calleeShort(c))
						}
					}
				}
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			if !pathFn(c.Name) {
				return nil
			}
			m := mon(s)
			for _, a := range callArgs(s, c) {
				if len(protIn(m, a)) > 0 || inner && ownerOf(a) != nil {
					m.rel("derived", res, a)
				}
				for k := range m.Rel["derived"] {
					if k[0] == a && a != res {
						m.rel("derived", res, k[1])
					}
				}
			}
			return nil
		},
	}
	for _, root := range r.roots(touches, g.pkgs...) {
		x := eng.NewExec(r.P, h)
		r.slice(x, event)
		x.Lim, x.FactLim = 12, 8
		sl := x.OpaqueFn
		if inner {
			x.OpaqueFn = func(f *ssa.Function) bool {
				return strings.HasPrefix(r.P.RelPkg(f), "codesearch") || sl(f)
			}
		} else {
			x.OpaqueFn = func(f *ssa.Function) bool {
				if p := r.P.RelPkg(f); p == "vcs" || p == "index" || strings.HasPrefix(p, "codesearch") {
					n := 0
					for _, b := range f.Blocks {
						n += len(b.Instrs)
					}
					return n > 12 || mentions(f, isLockInstr)
				}
				return sl(f)
			}
		}
		r.SeenAt("entry point", FnName(root))
		exits := x.Run(root, newM())
		for _, e := range exits {
			if e.Kind == eng.ExHalt {
				continue
			}
			m := mon(e.S)
			for _, v := range e.Results {
				w := v.Strip()
				if m.has("prot", w) && !m.has("owned", w) {
					r.ViolateFn("C01.escape", FnName(root), root.Pos(), "the live index is returned to the caller, who does not hold its lock")
				}
			}
		}
		x.RunThreads(func(*eng.Thread) eng.Monitor {
			m := newM()
			m.Flags["thread"] = 1
			return m
		}, nil)
		r.Absorb(x, FnName(root))
	}
	// the lock that protects the field is the one held at most sites
	count := map[string]int{}
	sites := map[string]map[ssa.Instruction]bool{}
	for _, a := range acc {
		for n := range a.held {
			if sites[n] == nil {
				sites[n] = map[ssa.Instruction]bool{}
			}
			sites[n][a.at] = true
			count[n] = len(sites[n])
		}
	}
	var names []string
	for n := range count {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		return count[names[i]] > count[names[j]] || count[names[i]] == count[names[j]] && names[i] < names[j]
	})
	if len(names) == 0 {
		r.ViolateFn("C01.lock", g.rel+"."+g.typ, g.fld.Pos(), "no lock protects %s.%s", g.typ, g.fld.Name())
		return
	}
	lock := names[0]
	for _, a := range acc {
		mode := a.held[lock]
		if mode == 0 {
			r.Violate("C01.lock", a.at, "%s without holding the lock %s%s taken before the index was read", a.what, g.typ, lock)
		} else if a.write && mode < 2 {
			r.Violate("C01.exclusive", a.at, "%s while holding the lock %s%s only for reading", a.what, g.typ, lock)
		}
	}
}

// moduleCall: the callee is code of the analysed module.
func (r *Report) moduleCall(c *eng.Call) bool {
	return c.Fn != nil && c.Fn.Synthetic == "" && r.P.InModule(c.Fn)
}

func calleeShort(c *eng.Call) string {
	if c.Fn != nil {
		return FnName(c.Fn)
	}
	return c.Name
}

// threadRoot is the outermost context of the goroutine c belongs to.
func threadRoot(c *eng.Ctx) *eng.Ctx {
	for c.Parent != nil {
		if _, ok := c.Site.(*ssa.Go); ok {
			return c
		}
		if ci, ok := c.Site.(ssa.CallInstruction); ok && eng.IsAsync(eng.CalleeName(ci.Common())) {
			return c
		}
		c = c.Parent
	}
	return c
}

// reachAllocs lists the cells reachable from the given values.
func reachAllocs(s *eng.State, vs []*eng.Val) map[*eng.Val]bool {
	out := map[*eng.Val]bool{}
	var add func(v *eng.Val)
	add = func(v *eng.Val) {
		v.Any(func(x *eng.Val) bool {
			if x.Kind == eng.KAlloc && !out[x] {
				out[x] = true
				for a, c := range s.Mem {
					if a.Root() == x {
						add(c)
					}
				}
			}
			return false
		})
	}
	for _, v := range vs {
		add(v)
	}
	return out
}

func (g guard) owner() types.Type { return g.own }

func fieldIdx(f *types.Var, t types.Type) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return i
		}
	}
	return -1
}
