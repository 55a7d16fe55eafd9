package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	const doc = "compositional lockset analysis of every function: which memory, named by access paths from parameters, captured variables, globals and fresh objects, each goroutine and request handler may read and write under which locks; any two accesses of different goroutines (or of one which may run several times) to the same memory, one of them a write, must share a lock"
	assume := []string{"objects made by a goroutine are its own until it hands them to another", "memory is told apart by the field, variable or object it belongs to, and what external packages do with an object inside follows their documentation"}
	r := register("C12", "Requests, updates and start-up do not race", doc, func(r *Report) {
		r.raceRule("C12", func(place string, f *ssa.Function) bool { return !strings.HasPrefix(place, "codesearch/") })
		r.Need("goroutine or handler", 12)
		r.Need("memory shared by goroutines", 20)
		r.Need("shared memory written", 3)
	})
	r.Assume = assume
	r = register("C19", "Searches running at the same time do not share their working state", doc+"; for the predefined queries and the final state of matchers, which all searches share, a path-sensitive execution of every function which changes a query or a state shows it is another one",
		func(r *Report) {
			// what a search works with, whichever package declares it
			var own map[*ssa.Function]bool
			for _, f := range r.P.Funcs {
				if isSearch := f.Name() == "Search" && f.Signature.Recv() != nil && r.isNamed(f.Signature.Recv().Type(), "index", "Index"); isSearch {
					own = r.P.Reach(f)
				}
			}
			r.raceRule("C19", func(place string, f *ssa.Function) bool {
				return strings.HasPrefix(place, "codesearch/") || own[f] && r.P.RelPkg(f) == "index"
			})
			r.Need("goroutine or handler", 12)
			r.Need("matcher memory", 5)
			r.fixedQueries()
			r.Need("change of a query", 4)
			r.fixedStates()
			r.Need("change of a state of a matcher", 1)
		})
	r.Assume = assume
}

func (r *Report) raceRule(id string, mine func(place string, f *ssa.Function) bool) {
	c := r.newRace()
	acc := c.run()
	type fa struct {
		a *raccess
		f *ssa.Function
	}
	groups := map[string][]fa{}
	for _, a := range acc {
		f := a.thr.fn
		r.SeenAt("goroutine or handler", a.thr.name)
		k := c.place(a.p, f)
		if !mine(k, a.site.Parent()) || r.fixedQuery(a.p) || r.fixedState(a.p) {
			continue
		}
		if strings.HasPrefix(k, "codesearch/") {
			r.SeenAt("matcher memory", k)
		}
		groups[k] = append(groups[k], fa{a, f})
	}
	for k, g := range groups {
		r.SeenAt("memory shared by goroutines", k)
		reported := map[ssa.Instruction]bool{}
		for i, x := range g {
			if x.a.write {
				r.SeenAt("shared memory written", k+" at "+r.P.Pos(x.a.site.Pos()))
			}
			for _, y := range g[i:] {
				if !x.a.write && !y.a.write {
					continue
				}
				if x.a.thr == y.a.thr && !(x.a.self && y.a.self) {
					continue
				}
				if x.a.pair != nil && !x.a.pair[y.a.thr] || y.a.pair != nil && !y.a.pair[x.a.thr] {
					continue
				}
				if x.a.thr == y.a.thr && ownElement(x.a.site) && ownElement(y.a.site) {
					continue
				}
				if c.protected(x.a, y.a, x.f, y.f) {
					continue
				}
				w, o := x, y
				if !w.a.write {
					w, o = y, x
				}
				if reported[w.a.site] {
					continue
				}
				reported[w.a.site] = true
				r.Violate(id+".race", w.a.site, "%s may be written by %s while %s uses it in %s without a common lock", k, w.a.thr.name, o.a.thr.name, FnName(o.a.site.Parent()))
			}
		}
	}
}

func (r *Report) isQuery(t types.Type) bool {
	_, ptr := t.Underlying().(*types.Pointer)
	return ptr && r.isNamed(t, "codesearch/index", "Query")
}

// fixedQuery: the memory belongs to a query held by a global variable itself.
func (r *Report) fixedQuery(p rpath) bool {
	return p.kind == 'G' && r.isQuery(p.g.Type().Underlying().(*types.Pointer).Elem()) && len(p.steps) > 0
}

// fixedQueries: the queries which stand for everything and for nothing are
// shared by all searches, so no function may change a query unless its
// operator shows that it is not one of them.
func (r *Report) fixedQueries() {
	for _, m := range r.P.Funcs {
		if m.Name() != "init" || r.P.RelPkg(m) != "codesearch/index" {
			continue
		}
		for _, b := range m.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && r.isQuery(st.Val.Type()) {
						r.fixedOp(g, st)
					}
				}
			}
		}
	}
	stores := func(f *ssa.Function) bool {
		return r.P.RelPkg(f) != "" && mentions(f, func(i ssa.Instruction) bool {
			st, ok := i.(*ssa.Store)
			return ok && r.queryStore(st) != nil
		})
	}
	for _, f := range r.P.Funcs {
		if stores(f) && f.Name() != "init" && f.Parent() == nil {
			r.queryChanges(f, 0, map[*ssa.Function]bool{})
		}
	}
}

// fixedOp: a query held by a global variable stands for all or nothing.
func (r *Report) fixedOp(g *ssa.Global, st *ssa.Store) {
	a, ok := st.Val.(*ssa.Alloc)
	if !ok {
		r.Violate("C19.fixed", st, "%s holds a query made elsewhere", g.Name())
		return
	}
	for _, ref := range *a.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, u := range *fa.Referrers() {
			if s, ok := u.(*ssa.Store); ok {
				if _, fv := fieldOf(fa); fv.Name() == "Op" {
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
						if n, ok := constant.Int64Val(k.Value); ok && n < 2 {
							continue
						}
					}
				}
				r.Violate("C19.fixed", s, "%s is no query for everything or nothing, so that combining it with others may change it", g.Name())
			}
		}
	}
}

// queryStore is the query a store changes, nil if none or a fresh one.
func (r *Report) queryStore(st *ssa.Store) ssa.Value {
	fresh := func(v ssa.Value) bool {
		_, ok := v.(*ssa.Alloc)
		return ok
	}
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok && r.isQuery(fa.X.Type()) && !fresh(fa.X) {
		return fa.X
	}
	if r.isQuery(st.Addr.Type()) && !fresh(st.Addr) {
		return st.Addr
	}
	return nil
}

func (r *Report) queryChanges(root *ssa.Function, depth int, seen map[*ssa.Function]bool) {
	if seen[root] {
		return
	}
	seen[root] = true
	type hit struct {
		at  ssa.Instruction
		msg string
	}
	var hits []hit
	learn := func(s *eng.State, m *M, base, op *eng.Val) {
		lo, hi := s.Interval(op)
		if lo > 0 || hi < 0 {
			m.put("notall", base, 1)
		}
		if lo > 1 || hi < 1 {
			m.put("notnone", base, 1)
		}
	}
	opOf := func(v *eng.Val) *eng.Val {
		if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField && v.Args[0].Fld != nil && v.Args[0].Fld.Name() == "Op" && r.isQuery(v.Args[0].Args[0].T) {
			return v.Args[0].Args[0]
		}
		return nil
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if c.Fn == nil || r.P.RelPkg(c.Fn) != "codesearch/index" {
				return eng.Opaque
			}
			takes := false
			for _, p := range c.Fn.Params {
				takes = takes || r.isQuery(p.Type())
			}
			if !takes || c.Fn == root || depth == 0 && r.P.Reach(c.Fn)[root] {
				return eng.Opaque
			}
			return eng.Default
		},
		OnLoad: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			if b := opOf(v); b != nil {
				mon(s).rel("op", b, v)
				learn(s, mon(s), b, v)
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			for p := range m.Rel["op"] {
				learn(s, m, p[0], p[1])
			}
			for cond.Kind == eng.KUn && cond.Op == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Kind != eng.KBin || cond.Op != "==" || taken {
				return
			}
			for i, a := range cond.Args {
				b := opOf(a)
				if b == nil {
					continue
				}
				lo, hi := s.Interval(cond.Args[1-i])
				if lo == 0 && hi == 0 {
					m.put("notall", b, 1)
				}
				if lo == 1 && hi == 1 {
					m.put("notnone", b, 1)
				}
			}
		},
		OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			st, ok := at.Instr.(*ssa.Store)
			if !ok || r.queryStore(st) == nil {
				return
			}
			m := mon(s)
			base := addr
			if addr.Kind == eng.KField {
				base = addr.Args[0]
			}
			r.Seen("change of a query", st)
			if base.Kind == eng.KAlloc || m.has("notall", base) && m.has("notnone", base) {
				return
			}
			hits = append(hits, hit{st, "a query which may be the one for everything or for nothing, which all searches share, is changed"})
		},
	})
	x.Run(root, newM())
	r.Absorb(x, FnName(root))
	if len(hits) == 0 {
		return
	}
	// a part of a function which its callers call once they know
	callers := r.P.CallersOf()[root]
	if depth < 2 && len(callers) > 0 && !exportedFn(root) {
		ok := true
		for _, g := range callers {
			takes := false
			for _, p := range g.Params {
				takes = takes || r.isQuery(p.Type())
			}
			ok = ok && takes && g.Parent() == nil
		}
		if ok {
			for _, g := range callers {
				r.queryChanges(g, depth+1, seen)
			}
			return
		}
	}
	for _, h := range hits {
		r.Violate("C19.fixed", h.at, "%s", h.msg)
	}
}

func exportedFn(f *ssa.Function) bool { return f.Object() != nil && f.Object().Exported() }

func (r *Report) isState(t types.Type) bool {
	return r.isNamed(t, "codesearch/regexp", "dstate")
}

// fixedState: the memory belongs to a state of matchers held by a global
// variable itself.
func (r *Report) fixedState(p rpath) bool {
	if p.kind != 'G' || len(p.steps) == 0 {
		return false
	}
	t := p.g.Type().Underlying().(*types.Pointer).Elem()
	_, ptr := t.Underlying().(*types.Pointer)
	return !ptr && r.isState(t)
}

// nextStore is the store to an entry of the table of a state.
func (r *Report) nextStore(st *ssa.Store) bool {
	ix, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	fa, ok := ix.X.(*ssa.FieldAddr)
	if !ok || !r.isState(fa.X.Type()) {
		return false
	}
	_, fv := fieldOf(fa)
	return fv.Name() == "next"
}

// stateGlobal is the global variable a value points to, or is copied to.
func stateGlobal(v ssa.Value) *ssa.Global {
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.Alloc:
		if !isInit(v.Parent()) {
			return nil
		}
		for _, ref := range *v.Referrers() {
			if l, ok := ref.(*ssa.UnOp); ok {
				for _, u := range *l.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Val == ssa.Value(l) {
						if g, ok := st.Addr.(*ssa.Global); ok {
							return g
						}
					}
				}
			}
		}
	}
	return nil
}

func isInit(f *ssa.Function) bool {
	return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// fixedStates: the final state is complete but for the end of a line, which
// ends the search in it, so that matchers do not add to it.
func (r *Report) fixedStates() {
	roots := map[*ssa.Function]bool{}
	globals := map[*ssa.Global]bool{}
	newline := map[*ssa.Global]bool{}
	var inits []*ssa.Function
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "codesearch/regexp" {
			continue
		}
		if isInit(f) {
			inits = append(inits, f)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if r.nextStore(st) && !isInit(f) {
					roots[f] = true
				}
				if g, ok := st.Addr.(*ssa.Global); ok && r.isState(g.Type()) && !isInit(f) {
					r.Violate("C19.fixed", st, "the state %s, which all searches share, is changed", g.Name())
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				g := stateGlobal(fa.X)
				if g == nil || !r.isState(g.Type()) {
					continue
				}
				globals[g] = true
				if !isInit(f) {
					r.Violate("C19.fixed", st, "the state %s, which all searches share, is changed", g.Name())
				}
				if _, fv := fieldOf(fa); fv.Name() == "matchNL" {
					k, ok := st.Val.(*ssa.Const)
					newline[g] = ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value)
				}
			}
		}
	}
	for g := range globals {
		if !newline[g] {
			r.ViolateFn("C19.fixed", g.Name(), g.Pos(), "the state %s, which all searches share, does not end a search at the end of a line", g.Name())
		}
		filled := false
		for _, f := range inits {
			filled = r.fillsState(f, g) || filled
		}
		if !filled {
			r.ViolateFn("C19.fixed", g.Name(), g.Pos(), "the state %s, which all searches share, is not complete from the start", g.Name())
		}
	}
	if len(globals) == 0 {
		return
	}
	for f := range roots {
		if f.Parent() == nil {
			r.stateChanges(f, 0, map[*ssa.Function]bool{})
		}
	}
}

func isNewline(s *eng.State, v *eng.Val) bool {
	lo, hi := s.Interval(v)
	return lo == 10 && hi == 10
}

// fillsState: the table of the state gets an entry for everything but the end
// of a line.
func (r *Report) fillsState(f *ssa.Function, g *ssa.Global) bool {
	whole, bad := false, false
	next := func(a *eng.Val) bool {
		return a.Kind == eng.KField && a.Fld != nil && a.Fld.Name() == "next" && a.Args[0].Kind == eng.KGlobal && a.Args[0].T == g.Type()
	}
	check := func(m *M) {
		if m.Flags["in"] == 1 && m.Flags["stored"] == 0 && m.Flags["eol"] == 0 {
			bad = true
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if c.Fn != nil && r.P.RelPkg(c.Fn) == "codesearch/regexp" && len(c.Fn.Params) == 0 {
				return eng.Inline
			}
			return eng.Opaque
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, key, el *eng.Val, at eng.Site) {
			m := mon(s)
			lo, hi := s.Interval(cont)
			if !(lo == 256 && hi == 256) {
				return
			}
			check(m)
			m.Flags["in"], m.Flags["stored"], m.Flags["eol"] = 0, 0, 0
			m.clear("key")
			if more {
				m.Flags["in"] = 1
				m.put("key", key, 1)
				return
			}
			whole = true
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			for _, k := range m.members("key") {
				if isNewline(s, k) {
					m.Flags["eol"] = 1
				}
			}
		},
		OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			m := mon(s)
			if addr.Kind == eng.KIndex && next(addr.Args[0]) && m.has("key", addr.Args[1]) {
				m.Flags["stored"] = 1
			}
		},
	})
	x.Run(f, newM())
	r.Absorb(x, FnName(f))
	return whole && !bad
}

func (r *Report) stateChanges(root *ssa.Function, depth int, seen map[*ssa.Function]bool) {
	if seen[root] {
		return
	}
	seen[root] = true
	plain := func(v *eng.Val) *eng.Val {
		for v.Kind == eng.KUn && v.Op == "conv" {
			v = v.Args[0]
		}
		return v
	}
	var hits []ssa.Instruction
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if c.Fn == nil || c.Fn == root || r.P.RelPkg(c.Fn) != "codesearch/regexp" {
				return eng.Opaque
			}
			takes := false
			for _, p := range c.Fn.Params {
				takes = takes || r.isState(p.Type())
			}
			if !takes || !mentions(c.Fn, func(i ssa.Instruction) bool {
				st, ok := i.(*ssa.Store)
				return ok && r.nextStore(st)
			}) {
				return eng.Opaque
			}
			return eng.Inline
		},
		OnLoad: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			m := mon(s)
			switch {
			case addr.Kind == eng.KIndex && addr.Args[0].Kind == eng.KField && r.isState(addr.Args[0].Args[0].T):
				m.unrel("cell", func(a, b *eng.Val) bool { return true })
				m.rel("cell", addr, v)
			case addr.Kind == eng.KField && addr.Fld != nil && addr.Fld.Name() == "matchNL" && r.isState(addr.Args[0].T):
				m.unrel("nl", func(a, b *eng.Val) bool { return true })
				m.rel("nl", addr.Args[0], v)
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			for cond.Kind == eng.KUn && cond.Op == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Kind == eng.KBin && cond.Op == "==" && !taken {
				m := mon(s)
				for i, a := range cond.Args {
					if isNewline(s, cond.Args[1-i]) {
						m.clear("noteol")
						m.put("noteol", plain(a), 1)
					}
				}
			}
		},
		OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			st, ok := at.Instr.(*ssa.Store)
			if !ok || !r.nextStore(st) {
				return
			}
			r.Seen("change of a state of a matcher", st)
			m := mon(s)
			isNil, other := false, false
			for p := range m.Rel["cell"] {
				isNil = isNil || p[0] == addr && s.Nilness(p[1]) == eng.True
			}
			other = m.has("noteol", plain(addr.Args[1]))
			for p := range m.Rel["nl"] {
				other = other || p[0] == addr.Args[0].Args[0] && s.Decide(p[1]) == eng.False
			}
			if !isNil || !other {
				hits = append(hits, st)
			}
		},
	})
	x.Run(root, newM())
	r.Absorb(x, FnName(root))
	if len(hits) == 0 {
		return
	}
	callers := r.P.CallersOf()[root]
	if depth < 2 && len(callers) > 0 && !exportedFn(root) {
		ok := true
		for _, g := range callers {
			ok = ok && g.Parent() == nil && r.P.RelPkg(g) == "codesearch/regexp"
		}
		if ok {
			for _, g := range callers {
				r.stateChanges(g, depth+1, seen)
			}
			return
		}
	}
	for _, h := range hits {
		r.Violate("C19.fixed", h, "a state which may be the one all searches share is changed")
	}
}
