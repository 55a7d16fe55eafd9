package rules

import (
	"go/types"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// idxMethod names the operation a call performs on an index object.
func (r *Report) idxMethod(c *eng.Call) (string, *eng.Val) {
	if c.Fn == nil || len(c.Args) == 0 {
		return "", nil
	}
	switch c.Fn {
	case r.P.Method("index", "Index", "Destroy"):
		return "destroy", c.Args[0]
	case r.P.Method("index", "Index", "Close"):
		return "close", c.Args[0]
	case r.P.Method("index", "IndexRef", "Remove"):
		return "remove", c.Args[0]
	}
	return "", nil
}

// errOf is the error companion of an opaque call result.
func errOf(s *eng.State, v *eng.Val) *eng.Val {
	v = v.Strip()
	if v.Kind != eng.KExtract {
		return nil
	}
	return s.Companion(v)
}

func init() {
	r := register("C02", "Reindexing swaps in the new index and retires exactly the old one",
		"typestate of the searcher's index from every entry point through the update goroutine: only a successfully opened index is stored; the index it replaces, and no other, is closed and removed on every path, never while it is still the live one; an opened index is stored or destroyed on every path; destroying an index closes it and removes its own directory",
		func(r *Report) {
			gs := r.guardedFields("searcher", r.P.Type("index", "Index"))
			if len(gs) == 0 {
				r.Undecided("no field holding the live index was found")
				return
			}
			for _, g := range gs {
				r.swapRule(g)
			}
			r.destroyRule()
			r.Need("replacement of the live index", 1)
			r.Need("destruction of an index", 1)
			r.Need("opened index", 1)
			r.Need("end of Destroy", 1)
		})
	r.Assume = []string{"os.RemoveAll and munmap do what they are documented to do"}
}

const (
	closedBit  = 1
	removedBit = 2
)

func (r *Report) swapRule(g guard) {
	isField := func(a *eng.Val) bool { return a.Kind == eng.KField && a.Fld == g.fld }
	opened := func(c *eng.Call) bool {
		if c.Fn == nil || !r.P.InModule(c.Fn) || r.P.RelPkg(c.Fn) != "index" {
			return false
		}
		res := c.Fn.Signature.Results()
		return res.Len() == 2 && r.isNamed(res.At(0).Type(), "index", "Index")
	}
	event := func(i ssa.Instruction) bool {
		if _, f := fieldOf(i); f == g.fld {
			return true
		}
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		if f == nil {
			return false
		}
		c := &eng.Call{Fn: f, Args: []*eng.Val{r.P.In.Nil()}}
		k, _ := r.idxMethod(c)
		return k != "" || opened(c)
	}
	target := func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool { _, v := fieldOf(i); return v == g.fld })
	}
	// content of the field for objects in the property state
	live := func(s *eng.State, v *eng.Val) bool {
		m := mon(s)
		for k := range m.Rel["of"] {
			if k[0] == v && s.Read(r.P.In.Field(k[1], fieldIndex(g), g.fld), g.fld.Type()) == v {
				return true
			}
		}
		return false
	}
	checkDead := func(s *eng.State, at ssa.Instruction, where string) {
		m := mon(s)
		for _, v := range m.members("dead") {
			if live(s, v) {
				r.Violate("C02.live", at, "an index is destroyed while it is still the live index%s", where)
			}
			m.del("dead", v)
		}
	}
	// the index object a value passed to an operation belongs to
	target1 := func(s *eng.State, v *eng.Val) *eng.Val {
		m := mon(s)
		for _, set := range []string{"old", "live", "new", "dead", "gone"} {
			for _, p := range m.members(set) {
				if v == p || v.Mentions(p) {
					return p
				}
			}
		}
		return nil
	}
	op := func(s *eng.State, kind string, v *eng.Val, at ssa.Instruction) {
		m := mon(s)
		p := target1(s, v)
		if p == nil {
			// not an index this execution took from a searcher or opened
			if kind == "destroy" || kind == "close" {
				r.Violate("C02.other", at, "an index is destroyed which is neither replaced nor newly opened here")
			}
			return
		}
		r.Seen("destruction of an index", at)
		bits := closedBit | removedBit
		if kind == "close" {
			bits = closedBit
		}
		if kind == "remove" {
			bits = removedBit
		}
		switch {
		case m.has("old", p):
			n := m.get("old", p) | bits
			if n == closedBit|removedBit {
				m.del("old", p)
				m.put("gone", p, 1)
			} else {
				m.put("old", p, n)
			}
		case m.has("new", p) && !m.has("live", p):
			m.del("new", p)
			m.put("gone", p, 1)
		case m.has("live", p):
			m.put("dead", p, 1)
		}
	}
	// a new index handed to a goroutine must be live when the update is over
	left := func(m *M, report func(string)) {
		for _, p := range m.members("away") {
			m.del("away", p)
			report("a newly opened index is left to a goroutine nobody waits for: an update may be over before it is live")
		}
	}
	h := eng.Hooks{
		OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if m := mon(s); blocking && m.has("awaych", ch) {
				m.clear("away")
				m.clear("awaych")
			}
		},
		OnLoad: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			if isField(a) {
				m := mon(s)
				if !m.has("old", v) && !m.has("gone", v) && !m.has("dead", v) {
					m.put("live", v, 1)
					m.rel("of", v, a.Args[0])
				}
			}
		},
		OnStore: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			if !isField(a) {
				return
			}
			m := mon(s)
			base := a.Args[0]
			prev := s.Read(a, g.fld.Type())
			r.Seen("replacement of the live index", at.Instr)
			if prev == v {
				return
			}
			if m.has("gone", v) || m.has("dead", v) {
				r.Violate("C02.stored", at.Instr, "a destroyed index is made live")
			}
			// what is stored must be known to be a good index
			good := s.Nilness(v) == eng.False
			if e := errOf(s, v); e != nil && s.Nilness(e) == eng.True {
				good = true
			}
			if !good {
				r.Violate("C02.stored", at.Instr, "the live index is replaced by a value that is not known to be a successfully opened index")
			}
			m.del("new", v)
			if !prev.IsNil() && prev.Kind != eng.KZero {
				if m.has("dead", prev) {
					// destroyed just before it was replaced
					m.del("dead", prev)
					m.put("gone", prev, 1)
				} else {
					m.put("old", prev, 0)
				}
				m.del("live", prev)
			}
			m.put("live", v, 1)
			m.rel("of", v, base)
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			for _, p := range m.members("old") {
				if s.Nilness(p) == eng.True {
					m.del("old", p)
				}
			}
			for _, p := range m.members("new") {
				if e := s.Companion(p); e != nil && s.Nilness(e) == eng.False {
					m.del("new", p)
				}
			}
		},
		OnGo: func(s *eng.State, c *eng.Call) {
			m := mon(s)
			delete(m.Sets, "handed")
			if k, v := r.idxMethod(c); k != "" {
				op(s, k, v, c.Instr)
				return
			}
			var vals []*eng.Val
			for _, a := range append(append([]*eng.Val(nil), c.Args...), c.Binds...) {
				vals = append(vals, a)
				if w, ok := s.Mem[a]; ok {
					vals = append(vals, w)
				}
			}
			for _, p := range m.members("old") {
				for _, v := range vals {
					if v == p {
						m.put("handed", p, m.get("old", p))
						m.del("old", p)
						break
					}
				}
			}
			for _, p := range m.members("new") {
				for _, v := range vals {
					if v == p {
						m.del("new", p)
						m.put("away", p, 1)
						for _, c := range vals {
							if c.T == nil {
								continue
							}
							if _, ok := c.T.Underlying().(*types.Chan); ok {
								m.put("awaych", c, 1)
							}
						}
					}
				}
			}
		},
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			delete(m.Sets, "handed")
			if k, v := r.idxMethod(c); k != "" {
				op(s, k, v, c.Instr)
				return eng.Opaque
			}
			if c.Name == "(*sync.WaitGroup).Wait" {
				m.clear("away")
			}
			if c.Name == "os.RemoveAll" && len(c.Args) == 1 {
				if p := target1(s, c.Args[0]); p != nil {
					op(s, "remove", p, c.Instr)
				}
			}
			if k, _ := lockOp(c); k == lkUnlock {
				checkDead(s, c.Instr, " and searchable")
			}
			// between the updates nothing may be left over
			if opened(c) && c.Fn.Pkg != nil {
				left(m, func(p string) { r.Violate("C02.async", c.Instr, "%s", p) })
				for _, p := range m.members("old") {
					r.Violate("C02.retire", c.Instr, "another index is opened before the replaced one was destroyed")
					m.del("old", p)
				}
				return eng.Opaque
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if opened(c) {
				r.Seen("opened index", c.Instr)
				v := r.P.In.Extract(res, 0, c.Fn.Signature.Results().At(0).Type())
				m.put("new", v, 1)
			}
			if k, v := r.idxMethod(c); k == "close" && res != nil {
				if p := target1(s, v); p != nil {
					m.rel("closeerr", p, res)
				}
			}
			return nil
		},
	}
	end := func(fn *ssa.Function, exits []eng.Exit) {
		for _, e := range exits {
			if e.Kind != eng.ExRet {
				continue
			}
			m := mon(e.S)
			left(m, func(p string) { r.ViolateFn("C02.async", FnName(fn), fn.Pos(), "%s", p) })
			at := fn.Blocks[0].Instrs[0]
			checkDead(e.S, at, "")
		old:
			for _, p := range m.members("old") {
				for k := range m.Rel["closeerr"] {
					if k[0] == p && e.S.Nilness(k[1]) == eng.False {
						continue old
					}
				}
				r.ViolateFn("C02.retire", FnName(fn), fn.Pos(), "the replaced index is not closed and removed on every path (%s)", []string{"neither closed nor removed", "not removed", "not closed"}[m.get("old", p)])
			}
			for _, p := range m.members("new") {
				if err := e.S.Companion(p); err == nil || e.S.Nilness(err) != eng.True {
					continue
				}
				ret := false
				for _, v := range e.Results {
					if v.Strip() == p {
						ret = true
					}
				}
				if !ret {
					r.ViolateFn("C02.lost", FnName(fn), fn.Pos(), "an opened index is neither made live nor destroyed on some path")
				}
			}
		}
	}
	for _, root := range r.roots(target, g.pkgs...) {
		x := eng.NewExec(r.P, h)
		r.slice(x, event)
		sl := x.OpaqueFn
		x.Lim, x.FactLim = 24, 24
		x.OpaqueFn = func(f *ssa.Function) bool {
			if p := r.P.RelPkg(f); p == "vcs" || p == "index" {
				n := 0
				for _, b := range f.Blocks {
					n += len(b.Instrs)
				}
				return n > 12
			}
			return sl(f)
		}
		r.SeenAt("entry point", FnName(root))
		end(root, x.Run(root, newM()))
		x.RunThreads(func(t *eng.Thread) eng.Monitor {
			m := newM()
			if pm, ok := t.S.Mon.(*M); ok {
				for v, i := range pm.Sets["handed"] {
					m.put("old", v, i)
				}
			}
			return m
		}, func(t *eng.Thread, exits []eng.Exit) { end(t.Call.Fn, exits) })
		r.Absorb(x, FnName(root))
	}
}

func fieldIndex(g guard) int {
	return fieldIdx(g.fld, g.owner())
}

// destroyRule: destroying an index closes it and removes its own directory.
func (r *Report) destroyRule() {
	d := r.P.Method("index", "Index", "Destroy")
	if d == nil {
		r.Undecided("the index has no Destroy method")
		return
	}
	raw := r.P.Type("codesearch/index", "Index")
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if c.Fn != nil && c.Fn == r.P.Method("codesearch/index", "Index", "Close") {
				_ = raw
				v := c.Args[0]
				if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField && v.Args[0].Args[0].Kind == eng.KParam {
					m.Flags["closed"] = 1
				}
				return eng.Opaque
			}
			if c.Name == "os.RemoveAll" {
				v := c.Args[0].Strip()
				own := v.Kind == eng.KLoad && v.Root().Kind == eng.KParam && v.Any(func(q *eng.Val) bool {
					return q.Kind == eng.KField && r.isNamed(q.Args[0].T, "index", "Index")
				})
				if !own {
					r.Violate("C02.dir", c.Instr, "destroying an index removes something other than its own directory")
				} else {
					m.Flags["removed"] = 1
				}
			}
			return eng.Default
		},
	})
	x.OpaqueFn = r.opaquePkgs("codesearch/index")
	for _, e := range x.Run(d, newM()) {
		if e.Kind != eng.ExRet {
			continue
		}
		r.SeenAt("end of Destroy", FnName(d)+" exit "+mon(e.S).Key())
		if len(e.Results) == 1 && e.S.Nilness(e.Results[0]) == eng.False {
			continue
		}
		m := mon(e.S)
		if m.Flags["closed"] == 0 {
			r.ViolateFn("C02.destroy", FnName(d), d.Pos(), "an index can be reported destroyed without having been closed")
		}
		if m.Flags["removed"] == 0 {
			r.ViolateFn("C02.destroy", FnName(d), d.Pos(), "an index can be reported destroyed without its directory having been removed")
		}
	}
	r.Absorb(x, FnName(d))
}
