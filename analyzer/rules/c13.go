package rules

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C13", "Requests for unknown repositories are harmless",
		"typestate of repository names and searchers along every path of every request handler and the goroutines it starts: a searcher found by name is used only where it is known to exist, which names in lists are known by checking each one added; a request answered because its repository does not exist gets status 404; the table of searchers never holds nil",
		func(r *Report) {
			r.unknownRepos()
			r.searcherTable()
			r.Need("use of a searcher by a request", 3)
			r.Need("answer to a request for an unknown repository", 2)
			r.Need("request handler", 5)
			r.Need("searcher entered into the table", 1)
		})
	r.Assume = []string{"the table of searchers given to the api is the one made at start-up"}
}

// vmap is a property of slices: each element has property elem.
func sliceBase(v *eng.Val) *eng.Val {
	v = v.Strip()
	for v.Kind == eng.KUn && strings.HasPrefix(v.Op, "slice") {
		v = v.Args[0].Strip()
	}
	return v
}

// otherName: the value is another name made from one.
func otherName(v *eng.Val) bool {
	if v.Kind != eng.KUn {
		return false
	}
	switch strings.TrimPrefix(v.Op, "pure:") {
	case "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.ToTitle", "strings.Replace", "strings.ReplaceAll", "strings.TrimSuffix", "strings.TrimPrefix",
		"strings.Trim", "strings.TrimLeft", "strings.TrimRight", "path.Base", "path/filepath.Base", "path.Dir", "path/filepath.Dir", "path.Clean", "path/filepath.Clean":
		return true
	}
	return false
}

func emptySlice(in *eng.Interner, s *eng.State, v *eng.Val) bool {
	if v.IsNil() || s.Nilness(v) == eng.True || v.Kind == eng.KZero {
		return true
	}
	l := in.Un("len", v, intT)
	if c := s.Mem[l]; c != nil {
		n, ok := c.IntVal()
		return ok && n == 0
	}
	lo, hi := s.Interval(l)
	return lo == 0 && hi == 0
}

func (r *Report) unknownRepos() {
	// knownKey: the table is known to have a searcher for k
	knownKey := func(s *eng.State, m *M, mp, k *eng.Val) bool {
		if m.Rel["key"][[2]*eng.Val{k, mp}] {
			return true
		}
		// an element of a list of known names
		if k.Kind == eng.KLoad && k.Args[0].Kind == eng.KIndex {
			if m.has("known", sliceBase(k.Args[0].Args[0])) {
				return true
			}
		}
		if mt, ok := mp.T.Underlying().(*types.Map); ok {
			a := r.P.In.Elem(mp, k, mt.Elem())
			if s.Nilness(s.Read(a, mt.Elem())) == eng.False {
				return true
			}
			if s.Decide(r.P.In.Un("has", a, types.Typ[types.Bool])) == eng.True {
				return true
			}
		}
		for p := range m.Rel["look"] {
			if p[0] == k && s.Nilness(p[1]) == eng.False {
				return true
			}
		}
		return false
	}
	anyKnown := func(s *eng.State, m *M, k *eng.Val) bool {
		for _, mp := range m.members("table") {
			if knownKey(s, m, mp, k) {
				return true
			}
		}
		for p := range m.Rel["key"] {
			if p[0] == k {
				return true
			}
		}
		for p := range m.Rel["look"] {
			if p[0] == k && s.Nilness(p[1]) == eng.False {
				return true
			}
		}
		return false
	}
	// has: comma-ok lookups which found a searcher make it non-nil
	exists := func(s *eng.State, m *M, v *eng.Val) bool {
		if s.Nilness(v) == eng.False || m.has("nn", v) {
			return true
		}
		if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KElem {
			a := v.Args[0]
			return s.Decide(r.P.In.Un("has", a, types.Typ[types.Bool])) == eng.True || knownKey(s, m, a.Args[0], a.Args[1])
		}
		return false
	}
	use := func(s *eng.State, v *eng.Val, at ssa.Instruction) {
		v = v.Strip()
		if v.T == nil || !r.isSearcherPtr(v.T) {
			return
		}
		m := mon(s)
		r.Seen("use of a searcher by a request", at)
		if !exists(s, m, v) {
			r.Violate("C13.use", at, "a request may use the searcher of a repository which does not exist")
		}
	}
	resp := newResponder(r)
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if len(c.Args) > 0 && c.Fn != nil && c.Fn.Signature.Recv() != nil && r.isNamed(c.Fn.Signature.Recv().Type(), "searcher", "Searcher") {
				use(s, c.Args[0], c.Instr)
			}
			if act, ok := resp.onCall(s, c); ok {
				return act
			}
			_ = m
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			resp.after(s, c, res)
			return nil
		},
		OnDeref: func(s *eng.State, v *eng.Val, at eng.Site) { use(s, v, at.Instr) },
		OnLookup: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if !r.isSearcherMap(mp.T) {
				return
			}
			m := mon(s)
			k = k.Strip()
			if k.Any(otherName) {
				r.Violate("C13.other", at.Instr, "a request may be carried out for another repository than the one it names")
			}
			m.put("table", mp, 1)
			if knownKey(s, m, mp, k) {
				s.AssumeNil(v, false)
				m.put("nn", v, 1)
				return
			}
			m.unrel("look", func(a, b *eng.Val) bool { return a == k })
			m.rel("look", k, v)
			m.clear("missing")
			m.put("missing", v, 1)
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			m.clear("missing")
			m.unrel("look", func(a, b *eng.Val) bool { return true })
			if !more || cont.T == nil || !r.isSearcherMap(cont.T) {
				return
			}
			m.unrel("key", func(a, b *eng.Val) bool { return b == cont })
			m.rel("key", k, cont)
			if el != nil {
				m.put("nn", el, 1)
			}
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			m := mon(s)
			if sl, ok := res.T.Underlying().(*types.Slice); !ok || sl.Elem().String() != "string" {
				return
			}
			was := emptySlice(r.P.In, s, base) || m.has("known", sliceBase(base))
			for _, e := range elems {
				es := variadic(s, e)[1:]
				if len(es) == 0 && !m.has("known", sliceBase(e)) {
					was = false
				}
				for _, k := range es {
					was = was && anyKnown(s, m, k.Strip())
				}
			}
			m.del("known", sliceBase(res))
			if was {
				m.put("known", sliceBase(res), 1)
			}
		},
		OnStore: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			if a.Kind == eng.KIndex {
				m := mon(s)
				if b := sliceBase(a.Args[0]); m.has("known", b) && !anyKnown(s, m, v.Strip()) {
					m.del("known", b)
				}
			}
		},
	})
	resp.document = func(s *eng.State, m *M, errDoc bool, at ssa.Instruction) {
		for _, v := range m.members("missing") {
			absent := s.Nilness(v) == eng.True || v.Kind == eng.KLoad && v.Args[0].Kind == eng.KElem &&
				s.Decide(r.P.In.Un("has", v.Args[0], types.Typ[types.Bool])) == eng.False
			if !absent || !errDoc {
				continue
			}
			r.SeenAt("answer to a request for an unknown repository", resp.handler(m))
			if m.Flags["status"] != 404 {
				r.Violate("C13.status", at, "a request for an unknown repository is answered with status %s", statusText(m.Flags["status"]))
			}
		}
	}
	r.handlers(x, func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Lookup:
			return r.isSearcherMap(i.X.Type())
		case *ssa.Range:
			return r.isSearcherMap(i.X.Type())
		}
		return isRespInstr(i)
	}, func(t *eng.Thread) *M {
		m := newM()
		resp.start(m, t)
		return m
	}, func(t *eng.Thread, exits []eng.Exit) {})
}

func statusText(n int) string {
	if n == 0 {
		return "200"
	}
	return strconv.Itoa(n)
}

// searcherTable: only existing searchers are entered into a table.
func (r *Report) searcherTable() {
	for _, root := range r.roots(func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool {
			mu, ok := i.(*ssa.MapUpdate)
			return ok && r.isSearcherMap(mu.Map.Type())
		})
	}, "searcher") {
		// what a result sent over a channel guarantees
		x := eng.NewExec(r.P, eng.Hooks{
			OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
				if v.T == nil || !r.isResultStruct(v.T) {
					return
				}
				r.Seen("result of a start-up", at.Instr)
				e, sr := resultParts(r, s, v)
				if sr == nil || s.Nilness(sr) == eng.False || e != nil && s.Nilness(e) == eng.False {
					return
				}
				r.Violate("C13.result", at.Instr, "a start-up may report neither a searcher nor an error")
			},
			OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
				if v == nil || !r.isSearcherMap(mp.T) {
					return
				}
				r.Seen("searcher entered into the table", at.Instr)
				if s.Nilness(v) == eng.False {
					return
				}
				if b := ofResult(r, v); b != nil {
					if e, _ := resultParts(r, s, b); e != nil && s.Nilness(e) == eng.True {
						return
					}
				}
				r.Violate("C13.table", at.Instr, "the table of searchers may get an entry without a searcher")
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			switch i := i.(type) {
			case *ssa.Send, *ssa.Go:
				return true
			case *ssa.UnOp:
				return i.Op == token.ARROW
			case *ssa.MapUpdate:
				return r.isSearcherMap(i.Map.Type())
			case *ssa.Alloc:
				return r.isNamed(i.Type(), "searcher", "Searcher")
			}
			return false
		})
		x.Run(root, newM())
		x.RunThreads(func(t *eng.Thread) eng.Monitor { return newM() }, func(t *eng.Thread, exits []eng.Exit) {})
		r.Absorb(x, FnName(root))
	}
}

// resultParts are the error and the searcher in a reported result.
func resultParts(r *Report, s *eng.State, v *eng.Val) (e, sr *eng.Val) {
	t := v.T
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		var c *eng.Val
		if ptr {
			c = s.Read(r.P.In.Field(v, i, f), f.Type())
		} else {
			c = s.FieldOf(v, i, f)
		}
		if isErrorT(f.Type()) {
			e = c
		} else if r.isSearcherPtr(f.Type()) {
			sr = c
		}
	}
	return e, sr
}

// ofResult is the result v is the searcher of.
func ofResult(r *Report, v *eng.Val) *eng.Val {
	v = v.Strip()
	if v.Kind == eng.KFieldV && v.Args[0].T != nil && r.isResultStruct(v.Args[0].T) {
		return v.Args[0]
	}
	if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField && r.isResultStruct(v.Args[0].Args[0].T) {
		return v.Args[0].Args[0]
	}
	return nil
}
