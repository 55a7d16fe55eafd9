package rules

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C31", "A search request is carried out as asked",
		"provenance of what every search started by a request handler is given: each option comes from the request parameter it is named after, within its bounds; obligation per element along every path of the loops over the repositories asked for: each known one is searched, each result is awaited and reported under the name of the repository searched, and a failed search makes the request fail",
		func(r *Report) {
			r.searchOptions()
			r.searchLists()
			r.Need("search started by a request", 1)
			r.Need("option set from the request", 6)
			r.Need("bounded option", 2)
			r.Need("list of repositories from a request", 1)
			r.Need("repository searched", 1)
			r.Need("result of a search reported", 1)
			r.Need("results of a request", 1)
		})
	r.Assume = []string{"how a parameter is converted to a value is checked for where the value comes from and for its bounds only"}
}

// the request parameter each option of a search comes from.
var optionParam = map[string]string{
	"FileRegexp": "files", "ExcludeFileRegexp": "excludeFiles", "IgnoreCase": "i", "LiteralSearch": "literal",
	"Offset": "rng", "Limit": "rng", "MaxResults": "limit", "LinesOfContext": "ctx",
}

var optionMax = map[string]int64{"LinesOfContext": 20, "MaxResults": 100000}

func isFormInstr(i ssa.Instruction) bool {
	return calleeIs(i, "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue", "(net/url.Values).Get")
}

// searchMethod is the method of a searcher which searches.
func (r *Report) isSearcherSearch(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() != nil && r.isNamed(f.Signature.Recv().Type(), "searcher", "Searcher") && f.Signature.Results().Len() == 2 &&
		r.isNamed(f.Signature.Results().At(0).Type(), "index", "SearchResponse")
}

func (r *Report) searches(f *ssa.Function) bool {
	for g := range r.P.Reach(f) {
		if r.isSearcherSearch(g) {
			return true
		}
	}
	return false
}

func (r *Report) isSearchInstr(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	return ok && r.isSearcherSearch(ci.Common().StaticCallee())
}

// formLabels are the request parameters v comes from.
func formLabels(v *eng.Val) map[string]bool {
	out := map[string]bool{}
	v.Any(func(x *eng.Val) bool {
		if l := formTerm(x); l != "" {
			out[l] = true
		}
		return false
	})
	return out
}

// formTerm is the request parameter which v is the value of.
func formTerm(v *eng.Val) string {
	if v.Kind == eng.KUn && strings.HasPrefix(v.Op, "pure:") && len(v.Args) == 1 && v.Args[0].Kind == eng.KTuple {
		switch v.Op[5:] {
		case "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue", "(net/url.Values).Get":
			if a := v.Args[0].Args; len(a) == 2 {
				k, _ := strConst(a[1])
				return k
			}
		}
	}
	return ""
}

// viaLabels are formLabels, following values computed by calls.
func viaLabels(m *M, v *eng.Val) map[string]bool {
	out := formLabels(v)
	for n, set := range m.Sets {
		if strings.HasPrefix(n, "via:") && v.Any(func(x *eng.Val) bool { _, ok := set[x]; return ok }) {
			out[n[4:]] = true
		}
	}
	return out
}

var sliceFrom = regexp.MustCompile(`^slice\[(\d*):`)

func (r *Report) searchOptions() {
	set := func(s *eng.State, f string, v *eng.Val, at ssa.Instruction) {
		m := mon(s)
		param := optionParam[f]
		if param == "" {
			return
		}
		raw := v
		v = v.Strip()
		ls := viaLabels(m, v)
		for l := range ls {
			if l != param {
				r.Violate("C31.param", at, "the option %s of a search may come from the request parameter %s", f, l)
			}
		}
		if !ls[param] && m.Flags["dec:"+param] == 0 {
			if v.Kind == eng.KZero || v.Kind == eng.KConst {
				// the initial content of a composite literal
				if n, ok := v.IntVal(); v.Kind == eng.KZero || ok && n == 0 {
					return
				}
			}
			r.Violate("C31.param", at, "the option %s of a search may not come from the request parameter %s", f, param)
		}
		r.SeenAt("option set from the request", f)
		if (f == "FileRegexp" || f == "ExcludeFileRegexp") && formTerm(v) != param {
			r.Violate("C31.exact", at, "the option %s of a search may differ from what the request asks for", f)
		}
		if v.Kind == eng.KConst && v.T != nil && types.Identical(v.T.Underlying(), types.Typ[types.Bool]) {
			switch on := s.Decide(v); {
			case on == eng.True && m.Flags["yes:"+param] == 0, on == eng.False && m.Flags["yes:"+param] == 2:
				r.Violate("C31.switch", at, "the option %s of a search may depend on something else than the request parameter %s", f, param)
			}
		}
		if f == "Offset" || f == "Limit" {
			v.Any(func(x *eng.Val) bool {
				if f == "Offset" && m.has("end1", x) || f == "Limit" && m.has("end0", x) {
					r.Violate("C31.range", at, "the two ends of the range asked for may be mixed up")
				}
				if x.Kind == eng.KUn && len(viaLabels(m, x)) > 0 {
					if g := sliceFrom.FindStringSubmatch(x.Op); g != nil && (g[1] == "") != (f == "Offset") {
						r.Violate("C31.range", at, "the two ends of the range asked for may be mixed up")
					}
				}
				return false
			})
		}
		if max := optionMax[f]; max > 0 {
			r.SeenAt("bounded option", f)
			if _, hi := s.Interval(raw); hi > max && !rootParam(v) {
				r.Violate("C31.bound", at, "the option %s of a search may exceed its bound of %d", f, max)
			}
		}
		m.Flags["set:"+f] = 1
		for k := range s.Facts {
			if k.Any(func(x *eng.Val) bool { return formTerm(x) == param }) && (f != "Offset" || m.Flags["set:Limit"] == 1) && (f != "Limit" || m.Flags["set:Offset"] == 1) {
				delete(s.Facts, k)
			}
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if r.isSearcherSearch(c.Fn) {
				r.Seen("search started by a request", c.Instr)
				if len(c.Args) < 3 {
					return eng.Opaque
				}
				if formTerm(c.Args[1].Strip()) != "q" {
					r.Violate("C31.query", c.Instr, "a request may be answered by a search for something else than it asks for")
				}
				if !m.has("opts", c.Args[2].Strip().Root()) {
					r.Violate("C31.options", c.Instr, "a request may be answered by a search with other options than it asks for")
				} else {
					for f := range optionParam {
						if !m.has("o:"+f, c.Args[2].Strip().Root()) {
							r.Violate("C31.ignored", c.Instr, "the request parameter %s may be ignored by a search", optionParam[f])
						}
					}
				}
				return eng.Opaque
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if c.Fn != nil && r.P.InModule(c.Fn) || r.isSearcherSearch(c.Fn) {
				return nil
			}
			for _, a := range c.Args {
				for l := range viaLabels(m, a) {
					if l != "q" && l != "repos" && !formLabels(res)[l] {
						m.put("via:"+l, res, 1)
						a.Any(func(x *eng.Val) bool {
							if l == "rng" && x.Kind == eng.KUn {
								if g := sliceFrom.FindStringSubmatch(x.Op); g != nil && g[1] == "" {
									m.put("end0", res, 1)
								} else if g != nil {
									m.put("end1", res, 1)
								}
							}
							return false
						})
					}
				}
			}
			return nil
		},
		OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			m := mon(s)
			if addr.Kind == eng.KField && r.isNamed(addr.Args[0].T, "index", "SearchOptions") {
				m.put("opts", addr.Root(), 1)
				m.put("o:"+addr.Fld.Name(), addr.Root(), 1)
				set(s, addr.Fld.Name(), v, at.Instr)
				return
			}
			if v.T != nil && r.isNamed(v.T, "index", "SearchOptions") {
				if _, ptr := v.T.Underlying().(*types.Pointer); !ptr {
					m.put("opts", addr.Root(), 1)
					for f := range optionParam {
						if m.Flags["set:"+f] == 1 {
							m.put("o:"+f, addr.Root(), 1)
						}
					}
				}
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			ls := viaLabels(m, cond)
			for l := range ls {
				m.Flags["dec:"+l] = 1
			}
			for cond.Kind == eng.KUn && cond.Op == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if len(ls) == 1 && taken {
				for l := range ls {
					if m.Flags["yes:"+l] == 0 {
						m.Flags["yes:"+l] = 1
					}
					if cond.Any(func(x *eng.Val) bool { k, _ := strConst(x); return k == "true" || k == "1" }) {
						m.Flags["yes:"+l] = 2
					}
				}
			}
		},
	})
	r.searchHandlers(x, func(i ssa.Instruction) bool {
		n, _ := fieldOf(i)
		return n != nil && r.isNamed(n, "index", "SearchOptions") || isFormInstr(i) || r.isSearchInstr(i) || isParseInstr(i)
	}, nil, func(t *eng.Thread, exits []eng.Exit) {})
}

// isParseInstr: a call which may be part of converting a parameter.
func isParseInstr(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	return f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "strconv" || f.Pkg.Pkg.Path() == "strings")
}

// rootParam: a value given when the handlers were set up.
func rootParam(v *eng.Val) bool {
	for v.Kind == eng.KUn && v.Op == "conv" {
		v = v.Args[0]
	}
	return v.Kind == eng.KParam
}

// searchHandlers analyses the handlers which search.
func (r *Report) searchHandlers(x *eng.Exec, event func(ssa.Instruction) bool, mk func(t *eng.Thread) *M, done func(t *eng.Thread, exits []eng.Exit)) {
	x.Lim, x.FactLim = 2, 6
	r.handlersOf(x, event, mk, done, func(f *ssa.Function) bool { return r.searches(f) })
}

func (r *Report) searchLists() {
	// el: v is the element of the current iteration over cont
	settle := func(s *eng.State, m *M) {
		if m.Flags["recv"] == 1 {
			for _, b := range m.members("got") {
				if e := partOf(r, s, b, isErrorT); e != nil && s.Nilness(e) == eng.False {
					m.Flags["recv"], m.Flags["failed"] = 0, 1
				} else if n := r.matchesOf(s, b); n != nil && (s.Nilness(n) == eng.True || emptySlice(r.P.In, s, n)) {
					if e == nil || s.Nilness(e) == eng.True {
						m.Flags["recv"] = 0
					}
				}
			}
		}
		if m.Flags["want"] == 1 {
			for _, v := range m.members("seen") {
				if s.Nilness(v) == eng.True {
					m.Flags["want"] = 0
				} else if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KElem && s.Decide(r.P.In.Un("has", v.Args[0], types.Typ[types.Bool])) == eng.False {
					m.Flags["want"] = 0
				}
			}
		}
	}
	isEl := func(m *M, v *eng.Val) bool {
		v = v.Strip()
		if m.has("key", v) {
			return true
		}
		return v.Kind == eng.KLoad && v.Args[0].Kind == eng.KIndex && m.has("in", sliceBase(v.Args[0].Args[0])) && m.has("key", v.Args[0].Args[1])
	}
	resp := newResponder(r)
	resp.document = func(s *eng.State, m *M, errDoc bool, at ssa.Instruction) {
		settle(s, m)
		if errDoc {
			return
		}
		r.Seen("results of a request", at)
		switch {
		case m.Flags["failed"] == 1:
			r.Violate("C31.failed", at, "a request may be answered with results although a search failed")
		case m.Flags["want"] == 1 || m.Flags["listed"] == 0:
			r.Violate("C31.left", at, "a repository asked for may not be searched")
		case m.Flags["all"] == 0:
			r.Violate("C31.left", at, "a request may be answered before every repository asked for is searched")
		case m.Flags["go"] == 1 && m.Flags["drained"] == 0:
			r.Violate("C31.awaited", at, "a request may be answered before every search it started has ended")
		case m.Flags["recv"] == 1:
			r.Violate("C31.dropped", at, "the result of a search may be dropped")
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if r.isSearcherSearch(c.Fn) {
				r.Seen("repository searched", c.Instr)
				sr := c.Args[0].Strip()
				m.clear("by")
				for p := range m.Rel["look"] {
					if p[1] == sr {
						m.put("by", p[0], 1)
						if isEl(m, p[0]) {
							m.Flags["want"] = 0
						}
					}
				}
				return eng.Opaque
			}
			if act, ok := resp.onCall(s, c); ok {
				return act
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			resp.after(s, c, res)
			m := mon(s)
			if r.isSearcherSearch(c.Fn) {
				v := r.P.In.Extract(res, 0, c.Fn.Signature.Results().At(0).Type())
				for _, k := range m.members("by") {
					m.rel("of", v, k)
				}
			} else if c.Fn == nil || !r.P.InModule(c.Fn) {
				for _, a := range c.Args {
					if a.Any(func(x *eng.Val) bool { return m.has("repos", x) || formTerm(x) == "repos" }) {
						m.put("repos", res, 1)
					}
				}
			}
			return nil
		},
		OnLookup: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if !r.isSearcherMap(mp.T) {
				return
			}
			m := mon(s)
			k = k.Strip()
			if isEl(m, k) {
				m.put("seen", v, 1)
			}
			m.rel("look", k, v)
		},
		OnGo: func(s *eng.State, c *eng.Call) {
			if c.Fn == nil || !r.searches(c.Fn) {
				return
			}
			m := mon(s)
			m.Flags["go"] = 1
			for _, a := range append(append([]*eng.Val(nil), c.Args...), c.Binds...) {
				if isEl(m, a) || a.Kind == eng.KAlloc && a.T != nil && s.Mem[a] != nil && isEl(m, s.Mem[a]) {
					m.Flags["want"] = 0
				}
				for p := range m.Rel["look"] {
					if p[1] == a.Strip() && isEl(m, p[0]) {
						m.Flags["want"] = 0
					}
				}
			}
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			settle(s, m)
			names := cont.T != nil && r.isSearcherMap(cont.T) && m.Flags["handler"] == 1
			asked := names || cont.Any(func(x *eng.Val) bool { return m.has("repos", x) || formTerm(x) == "repos" })
			list := m.has("list", sliceBase(cont))
			if n, ok := cont.IntVal(); ok && n == 0 && !more && m.Flags["listed"] == 1 && len(m.members("list")) == 0 {
				list = true // nothing asked for is known
			}
			if m.Flags["open"] == 1 {
				if m.Flags["want"] == 1 {
					r.Violate("C31.left", at.Instr, "a repository asked for may be left out of a search")
				}
				m.Flags["want"], m.Flags["open"] = 0, 0
				m.clear("in")
				m.clear("key")
				m.clear("seen")
				m.clear("by")
				m.unrel("look", func(a, b *eng.Val) bool { return true })
			}
			if r.loopRecvOf(at.Instr, r.isResponseStruct) {
				if m.Flags["recv"] == 1 {
					r.Violate("C31.dropped", at.Instr, "the result of a search may be dropped")
				}
				m.clear("got")
				m.Flags["recv"] = 0
				if !more {
					// as many as were started
					if cont.Kind == eng.KUn && cont.Op == "len" {
						list = m.has("list", sliceBase(cont.Args[0]))
					}
					if list {
						m.Flags["drained"] = 1
					}
				}
				return
			}
			if list && loopCalls(at.Instr, r.searches, nil) || asked {
				if names && m.Flags["star"] == 0 {
					r.Violate("C31.others", at.Instr, "repositories may be searched which were not asked for")
				}
				if asked {
					r.Seen("list of repositories from a request", at.Instr)
				}
				if more {
					m.Flags["open"], m.Flags["want"] = 1, 1
					m.put("in", sliceBase(cont), 1)
					m.put("key", k, 1)
				} else {
					m.Flags["listed"] = 1
				}
				if !more && loopCalls(at.Instr, r.searches, nil) {
					m.Flags["all"], m.Flags["listed"] = 1, 1
				}
			}
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			m := mon(s)
			if sl, ok := res.T.Underlying().(*types.Slice); !ok || sl.Elem().String() != "string" {
				return
			}
			fresh := emptySlice(r.P.In, s, base)
			if !fresh && !m.has("list", sliceBase(base)) {
				return
			}
			m.clear("list")
			m.put("list", sliceBase(res), 1)
			for _, e := range elems {
				for _, v := range variadic(s, e)[1:] {
					if isEl(m, v) {
						m.Flags["want"] = 0
					}
				}
			}
		},
		OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if v != nil && v.T != nil && r.isResponseStruct(v.T) {
				m := mon(s)
				if m.Flags["recv"] == 1 {
					settle(s, m)
					if m.Flags["recv"] == 1 {
						r.Violate("C31.dropped", at.Instr, "the result of a search may be dropped")
					}
				}
				m.clear("got")
				m.put("got", v, 1)
				m.Flags["recv"] = 1
			}
		},
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			m := mon(s)
			if v.T == nil || !r.isResponseStruct(v.T) {
				return
			}
			r.Seen("result of a search sent", at.Instr)
			res := partOf(r, s, v, func(t types.Type) bool { return r.isNamed(t, "index", "SearchResponse") })
			name := partOf(r, s, v, func(t types.Type) bool { return t.String() == "string" })
			if res == nil || name == nil {
				return
			}
			for p := range m.Rel["of"] {
				if p[0] == res && p[1] != name.Strip() {
					r.Violate("C31.name", at.Instr, "a result may be reported under another name than that of the repository searched")
				}
			}
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			mt, ok := mp.T.Underlying().(*types.Map)
			if !ok || !r.isNamed(mt.Elem(), "index", "SearchResponse") || v == nil {
				return
			}
			r.Seen("result of a search reported", at.Instr)
			m := mon(s)
			v, k = v.Strip(), k.Strip()
			for p := range m.Rel["of"] {
				if p[0] == v && p[1] != k {
					r.Violate("C31.name", at.Instr, "a result may be reported under another name than that of the repository searched")
				}
			}
			if b := partBase(v); b != nil && r.isResponseStruct(b.T) {
				if kb := partBase(k); kb != b {
					r.Violate("C31.name", at.Instr, "a result may be reported under another name than that of the repository searched")
				}
				if e := partOf(r, s, b, isErrorT); e != nil && s.Nilness(e) != eng.True {
					r.Violate("C31.failed", at.Instr, "a failed search may be taken for a result")
				}
				if m.has("got", b) {
					m.Flags["recv"] = 0
				}
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			settle(s, m)
			if cond.Kind == eng.KBin && cond.Op == "==" && taken {
				for i := range cond.Args {
					if k, ok := strConst(cond.Args[i]); ok && k == "*" && formLabels(cond.Args[1-i])["repos"] {
						m.Flags["star"] = 1
					}
				}
			}
		},
	})
	r.searchHandlers(x, func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Lookup:
			return r.isSearcherMap(i.X.Type())
		case *ssa.Range:
			return r.isSearcherMap(i.X.Type())
		case *ssa.MapUpdate:
			return true
		case *ssa.Send, *ssa.Select, *ssa.Go:
			return true
		case *ssa.UnOp:
			return i.Op == token.ARROW
		}
		if ci, ok := i.(ssa.CallInstruction); ok && isFormInstr(i) {
			k, ok := ci.Common().Args[len(ci.Common().Args)-1].(*ssa.Const)
			return ok && k.Value != nil && strings.Contains(k.Value.String(), "repos")
		}
		return r.isSearchInstr(i) || isRespInstr(i)
	}, func(t *eng.Thread) *M {
		m := newM()
		resp.start(m, t)
		return m
	}, func(t *eng.Thread, exits []eng.Exit) {})
}

// isResponseStruct: a struct in which the result of a search is passed on.
func (r *Report) isResponseStruct(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if r.isNamed(t, "index", "SearchResponse") {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if r.isNamed(st.Field(i).Type(), "index", "SearchResponse") {
			return true
		}
	}
	return false
}

// partOf is the content of the first field of v with a type p accepts.
func partOf(r *Report, s *eng.State, v *eng.Val, p func(types.Type) bool) *eng.Val {
	t := v.T
	ptr := false
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = q.Elem(), true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); p(f.Type()) {
			if ptr {
				return s.Read(r.P.In.Field(v, i, f), f.Type())
			}
			return s.FieldOf(v, i, f)
		}
	}
	return nil
}

// partBase is the struct (or pointer to it) v was read from.
func partBase(v *eng.Val) *eng.Val {
	if v.Kind == eng.KFieldV {
		return v.Args[0]
	}
	if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField {
		return v.Args[0].Args[0]
	}
	return nil
}

// matchesOf are the matches of the search whose result b carries.
func (r *Report) matchesOf(s *eng.State, b *eng.Val) *eng.Val {
	res := partOf(r, s, b, func(t types.Type) bool { return r.isNamed(t, "index", "SearchResponse") })
	if res == nil || res.T == nil {
		return nil
	}
	return r.fieldContent(s, res, "Matches")
}
