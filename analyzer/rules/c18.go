package rules

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C18", "A search covers exactly the files asked for",
		"per-file obligation along every path of a search of an index: each file the trigram query yields is searched, or left out only because its name is known not to match the file pattern, known to match the exclude pattern, or because the limit of matches is known to be reached, and no file known to be left out is searched; the query and the matcher come from one expression, compiled from the pattern as asked; the matcher's callback stops the search of a file, or drops a match, only because of offset, range or limit; failures are returned",
		func(r *Report) {
			for _, f := range r.searchMethods() {
				r.searchRule(f)
				r.errorsKept(f, "C18.error", "a search", func(g *ssa.Function) bool { return r.P.RelPkg(g) == "index" }, nil)
			}
			for _, f := range r.P.Funcs {
				if r.inPkg(f, "codesearch/regexp") && f.Name() == "Compile" && f.Signature.Recv() == nil && f.Parent() == nil {
					r.valueOrError(f)
				}
			}
			r.Need("search method", 1)
			r.Need("file opened by a search", 1)
			r.Need("match passed on", 1)
			r.Need("match recorded", 1)
			r.Need("file left out", 2)
			r.Need("pattern compiled", 3)
			r.Need("file added to the results", 1)
			r.Need("end of a search", 1)
		})
	r.Assume = []string{"the compiled expression matches what its syntax says, and the trigram query admits every file that matches (not decided here)", "a counter compared with the limit is recognised if it lives in a variable"}
}

// searchMethods: exported methods of an index which search it.
func (r *Report) searchMethods() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.P.Funcs {
		res := f.Signature.Results()
		if f.Parent() == nil && f.Signature.Recv() != nil && r.isNamed(f.Signature.Recv().Type(), "index", "Index") && f.Synthetic == "" &&
			f.Object() != nil && f.Object().Exported() && res.Len() == 2 && r.isNamed(res.At(0).Type(), "index", "SearchResponse") {
			out = append(out, f)
			r.SeenAt("search method", FnName(f))
		}
	}
	return out
}

func isByteSlices(t types.Type) bool { return t.String() == "[][]byte" }

// lineCallback: a function called with each matching line.
func lineCallback(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	p, res := f.Signature.Params(), f.Signature.Results()
	return f.Signature.Recv() == nil && p.Len() >= 2 && p.At(0).Type().String() == "[]byte" && p.At(1).Type().String() == "int" &&
		res.Len() == 2 && res.At(0).Type().String() == "bool" && isErrorT(res.At(1).Type())
}

var flagGroup = regexp.MustCompile(`^\(\?([a-z]+)\)`)

// patternFlags splits a pattern into the flags it begins with and the rest.
func patternFlags(v *eng.Val) (flags map[byte]bool, rest *eng.Val) {
	flags = map[byte]bool{}
	var parts []*eng.Val
	var flat func(x *eng.Val)
	flat = func(x *eng.Val) {
		if x.Kind == eng.KBin && x.Op == "+" {
			flat(x.Args[0])
			flat(x.Args[1])
			return
		}
		if s, ok := x.Str(); ok && s == "" {
			return
		}
		parts = append(parts, x)
	}
	flat(v)
	for len(parts) > 1 {
		s, ok := parts[0].Str()
		if !ok {
			return flags, nil
		}
		for s != "" {
			g := flagGroup.FindStringSubmatch(s)
			if g == nil {
				return flags, nil
			}
			for i := range g[1] {
				flags[g[1][i]] = true
			}
			s = s[len(g[0]):]
		}
		parts = parts[1:]
	}
	if len(parts) != 1 {
		return flags, nil
	}
	return flags, parts[0]
}

// roles of counters
const (
	countsMatches = 1 << iota // compared with the limit of matches
	countsFiles               // files with matches
	countsAdded               // files in the results
)

var boundRole = map[string]int{"MaxResults": countsMatches, "Offset": countsFiles, "Limit": countsAdded}

// boundKnown: some counter is known to be below (or not below) a bound.
func (r *Report) boundKnown(s *eng.State, bound *eng.Val, name string, below bool, roles map[*eng.Val]int) bool {
	for a, role := range roles {
		if role&boundRole[name] == 0 {
			continue
		}
		d := s.Decide(r.P.In.Bin(token.LSS, s.Read(a, intT), bound, types.Typ[types.Bool]))
		if below && d == eng.True || !below && d == eng.False {
			return true
		}
	}
	for _, role := range roles {
		if role&boundRole[name] != 0 {
			return false
		}
	}
	// the counter was not recognised: any comparison known
	for k, f := range s.Facts {
		if k.Kind == eng.KBin && k.Op == "<" && isField(k.Args[1], name) && (f.Bool > 0) == below && f.Bool != 0 {
			return true
		}
		if k.Kind == eng.KBin && k.Op == "<" && isField(k.Args[0], name) && (f.Bool > 0) == !below && f.Bool != 0 {
			return true
		}
	}
	return false
}

func (r *Report) searchRule(f *ssa.Function) {
	var optP, patP *eng.Val
	for i, p := range f.Params {
		v := r.P.In.Param(f, p.Name(), i, p.Type())
		switch {
		case i == 0:
		case p.Type().String() == "string":
			patP = v
		case r.isNamed(p.Type(), "index", "SearchOptions"):
			optP = v
		}
	}
	if optP == nil || patP == nil {
		r.Undecided("parameters of %s not recognised", FnName(f))
		return
	}
	opt := func(s *eng.State, name string) *eng.Val { return r.fieldContent(s, optP, name) }
	roles := map[*eng.Val]int{} // counters
	// first find the counters, then check what is done with matches, then
	// which files are searched
	r.searchPass(f, 1, true, opt, patP, roles)
	r.searchPass(f, 2, true, opt, patP, roles)
	r.searchPass(f, 2, false, opt, patP, roles)
}

func (r *Report) searchPass(f *ssa.Function, pass int, matching bool, opt func(*eng.State, string) *eng.Val, patP *eng.Val, roles map[*eng.Val]int) {
	ld := map[*eng.Val]*eng.Val{}
	violate := func(rule string, at ssa.Instruction, format string, args ...interface{}) {
		if pass == 2 {
			r.Violate(rule, at, format, args...)
		}
	}
	positive := func(s *eng.State, name string) eng.Tri {
		lo, hi := s.Interval(opt(s, name))
		if lo >= 1 {
			return eng.True
		}
		if hi <= 0 {
			return eng.False
		}
		return eng.Unknown
	}
	below := func(s *eng.State, m *M) bool {
		return m.Flags["unlimited"] == 1 || m.Flags["below"] == 1 || positive(s, "MaxResults") == eng.False || r.boundKnown(s, opt(s, "MaxResults"), "MaxResults", true, roles)
	}
	limitHit := func(s *eng.State, m *M) bool {
		return m.Flags["limit"] == 1 || positive(s, "MaxResults") == eng.True && r.boundKnown(s, opt(s, "MaxResults"), "MaxResults", false, roles)
	}
	outOfRange := func(s *eng.State, m *M) bool {
		return r.boundKnown(s, opt(s, "Offset"), "Offset", true, roles) || positive(s, "Limit") == eng.True && r.boundKnown(s, opt(s, "Limit"), "Limit", false, roles)
	}
	given := func(s *eng.State, name string) eng.Tri { // is the pattern given?
		return emptyStr(s, opt(s, name)).Not()
	}
	admitted := func(s *eng.State, m *M) (file, excl bool) {
		file, excl = given(s, "FileRegexp") == eng.False, given(s, "ExcludeFileRegexp") == eng.False
		for _, v := range m.members("fm") {
			if lo, _ := s.Interval(v); lo >= 0 {
				file = true
			}
		}
		for _, v := range m.members("xm") {
			if _, hi := s.Interval(v); hi < 0 {
				excl = true
			}
		}
		return
	}
	left := func(s *eng.State, m *M) string {
		for _, v := range m.members("fm") {
			if _, hi := s.Interval(v); hi < 0 {
				return "file pattern"
			}
		}
		for _, v := range m.members("xm") {
			if lo, _ := s.Interval(v); lo >= 0 {
				return "exclude pattern"
			}
		}
		if limitHit(s, m) {
			return "limit reached"
		}
		return ""
	}
	fileDone := func(s *eng.State, m *M, at ssa.Instruction) {
		if m.Flags["cur"] != 1 {
			return
		}
		m.Flags["cur"] = 0
		if m.Flags["opened"] != 1 && !matching {
			why := left(s, m)
			if why == "" {
				violate("C18.left", at, "a file admitted by the query may be left out of the search")
			} else if pass == 2 {
				r.SeenAt("file left out", why)
			}
		}
		if !matching {
			return
		}
		if m.Flags["opened"] == 1 && m.Flags["rec"] == 1 && m.Flags["added"] != 1 && m.Flags["none"] != 1 {
			violate("C18.lost", at, "a file with matches may be missing from the results")
		}
		for a, role := range roles {
			if role&countsFiles != 0 && m.get("inc", a) != m.Flags["hit"] {
				violate("C18.count", at, "the number of files with matches may be wrong")
			}
			if role&countsAdded != 0 && m.get("inc", a) != m.Flags["added"] {
				violate("C18.count", at, "the number of files compared with the range may be wrong")
			}
		}
		m.clear("inc")
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if lineCallback(c.Fn) && !matching {
				return eng.Opaque
			}
			if lineCallback(c.Fn) {
				if pass == 2 {
					r.Seen("match passed on", c.Instr)
				}
				m.Flags["found"] = 0
				m.Flags["hit"] = 1
				m.Flags["now"] = 0
				m.clear("line")
				m.clear("before")
				m.clear("after")
				m.put("line", c.Args[0], 1)
				m.put("line", c.Args[1], 2)
				for i, n := range []string{"before", "after"} {
					if i+2 < len(c.Args) {
						m.put(n, c.Args[i+2], 1)
					}
				}
				return eng.Inline
			}
			switch {
			case c.Name == "os.Open" || c.Name == "os.OpenFile" || c.Name == "io/ioutil.ReadFile" || c.Name == "os.ReadFile":
				if pass == 2 {
					r.Seen("file opened by a search", c.Instr)
				}
				m.Flags["opened"] = 1
				if matching {
					if !below(s, m) {
						violate("C18.limit", c.Instr, "a file may be searched although the limit of matches is reached")
					}
					return eng.Default
				}
				ok := c.Args[0].Any(func(v *eng.Val) bool { return m.has("name", v) })
				if !ok {
					violate("C18.other", c.Instr, "a search may read another file than the one the query yielded")
				}
				fo, xo := admitted(s, m)
				if !fo {
					violate("C18.file", c.Instr, "a file may be searched although its name is not known to match the file pattern")
				}
				if !xo {
					violate("C18.exclude", c.Instr, "a file may be searched although its name is not known not to match the exclude pattern")
				}
			case r.matchCall(c, "Match"):
				if len(m.members("re")) > 0 && !m.has("re", c.Args[0].Strip()) {
					violate("C18.matcher", c.Instr, "files may be searched with another expression than the one asked for")
				}
				if matching {
					r.matchPending(s, m, c.Instr, violate)
					m.Flags["usedup"] = 0
				}
				return eng.Opaque
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if c.Fn == nil {
				return nil
			}
			switch {
			case r.inPkg(c.Fn, "codesearch/regexp") && c.Fn.Name() == "Compile":
				re := r.P.In.Extract(res, 0, c.Fn.Signature.Results().At(0).Type())
				if matching {
					a := c.Args[0]
					if a != opt(s, "FileRegexp") && a != opt(s, "ExcludeFileRegexp") {
						m.put("re", re, 1)
					}
					return splitErr(r, s, re, r.P.In.Extract(res, 1, c.Fn.Signature.Results().At(1).Type()))
				}
				r.compiled(s, m, c, re, opt, patP, violate, pass == 2)
				if m.has("re", re) {
					m.clear("quoted") // decided: not needed again
					for k := range s.Facts {
						if isField(k, "LiteralSearch") || isField(k, "IgnoreCase") {
							delete(s.Facts, k)
						}
					}
				}
				return splitErr(r, s, re, r.P.In.Extract(res, 1, c.Fn.Signature.Results().At(1).Type()))
			case c.Name == "regexp.QuoteMeta" || c.Name == "regexp/syntax.QuoteMeta" || r.inPkg(c.Fn, "codesearch/regexp") && c.Fn.Name() == "QuoteMeta":
				if c.Args[0] == patP {
					m.put("quoted", res, 1)
				}
			case r.inPkg(c.Fn, "codesearch/index") && c.Fn.Name() == "RegexpQuery":
				a := c.Args[0].Strip()
				if isField(a, "Syntax") && m.has("re", a.Args[0].Args[0].Strip()) {
					m.put("q", res, 1)
				}
			case r.inPkg(c.Fn, "codesearch/index") && c.Fn.Name() == "PostingQuery":
				if !matching && !m.has("q", c.Args[1]) {
					violate("C18.query", c.Instr, "the files to search may be selected by another expression than the one searched for")
				}
				m.put("files", res, 1)
				m.clear("q")
			case r.inPkg(c.Fn, "codesearch/index") && c.Fn.Name() == "Name":
				if matching && m.Flags["cur"] == 1 {
					m.clear("name")
				}
				if a := c.Args[1].Strip(); a.Kind == eng.KLoad && a.Args[0].Kind == eng.KIndex && m.has("files", sliceBase(a.Args[0].Args[0])) && m.has("file", a.Args[0].Args[1]) {
					m.put("name", res, 1)
				}
			case r.matchCall(c, "Match") && matching:
				m.clear("mat")
				m.put("mat", res, 1)
				m.Flags["found"] = 1
			case r.matchCall(c, "MatchString"):
				if matching {
					// looked at by the other pass
				} else if m.has("name", c.Args[1]) {
					if m.has("fre", c.Args[0].Strip()) {
						m.put("fm", res, 1)
					}
					if m.has("xre", c.Args[0].Strip()) {
						m.put("xm", res, 1)
					}
				}
			default:
				for _, n := range []string{"before", "after"} {
					for _, a := range c.Args {
						if m.has(n, a) {
							m.put(n, res, 1)
						}
					}
				}
			}
			return nil
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			if !m.has("files", cont) {
				return
			}
			fileDone(s, m, at.Instr)
			m.Flags["open"] = 0
			if more {
				for _, n := range []string{"file", "name", "fm", "xm", "ms", "mat", "line", "before", "after", "more"} {
					m.clear(n)
				}
				for _, n := range []string{"opened", "rec", "added", "hit", "now", "found", "usedup", "none"} {
					m.Flags[n] = 0
				}
				m.Flags["cur"], m.Flags["open"] = 1, 1
				m.put("file", k, 1)
			}
		},
		OnLoad: func(s *eng.State, addr, val *eng.Val, at eng.Site) {
			if pass == 1 && isCounterAddr(addr) && val.Kind != eng.KConst && val.Kind != eng.KZero {
				ld[val] = addr
			}
		},
		OnStore: func(s *eng.State, addr, val *eng.Val, at eng.Site) {
			if !matching {
				return
			}
			m := mon(s)
			if addr.Kind == eng.KField && addr.Args[0].T != nil && r.isNamed(addr.Args[0].T, "index", "Match") && len(m.members("line")) > 0 {
				switch n := addr.Fld.Name(); n {
				case "Line":
					if !val.Any(func(x *eng.Val) bool { return m.get("line", x) == 1 }) {
						violate("C18.line", at.Instr, "a match may be reported with another line than the one found")
					}
				case "LineNumber":
					if m.get("line", val) != 2 {
						violate("C18.line", at.Instr, "a match may be reported with another line number than the one found")
					}
				case "Before", "After":
					other := map[string]string{"Before": "after", "After": "before"}[n]
					if m.has(other, val) {
						violate("C18.context", at.Instr, "the context before and after a match may be mixed up")
					}
				}
			}
			if pass == 2 && isCounterAddr(addr) && roles[addr] != 0 {
				if roles[addr]&countsMatches != 0 {
					m.Flags["below"] = 0
				}
				old := s.Read(addr, val.T)
				if val == r.P.In.Bin(token.ADD, old, r.P.In.Int(1), val.T) {
					if n := m.get("inc", addr); n < 2 {
						m.put("inc", addr, n+1)
					}
				} else if n, ok := val.IntVal(); m.Flags["open"] == 1 || !ok && val.Kind != eng.KZero || n != 0 {
					violate("C18.count", at.Instr, "a count of matches or files may be changed by something else than one")
				}
			}
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			m := mon(s)
			if res.T == nil || !matching {
				return
			}
			sl, ok := res.T.Underlying().(*types.Slice)
			if !ok {
				return
			}
			switch {
			case r.isNamed(sl.Elem(), "index", "Match"):
				if pass == 2 {
					r.Seen("match recorded", at.Instr)
				}
				if m.Flags["now"] == 0 {
					m.Flags["now"] = 1
				} else {
					violate("C18.twice", at.Instr, "a match may be recorded twice")
				}
				m.Flags["rec"] = 1
			case r.isNamed(sl.Elem(), "index", "FileMatch"):
				if pass == 2 {
					r.Seen("file added to the results", at.Instr)
				}
				if m.Flags["added"] == 1 {
					violate("C18.twice", at.Instr, "a file may be reported twice")
				}
				m.Flags["added"] = 1
				for _, e := range elems {
					for _, v := range variadic(s, e)[1:] {
						if n := r.fieldContent(s, v.Strip(), "Filename"); n != nil && !m.has("name", n) {
							violate("C18.name", at.Instr, "matches may be reported under another name than that of the file they are in")
						}
					}
				}
			}
		},
		Returned: func(s *eng.State, c *eng.Call, res []*eng.Val) {
			m := mon(s)
			if !matching {
				return
			}
			if lineCallback(c.Fn) {
				if s.Nilness(res[1]) == eng.False {
					return
				}
				for _, more := range []bool{true, false} {
					t := s
					if s.Decide(res[0]) == eng.Unknown {
						t = s.Clone()
					}
					if !t.Assume(res[0], more) {
						continue
					}
					if !more && !outOfRange(t, m) && !limitHit(t, m) {
						violate("C18.stop", c.Instr, "the search of a file may stop before offset, range or limit require it")
					}
					if more && !below(t, m) {
						violate("C18.limit", c.Instr, "a search may go on although the limit of matches is reached")
					}
					if m.Flags["now"] != 1 && !outOfRange(t, m) && !limitHit(t, m) {
						violate("C18.dropped", c.Instr, "a match may be dropped")
					}
				}
				for a, role := range roles {
					if role&countsMatches != 0 && m.get("inc", a) != m.Flags["now"] {
						violate("C18.count", c.Instr, "the number of matches compared with the limit may be wrong")
					}
					if role&countsMatches != 0 {
						m.del("inc", a)
					}
				}
				m.clear("more")
				m.put("more", res[0], 1)
				m.Flags["now"] = 0
				for _, n := range []string{"line", "before", "after"} {
					m.clear(n)
				}
				return
			}
			if !matching {
				return
			}
			// the end of the search of one file
			if mentions(c.Fn, func(i ssa.Instruction) bool {
				ci, ok := i.(ssa.CallInstruction)
				return ok && ci.Common().StaticCallee() != nil && r.inPkg(ci.Common().StaticCallee(), "codesearch/regexp") && ci.Common().StaticCallee().Name() == "Match"
			}) {
				n := len(res)
				if n == 0 || !isErrorT(c.Fn.Signature.Results().At(n-1).Type()) || s.Nilness(res[n-1]) != eng.True {
					return
				}
				r.matchPending(s, m, c.Instr, violate)
				done := anyIs(s, m, "more", eng.False)
				for _, v := range m.members("mat") {
					if _, hi := s.Interval(v); hi < 0 {
						done = true
					}
				}
				if !done && m.Flags["usedup"] != 1 {
					violate("C18.stop", c.Instr, "the search of a file may end before the last match")
				}
				m.clear("mat")
				m.clear("more")
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			if !matching {
				if limitHit(s, m) {
					m.Flags["limit"] = 1
				}
				return
			}
			// what the other pass looks at
			for k := range s.Facts {
				if k.Any(func(v *eng.Val) bool {
					return isField(v, "FileRegexp") || isField(v, "ExcludeFileRegexp") || isField(v, "LiteralSearch") || isField(v, "IgnoreCase") || anyMatchString(v)
				}) {
					delete(s.Facts, k)
				}
			}
			for _, v := range m.members("more") {
				if s.Decide(v) == eng.True {
					m.del("more", v)
				}
			}
			// facts which may be forgotten where paths meet
			if positive(s, "MaxResults") == eng.False {
				m.Flags["unlimited"] = 1
			} else if r.boundKnown(s, opt(s, "MaxResults"), "MaxResults", true, roles) {
				m.Flags["below"] = 1
			} else if limitHit(s, m) {
				m.Flags["limit"] = 1
			}
			cond.Any(func(v *eng.Val) bool {
				if v.Kind == eng.KUn && v.Op == "len" && v.Args[0].T != nil {
					if _, hi := s.Interval(v); hi <= 0 {
						if v.Args[0].T.String() == "[]byte" {
							m.Flags["usedup"] = 1
						} else if strings.HasSuffix(v.Args[0].T.String(), "index.Match") {
							m.Flags["none"] = 1
						}
					}
				}
				return false
			})
			if pass != 1 {
				return
			}
			cond.Any(func(v *eng.Val) bool {
				if v.Kind == eng.KBin {
					for i := range v.Args {
						for n, role := range boundRole {
							if a := ld[v.Args[1-i]]; a != nil && isField(v.Args[i], n) {
								roles[a] |= role
							}
						}
					}
				}
				return false
			})
		},
	})
	r.slice(x, func(i ssa.Instruction) bool {
		if calleeIs(i, "os.Open", "os.OpenFile", "io/ioutil.ReadFile", "os.ReadFile") {
			return true
		}
		if ci, ok := i.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil && (r.inPkg(g, "codesearch/regexp") && (g.Name() == "Compile" || g.Name() == "Match" || g.Name() == "MatchString" || g.Name() == "QuoteMeta") || r.inPkg(g, "codesearch/index") && (g.Name() == "PostingQuery" || g.Name() == "RegexpQuery" || g.Name() == "Name")) {
				return true
			}
		}
		n, _ := fieldOf(i)
		return n != nil && r.isNamed(n, "index", "SearchOptions")
	})
	sl := x.OpaqueFn
	x.OpaqueFn = func(g *ssa.Function) bool {
		return strings.HasPrefix(r.P.RelPkg(g), "codesearch/") || sl(g)
	}
	x.Lim, x.FactLim = 2, 8
	m0 := newM()
	for _, e := range x.Run(f, m0) {
		if e.Kind != eng.ExRet {
			continue
		}
		if pass == 1 {
			if g := r.fieldContent(e.S, e.Results[0].Strip(), "FilesWithMatch"); g != nil && e.S.Nilness(e.Results[1]) != eng.False {
				if a := ld[g]; a != nil {
					roles[a] |= countsFiles
				}
			}
			continue
		}
		if e.S.Nilness(e.Results[0]) == eng.True && e.S.Nilness(e.Results[1]) == eng.True {
			r.ViolateFn("C18.nothing", FnName(f), f.Pos(), "a search may return neither a response nor an error")
		}
		if e.S.Nilness(e.Results[1]) == eng.False || e.S.Nilness(e.Results[0]) == eng.True || matching {
			continue
		}
		r.SeenAt("end of a search", FnName(f))
		m := mon(e.S)
		if m.Flags["open"] == 1 && m.Flags["opened"] == 0 && limitHit(e.S, m) {
			r.SeenAt("file left out", "limit reached")
			continue
		}
		if m.Flags["open"] == 1 || len(m.members("files")) == 0 {
			r.ViolateFn("C18.left", FnName(f), f.Pos(), "a search may succeed without having considered every file admitted by the query")
		}
	}
	if pass == 2 {
		r.Absorb(x, FnName(f))
	}
}

// compiled: what an expression is compiled from.
func (r *Report) compiled(s *eng.State, m *M, c *eng.Call, re *eng.Val, opt func(*eng.State, string) *eng.Val, patP *eng.Val, violate func(string, ssa.Instruction, string, ...interface{}), note bool) {
	a := c.Args[0]
	seen := func(k string) {
		if note {
			r.SeenAt("pattern compiled", k)
		}
	}
	switch {
	case a == opt(s, "FileRegexp"):
		m.put("fre", re, 1)
		seen("file pattern")
		return
	case a == opt(s, "ExcludeFileRegexp"):
		m.put("xre", re, 1)
		seen("exclude pattern")
		return
	}
	flags, rest := patternFlags(a)
	if rest == nil || rest != patP && !m.has("quoted", rest) && !quotedTerm(rest, patP) {
		if a.Any(func(v *eng.Val) bool { return v == patP || m.has("quoted", v) }) {
			violate("C18.pattern", c.Instr, "the expression searched for may not be the one asked for")
		}
		return
	}
	seen("pattern searched for")
	m.put("re", re, 1)
	lit := s.Decide(opt(s, "LiteralSearch"))
	if rest == patP && lit != eng.False {
		violate("C18.literal", c.Instr, "a literal search may take the text as a regular expression")
	}
	if rest != patP && lit != eng.True {
		violate("C18.literal", c.Instr, "a regular expression may be searched for literally")
	}
	ic := s.Decide(opt(s, "IgnoreCase"))
	if flags['i'] && ic != eng.True || !flags['i'] && ic != eng.False {
		violate("C18.case", c.Instr, "a search may take case into account otherwise than asked")
	}
	if !flags['m'] || len(flags) > 1 && !flags['i'] || len(flags) > 2 {
		violate("C18.flags", c.Instr, "the pattern may not be matched line by line")
	}
}

// splitErr: a call returns either a value or an error.
func splitErr(r *Report, s *eng.State, v, err *eng.Val) []*eng.State {
	var out []*eng.State
	for _, bad := range []bool{false, true} {
		t := s.Clone()
		if t.AssumeNil(err, !bad) && t.AssumeNil(v, bad) {
			out = append(out, t)
		}
	}
	return out
}

// valueOrError: f returns a non-nil value exactly if it returns no error.
func (r *Report) valueOrError(f *ssa.Function) {
	x := eng.NewExec(r.P, eng.Hooks{})
	x.OpaqueFn = func(g *ssa.Function) bool { return g != f }
	x.Lim, x.FactLim = 2, 8
	for _, e := range x.Run(f, newM()) {
		if e.Kind == eng.ExRet && !(e.S.Nilness(e.Results[0]) == eng.False && e.S.Nilness(e.Results[1]) == eng.True || e.S.Nilness(e.Results[0]) == eng.True && e.S.Nilness(e.Results[1]) == eng.False) {
			r.ViolateFn("C18.compile", FnName(f), f.Pos(), "the compilation of an expression may return neither an expression nor an error, or both")
		}
	}
	r.Absorb(x, FnName(f))
}

func quotedTerm(v, pat *eng.Val) bool {
	return v.Kind == eng.KUn && strings.HasPrefix(v.Op, "pure:") && strings.HasSuffix(v.Op, "QuoteMeta") && v.Args[0].Kind == eng.KTuple && len(v.Args[0].Args) == 1 && v.Args[0].Args[0] == pat
}

// anyMatchString: the result of a match of a string.
func anyMatchString(v *eng.Val) bool {
	c, ok := v.Instr.(*ssa.Call)
	return ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "MatchString"
}

func (r *Report) inPkg(f *ssa.Function, rel string) bool { return f != nil && r.P.RelPkg(f) == rel }

func (r *Report) matchCall(c *eng.Call, name string) bool {
	return c.Fn != nil && r.inPkg(c.Fn, "codesearch/regexp") && c.Fn.Name() == name && c.Fn.Signature.Recv() != nil
}

// matchPending: a match found must have been passed on by now.
func (r *Report) matchPending(s *eng.State, m *M, at ssa.Instruction, violate func(string, ssa.Instruction, string, ...interface{})) {
	if m.Flags["found"] != 1 {
		return
	}
	for _, v := range m.members("mat") {
		if _, hi := s.Interval(v); hi >= 0 {
			violate("C18.dropped", at, "a match found may not be passed on")
		}
	}
}

// isCounterAddr: a local variable holding an int.
func isCounterAddr(a *eng.Val) bool {
	if a.T == nil {
		return false
	}
	p, ok := a.T.Underlying().(*types.Pointer)
	if !ok || p.Elem().String() != "int" {
		return false
	}
	for a.Kind == eng.KField {
		a = a.Args[0]
	}
	return a.Kind == eng.KAlloc
}
