package rules

import (
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "A build that lost data is not reported as a success",
		"error typestate: on every path of index building and of the index writer the error of every call which may fail is, when success is reported, known to be nil or is itself the reported result; otherwise the build fails or the process stops",
		func(r *Report) {
			root := r.buildRoot()
			if root == nil {
				return
			}
			r.errorsKept(root, "C05.lost", "index building", func(f *ssa.Function) bool {
				return r.P.RelPkg(f) == "index"
			}, nil)
			// the writer stops the process instead: each of its functions on its own
			var roots []*ssa.Function
			used := r.P.Reach(root)
			if t := r.writerType(); t != nil {
				for f := range used {
					if f.Signature.Recv() != nil && r.isNamed(f.Signature.Recv().Type(), "codesearch/index", "IndexWriter") {
						roots = append(roots, f)
					}
					if res := f.Signature.Results(); f.Signature.Recv() == nil && res.Len() == 1 && r.isNamed(res.At(0).Type(), "codesearch/index", "IndexWriter") {
						roots = append(roots, f)
					}
				}
			}
			for f := range r.P.Reach(roots...) {
				if !strings.HasPrefix(r.P.RelPkg(f), "codesearch") || len(f.Blocks) == 0 || f.Synthetic != "" {
					continue
				}
				if !mentions(f, r.mayFailInstr) {
					continue
				}
				r.SeenAt("function of the index writer with calls that may fail", FnName(f))
				r.errorsKept(f, "C05.writer", "the index writer", func(g *ssa.Function) bool {
					// helpers which look at an error
					for i := 0; i < g.Signature.Params().Len(); i++ {
						if isErrorT(g.Signature.Params().At(i).Type()) {
							return true
						}
					}
					return g.Parent() != nil
				}, func(s *eng.State, res []*eng.Val) bool {
					// Add reports a failure as the reason of the exclusion
					if len(res) == 1 && types.Identical(res[0].T, types.Typ[types.String]) {
						return emptyStr(s, res[0]) == eng.False || notEmptyTerm(res[0])
					}
					return false
				})
			}
			r.Need("call which may fail", 20)
			r.Need("end without error", 6)
			r.Need("entry the walk may fail to examine", 1)
			r.Need("function of the index writer with calls that may fail", 4)
		})
}

func isErrorT(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// Calls whose failure loses no data: inspections, cleaning up, and writers
// that report an earlier failure again when they are flushed or closed.
func harmlessFailure(n string) bool {
	switch n {
	case "os.Stat", "os.Lstat", "os.Readlink", "path/filepath.EvalSymlinks", "os.Remove", "os.RemoveAll",
		"(*os.File).Close", "(*os.File).Seek", "(io.Closer).Close", "syscall.Munmap",
		"(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune",
		"(*compress/gzip.Writer).Write",
		"(hash.Hash).Write", "(io.Seeker).Seek":
		return true
	}
	for _, p := range []string{"fmt.Print", "log.", "(*log.Logger).", "(*bytes.Buffer).", "(*strings.Builder).", "errors.", "fmt.Errorf"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func errResult(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorT(sig.Results().At(n-1).Type())
}

// buffered: the call writes out what a writer has kept back so far.
func buffered(c *eng.Call) bool {
	switch c.Name {
	case "(*compress/gzip.Writer).Close", "(*compress/gzip.Writer).Flush", "(*compress/zlib.Writer).Close", "(*compress/flate.Writer).Close",
		"(*bufio.Writer).Flush", "(*text/tabwriter.Writer).Flush", "(*encoding/csv.Writer).Flush":
		return true
	}
	return false
}

// mayFailInstr: a call whose error matters.
func (r *Report) mayFailInstr(i ssa.Instruction) bool {
	c, ok := i.(*ssa.Call)
	if !ok || !errResult(c.Call.Signature()) {
		return false
	}
	if f := c.Call.StaticCallee(); f != nil && r.P.InModule(f) {
		return r.mayFail(f)
	}
	n := eng.CalleeName(&c.Call)
	if strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" {
		// writing to a hash or a buffer does not fail
		t := c.Call.Args[0].Type()
		switch a := c.Call.Args[0].(type) {
		case *ssa.ChangeInterface:
			t = a.X.Type()
		case *ssa.MakeInterface:
			t = a.X.Type()
		}
		switch t.String() {
		case "hash.Hash", "hash.Hash32", "hash.Hash64", "*bytes.Buffer", "*strings.Builder":
			return false
		}
	}
	return !harmlessFailure(n)
}

// mayFail: the module function can return an error that matters.
func (r *Report) mayFail(f *ssa.Function) bool {
	for g := range r.P.Reach(f) {
		if mentions(g, func(i ssa.Instruction) bool {
			c, ok := i.(*ssa.Call)
			if !ok {
				return false
			}
			n := eng.CalleeName(&c.Call)
			if n == "errors.New" || n == "fmt.Errorf" {
				return true
			}
			if h := c.Call.StaticCallee(); h != nil && r.P.InModule(h) {
				return false
			}
			return errResult(c.Call.Signature()) && !harmlessFailure(n)
		}) {
			return true
		}
	}
	return false
}

func (r *Report) errorsKept(root *ssa.Function, rule, what string, inline func(*ssa.Function) bool, failed func(*eng.State, []*eng.Val) bool) {
	var sites []ssa.Instruction
	idx := map[ssa.Instruction]int{}
	prune := func(s *eng.State) {
		m := mon(s)
		for _, v := range m.members("err") {
			if s.Nilness(v) == eng.True {
				m.del("err", v)
			} else if v.Kind == eng.KExtract && strings.HasSuffix(eng.CalleeName(sites[m.get("err", v)].(ssa.CallInstruction).Common()), "Reader).Read") {
				// a reader that returned data reports its error again
				n := r.P.In.Extract(v.Args[0], 0, intT)
				if lo, _ := s.Interval(n); lo > 0 || isNonZero(s, n) {
					m.del("err", v)
				}
			}
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			prune(s)
			if walkCallback(c) && s.Nilness(c.Args[2]) != eng.True {
				// the walk could not examine an entry
				r.Seen("entry the walk may fail to examine", c.Instr)
				if _, ok := idx[c.Instr]; !ok {
					idx[c.Instr] = len(sites)
					sites = append(sites, c.Instr)
				}
				mon(s).put("walkerr", c.Args[2], idx[c.Instr])
			}
			return eng.Default
		},
		Returned: func(s *eng.State, c *eng.Call, res []*eng.Val) {
			if !walkCallback(c) || len(res) != 1 {
				return
			}
			m := mon(s)
			for _, v := range m.members("walkerr") {
				if s.Nilness(v) != eng.True && (isSkip(res[0]) != "" || res[0] != v && s.Nilness(res[0]) != eng.False) {
					r.Violate(rule, c.Instr, "%s may succeed although an entry of the tree could not be examined", what)
				}
			}
			m.clear("walkerr")
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			if c.Name == "errors.Is" && isEOF(c.Args[1]) {
				mon(s).rel("iseof", res, c.Args[0])
			}
			if buffered(c) && len(c.Args) > 0 {
				w := c.Args[0].Strip()
				if !c.Defer {
					mon(s).put("flushed", w, 1)
				} else if !mon(s).has("flushed", w) {
					// what is still buffered is written by a call whose error nobody sees
					if _, ok := idx[c.Instr]; !ok {
						idx[c.Instr] = len(sites)
						sites = append(sites, c.Instr)
					}
					mon(s).put("err", r.P.In.Out(c.Ctx, c.Instr, "unseen", errT()), idx[c.Instr])
				}
			}
			if c.Defer || !r.mayFailInstr(c.Instr) {
				return nil
			}
			call := c.Instr.(*ssa.Call)
			r.Seen("call which may fail", c.Instr)
			v := res
			if n := call.Call.Signature().Results().Len(); n > 1 {
				v = r.P.In.Extract(res, n-1, call.Call.Signature().Results().At(n-1).Type())
			}
			if s.Nilness(v) == eng.True {
				return nil
			}
			if _, ok := idx[c.Instr]; !ok {
				idx[c.Instr] = len(sites)
				sites = append(sites, c.Instr)
			}
			mon(s).put("err", v, idx[c.Instr])
			return nil
		},
		MayPanic: func(s *eng.State, c *eng.Call) *eng.State {
			// the writer gives up by a panic, which may be recovered
			if c.Fn == nil || c.Defer || !r.givesUp(c.Fn) {
				return nil
			}
			r.Seen("call which may give up", c.Instr)
			n := s.Clone()
			if _, ok := idx[c.Instr]; !ok {
				idx[c.Instr] = len(sites)
				sites = append(sites, c.Instr)
			}
			v := r.P.In.Out(c.Ctx, c.Instr, "gave up", errT())
			n.AssumeNil(v, false)
			mon(n).put("err", v, idx[c.Instr])
			return n
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			for cond.Kind == eng.KUn && cond.Op == "!" {
				cond, taken = cond.Args[0], !taken
			}
			m := mon(s)
			if taken {
				// the end of the input is no failure
				for _, v := range m.members("err") {
					if cond.Kind == eng.KBin && cond.Op == "==" && (cond.Args[0] == v && isEOF(cond.Args[1]) || cond.Args[1] == v && isEOF(cond.Args[0])) {
						m.del("err", v)
					}
					if m.Rel["iseof"][[2]*eng.Val{cond, v}] {
						m.del("err", v)
					}
				}
			}
			m.unrel("iseof", func(a, b *eng.Val) bool { return a == cond })
			prune(s)
		},
	})
	rel := func(f *ssa.Function) bool {
		for g := range r.P.Reach(f) {
			if mentions(g, r.mayFailInstr) {
				return true
			}
		}
		return false
	}
	memo := map[*ssa.Function]bool{}
	x.OpaqueFn = func(f *ssa.Function) bool {
		v, ok := memo[f]
		if !ok {
			v = !inline(f) || !(rel(f) || takesError(f) || f.Parent() != nil)
			if f.Synthetic != "" && f.Pkg == nil {
				v = false
			}
			memo[f] = v
		}
		return v
	}
	x.Lim, x.FactLim = 12, 10
	for _, e := range x.Run(root, newM()) {
		if e.Kind != eng.ExRet {
			continue
		}
		prune(e.S)
		if failed != nil && failed(e.S, e.Results) {
			continue
		}
		var res *eng.Val
		if n := len(e.Results); n > 0 && errResult(root.Signature) {
			res = e.Results[n-1]
			if e.S.Nilness(res) == eng.False {
				continue
			}
		}
		r.SeenAt("end without error", FnName(root))
		m := mon(e.S)
		for _, v := range m.members("err") {
			if v == res {
				continue
			}
			i := sites[m.get("err", v)]
			r.Violate(rule, i, "%s may succeed although %s failed", what, calleeText(i))
		}
	}
	r.Absorb(x, FnName(root))
}

// givesUp: the function of the module can end by a panic of its own which is
// not an assertion.
func (r *Report) givesUp(f *ssa.Function) bool {
	if !r.P.InModule(f) {
		return false
	}
	for g := range r.P.Reach(f) {
		if mentions(g, func(i ssa.Instruction) bool {
			p, ok := i.(*ssa.Panic)
			return ok && !isConstPanic(p)
		}) {
			return true
		}
	}
	return false
}

func isConstPanic(p *ssa.Panic) bool {
	v := p.X
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	_, ok := v.(*ssa.Const)
	return ok
}

func errT() types.Type { return types.Universe.Lookup("error").Type() }

func takesError(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if isErrorT(f.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func calleeText(i ssa.Instruction) string {
	n := eng.CalleeName(i.(ssa.CallInstruction).Common())
	return strings.ReplaceAll(n, "github.com/hound-search/hound/", "")
}

func isEOF(v *eng.Val) bool {
	return v.Kind == eng.KLoad && v.Args[0].Kind == eng.KGlobal && strings.Contains(v.Args[0].G.Name(), "EOF")
}

func isNonZero(s *eng.State, v *eng.Val) bool {
	if f, ok := s.Facts[v]; ok && f.HasNE && f.NE == 0 {
		return true
	}
	for k, f := range s.Facts {
		if k.Kind == eng.KBin && k.Op == "==" && f.Bool < 0 && (k.Args[0] == v && isZeroConst(k.Args[1]) || k.Args[1] == v && isZeroConst(k.Args[0])) {
			return true
		}
	}
	return false
}
