package rules

import (
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C25", "What an operation opens for itself is closed when it returns",
		"path-sensitive execution of every function which opens something (a file, a response of another server, a command): on every path on which it returns, with an error or without, what it has opened has been closed or waited for (and a temporary file removed), or is part of what it returns, then its callers are executed as well, or has been stored in an object which outlives the call",
		func(r *Report) {
			r.released()
			r.Need("what is opened and has to be released", 10)
		})
	r.Assume = []string{"what is stored in an object which outlives the call, handed to another goroutine, or part of a structure which is returned, is released by its owner"}
}

// opener: the call opens something. at is the index of the result, -1 for the receiver.
func opener(name string) (what string, at int) {
	switch name {
	case "os.Open", "os.OpenFile", "os.Create":
		return "file", 0
	case "os.CreateTemp", "io/ioutil.TempFile":
		return "temporary file", 0
	case "os.MkdirTemp", "io/ioutil.TempDir":
		return "temporary directory", 0
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).Head", "net/http.Get", "net/http.Post", "net/http.Head", "(*net/http.Transport).RoundTrip":
		return "response", 0
	case "net.Dial", "net.Listen", "net.DialTimeout":
		return "connection", 0
	case "(*os/exec.Cmd).Start":
		return "command", -1
	}
	return "", 0
}

// closes: the call releases its receiver or first argument. reaps: a command.
func closes(name string) (ok, reaps bool) {
	switch name {
	case "(*os/exec.Cmd).Wait":
		return true, true
	case "os.Remove", "os.RemoveAll", "os.Rename":
		return true, false
	}
	return strings.HasSuffix(name, ").Close"), false
}

func isOpener(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	w, _ := opener(eng.CalleeName(ci.Common()))
	return w != ""
}

// isHandleT: values of the type have to be released by who has them.
func isHandleT(t types.Type) bool {
	switch t.String() {
	case "*os.File", "*net/http.Response", "io.ReadCloser", "io.WriteCloser", "io.ReadWriteCloser", "io.Closer", "*os/exec.Cmd", "net.Conn", "net.Listener":
		return true
	}
	return false
}

// tempObject: an object which has temporary files.
const tempObject = "object"

type resources struct {
	r     *Report
	done  map[*ssa.Function]bool
	gives map[*ssa.Function]map[int]string // results which are open
	temps map[*ssa.Function]bool           // one of them is a temporary file
	opens map[*ssa.Function]bool           // reaches an opener
	rem   map[*ssa.Function]map[int]bool   // parameters, files in which are removed
}

func (r *Report) released() {
	q := &resources{r: r, done: map[*ssa.Function]bool{}, gives: map[*ssa.Function]map[int]string{}, temps: map[*ssa.Function]bool{}, opens: map[*ssa.Function]bool{}}
	q.rem = r.removes()
	used := map[*ssa.Function]bool{}
	for _, f := range r.P.Funcs {
		if isMainFn(f) {
			for g := range r.P.Reach(f) {
				used[g] = true
			}
		}
	}
	for _, f := range r.P.Funcs {
		if !used[f] {
			continue
		}
		for g := range r.P.Reach(f) {
			if mentions(g, isOpener) {
				q.opens[f] = true
			}
		}
	}
	for _, f := range r.P.Funcs {
		if f.Synthetic == "" {
			q.analyse(f)
		}
	}
}

func isMainFn(f *ssa.Function) bool {
	return f.Name() == "main" && f.Parent() == nil && f.Pkg != nil && f.Pkg.Pkg.Name() == "main"
}

// inFunc reports whether g is f or a function literal in f.
func inFunc(g, f *ssa.Function) bool {
	for ; g != nil; g = g.Parent() {
		if g == f {
			return true
		}
	}
	return false
}

// analyse executes f after the functions it calls. Function literals belong to
// the function they are in, and are executed on their own as well, since they
// may run as goroutines.
func (q *resources) analyse(f *ssa.Function) {
	if q.done[f] || !q.opens[f] {
		return
	}
	q.done[f] = true
	for g := range q.r.P.Reach(f) {
		if g != f && g.Synthetic == "" {
			q.analyse(g)
		}
	}
	var opens func(g *ssa.Function) bool
	opens = func(g *ssa.Function) bool {
		ok := mentions(g, func(i ssa.Instruction) bool {
			ci, is := i.(ssa.CallInstruction)
			if !is {
				return false
			}
			h := ci.Common().StaticCallee()
			return isOpener(i) || h != nil && len(q.gives[h]) > 0
		})
		for _, a := range g.AnonFuncs {
			ok = ok || opens(a)
		}
		return ok
	}
	if opens(f) {
		q.run(f)
	}
}

// noReturn: the function always fails.
func (q *resources) noReturn(f *ssa.Function, d int) bool {
	if f == nil || len(f.Blocks) == 0 || d > 4 || !q.r.P.InModule(f) {
		return false
	}
	for _, i := range f.Blocks[0].Instrs {
		if _, ok := i.(*ssa.Panic); ok {
			return true
		}
		if c, ok := i.(*ssa.Call); ok && q.noReturn(c.Call.StaticCallee(), d+1) {
			return true
		}
	}
	return false
}

func takesHandle(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isHandleT(p.Type()) {
			return true
		}
	}
	return false
}

// ends: the function may fail where it does not return.
func (q *resources) ends(f *ssa.Function) bool {
	return mentions(f, func(i ssa.Instruction) bool {
		if _, ok := i.(*ssa.Panic); ok {
			return true
		}
		c, ok := i.(*ssa.Call)
		return ok && q.noReturn(c.Call.StaticCallee(), 0)
	})
}

func (q *resources) run(f *ssa.Function) {
	r := q.r
	in := r.P.In
	what := map[*eng.Val]string{}
	site := map[*eng.Val]ssa.Instruction{}
	nameOf := map[*eng.Val]*eng.Val{}
	live := func(s *eng.State, h *eng.Val) bool { return s.Nilness(h) != eng.True }
	isOpen := func(m *M, x *eng.Val) bool { return m.has("open", x) || m.has("temp", x) }
	refers := func(m *M, v *eng.Val, sub func(*eng.Val)) {
		v.Any(func(x *eng.Val) bool {
			if isOpen(m, x) || m.has("in", x) || localObj(x) {
				sub(x)
			}
			return false
		})
	}
	// escape: v, and what is in it, is released by somebody else
	var escape func(m *M, v *eng.Val, d int)
	escape = func(m *M, v *eng.Val, d int) {
		refers(m, v, func(x *eng.Val) {
			m.del("open", x)
			m.del("temp", x)
			if d < 6 {
				for k := range m.Rel["in"] {
					if k[1] == x && k[0] != x {
						escape(m, k[0], d+1)
					}
				}
			}
		})
	}
	keep := func(s *eng.State, addr, v *eng.Val) {
		m := mon(s)
		o := objectOf(addr)
		if !localObj(o) && !m.has("in", o) {
			escape(m, v, 0)
			return
		}
		refers(m, v, func(x *eng.Val) {
			if x != o && (isOpen(m, x) || m.has("in", x)) {
				m.rel("in", x, o)
				m.put("in", o, 1)
			}
		})
	}
	var closeIn func(m *M, v *eng.Val, cmd, temp bool, d int)
	closeIn = func(m *M, v *eng.Val, cmd, temp bool, d int) {
		if temp {
			m.del("temp", v)
			if what[v] == "temporary directory" {
				m.del("open", v)
			}
		} else if (what[v] == "command") == cmd {
			m.del("open", v)
		}
		if d < 6 {
			for k := range m.Rel["in"] {
				if k[1] == v && k[0] != v {
					closeIn(m, k[0], cmd, temp, d+1)
				}
			}
		}
	}
	event := func(i ssa.Instruction) bool {
		if isOpener(i) {
			return true
		}
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		is, _ := closes(eng.CalleeName(ci.Common()))
		return is
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			is, cmd := closes(c.Name)
			args := s.Args(c)
			if c.Fn != nil && r.P.InModule(c.Fn) && c.Instr != nil && !inFunc(c.Fn, f) && !q.ends(c.Fn) {
				for i := range q.rem[c.Fn] {
					if i < len(args) && what[args[i]] == tempObject {
						m.del("temp", args[i])
					}
				}
				// a function which has nothing to do with what is open
				has := false
				for _, v := range append(append([]*eng.Val{}, args...), c.Binds...) {
					refers(m, v, func(x *eng.Val) { has = has || what[x] != tempObject })
				}
				if !has {
					return eng.Opaque
				}
			}
			if c.Fn != nil {
				for i := range q.rem[c.Fn] {
					if i < len(args) {
						args[i].Any(func(v *eng.Val) bool {
							if what[v] == tempObject {
								m.del("temp", v)
							}
							return false
						})
					}
				}
			}
			if !is || len(args) == 0 {
				return eng.Default
			}
			temp := strings.HasPrefix(c.Name, "os.R")
			args[0].Any(func(v *eng.Val) bool {
				closeIn(m, v, cmd, temp, 0)
				if h := nameOf[v]; h != nil && temp {
					closeIn(m, h, cmd, temp, 0)
				}
				return false
			})
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if c.Instr == nil || res == nil {
				return nil
			}
			ci := c.Instr.(ssa.Instruction)
			n := resultCount(c)
			result := func(i int) *eng.Val {
				if n == 1 {
					return res
				}
				return in.Extract(res, i, resultAt(c, i))
			}
			if c.Name == "(*os.File).Name" {
				if a := s.Args(c); len(a) > 0 {
					nameOf[res] = a[0].Strip()
				}
			}
			w, at := opener(c.Name)
			given := map[int]string(nil)
			if c.Fn != nil {
				given = q.gives[c.Fn]
			}
			if w == "" && len(given) == 0 {
				return nil
			}
			if w != "" {
				r.Seen("what is opened and has to be released", ci)
			}
			if !inFunc(ci.Parent(), f) {
				return nil
			}
			// where it fails, nothing is open
			var out []*eng.State
			if n > 0 && isErrorT(resultAt(c, n-1)) {
				t := s.Clone()
				if !s.AssumeNil(result(n-1), true) {
					return []*eng.State{t}
				}
				if t.AssumeNil(result(n-1), false) {
					out = append(out, t)
				}
			}
			out = append(out, s)
			open := func(h *eng.Val, w string, temp bool) {
				if w == tempObject {
					what[h], site[h] = w, ci
					m.put("temp", h, 1)
					return
				}
				if m.has("open", h) && live(s, h) {
					r.Violate("C25.again", ci, "another %s may be opened while the last one is still open", w)
				}
				what[h], site[h] = w, ci
				m.put("open", h, 1)
				if temp {
					m.put("temp", h, 1)
				}
			}
			switch {
			case at < 0:
				if a := s.Args(c); len(a) > 0 {
					open(a[0].Strip(), w, false)
				}
			case w != "":
				open(result(0), w, strings.HasPrefix(w, "temp"))
			}
			for i, w := range given {
				if i < n {
					open(result(i), w, q.temps[c.Fn])
				}
			}
			return out
		},
		OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) { keep(s, addr, v) },
		OnLoad: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			// a copy of a whole object
			m := mon(s)
			if v == nil || v.T == nil || len(m.Rel["in"]) == 0 {
				return
			}
			if _, ok := v.T.Underlying().(*types.Struct); !ok {
				return
			}
			o := objectOf(addr)
			var parts []*eng.Val
			for k := range m.Rel["in"] {
				if k[1] == o && k[0] != v {
					parts = append(parts, k[0])
				}
			}
			for _, p := range parts {
				m.rel("in", p, v)
				m.put("in", v, 1)
			}
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if v != nil {
				keep(s, mp, v)
			}
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			m := mon(s)
			for _, e := range append([]*eng.Val{base}, elems...) {
				refers(m, e, func(x *eng.Val) {
					if x != res && (isOpen(m, x) || m.has("in", x)) {
						m.rel("in", x, res)
						m.put("in", res, 1)
					}
				})
			}
		},
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) { escape(mon(s), v, 0) },
		OnGo: func(s *eng.State, c *eng.Call) {
			for _, v := range append(append([]*eng.Val{}, s.Args(c)...), c.Binds...) {
				escape(mon(s), v, 0)
			}
		},
	})
	r.slice(x, event)
	base, dyn := x.OpaqueFn, x.OpaqueDyn
	x.OpaqueFn = func(g *ssa.Function) bool {
		return g != f && len(q.gives[g]) > 0 || base(g) && !q.ends(g) && !takesHandle(g)
	}
	x.OpaqueDyn = func(g *ssa.Function) bool { return len(q.gives[g]) > 0 || dyn(g) && !q.ends(g) && !takesHandle(g) }
	for _, e := range x.Run(f, newM()) {
		if e.Kind != eng.ExRet {
			continue
		}
		m := mon(e.S)
		// what the results consist of
		returned := map[*eng.Val]int{}
		var ret func(v *eng.Val, j, d int)
		ret = func(v *eng.Val, j, d int) {
			if _, ok := returned[v]; ok || d > 8 {
				return
			}
			returned[v] = j
			for k := range m.Rel["in"] {
				if k[1] == v {
					ret(k[0], j, d+1)
				}
			}
		}
		for j, v := range e.Results {
			v.Any(func(x *eng.Val) bool {
				ret(x, j, 0)
				return false
			})
		}
		for _, set := range []string{"open", "temp"} {
			for _, h := range m.members(set) {
				if !live(e.S, h) || set == "temp" && what[h] == "temporary directory" {
					continue
				}
				if j, ok := returned[h]; ok {
					if t := f.Signature.Results().At(j).Type(); isHandleT(t) {
						if q.gives[f] == nil {
							q.gives[f] = map[int]string{}
						}
						q.gives[f][j] = what[h]
						q.temps[f] = q.temps[f] || set == "temp"
					}
					if _, ok := derefT(f.Signature.Results().At(j).Type()).(*types.Named); ok && set == "temp" && !isHandleT(f.Signature.Results().At(j).Type()) {
						if q.gives[f] == nil {
							q.gives[f] = map[int]string{}
						}
						q.gives[f][j] = tempObject
					}
					continue
				}
				if isMainFn(f) || what[h] == "command" && q.once(f, 0) {
					continue // kept until the process ends
				}
				if what[h] == tempObject {
					r.Violate("C25.temp", site[h], "%s may return without removing the temporary files of what it has made", FnName(f))
				} else if set == "temp" {
					r.Violate("C25.temp", site[h], "%s may return without removing the temporary file it has made", FnName(f))
				} else if what[h] == "command" {
					r.Violate("C25.open", site[h], "%s may return without waiting for the command it has started", FnName(f))
				} else {
					r.Violate("C25.open", site[h], "%s may return without closing the %s it has opened", FnName(f), what[h])
				}
			}
		}
	}
	r.Absorb(x, FnName(f))
}

// once: the function runs at most once, as part of main.
func (q *resources) once(f *ssa.Function, d int) bool {
	if isMainFn(f) {
		return true
	}
	if d > 3 || f.Pkg == nil || f.Pkg.Pkg.Name() != "main" || f.Parent() != nil {
		return false
	}
	n := 0
	for _, g := range q.r.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op != ssa.Value(f) {
						continue
					}
					ci, ok := in.(*ssa.Call)
					if !ok || ci.Call.StaticCallee() != f || inLoop(in) || !q.once(g, d+1) {
						return false
					}
					n++
				}
			}
		}
	}
	return n == 1
}

// removes: the parameters, files in which a function removes.
func (r *Report) removes() map[*ssa.Function]map[int]bool {
	sum := map[*ssa.Function]map[int]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range r.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					com := ci.Common()
					gone := map[int]bool{}
					if g := com.StaticCallee(); g != nil && r.P.InModule(g) {
						gone = sum[g]
					} else if strings.HasPrefix(eng.CalleeName(com), "os.Remove") {
						gone[0] = true
					}
					for i := range gone {
						if i >= len(com.Args) {
							continue
						}
						partsOf(com.Args[i], map[ssa.Value]bool{}, func(p *ssa.Parameter) {
							fn := p.Parent()
							for k, x := range fn.Params {
								if x == p && !sum[fn][k] {
									if sum[fn] == nil {
										sum[fn] = map[int]bool{}
									}
									sum[fn][k], changed = true, true
								}
							}
						})
					}
				}
			}
		}
	}
	return sum
}

// partsOf finds the parameters v is a part of.
func partsOf(v ssa.Value, seen map[ssa.Value]bool, found func(*ssa.Parameter)) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	defer delete(seen, v)
	go1 := func(x ssa.Value) { partsOf(x, seen, found) }
	switch v := v.(type) {
	case *ssa.Parameter:
		found(v)
	case *ssa.FreeVar:
		fn := v.Parent()
		for i, fv := range fn.FreeVars {
			if fv != v || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						go1(mc.Bindings[i])
					}
				}
			}
		}
	case *ssa.FieldAddr:
		go1(v.X)
	case *ssa.Field:
		go1(v.X)
	case *ssa.UnOp:
		go1(v.X)
	case *ssa.IndexAddr:
		go1(v.X)
	case *ssa.Index:
		go1(v.X)
	case *ssa.Slice:
		go1(v.X)
	case *ssa.Lookup:
		go1(v.X)
	case *ssa.ChangeType:
		go1(v.X)
	case *ssa.Convert:
		go1(v.X)
	case *ssa.ChangeInterface:
		go1(v.X)
	case *ssa.MakeInterface:
		go1(v.X)
	case *ssa.TypeAssert:
		go1(v.X)
	case *ssa.Extract:
		go1(v.Tuple)
	case *ssa.Next:
		go1(v.Iter)
	case *ssa.Range:
		go1(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			go1(e)
		}
	case *ssa.BinOp:
		go1(v.X)
		go1(v.Y)
	case *ssa.Alloc:
		var stores func(a ssa.Value)
		stores = func(a ssa.Value) {
			if a.Referrers() == nil {
				return
			}
			for _, u := range *a.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Addr == a {
						go1(u.Val)
					}
				case *ssa.IndexAddr:
					if u.X == a {
						stores(u)
					}
				case *ssa.FieldAddr:
					if u.X == a {
						stores(u)
					}
				}
			}
		}
		stores(v)
	case *ssa.Call:
		if v.Call.IsInvoke() {
			go1(v.Call.Value)
			return
		}
		for _, a := range v.Call.Args {
			go1(a)
		}
	}
}

// objectOf: the object an address or a value belongs to.
func objectOf(v *eng.Val) *eng.Val {
	for {
		v = v.Strip()
		switch {
		case v.Kind == eng.KField, v.Kind == eng.KIndex, v.Kind == eng.KElem, v.Kind == eng.KFieldV:
			v = v.Args[0]
		case v.Kind == eng.KUn && strings.HasPrefix(v.Op, "slice"):
			v = v.Args[0]
		default:
			return v
		}
	}
}

func localObj(v *eng.Val) bool {
	switch v.Kind {
	case eng.KAlloc:
		return true
	case eng.KUn:
		return v.Op == "make"
	case eng.KStale:
		return len(v.Args) > 0 && localObj(v.Args[0])
	}
	return false
}
