package rules

import (
	"go/token"
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C16", "A failing repository or request does not end the server",
		"effect analysis over the call graph: what may end the process or panic, cut at functions which defer a recovering function before the call and for the types of panics it handles; nothing which ends the process is reachable from a request handler, a goroutine of the server or the making of a searcher, and no panic leaves a goroutine; path-sensitive execution of what these reach: the result of a call is not used where the call may have failed",
		func(r *Report) {
			r.serverSurvives()
			r.Need("request handler", 5)
			r.Need("goroutine of the server", 3)
			r.Need("function which makes searchers", 1)
			r.Need("call which may fail and returns what is used", 10)
		})
	r.Assume = []string{"panics with constant messages under codesearch are assertions which do not fail", "indices which are not fixed, divisions, and nil dereferences other than of results of failed calls do not fault; a length which has been looked at was looked at rightly", "net/http recovers panics of request handlers", "external packages do not panic on the arguments given"}
}

type mayEnd struct {
	r *Report
	b *blocking
	// what can end the process, or leave by a panic, by function
	exits  map[*ssa.Function]ssa.Instruction
	panics map[*ssa.Function]map[ssa.Instruction]string
}

// endsHere: the instruction ends the process.
func endsHere(i ssa.Instruction) bool {
	return calleeIs(i, "os.Exit", "syscall.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "runtime.Goexit", "syscall.Kill", "syscall.Exec")
}

// panicsHere: the panic's type if the instruction panics for a reason which
// may occur.
func (e *mayEnd) panicsHere(i ssa.Instruction) (string, bool) {
	switch i := i.(type) {
	case *ssa.Panic:
		if isConstPanic(i) && (strings.HasPrefix(e.r.P.RelPkg(i.Parent()), "codesearch") || !i.Pos().IsValid()) {
			return "", false
		}
		v := i.X
		for {
			switch w := v.(type) {
			case *ssa.MakeInterface:
				return w.X.Type().String(), true
			case *ssa.ChangeInterface:
				v = w.X
				continue
			case *ssa.Call:
				if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return "", false // what it is panicking about already
				}
			case *ssa.Extract:
				if ta, ok := w.Tuple.(*ssa.TypeAssert); ok {
					v = ta.X
					continue
				}
			case *ssa.TypeAssert:
				v = w.X
				continue
			}
			break
		}
		return "?", true
	case *ssa.Slice, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		if !strings.HasPrefix(e.r.P.RelPkg(i.Parent()), "codesearch") && e.unguarded(i) {
			return "runtime.Error", true
		}
	case *ssa.TypeAssert:
		if !i.CommaOk && isErrorT(i.X.Type()) {
			if _, ok := i.AssertedType.Underlying().(*types.Interface); !ok {
				return "runtime.Error", true
			}
		}
	case ssa.CallInstruction:
		if calleeIs(i, "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln") {
			return "string", true
		}
		n := eng.CalleeName(i.Common())
		if k := strings.LastIndex(n, "."); k >= 0 && strings.HasPrefix(n[k+1:], "Must") && i.Common().StaticCallee() != nil {
			g := i.Common().StaticCallee()
			if e.r.P.InModule(g) {
				return "", false
			}
			for _, a := range i.Common().Args {
				if _, ok := a.(*ssa.Const); !ok {
					if c, ok := a.(*ssa.Call); ok && isConstCall(c) {
						continue
					}
					return "string", true
				}
			}
		}
	}
	return "", false
}

// unguarded: the instruction takes a part at a fixed place of a string or slice
// whose length nothing on the way to it has looked at.
func (e *mayEnd) unguarded(i ssa.Instruction) bool {
	var x ssa.Value
	var at []ssa.Value
	switch i := i.(type) {
	case *ssa.Slice:
		x, at = i.X, []ssa.Value{i.Low, i.High}
	case *ssa.IndexAddr:
		x, at = i.X, []ssa.Value{i.Index}
	case *ssa.Index:
		x, at = i.X, []ssa.Value{i.Index}
	case *ssa.Lookup:
		x, at = i.X, []ssa.Value{i.Index}
	}
	switch t := x.Type().Underlying().(type) {
	case *types.Slice:
	case *types.Basic:
		if t.Info()&types.IsString == 0 {
			return false
		}
	default:
		return false
	}
	_, slice := i.(*ssa.Slice)
	fixed := false
	for _, v := range at {
		switch v := v.(type) {
		case *ssa.Const:
			fixed = fixed || !slice || v.Int64() > 0
		case *ssa.BinOp: // so much before the end
			if c, ok := v.Y.(*ssa.Const); ok && v.Op == token.SUB && c.Int64() > 0 && lenOf(v.X) != nil {
				fixed = true
			}
		}
	}
	return fixed && !e.lengthKnown(x, i, 0)
}

func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

// sameRead: the two values are read from the same place.
func sameRead(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok || !ok2 || x.Op != y.Op {
		return false
	}
	if x.X == y.X {
		return true
	}
	f, ok := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok && ok2 && f.Field == g.Field && (f.X == g.X || sameRead(f.X, g.X))
}

// lengthKnown: the length of x is known where it is made, or a condition on the
// way to the instruction depends on x.
func (e *mayEnd) lengthKnown(x ssa.Value, at ssa.Instruction, depth int) bool {
	switch v := x.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.Slice:
		return true
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && g != nil {
			return true // set once and for all
		}
	case *ssa.Call:
		// at least one part, a fixed number of bytes
		if calleeIs(v, "strings.Split", "strings.SplitN", "bytes.Split", "bytes.SplitN") {
			if ia, ok := at.(*ssa.IndexAddr); ok {
				if c, ok := ia.Index.(*ssa.Const); ok && c.Int64() == 0 {
					return true
				}
			}
		}
		if n := eng.CalleeName(&v.Call); n == "(hash.Hash).Sum" || strings.HasSuffix(n, "EncodeToString") || n == "append" || n == "builtin:append" {
			return true
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return true
		}
	case *ssa.Phi:
		return true
	}
	depends := func(c ssa.Value) bool {
		seen := map[ssa.Value]bool{}
		var in func(v ssa.Value, d int) bool
		in = func(v ssa.Value, d int) bool {
			if v == nil || d > 8 || seen[v] {
				return false
			}
			seen[v] = true
			if sameRead(v, x) {
				return true
			}
			if i, ok := v.(ssa.Instruction); ok {
				if b, ok := v.(*ssa.BinOp); ok && (sameRead(b.X, x) || sameRead(b.Y, x)) {
					// compared with something: says nothing about its length
					_, c1 := b.X.(*ssa.Const)
					_, c2 := b.Y.(*ssa.Const)
					return c1 || c2
				}
				for _, op := range i.Operands(nil) {
					if *op != nil && in(*op, d+1) {
						return true
					}
				}
			}
			return false
		}
		return in(c, 0)
	}
	for b := at.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(d.Instrs) == 0 {
			break
		}
		if c, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && depends(c.Cond) {
			return true
		}
	}
	p, ok := x.(*ssa.Parameter)
	if !ok || depth > 3 {
		return depth > 3
	}
	f := p.Parent()
	n := -1
	for k, q := range f.Params {
		if q == p {
			n = k
		}
	}
	cs := e.b.calls[f]
	if len(cs) == 0 || e.b.taken[f] {
		return true // called from elsewhere
	}
	for _, c := range cs {
		if a := c.Common().Args; n < len(a) && !e.lengthKnown(a[n], c, depth+1) {
			return false
		}
	}
	return true
}

func isConstCall(c *ssa.Call) bool {
	for _, a := range c.Call.Args {
		if _, ok := a.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

// recoversAt: types of panics which do not leave the function because of a
// recovering function deferred before the instruction.
func (e *mayEnd) recovered(at ssa.Instruction, typ string) bool {
	f := at.Parent()
	for _, b := range f.Blocks {
		for k, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			if b == at.Block() {
				if k > instrIndex(at) {
					continue
				}
			} else if !b.Dominates(at.Block()) {
				continue
			}
			if g := d.Call.StaticCallee(); g != nil && handlesPanic(g, typ) {
				return true
			}
		}
	}
	return false
}

func instrIndex(i ssa.Instruction) int {
	for k, j := range i.Block().Instrs {
		if i == j {
			return k
		}
	}
	return -1
}

// handlesPanic: the function recovers and does not panic again with values of
// the type.
func handlesPanic(g *ssa.Function, typ string) bool {
	rec := mentions(g, func(i ssa.Instruction) bool {
		c, ok := i.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "recover"
	})
	if !rec {
		return false
	}
	again := mentions(g, func(i ssa.Instruction) bool {
		_, ok := i.(*ssa.Panic)
		return ok || endsHere(i) || calleeIs(i, "log.Panic", "log.Panicf", "log.Panicln")
	})
	if !again {
		return true
	}
	return mentions(g, func(i ssa.Instruction) bool {
		ta, ok := i.(*ssa.TypeAssert)
		return ok && ta.CommaOk && ta.AssertedType.String() == typ
	})
}

func (e *mayEnd) run() {
	e.exits = map[*ssa.Function]ssa.Instruction{}
	e.panics = map[*ssa.Function]map[ssa.Instruction]string{}
	for changed := true; changed; {
		changed = false
		for _, f := range e.r.P.Funcs {
			for _, bl := range f.Blocks {
				for _, i := range bl.Instrs {
					if endsHere(i) && e.exits[f] == nil {
						e.exits[f] = i
						changed = true
					}
					if t, ok := e.panicsHere(i); ok && !e.recovered(i, t) {
						changed = e.addPanic(f, i, t) || changed
					}
					ci, ok := i.(ssa.CallInstruction)
					if !ok || registers(i) {
						continue
					}
					if _, ok := i.(*ssa.Go); ok {
						continue // on its own
					}
					for _, g := range e.b.callees(ci) {
						if x := e.exits[g]; x != nil && e.exits[f] == nil {
							e.exits[f] = x
							changed = true
						}
						for at, t := range e.panics[g] {
							if !e.recovered(i, t) {
								changed = e.addPanic(f, at, t) || changed
							}
						}
					}
				}
			}
		}
	}
}

func (e *mayEnd) addPanic(f *ssa.Function, i ssa.Instruction, t string) bool {
	m := e.panics[f]
	if m == nil {
		m = map[ssa.Instruction]string{}
		e.panics[f] = m
	}
	if _, ok := m[i]; ok {
		return false
	}
	m[i] = t
	return true
}

func (r *Report) serverSurvives() {
	c := r.newRace()
	c.run()
	b := &blocking{r: r, c: c}
	b.index()
	e := &mayEnd{r: r, b: b}
	e.run()

	server := map[*ssa.Function]bool{}
	for _, f := range r.P.Funcs {
		if f.Name() == "main" && f.Parent() == nil && r.P.RelPkg(f) == "cmds/houndd" {
			server = r.P.Reach(f)
		}
	}
	var safe []*ssa.Function // what they reach must not fault
	for _, f := range r.P.Funcs {
		if f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		switch r.P.RelPkg(f) {
		case "cmds/hound", "client":
			continue
		}
		if isHandlerSig(f.Signature) {
			r.SeenAt("request handler", FnName(f))
			if x := e.exits[f]; x != nil {
				r.Violate("C16.request", x, "a request may end the server process (%s)", FnName(f))
			}
		}
		if r.makesSearchers(f) {
			r.SeenAt("function which makes searchers", FnName(f))
			safe = append(safe, f)
			if x := e.exits[f]; x != nil {
				r.Violate("C16.make", x, "a repository which cannot be fetched or indexed may end the server process (%s)", FnName(f))
			}
			for x := range e.panics[f] {
				r.Violate("C16.make", x, "a repository which cannot be fetched or indexed may end the server process by a panic (%s)", FnName(f))
			}
		}
		if !server[f] {
			continue
		}
		for _, bl := range f.Blocks {
			for _, i := range bl.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				gs := e.b.callees(g)
				if len(gs) == 0 {
					if endsHere(i) {
						r.Violate("C16.goroutine", i, "a goroutine of the server ends the process")
					}
					continue
				}
				r.Seen("goroutine of the server", i)
				for _, h := range gs {
					if shutsDown(h) {
						continue
					}
					safe = append(safe, h)
					if x := e.exits[h]; x != nil {
						r.Violate("C16.goroutine", x, "a goroutine of the server may end the process (%s)", FnName(h))
					}
					for x := range e.panics[h] {
						r.Violate("C16.goroutine", x, "a panic may leave a goroutine and end the server process (%s)", FnName(h))
					}
				}
			}
		}
	}
	r.failedResults(safe)
}

// makesSearchers: an exported function which returns searchers and an error.
func (r *Report) makesSearchers(f *ssa.Function) bool {
	if r.P.RelPkg(f) != "searcher" || f.Signature.Recv() != nil || f.Parent() != nil {
		return false
	}
	res := f.Signature.Results()
	if res.Len() < 2 || !isErrorT(res.At(res.Len()-1).Type()) {
		return false
	}
	return r.isSearcherMap(res.At(0).Type()) || r.isSearcherPtr(res.At(0).Type())
}

// shutsDown: the function waits for a signal.
func shutsDown(f *ssa.Function) bool {
	sig := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && c.Elem().String() == "os.Signal"
	}
	return mentions(f, func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.UnOp:
			return sig(i.X.Type())
		case *ssa.Select:
			for _, s := range i.States {
				if sig(s.Chan.Type()) {
					return true
				}
			}
		}
		return false
	})
}

// mayBeNilResult: the call's first result may be nil when it reports an error.
func mayBeNilResult(ci *ssa.Call) bool {
	res := ci.Call.Signature().Results()
	if res.Len() < 2 || !isErrorT(res.At(res.Len()-1).Type()) {
		return false
	}
	for i := 0; i < res.Len()-1; i++ {
		switch res.At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			return true
		}
	}
	return false
}

// failedResults: results of calls which failed are not used.
func (r *Report) failedResults(roots []*ssa.Function) {
	for f := range r.P.Reach(roots...) {
		if f.Synthetic != "" || f.Parent() != nil && !runsAlone(f) {
			continue
		}
		has := false
		for g := range closuresOf(f) {
			has = has || mentions(g, func(i ssa.Instruction) bool {
				c, ok := i.(*ssa.Call)
				return ok && mayBeNilResult(c)
			})
		}
		if has {
			r.failedIn(f)
		}
	}
}

// runsAlone: the function literal is started as a goroutine.
func runsAlone(f *ssa.Function) bool {
	return mentions(f.Parent(), func(i ssa.Instruction) bool {
		g, ok := i.(*ssa.Go)
		if !ok {
			return false
		}
		if mc := closureOf(g.Call.Value); mc != nil {
			return mc.Fn == ssa.Value(f)
		}
		return g.Call.Value == ssa.Value(f)
	})
}

func closuresOf(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{f: true}
	for _, g := range f.AnonFuncs {
		for h := range closuresOf(g) {
			out[h] = true
		}
	}
	return out
}

func (r *Report) failedIn(f *ssa.Function) {
	use := func(s *eng.State, v *eng.Val, at ssa.Instruction) {
		m := mon(s)
		b := v
		for b.Kind == eng.KField {
			b = b.Args[0]
		}
		for p := range m.Rel["of"] {
			if p[0] != b {
				continue
			}
			if s.Nilness(p[1]) != eng.True && s.Nilness(b) != eng.False {
				r.Violate("C16.nil", at, "the result of a call is used although the call may have failed")
			}
		}
	}
	kept := func(s *eng.State, v *eng.Val, at ssa.Instruction) {
		for p := range mon(s).Rel["of"] {
			if p[0] == v && s.Nilness(p[1]) != eng.True && s.Nilness(v) != eng.False && r.returnsNil(v) {
				r.Violate("C16.nil", at, "the result of a call is put in a collection although the call may have failed")
			}
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if len(c.Args) > 0 && (c.Invoke != nil || c.Fn == nil || c.Fn.Signature.Recv() != nil) && !c.Go {
				com := c.Instr.Common()
				switch {
				case com.IsInvoke():
					use(s, c.Args[0], c.Instr)
				case com.StaticCallee() != nil && com.StaticCallee().Signature.Recv() != nil:
					g := com.StaticCallee()
					if _, ok := g.Signature.Recv().Type().Underlying().(*types.Pointer); ok && !strings.HasPrefix(c.Name, "(*os.File).") && !comparesNil(g) {
						use(s, c.Args[0], c.Instr)
					}
				}
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			ci, ok := c.Instr.(*ssa.Call)
			if !ok || !mayBeNilResult(ci) {
				return nil
			}
			sig := ci.Call.Signature().Results()
			n := sig.Len() - 1
			r.Seen("call which may fail and returns what is used", ci)
			err := r.P.In.Extract(res, n, sig.At(n).Type())
			for i := 0; i < n; i++ {
				switch sig.At(i).Type().Underlying().(type) {
				case *types.Pointer, *types.Interface:
					mon(s).rel("of", r.P.In.Extract(res, i, sig.At(i).Type()), err)
				}
			}
			return nil
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			mon(s).unrel("of", func(a, b *eng.Val) bool {
				return s.Nilness(b) == eng.True || s.Nilness(a) == eng.False
			})
		},
		OnDeref: func(s *eng.State, v *eng.Val, at eng.Site) { use(s, v, at.Instr) },
		OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			if addr.Kind == eng.KIndex {
				kept(s, v, at.Instr)
			}
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if v != nil {
				kept(s, v, at.Instr)
			}
		},
	})
	x.OpaqueFn = func(g *ssa.Function) bool { return g.Parent() == nil && !takesError(g) }
	x.Lim, x.FactLim = 10, 8
	x.Run(f, newM())
	r.Absorb(x, FnName(f))
}

// comparesNil: the method looks whether its receiver is nil.
func comparesNil(g *ssa.Function) bool {
	if len(g.Params) == 0 {
		return false
	}
	return mentions(g, func(i ssa.Instruction) bool {
		b, ok := i.(*ssa.BinOp)
		if !ok {
			return false
		}
		isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
		return b.X == ssa.Value(g.Params[0]) && isNil(b.Y) || b.Y == ssa.Value(g.Params[0]) && isNil(b.X)
	})
}

// returnsNil: the call whose result v is may return nil there.
func (r *Report) returnsNil(v *eng.Val) bool {
	if v.Kind != eng.KExtract || v.Args[0].Instr == nil {
		return true
	}
	ci, ok := v.Args[0].Instr.(ssa.CallInstruction)
	if !ok {
		return true
	}
	g := ci.Common().StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return true
	}
	nils := false
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			ret, ok := i.(*ssa.Return)
			if !ok || b == g.Recover || len(ret.Results) < 2 {
				continue
			}
			var walk func(w ssa.Value, seen map[ssa.Value]bool)
			walk = func(w ssa.Value, seen map[ssa.Value]bool) {
				if seen[w] {
					return
				}
				seen[w] = true
				switch w := w.(type) {
				case *ssa.Const:
					nils = nils || w.IsNil()
				case *ssa.Phi:
					for _, e := range w.Edges {
						walk(e, seen)
					}
				case *ssa.Alloc, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.ChangeInterface:
				case *ssa.UnOp:
					a, ok := w.X.(*ssa.Alloc)
					if !ok {
						nils = true
						return
					}
					for _, ref := range *a.Referrers() {
						switch ref := ref.(type) {
						case *ssa.Store:
							if ref.Addr == ssa.Value(a) {
								walk(ref.Val, seen)
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							nils = true
						}
					}
				default:
					nils = true
				}
			}
			walk(ret.Results[0], map[ssa.Value]bool{})
		}
	}
	return nils
}
