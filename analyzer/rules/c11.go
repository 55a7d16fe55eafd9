package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C11", "Requests are answered while repositories are updated",
		"for every function: which operations it may wait for without bound (version control commands, index builds, network requests, sleeping, channels and wait groups others serve) and which locks it may take, by way of all it calls; lockset analysis of what is held meanwhile. No request handler waits for any of them; nothing is waited for while a lock is held which a request takes; locks are taken in one order; path-sensitive execution of every function which takes a lock: released exactly once on every path",
		func(r *Report) {
			c := r.newRace()
			c.run()
			b := &blocking{r: r, c: c, waits: map[*ssa.Function]map[string]ssa.Instruction{}, takes: map[*ssa.Function]map[string]ssa.Instruction{}}
			b.index()
			b.run()
			r.Need("request handler", 5)
			r.Need("unbounded wait", 10)
			r.Need("lock taken by a request", 2)
			r.locksReleased()
			r.Need("function which takes a lock", 6)
		})
	r.Assume = []string{"reading and writing files and compiling or matching an expression come to an end", "a wait of at most a second is none"}
}

type blocking struct {
	r     *Report
	c     *race
	waits map[*ssa.Function]map[string]ssa.Instruction // what it may wait for
	takes map[*ssa.Function]map[string]ssa.Instruction // locks it may take
	calls map[*ssa.Function][]ssa.CallInstruction
	taken map[*ssa.Function]bool // its value is used otherwise than called
	bySig map[string][]*ssa.Function
}

// ownChan: the channel was made in the function or one it is nested in, so that
// only goroutines started there serve it.
func (b *blocking) ownChan(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeChan:
			return true
		case *ssa.ChangeType:
			return walk(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.Const:
			return true
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return false
			}
			switch a := v.X.(type) {
			case *ssa.Alloc:
				return localStores(a, walk)
			case *ssa.FreeVar:
				return walkFree(a, walk)
			case *ssa.IndexAddr:
				return false
			}
		case *ssa.FreeVar:
			return walkFree(v, walk)
		case *ssa.Parameter:
			f := v.Parent()
			n := -1
			for k, p := range f.Params {
				if p == v {
					n = k
				}
			}
			cs := b.calls[f]
			if n < 0 || len(cs) == 0 || b.taken[f] || isHandlerSig(f.Signature) {
				return false
			}
			for _, c := range cs {
				if args := c.Common().Args; n >= len(args) || !walk(args[n]) {
					return false
				}
			}
			return true
		}
		return false
	}
	return walk(v)
}

func localStores(a *ssa.Alloc, walk func(ssa.Value) bool) bool {
	n := 0
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			n++
			if !walk(st.Val) {
				return false
			}
		}
	}
	return n > 0
}

func walkFree(v *ssa.FreeVar, walk func(ssa.Value) bool) bool {
	f := v.Parent()
	for n, fv := range f.FreeVars {
		if fv != v || f.Parent() == nil {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					switch u := mc.Bindings[n].(type) {
					case *ssa.Alloc:
						return localStores(u, walk)
					default:
						return walk(u)
					}
				}
			}
		}
	}
	return false
}

func timerChan(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		return calleeIs(v, "time.After", "time.Tick")
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			n, _ := fieldOf(fa)
			return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
		}
	}
	return false
}

// shortTimer: a timer of at most a second.
func shortTimer(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || !timerChan(v) || len(c.Call.Args) != 1 {
		return false
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	return ok && k.Value != nil && k.Int64() <= 1000000000
}

// wait is what the instruction itself waits for: "own" if only for goroutines
// the function has started.
func (b *blocking) wait(i ssa.Instruction) string {
	what := func(v ssa.Value, op string) string {
		if timerChan(v) {
			if shortTimer(v) {
				return ""
			}
			return "time to pass"
		}
		if b.ownChan(v) {
			return "own"
		}
		return op
	}
	switch i := i.(type) {
	case *ssa.Send:
		return what(i.Chan, "room in a channel")
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return what(i.X, "a message of another goroutine")
		}
	case *ssa.Select:
		if !i.Blocking {
			return ""
		}
		out := "own"
		for _, s := range i.States {
			if shortTimer(s.Chan) {
				return ""
			}
			if k := what(s.Chan, "a message of another goroutine"); k != "own" {
				out = k
			}
		}
		return out
	case ssa.CallInstruction:
		if _, ok := i.(*ssa.Go); ok {
			return ""
		}
		if b.r.isHeavyInstr(i) {
			if i.Common().IsInvoke() {
				return "an update of a repository"
			}
			return "an index build"
		}
		name := eng.CalleeName(i.Common())
		switch name {
		case "time.Sleep":
			return "time to pass"
		case "(*sync.WaitGroup).Wait":
			return "own"
		case "(*sync.Cond).Wait":
			return "another goroutine"
		case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Start", "(*os.Process).Wait":
			return "a command"
		case "net/http.Get", "net/http.Head", "net/http.Post", "net/http.PostForm", "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "net.Dial", "net.DialTimeout":
			return "another server"
		case "net/http.ListenAndServe", "(*net/http.Server).ListenAndServe", "net/http.Serve", "(*net/http.Server).Serve":
			return "the end of the server"
		case "path/filepath.Walk", "path/filepath.WalkDir":
			return "a walk over a tree"
		}
	}
	return ""
}

// lockName names the lock in the same way everywhere.
func (b *blocking) lockName(f *ssa.Function, ps rset) string {
	if !samePlace(ps) {
		return ""
	}
	for _, p := range ps {
		n := b.c.place(p, f)
		if p.kind != 'G' && !strings.Contains(n, ".") {
			n = fmt.Sprintf("%s (%s)", n, FnName(f))
		}
		return n
	}
	return ""
}

func (b *blocking) run() {
	r, c := b.r, b.c
	add := func(m map[*ssa.Function]map[string]ssa.Instruction, f *ssa.Function, k string, i ssa.Instruction) bool {
		if m[f] == nil {
			m[f] = map[string]ssa.Instruction{}
		}
		if m[f][k] != nil {
			return false
		}
		m[f][k] = i
		return true
	}
	joins := map[*ssa.Function]bool{}
	for _, f := range r.P.Funcs {
		joins[f] = mentions(f, func(i ssa.Instruction) bool { return b.wait(i) == "own" })
	}
	for changed := true; changed; {
		changed = false
		for _, f := range r.P.Funcs {
			x := c.fun(f)
			for _, bl := range f.Blocks {
				for _, i := range bl.Instrs {
					if w := b.wait(i); w != "" && w != "own" {
						r.Seen("unbounded wait", i)
						changed = add(b.waits, f, w, i) || changed
					}
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if ps, lock, _ := c.lockCall(x, ci); lock {
						if n := b.lockName(f, ps); n != "" {
							changed = add(b.takes, f, n, i) || changed
						}
						continue
					}
					_, spawn := i.(*ssa.Go)
					for _, g := range b.callees(ci) {
						if spawn && !joins[f] {
							continue
						}
						for k := range b.waits[g] {
							changed = add(b.waits, f, k, i) || changed
						}
						for k := range b.takes[g] {
							changed = add(b.takes, f, k, i) || changed
						}
					}
				}
			}
		}
	}
	// handlers
	wanted := map[string]string{}
	for _, f := range r.P.Funcs {
		if !isHandlerSig(f.Signature) {
			continue
		}
		r.SeenAt("request handler", FnName(f))
		for k, i := range b.waits[f] {
			at := b.site(f, k, i)
			r.Violate("C11.wait", at, "the request handled by %s may have to wait for %s", FnName(f), k)
		}
		for k := range b.takes[f] {
			wanted[k] = FnName(f)
			r.SeenAt("lock taken by a request", k)
		}
	}
	// what is waited for, and which locks are taken, under locks
	order := map[string]map[string]ssa.Instruction{}
	edge := func(from, to string, at ssa.Instruction) {
		if order[from] == nil {
			order[from] = map[string]ssa.Instruction{}
		}
		if order[from][to] == nil {
			order[from][to] = at
		}
	}
	for _, f := range r.P.Funcs {
		x := c.fun(f)
		var defers []*ssa.Defer
		for _, bl := range f.Blocks {
			for _, i := range bl.Instrs {
				if d, ok := i.(*ssa.Defer); ok {
					defers = append(defers, d)
				}
			}
		}
		visit := func(i ssa.Instruction, l rlocks) {
			if len(l) == 0 {
				return
			}
			var held []string
			for _, k := range l {
				held = append(held, b.lockName(f, rset{"": k.p}))
			}
			var ws, ts []string
			if w := b.wait(i); w != "" && w != "own" {
				ws = append(ws, w)
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				if ps, lock, _ := c.lockCall(x, ci); lock {
					if n := b.lockName(f, ps); n != "" {
						ts = append(ts, n)
					}
				} else if _, spawn := i.(*ssa.Go); !spawn || joins[f] {
					for _, g := range b.callees(ci) {
						for k := range b.waits[g] {
							ws = append(ws, k)
						}
						for k := range b.takes[g] {
							ts = append(ts, k)
						}
					}
				}
			}
			sort.Strings(ws)
			for _, h := range held {
				for _, w := range ws {
					if by := wanted[h]; by != "" && !isHandlerSig(f.Signature) {
						r.Violate("C11.held", i, "%s, which requests take, may be held while waiting for %s", h, w)
					}
				}
				for _, t := range ts {
					r.SeenAt("order of two locks", h+" before "+t)
					edge(h, t, i)
				}
			}
		}
		for _, bl := range f.Blocks {
			l, ok := x.in[bl]
			if !ok {
				continue
			}
			for _, i := range bl.Instrs {
				switch i.(type) {
				case *ssa.Defer:
					continue
				case *ssa.RunDefers:
					for n := len(defers) - 1; n >= 0; n-- {
						visit(defers[n], l)
						l = c.locked(x, l, defers[n])
					}
					continue
				}
				visit(i, l)
				l = c.transfer(x, l, i, nil)
			}
		}
	}
	// cycles
	for from := range order {
		seen := map[string]bool{}
		var back func(n string) bool
		back = func(n string) bool {
			if n == from {
				return true
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			for m := range order[n] {
				if back(m) {
					return true
				}
			}
			return false
		}
		for to, at := range order[from] {
			if to == from {
				r.Violate("C11.order", at, "%s may be taken while it is held", from)
			} else if from < to && back(to) {
				r.Violate("C11.order", at, "%s and %s may be taken in either order", from, to)
			}
		}
	}
}

func (b *blocking) index() {
	b.calls, b.taken, b.bySig = map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.Function]bool{}, map[string][]*ssa.Function{}
	for _, f := range b.r.P.Funcs {
		for _, bl := range f.Blocks {
			for _, i := range bl.Instrs {
				ci, _ := i.(ssa.CallInstruction)
				if ci != nil {
					if g := ci.Common().StaticCallee(); g != nil && f.Synthetic == "" {
						b.calls[g] = append(b.calls[g], ci)
					}
				}
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || ci != nil && op == &ci.Common().Value {
						continue
					}
					if mc, ok := i.(*ssa.MakeClosure); ok {
						only := true
						for _, ref := range *mc.Referrers() {
							if rc, ok := ref.(ssa.CallInstruction); !ok || rc.Common().Value != ssa.Value(mc) {
								only = false
							}
						}
						if only {
							continue
						}
					}
					if !b.taken[g] {
						b.taken[g] = true
						k := sigKey(g.Signature)
						b.bySig[k] = append(b.bySig[k], g)
					}
				}
			}
		}
	}
}

// callees of a call, functions passed along included.
func (b *blocking) callees(ci ssa.CallInstruction) []*ssa.Function {
	gs := b.c.callees(ci)
	if registers(ci.(ssa.Instruction)) {
		return gs
	}
	if eng.CalleeName(ci.Common()) == "time.AfterFunc" {
		return gs
	}
	gs = append([]*ssa.Function(nil), gs...)
	if com := ci.Common(); !com.IsInvoke() && com.StaticCallee() == nil {
		switch v := com.Value.(type) {
		case *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar, *ssa.MakeClosure:
			// what is passed counts where it is passed
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && b.r.P.InModule(g) {
				gs = nil
				for _, mc := range returnedClosures(g) {
					gs = append(gs, mc.Fn.(*ssa.Function))
				}
			}
		default:
			for _, g := range b.bySig[sigKey(com.Signature())] {
				gs = append(gs, g)
			}
		}
	}
	for _, a := range ci.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		if mc := closureOf(a); mc != nil {
			gs = append(gs, mc.Fn.(*ssa.Function))
		} else if f, ok := a.(*ssa.Function); ok && b.r.P.InModule(f) {
			gs = append(gs, f)
		}
	}
	return gs
}

// site is the instruction which waits in the end.
func (b *blocking) site(f *ssa.Function, k string, i ssa.Instruction) ssa.Instruction {
	seen := map[ssa.Instruction]bool{}
	for !seen[i] {
		seen[i] = true
		if b.wait(i) == k {
			break
		}
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			break
		}
		var next ssa.Instruction
		for _, g := range b.callees(ci) {
			if j := b.waits[g][k]; j != nil {
				next = j
			}
		}
		if next == nil {
			break
		}
		i = next
	}
	return i
}

type lockHit struct {
	at  ssa.Instruction
	msg string
	end bool // nothing but a caller may make up for it
}

// locksReleased: every function leaves locks as it found them, or its callers
// do.
func (r *Report) locksReleased() {
	memo := map[*ssa.Function][]lockHit{}
	entered := map[*ssa.Function]map[*ssa.Function]bool{}
	busy := map[*ssa.Function]bool{}
	var check func(f *ssa.Function) []lockHit
	reach := func(f *ssa.Function) bool {
		for g := range r.P.Reach(f) {
			if mentions(g, isLockInstr) {
				return true
			}
		}
		return false
	}
	check = func(f *ssa.Function) []lockHit {
		if h, ok := memo[f]; ok {
			return h
		}
		if busy[f] {
			return nil
		}
		busy[f] = true
		var hits []lockHit
		seen := map[string]bool{}
		hit := func(at ssa.Instruction, msg string, end bool) {
			if k := fmt.Sprintf("%p%s", at, msg); !seen[k] {
				seen[k] = true
				hits = append(hits, lockHit{at, msg, end})
			}
		}
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				k, a := lockOp(c)
				at, _ := c.Instr.(ssa.Instruction)
				switch k {
				case lkLock, lkRLock:
					if m.get("lock", a) != 0 {
						hit(at, "a lock may be taken while it is held", false)
					}
					trackLocks(m, c)
					return eng.Opaque
				case lkUnlock, lkRUnlock:
					held := m.get("lock", a)
					switch {
					case held == 0:
						hit(at, "a lock may be released which is not held", true)
					case (held == 2) != (k == lkUnlock):
						hit(at, "a lock is released in another mode than it was taken", false)
					}
					trackLocks(m, c)
					return eng.Opaque
				}
				if c.Fn == nil || !r.P.InModule(c.Fn) && c.Fn.Synthetic == "" {
					return eng.Default
				}
				if c.Go || !reach(c.Fn) {
					return eng.Opaque
				}
				if c.Fn.Synthetic == "" && c.Fn.Parent() == nil && len(c.Fn.FreeVars) == 0 && !takesFunc(c.Fn) && !givesFunc(c.Fn) && len(check(c.Fn)) == 0 {
					return eng.Opaque
				}
				return eng.Inline
			},
			OnEnter: func(s *eng.State, fn *ssa.Function, ctx *eng.Ctx, args []*eng.Val) {
				entered[f][fn] = true
			},
		})
		entered[f] = map[*ssa.Function]bool{}
		for _, e := range x.Run(f, newM()) {
			if e.Kind != eng.ExRet {
				continue
			}
			for range mon(e.S).members("lock") {
				hit(nil, "a lock may be left held", true)
			}
		}
		r.Absorb(x, FnName(f))
		busy[f] = false
		memo[f] = hits
		return hits
	}
	callers := r.P.CallersOf()
	spawned := map[*ssa.Function]bool{}
	for _, f := range r.P.Funcs {
		mentions(f, func(i ssa.Instruction) bool {
			if g, ok := i.(*ssa.Go); ok {
				if h := g.Call.StaticCallee(); h != nil {
					spawned[h] = true
				}
			}
			return false
		})
	}
	var report func(f *ssa.Function, depth int)
	report = func(f *ssa.Function, depth int) {
		var own []lockHit
		up := false
		for _, h := range check(f) {
			if h.end {
				up = true
			} else {
				own = append(own, h)
			}
		}
		if up {
			// those who call it may make up for it
			var cs []*ssa.Function
			all := callers[f]
			if f.Parent() != nil {
				all = append(append([]*ssa.Function(nil), all...), callers[f.Parent()]...)
			}
			for _, g := range all {
				if check(g); g != f && entered[g][f] {
					cs = append(cs, g)
				}
			}
			if len(cs) > 0 && depth < 3 && !spawned[f] && !isHandlerSig(f.Signature) {
				for _, g := range cs {
					report(g, depth+1)
				}
			} else {
				own = check(f)
			}
		}
		for _, h := range own {
			if h.at != nil {
				r.Violate("C11.release", h.at, "%s", h.msg)
			} else {
				r.ViolateFn("C11.release", FnName(f), f.Pos(), "%s by %s", h.msg, FnName(f))
			}
		}
	}
	for _, f := range r.P.Funcs {
		if f.Synthetic != "" || !mentions(f, isLockInstr) {
			continue
		}
		r.SeenAt("function which takes a lock", FnName(f))
		report(f, 0)
	}
}

func takesFunc(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func givesFunc(f *ssa.Function) bool {
	for n := 0; n < f.Signature.Results().Len(); n++ {
		if _, ok := f.Signature.Results().At(n).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}
