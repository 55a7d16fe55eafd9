package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokEQL = token.EQL

type siteT struct {
	ctx   *Ctx
	instr ssa.Instruction
}

// Call describes one call about to be made in an abstract state.
type Call struct {
	Instr  ssa.CallInstruction
	Ctx    *Ctx
	Fn     *ssa.Function // resolved callee, if any
	Name   string        // canonical name of the callee
	Args   []*Val        // receiver first
	Binds  []*Val        // free variable bindings for closures
	Defer  bool
	Go     bool
	Invoke *types.Func // interface method, when dynamic
	FnVal  *Val
}

func (c *Call) Pos() token.Pos {
	if c.Instr != nil {
		return c.Instr.Pos()
	}
	return token.NoPos
}

type Action int

const (
	Default Action = iota
	Opaque         // do not look inside
	Inline         // always look inside
	Halt           // path ends here
	Prune          // path infeasible / not of interest
)

// Hooks are the property's view of the execution. Any may be nil.
type Hooks struct {
	OnCall    func(s *State, c *Call) Action
	AfterCall func(s *State, c *Call, res *Val) []*State                            // after opaque calls
	Returned  func(s *State, c *Call, res []*Val)                                   // after inlined calls
	OnLoad    func(s *State, addr, val *Val, at Site)                               // memory read
	OnStore   func(s *State, addr, val *Val, at Site)                               // memory write
	OnLookup  func(s *State, m, k, val *Val, at Site)                               // map read
	OnUpdate  func(s *State, m, k, val *Val, at Site)                               // map write
	OnSend    func(s *State, ch, v *Val, blocking bool, at Site)                    // channel send
	OnRecv    func(s *State, ch, v *Val, blocking bool, at Site)                    // channel receive
	OnIter    func(s *State, container *Val, more bool, key *Val, el *Val, at Site) // loop over container
	OnGo      func(s *State, c *Call)
	OnDeref   func(s *State, v *Val, at Site) // v is dereferenced here
	OnEnter   func(s *State, fn *ssa.Function, ctx *Ctx, args []*Val)
	OnBranch  func(s *State, cond *Val, taken bool, at Site)
	OnAppend  func(s *State, base, res *Val, elems []*Val, at Site)
	// OnCopy: the elements of src are copied to those of dst.
	OnCopy func(s *State, dst, src *Val, at Site)
	// MayPanic: the opaque call may panic, in the state returned (nil: it does not).
	MayPanic func(s *State, c *Call) *State
}

// Site locates an event.
type Site struct {
	Ctx   *Ctx
	Instr ssa.Instruction
}

func (s Site) Pos() token.Pos { return s.Instr.Pos() }

type ExitKind int

const (
	ExRet ExitKind = iota
	ExPanic
	ExHalt // process exit
)

type Exit struct {
	Kind    ExitKind
	S       *State
	Results []*Val
}

// Thread is a goroutine (or other asynchronous entry) found while executing.
type Thread struct {
	Call *Call
	S    *State
	Kind string // "go", "async"
	Reg  []*Val // arguments of the call which registered an async one
}

type Exec struct {
	In     *Interner
	P      *Prog
	H      Hooks
	Budget int // remaining block visits
	Over   bool
	Lim    int // merge limit per block
	// FactLim bounds the fact sets kept apart per store (0: default).
	FactLim int
	Depth   int
	// panicking: the deferred call being executed runs because of a panic.
	panicking bool
	// OpaqueFn says which module functions are not looked into.
	OpaqueFn func(*ssa.Function) bool
	// OpaqueDyn is the same for calls with several possible callees.
	OpaqueDyn func(*ssa.Function) bool
	Threads   []*Thread
	live      map[*ssa.Function]*liveInfo
	Visits    int
	Funcs     map[*ssa.Function]bool
	NStates   int
	Merged    int
	// SyncExternals lists external functions that call their function
	// arguments asynchronously.
}

func NewExec(p *Prog, h Hooks) *Exec {
	return &Exec{In: p.In, P: p, H: h, Budget: 400000, Lim: 48, Depth: 40, live: map[*ssa.Function]*liveInfo{}, Funcs: map[*ssa.Function]bool{}}
}

func (x *Exec) NewState(m Monitor) *State {
	return &State{x: x, Mem: map[*Val]*Val{}, Facts: map[*Val]Fact{}, Mon: m}
}

// Run executes fn as a root with symbolic parameters.
func (x *Exec) Run(fn *ssa.Function, m Monitor) []Exit {
	s := x.NewState(m)
	var args []*Val
	for i, p := range fn.Params {
		args = append(args, x.In.Param(fn, p.Name(), i, p.Type()))
	}
	var binds []*Val
	for i, f := range fn.FreeVars {
		binds = append(binds, x.In.Param(fn, f.Name(), 1000+i, f.Type()))
	}
	return x.RunWith(fn, args, binds, s)
}

// RunWith executes fn as a root with the given arguments.
func (x *Exec) RunWith(fn *ssa.Function, args, binds []*Val, s *State) []Exit {
	ctx := x.In.ctx(nil, nil, fn)
	return x.runFunc(fn, ctx, args, binds, s, nil)
}

// RunThreads executes the goroutines and asynchronous callbacks found so far,
// transitively, each in its spawn context. mon gives the initial property
// state (nil: skip); done receives the exits per thread function.
func (x *Exec) RunThreads(mon func(t *Thread) Monitor, done func(t *Thread, exits []Exit)) {
	seen := map[string]bool{}
	for round, i := 0, 0; i < len(x.Threads) && !x.Over; round++ {
		if round > 30 {
			x.Over = true
			return
		}
		batch := x.Threads[i:]
		i = len(x.Threads)
		groups := map[*Ctx][]*pstate{}
		rep := map[*Ctx]*Thread{}
		var order []*Ctx
		for _, t := range batch {
			if t.Call.Fn == nil || len(t.Call.Fn.Blocks) == 0 {
				continue
			}
			m := mon(t)
			if m == nil {
				continue
			}
			s := t.S.Clone()
			s.Mon = m
			s.olog, s.pend = nil, nil
			ctx := x.In.ctx(t.Call.Ctx, t.Call.Instr, t.Call.Fn)
			ps := x.entry(t.Call.Fn, t.Call.Args, t.Call.Binds, s)
			k := fmt.Sprintf("%d|", ctx.id) + ps.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			if rep[ctx] == nil {
				rep[ctx] = t
				order = append(order, ctx)
			}
			groups[ctx] = append(groups[ctx], ps)
		}
		for _, ctx := range order {
			t := rep[ctx]
			ex := x.runStates(t.Call.Fn, ctx, groups[ctx], nil)
			if done != nil {
				done(t, ex)
			}
		}
	}
}

type deferRec struct {
	call *Call
}

type pstate struct {
	s      *State
	env    map[ssa.Value]*Val
	defers []*deferRec
	// while deferred calls run
	pan uint8
}

// Whether the deferred calls run because of a panic, which one of them may
// have recovered.
const (
	panNone uint8 = iota
	panActive
	panRecovered
)

func (p *pstate) clone() *pstate {
	n := &pstate{s: p.s.Clone(), env: make(map[ssa.Value]*Val, len(p.env)), defers: append([]*deferRec(nil), p.defers...), pan: p.pan}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

func (p *pstate) key() string {
	return p.baseKey() + "#" + p.s.factKey() + "#" + string(rune('0'+p.pan))
}

// baseKey identifies everything but the facts.
func (p *pstate) baseKey() string {
	parts := make([]string, 0, len(p.env))
	for k, v := range p.env {
		parts = append(parts, fmt.Sprintf("%p=%d", k, v.ID))
	}
	sort.Strings(parts)
	var d strings.Builder
	for _, r := range p.defers {
		fmt.Fprintf(&d, "%p", r.call.Instr)
		for _, a := range r.call.Args {
			fmt.Fprintf(&d, ",%d", a.ID)
		}
		for _, a := range r.call.Binds {
			fmt.Fprintf(&d, ",%d", a.ID)
		}
		d.WriteByte(';')
	}
	return strings.Join(parts, ";") + "#" + d.String() + "#" + p.s.memKey()
}

type frame struct {
	x     *Exec
	outer map[*Val]bool // atoms in the environments of callers
	fn    *ssa.Function
	ctx   *Ctx
	keep  []*Val
	li    *liveInfo
	exits []Exit
	pend  map[loc]*pending
	queue map[loc]bool
}

type loc struct {
	b   *ssa.BasicBlock
	idx int
}

type item struct {
	b   *ssa.BasicBlock
	idx int
	ps  *pstate
}

func (x *Exec) onStack(ctx *Ctx, fn *ssa.Function) bool {
	for c := ctx; c != nil; c = c.Parent {
		if c.Fn == fn {
			return true
		}
	}
	return false
}

func (x *Exec) runFunc(fn *ssa.Function, ctx *Ctx, args, binds []*Val, s *State, keep []*Val) []Exit {
	if x.H.OnEnter != nil {
		x.H.OnEnter(s, fn, ctx, args)
	}
	return x.runStates(fn, ctx, []*pstate{x.entry(fn, args, binds, s)}, keep)
}

func (x *Exec) entry(fn *ssa.Function, args, binds []*Val, s *State) *pstate {
	ps := &pstate{s: s, env: map[ssa.Value]*Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			ps.env[p] = args[i]
		} else {
			ps.env[p] = x.In.Param(fn, p.Name(), i, p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			ps.env[fv] = binds[i]
		} else {
			ps.env[fv] = x.In.Param(fn, fv.Name(), 1000+i, fv.Type())
		}
	}
	return ps
}

func (x *Exec) runStates(fn *ssa.Function, ctx *Ctx, init []*pstate, keep []*Val) []Exit {
	x.Funcs[fn] = true
	li := x.live[fn]
	if li == nil {
		li = computeLive(fn)
		x.live[fn] = li
	}
	f := &frame{x: x, fn: fn, ctx: ctx, keep: keep, li: li,
		pend: map[loc]*pending{}, queue: map[loc]bool{}}
	for _, ps := range init {
		f.push(fn.Blocks[0], 0, ps)
	}
	for {
		l, pss := f.next()
		if len(pss) == 0 && len(f.queue) == 0 {
			break
		}
		if os.Getenv("ENGPROF") != "" {
			k := fmt.Sprintf("%s/%d b%d", f.fn, ctx.id, l.b.Index)
			if prof == nil {
				prof = map[string]int{}
			}
			prof[k] += len(pss)
		}
		for _, ps := range pss {
			x.Visits++
			x.Budget--
			if x.Budget < 0 {
				x.Over = true
				return f.exits
			}
			f.step(item{l.b, l.idx, ps})
		}
	}
	return x.mergeExits(f.exits, append(append([]*Val(nil), keep...), nil...))
}

// mergeExits joins exits that differ only in facts.
func (x *Exec) mergeExits(es []Exit, keep []*Val) []Exit {
	if len(es) < 2 {
		return es
	}
	type grp struct {
		e  Exit
		bk *bucket
	}
	m := map[string]*grp{}
	var order []*grp
	for _, e := range es {
		e.S.gc(append(append([]*Val(nil), keep...), e.Results...))
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d|", e.Kind)
		for _, r := range e.Results {
			fmt.Fprintf(&sb, "%d,", r.ID)
		}
		k := sb.String() + e.S.memKey()
		g := m[k]
		if g == nil {
			g = &grp{e, &bucket{lim: x.FactLim}}
			m[k] = g
			order = append(order, g)
		}
		g.bk.add(e.S.Facts)
	}
	var out []Exit
	for _, g := range order {
		fs := g.bk.take()
		for i, f := range fs {
			e := g.e
			if i < len(fs)-1 {
				e.S = e.S.Clone()
			}
			e.S.Facts = make(map[*Val]Fact, len(f))
			for k, v := range f {
				e.S.Facts[k] = v
			}
			out = append(out, e)
		}
	}
	return out
}

// liveRoots are the values of this frame needed at (b, idx) and later.
func (f *frame) liveRoots(ps *pstate, b *ssa.BasicBlock, idx int) []*Val {
	live := f.li.liveAt(b, idx)
	if idx == 0 {
		live = f.li.in[b.Index]
	}
	for v := range ps.env {
		if !live[v] {
			delete(ps.env, v)
		}
	}
	roots := append([]*Val(nil), f.keep...)
	for _, v := range ps.env {
		roots = append(roots, v)
	}
	for _, d := range ps.defers {
		roots = append(roots, d.call.Args...)
		roots = append(roots, d.call.Binds...)
		if d.call.FnVal != nil {
			roots = append(roots, d.call.FnVal)
		}
	}
	return roots
}

func (f *frame) push(b *ssa.BasicBlock, idx int, ps *pstate) {
	f.sync(ps)
	ps.s.gc(f.liveRoots(ps, b, idx))
	l := loc{b, idx}
	pd := f.pend[l]
	if pd == nil {
		pd = &pending{buckets: map[string]*bucket{}}
		f.pend[l] = pd
	}
	k := ps.baseKey()
	bk := pd.buckets[k]
	if bk == nil {
		bk = &bucket{ps: ps, lim: f.x.FactLim}
		pd.buckets[k] = bk
		pd.order = append(pd.order, bk)
	}
	if bk.add(ps.s.Facts) {
		f.x.NStates++
		f.queue[l] = true
	}
	if idx == 0 && len(pd.order) > f.x.Lim {
		f.join(pd, b)
	}
}

// join keeps the number of stores per program point bounded: the waiting
// states of one property state are replaced by one that is weaker than each,
// in which every cell they disagree on has an unknown content.
func (f *frame) join(pd *pending, b *ssa.BasicBlock) {
	if os.Getenv("ENGDEBUG") != "" && f.x.Merged < 20 {
		fmt.Fprintf(os.Stderr, "joining in %s block %d: %s\n", f.fn, b.Index, pd.order[len(pd.order)-1].ps.s.Dump())
	}
	if pd.tops == nil {
		pd.tops = map[string]*pstate{}
	}
	in := f.x.In
	var touched []string
	for _, bk := range pd.order {
		if len(bk.todo) == 0 {
			continue
		}
		if pd.isTop[bk] {
			continue
		}
		ps := bk.ps
		gk := ps.groupKey()
		touched = append(touched, gk)
		for _, fs := range bk.todo {
			top := pd.tops[gk]
			if top == nil {
				top = ps.clone()
				top.s.Facts = cloneFacts(fs)
				pd.tops[gk] = top
				continue
			}
			f.x.Merged++
			f.joinInto(top, ps, fs, b, in)
		}
		bk.todo = nil
		bk.done = append(bk.done, map[*Val]Fact{}) // covered by the join
	}
	for _, gk := range touched {
		top := pd.tops[gk]
		k := top.baseKey()
		bk := pd.buckets[k]
		if bk == nil || !pd.isTop[bk] {
			bk = &bucket{ps: top.clone(), lim: f.x.FactLim}
			pd.buckets[k] = bk
			pd.order = append(pd.order, bk)
			if pd.isTop == nil {
				pd.isTop = map[*bucket]bool{}
			}
			pd.isTop[bk] = true
		}
		if bk.add(top.s.Facts) {
			f.x.NStates++
			f.queue[loc{b, 0}] = true
		}
	}
}

func cloneFacts(m map[*Val]Fact) map[*Val]Fact {
	r := make(map[*Val]Fact, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// joinInto weakens top so that it covers ps with facts fs.
func (f *frame) joinInto(top, ps *pstate, fs map[*Val]Fact, b *ssa.BasicBlock, in *Interner) {
	var fresh []*Val
	s := top.s
	for a, c := range s.Mem {
		o, ok := ps.s.Mem[a]
		if ok && o == c {
			continue
		}
		if !ok {
			// unknown there: forget, unless its initial content was meant
			if l := ps.s.Read(a, deref(a.T)); l == c {
				continue
			}
		}
		j := in.Out(f.ctx, b.Instrs[0], fmt.Sprintf("join%d", a.ID), c.T)
		if c != j {
			fresh = append(fresh, j)
		}
		s.Mem[a] = j
	}
	for a, c := range ps.s.Mem {
		if _, ok := s.Mem[a]; ok {
			continue
		}
		if l := s.Read(a, deref(a.T)); l == c {
			continue
		}
		j := in.Out(f.ctx, b.Instrs[0], fmt.Sprintf("join%d", a.ID), c.T)
		s.Mem[a] = j
		fresh = append(fresh, j)
	}
	for v, c := range top.env {
		o := ps.env[v]
		if o == c {
			continue
		}
		j := in.Out(f.ctx, b.Instrs[0], "joinv"+v.Name(), v.Type())
		if c != j {
			fresh = append(fresh, j)
		}
		top.env[v] = j
	}
	for k, v := range s.Facts {
		if !v.implied(fs[k]) {
			delete(s.Facts, k)
		}
	}
	// a join value stands for one unknown content, not for an earlier one
	for _, j := range fresh {
		st := in.Stale(j)
		for k := range s.Facts {
			if k.hasAtom(j) {
				delete(s.Facts, k)
			}
		}
		for a, c := range s.Mem {
			if c != j && c.hasAtom(j) {
				s.Mem[a] = in.Subst(c, j, st)
			}
		}
		for v, c := range top.env {
			if c != j && c.hasAtom(j) {
				top.env[v] = in.Subst(c, j, st)
			}
		}
		if s.Mon != nil {
			s.Mon.Map(func(x *Val) *Val { return in.Subst(x, j, st) })
		}
	}
}

// groupKey identifies the states that may be joined.
func (p *pstate) groupKey() string {
	var d strings.Builder
	for _, r := range p.defers {
		fmt.Fprintf(&d, "%p", r.call.Instr)
		for _, a := range r.call.Args {
			fmt.Fprintf(&d, ",%d", a.ID)
		}
		for _, a := range r.call.Binds {
			fmt.Fprintf(&d, ",%d", a.ID)
		}
		d.WriteByte(';')
	}
	if p.s.Mon != nil {
		d.WriteString(p.s.Mon.Key())
	}
	d.WriteString(setKey(p.s.olog))
	return d.String()
}

// next takes the states waiting at the earliest program point.
func (f *frame) next() (loc, []*pstate) {
	var best loc
	found := false
	for l := range f.queue {
		if !found || f.li.rpo[l.b.Index] < f.li.rpo[best.b.Index] ||
			l.b == best.b && l.idx < best.idx {
			best, found = l, true
		}
	}
	if !found {
		return best, nil
	}
	delete(f.queue, best)
	var r []*pstate
	for _, bk := range f.pend[best].order {
		for _, fs := range bk.take() {
			n := bk.ps.clone()
			n.s.Facts = make(map[*Val]Fact, len(fs))
			for k, v := range fs {
				n.s.Facts[k] = v
			}
			r = append(r, n)
		}
	}
	return best, r
}

func (f *frame) val(ps *pstate, v ssa.Value) *Val {
	in := f.x.In
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return in.Zero(v.Type())
		}
		return in.Const(v.Value, v.Type())
	case *ssa.Global:
		return in.Global(v)
	case *ssa.Function:
		return in.Func(v)
	case *ssa.Builtin:
		return in.Un("builtin:"+v.Name(), in.Nil(), v.Type())
	}
	if r, ok := ps.env[v]; ok {
		return r
	}
	// not tracked (should not happen): opaque
	r := in.Instr(f.ctx, v)
	ps.env[v] = r
	return r
}

// fresh binds instruction v to a new opaque value, retiring the previous one.
func (f *frame) fresh(ps *pstate, v ssa.Value) *Val {
	a := f.x.In.Instr(f.ctx, v)
	f.retire(ps, a)
	ps.env[v] = a
	return a
}

func (f *frame) retire(ps *pstate, a *Val) {
	f.sync(ps)
	if ps.s.mentionsAtom(a) {
		ps.s.rename(a)
	}
	f.substEnv(ps, a)
}

// sync brings the environment of the frame up to date with the atoms retired
// since.
func (f *frame) sync(ps *pstate) {
	if len(ps.s.pend) == 0 {
		return
	}
	var as []*Val
	for a := range ps.s.pend {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	ps.s.pend = nil
	for _, a := range as {
		f.substEnv(ps, a)
	}
}

func (f *frame) substEnv(ps *pstate, a *Val) {
	in := f.x.In
	st := in.Stale(a)
	if f.outer == nil {
		f.outer = map[*Val]bool{}
		for _, k := range f.keep {
			for _, x := range k.atoms {
				f.outer[x] = true
			}
		}
	}
	if f.outer[a] {
		if ps.s.olog == nil {
			ps.s.olog = map[*Val]bool{}
		}
		ps.s.olog[a] = true
	}
	for k, v := range ps.env {
		if v.hasAtom(a) {
			ps.env[k] = in.Subst(v, a, st)
		}
	}
	for i, d := range ps.defers {
		ch := false
		for _, l := range [][]*Val{d.call.Args, d.call.Binds} {
			for _, v := range l {
				if v.hasAtom(a) {
					ch = true
				}
			}
		}
		if ch {
			c := *d.call
			c.Args = substAll(in, c.Args, a, st)
			c.Binds = substAll(in, c.Binds, a, st)
			ps.defers[i] = &deferRec{&c}
		}
	}
}

func substAll(in *Interner, vs []*Val, a, b *Val) []*Val {
	r := make([]*Val, len(vs))
	for i, v := range vs {
		r[i] = in.Subst(v, a, b)
	}
	return r
}

func (f *frame) gotoBlock(from, to *ssa.BasicBlock, ps *pstate, edge int) {
	// evaluate phis in parallel
	in := f.x.In
	var phis []*ssa.Phi
	var vals []*Val
	back := to.Dominates(from)
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, f.val(ps, p.Edges[edge]))
	}
	for i, p := range phis {
		v := vals[i]
		if p.Edges[edge] == ssa.Value(p) {
			continue // as it was
		}
		if back && widens(v, p) {
			// a new, unknown value on each iteration
			a := in.Instr(f.ctx, p)
			lo, _ := ps.s.Interval(v)
			inv := isIntT(p.Type()) && lo >= 0
			st := in.Stale(a)
			f.retire(ps, a)
			for j := range vals {
				vals[j] = in.Subst(vals[j], a, st)
			}
			if inv && incr(v) {
				ps.s.Facts[a] = Fact{HasIv: true, Lo: 0, Hi: 1 << 62}
			}
			vals[i] = a
		}
	}
	for i, p := range phis {
		ps.env[p] = vals[i]
	}
	f.push(to, 0, ps)
}

func incr(v *Val) bool { return v.Kind == KBin && v.Op == "+" }

func widens(v *Val, p *ssa.Phi) bool {
	if v.depth > 14 {
		return true
	}
	if b, ok := p.Type().Underlying().(*types.Basic); ok {
		if b.Info()&(types.IsNumeric) != 0 {
			return true
		}
		if b.Info()&types.IsString != 0 && v.Kind != KConst {
			return v.Any(func(x *Val) bool { return x.Kind == KBin })
		}
	}
	if v.Any(func(x *Val) bool { return x.Kind == KStale }) && v.Kind != KStale && v.depth > 6 {
		return true
	}
	return false
}

func (f *frame) site(i ssa.Instruction) Site { return Site{f.ctx, i} }

// step runs from (b, idx) to the end of the block or to a splitting call.
func (f *frame) step(it item) {
	ps := it.ps
	b := it.b
	for i := it.idx; i < len(b.Instrs); i++ {
		if f.x.Over {
			return
		}
		ins := b.Instrs[i]
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			f.gotoBlock(b, b.Succs[0], ps, predIndex(b, b.Succs[0], 0))
			return
		case *ssa.If:
			f.branch(b, ins, ps)
			return
		case *ssa.Return:
			var rs []*Val
			for _, r := range ins.Results {
				rs = append(rs, f.val(ps, r))
			}
			// A return inside a function with defers re-loads its named
			// results after rundefers, which is an explicit instruction.
			f.exits = append(f.exits, Exit{ExRet, ps.s, rs})
			return
		case *ssa.Panic:
			f.unwind(ps, ExPanic)
			return
		case *ssa.RunDefers:
			d := ps.defers
			ps.defers = nil
			outs := f.settle(f.runDefers(ps, d, b, i, panNone))
			if len(outs) == 1 {
				ps = outs[0]
				continue
			}
			for _, o := range outs {
				f.push(b, i+1, o)
			}
			return
		case *ssa.Defer:
			c := f.mkCall(ps, ins)
			c.Defer = true
			// deferred in a loop: the first and the last two calls stand for all
			n, last := 0, 0
			for i, d := range ps.defers {
				if d.call.Instr == c.Instr {
					n, last = n+1, i
				}
			}
			if n > 2 {
				ps.defers = append(append([]*deferRec(nil), ps.defers[:last]...), ps.defers[last+1:]...)
			}
			ps.defers = append(ps.defers, &deferRec{c})
		case *ssa.Go:
			c := f.mkCall(ps, ins)
			c.Go = true
			if f.x.H.OnGo != nil {
				f.x.H.OnGo(ps.s, c)
			}
			f.x.Threads = append(f.x.Threads, &Thread{Call: c, S: ps.s.Clone(), Kind: "go"})
		case *ssa.Call:
			outs := f.call(ps, ins, b, i)
			if outs == nil {
				return
			}
			if len(outs) == 1 {
				ps = outs[0]
				continue
			}
			for _, o := range outs {
				f.push(b, i+1, o)
			}
			return
		case *ssa.Select:
			f.doSelect(ps, ins, b, i)
			return
		default:
			f.simple(ps, ins)
			f.sync(ps)
		}
	}
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	k := 0
	for i, p := range to.Preds {
		if p == from {
			if k == nth {
				return i
			}
			k++
		}
	}
	return 0
}

func (f *frame) branch(b *ssa.BasicBlock, ins *ssa.If, ps *pstate) {
	c := f.val(ps, ins.Cond)
	d := ps.s.Decide(c)
	same := b.Succs[0] == b.Succs[1]
	for k := 0; k < 2; k++ {
		want := k == 0
		if d == True && !want || d == False && want {
			continue
		}
		q := ps
		if d == Unknown && k == 0 {
			q = ps.clone()
		}
		if !q.s.Assume(c, want) {
			continue
		}
		f.iterEvent(q, ins, c, want)
		if f.x.H.OnBranch != nil {
			f.x.H.OnBranch(q.s, c, want, f.site(ins))
		}
		nth := 0
		if same && k == 1 {
			nth = 1
		}
		f.gotoBlock(b, b.Succs[k], q, predIndex(b, b.Succs[k], nth))
	}
}

// iterEvent recognises the branch of a loop over a container.
func (f *frame) iterEvent(ps *pstate, ins *ssa.If, c *Val, taken bool) {
	if f.x.H.OnIter == nil {
		return
	}
	// map/string range: cond is #0 of a Next
	if ex, ok := ins.Cond.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 0 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				it := f.val(ps, nx.Iter)
				_ = rg
				if it.Kind == KUn && it.Op == "range" {
					m := it.Args[0]
					t := f.x.In.Instr(f.ctx, nx)
					k := f.x.In.Extract(t, 1, nx.Type().(*types.Tuple).At(1).Type())
					v := f.x.In.Extract(t, 2, nx.Type().(*types.Tuple).At(2).Type())
					f.x.H.OnIter(ps.s, m, taken, k, v, f.site(ins))
				}
			}
		}
		return
	}
	bo, ok := ins.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	if f.countdown(ps, ins, taken) {
		return
	}
	// i < len(X), i an induction variable from 0 step 1
	x, y, op := bo.X, bo.Y, bo.Op
	if op == token.GTR {
		x, y, op = y, x, token.LSS
	}
	if op == token.NEQ {
		// i != n works the same for a unit-step induction from 0
		if inductionFromZero(y) {
			x, y = y, x
		}
		op = token.LSS
	}
	if op == token.GEQ { // i >= n : exit when taken
		op = token.LSS
		taken = !taken
	}
	if op != token.LSS {
		return
	}
	if !inductionFromZero(x) {
		return
	}
	n := f.val(ps, y)
	i := f.val(ps, x)
	var cont *Val
	if n.Kind == KUn && n.Op == "len" {
		cont = n.Args[0]
	} else {
		cont = n // counted loop: container is the count itself
	}
	f.x.H.OnIter(ps.s, cont, taken, i, nil, f.site(ins))
}

// countdown recognises n > 0, n != 0 and n >= 1 for n counting down by one, as
// well as i >= 0 for i counting down from n-1.
func (f *frame) countdown(ps *pstate, ins *ssa.If, taken bool) bool {
	p, init, zero := countdownOf(ins)
	if p == nil {
		return false
	}
	i := f.val(ps, p)
	if !zero {
		i = f.x.In.Bin(token.SUB, i, f.x.In.Int(1), i.T)
	}
	n := f.val(ps, init)
	cont := n
	if n.Kind == KUn && n.Op == "len" {
		cont = n.Args[0]
	}
	f.x.H.OnIter(ps.s, cont, taken, i, nil, f.site(ins))
	return true
}

// countdownOf: the counter of a loop counting down and the number of its
// iterations; zero tells that the counter reaches 0 in the loop.
func countdownOf(ins ssa.Instruction) (p *ssa.Phi, init ssa.Value, zero bool) {
	br, ok := ins.(*ssa.If)
	if !ok {
		return nil, nil, false
	}
	bo, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, false
	}
	isC := func(v ssa.Value, n int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && isIntT(c.Type()) && c.Int64() == n
	}
	var x ssa.Value
	switch {
	case bo.Op == token.GTR && isC(bo.Y, 0), bo.Op == token.NEQ && isC(bo.Y, 0), bo.Op == token.GEQ && isC(bo.Y, 1):
		x = bo.X
	case bo.Op == token.LSS && isC(bo.X, 0):
		x = bo.Y
	case bo.Op == token.GEQ && isC(bo.Y, 0), bo.Op == token.GTR && isC(bo.Y, -1):
		x, zero = bo.X, true
	default:
		return nil, nil, false
	}
	p, ok = x.(*ssa.Phi)
	if !ok || p.Block() != bo.Block() {
		return nil, nil, false
	}
	for i, e := range p.Edges {
		if p.Block().Dominates(p.Block().Preds[i]) {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != p || !(b.Op == token.SUB && isC(b.Y, 1) || b.Op == token.ADD && isC(b.Y, -1)) {
				return nil, nil, false
			}
		} else if init != nil && init != e {
			return nil, nil, false
		} else {
			init = e
		}
	}
	if init == nil {
		return nil, nil, false
	}
	if zero {
		b, ok := init.(*ssa.BinOp)
		if !ok || b.Op != token.SUB || !isC(b.Y, 1) {
			return nil, nil, false
		}
		init = b.X
	}
	return p, init, zero
}

// inductionFromZero reports that v takes the values 0,1,2,... in successive
// iterations.
func inductionFromZero(v ssa.Value) bool {
	step := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		one := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Int64() == 1
		}
		return b.X == p && one(b.Y) || b.Y == p && one(b.X)
	}
	isC := func(v ssa.Value, n int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && isIntT(c.Type()) && c.Int64() == n
	}
	switch t := v.(type) {
	case *ssa.Phi: // i = phi(0, i+1)
		for i, e := range t.Edges {
			if t.Block().Dominates(t.Block().Preds[i]) {
				if !step(e, t) {
					return false
				}
			} else if !isC(e, 0) {
				return false
			}
		}
		return true
	case *ssa.BinOp: // range loops: i = phi(-1, i') ; i' = i+1
		var p *ssa.Phi
		if q, ok := t.X.(*ssa.Phi); ok {
			p = q
		} else if q, ok := t.Y.(*ssa.Phi); ok {
			p = q
		}
		if p == nil || !step(t, p) {
			return false
		}
		for i, e := range p.Edges {
			if p.Block().Dominates(p.Block().Preds[i]) {
				if e != t {
					return false
				}
			} else if !isC(e, -1) {
				return false
			}
		}
		return true
	}
	return false
}

// unwind leaves the frame by panic or process exit.
func (f *frame) unwind(ps *pstate, k ExitKind) {
	if k == ExPanic {
		d := ps.defers
		ps.defers = nil
		f.settle(f.runDefers(ps, d, f.fn.Recover, 0, panActive))
		return
	}
	f.sync(ps)
	f.exits = append(f.exits, Exit{k, ps.s, nil})
}

// settle continues where deferred calls have run: panics that were not recovered
// leave the function, those that were continue at its block of recovery. It
// returns the states without panic.
func (f *frame) settle(ps []*pstate) []*pstate {
	var rest []*pstate
	for _, p := range ps {
		pan := p.pan
		p.pan = panNone
		switch pan {
		case panNone:
			rest = append(rest, p)
		case panActive:
			f.exits = append(f.exits, Exit{ExPanic, p.s, nil})
		case panRecovered:
			if f.fn.Recover != nil {
				f.push(f.fn.Recover, 0, p)
			}
		}
	}
	return rest
}

// surelyRecovers: the call of recover is made whenever the function runs.
func surelyRecovers(fn *ssa.Function) bool {
	for _, in := range fn.Blocks[0].Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
				return true
			}
		}
	}
	return false
}

func recovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (f *frame) runDefers(in *pstate, ds []*deferRec, b *ssa.BasicBlock, idx int, pan uint8) []*pstate {
	cur := []*pstate{in}
	in.defers = append([]*deferRec(nil), ds...)
	in.pan = pan
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*pstate
		for _, ps := range cur {
			f.sync(ps)
			d := ps.defers[i]
			rest := ps.defers[:i]
			var keep []*Val
			for _, d := range rest {
				keep = append(keep, d.call.Args...)
				keep = append(keep, d.call.Binds...)
			}
			var roots []*Val
			if b != nil {
				roots = append(f.liveRoots(ps, b, idx), keep...)
			} else {
				roots = append(append([]*Val(nil), f.keep...), keep...)
			}
			was := f.x.panicking
			f.x.panicking = ps.pan == panActive
			outs := f.dispatch(ps.s, d.call, roots)
			f.x.panicking = was
			for _, o := range outs {
				if o.Kind == ExHalt {
					f.exits = append(f.exits, o)
					continue
				}
				n := &pstate{s: o.S, env: map[ssa.Value]*Val{}, defers: append([]*deferRec(nil), rest...), pan: ps.pan}
				for k, v := range ps.env {
					n.env[k] = v
				}
				f.sync(n)
				switch {
				case o.Kind == ExPanic:
					n.pan = panActive
				case n.pan == panActive && d.call.Fn != nil && recovers(d.call.Fn):
					if !surelyRecovers(d.call.Fn) {
						next = append(next, n.clone())
					}
					n.pan = panRecovered
				}
				next = append(next, n)
			}
		}
		cur = dedupe(next)
	}
	for _, ps := range cur {
		ps.defers = nil
	}
	return cur
}

func dedupe(ps []*pstate) []*pstate {
	seen := map[string]bool{}
	var r []*pstate
	for _, p := range ps {
		k := p.key()
		if !seen[k] {
			seen[k] = true
			r = append(r, p)
		}
	}
	return r
}

func (f *frame) mkCall(ps *pstate, ci ssa.CallInstruction) *Call {
	com := ci.Common()
	c := &Call{Instr: ci, Ctx: f.ctx}
	if com.IsInvoke() {
		recv := f.val(ps, com.Value)
		c.Invoke = com.Method
		c.Args = append(c.Args, recv)
		c.FnVal = recv
		c.Name = CalleeName(com)
		if r := recv; r.Kind == KIface {
			if m := f.x.P.methodOf(r.Args[0].T, com.Method); m != nil {
				c.Fn = m
				c.Name = m.RelString(nil)
				c.Args[0] = r.Args[0]
				c.Invoke = nil
			}
		}
	} else {
		v := f.val(ps, com.Value)
		c.FnVal = v
		switch v.Kind {
		case KFunc:
			c.Fn = v.Fn
			c.Name = v.Fn.RelString(nil)
		case KClosure:
			c.Fn = v.Fn
			c.Binds = v.Args
			c.Name = v.Fn.RelString(nil)
		default:
			c.Name = CalleeName(com)
			if v.Kind == KUn && strings.HasPrefix(v.Op, "builtin:") {
				c.Name = v.Op
			}
		}
	}
	for _, a := range com.Args {
		c.Args = append(c.Args, f.val(ps, a))
	}
	return c
}

// call executes a Call instruction; nil means no continuation.
func (f *frame) call(ps *pstate, ins *ssa.Call, b *ssa.BasicBlock, i int) []*pstate {
	c := f.mkCall(ps, ins)
	if strings.HasPrefix(c.Name, "builtin:") {
		f.builtin(ps, ins, c)
		v := ps.env[ins]
		f.sync(ps)
		if v != nil {
			ps.env[ins] = v
		}
		return []*pstate{ps}
	}
	// the result is redefined here
	f.retireCallee(ps, ins, c)
	roots := f.liveRoots2(ps, b, i+1)
	outs := f.dispatch(ps.s, c, roots)
	var res []*pstate
	for _, o := range outs {
		switch o.Kind {
		case ExHalt:
			f.exits = append(f.exits, o)
			continue
		case ExPanic:
			n := &pstate{s: o.S, env: map[ssa.Value]*Val{}, defers: append([]*deferRec(nil), ps.defers...)}
			if f.fn.Recover != nil {
				for v := range f.li.in[f.fn.Recover.Index] {
					if w, ok := ps.env[v]; ok {
						n.env[v] = w
					}
				}
			}
			f.unwind(n, ExPanic)
			continue
		}
		n := &pstate{s: o.S, env: make(map[ssa.Value]*Val, len(ps.env)+1), defers: append([]*deferRec(nil), ps.defers...)}
		for k, v := range ps.env {
			n.env[k] = v
		}
		f.sync(n)
		n.env[ins] = f.pack(ins, o.Results)
		res = append(res, n)
	}
	if len(res) == 0 {
		return nil
	}
	if len(res) > 1 {
		res = dedupe(res)
	}
	return res
}

func (f *frame) pack(ins ssa.Value, rs []*Val) *Val {
	if t, ok := ins.Type().(*types.Tuple); ok {
		if len(rs) == 1 && t.Len() != 1 {
			return rs[0] // opaque tuple
		}
		return f.x.In.Tuple(rs)
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return f.x.In.Tuple(rs)
}

// liveRoots2 is liveRoots that does not prune the environment.
func (f *frame) liveRoots2(ps *pstate, b *ssa.BasicBlock, idx int) []*Val {
	q := &pstate{s: ps.s, env: make(map[ssa.Value]*Val, len(ps.env)), defers: ps.defers}
	for k, v := range ps.env {
		q.env[k] = v
	}
	return f.liveRoots(q, b, idx)
}

func (f *frame) retireCallee(ps *pstate, ins ssa.Value, c *Call) {
	a := f.x.In.Instr(f.ctx, ins)
	st := f.x.In.Stale(a)
	f.retire(ps, a)
	c.Args = substAll(f.x.In, c.Args, a, st)
	c.Binds = substAll(f.x.In, c.Binds, a, st)
}

// dispatch performs a call in state s. The state is consumed.
func (f *frame) dispatch(s *State, c *Call, keep []*Val) []Exit {
	x := f.x
	act := Default
	if x.H.OnCall != nil {
		act = x.H.OnCall(s, c)
	}
	switch act {
	case Halt:
		return []Exit{{ExHalt, s, nil}}
	case Prune:
		return nil
	}
	if c.Defer && c.Fn != nil && x.P.InModule(c.Fn) && recovers(c.Fn) {
		// what it makes of a panic is never left open
		act = Inline
	}
	if c.Fn != nil && x.P.NoReturn(c.Fn) {
		act = Inline
	}
	if strings.HasPrefix(c.Name, "builtin:") {
		if c.Name == "builtin:close" && x.H.OnSend != nil {
			// reported through OnCall
			_ = c
		}
		return []Exit{{ExRet, s, []*Val{x.In.Nil()}}}
	}
	if act != Opaque {
		// dynamic dispatch over module implementations
		if c.Invoke != nil {
			impls := x.P.implementations(c.Invoke)
			if act != Inline && (x.OpaqueFn != nil || x.OpaqueDyn != nil) {
				all := true
				opaque := x.OpaqueDyn
				if opaque == nil || len(impls) == 1 {
					opaque = x.OpaqueFn
				}
				for _, m := range impls {
					if !opaque(m) {
						all = false
					}
				}
				if all {
					impls = nil
				}
			}
			if len(impls) > 0 && act == Inline || len(impls) > 0 && x.P.isModuleIface(c.Invoke) {
				var all []Exit
				for _, m := range impls {
					cc := *c
					cc.Fn = m
					cc.Invoke = nil
					cc.Name = m.RelString(nil)
					ns := s.Clone()
					cc.Args = append([]*Val(nil), c.Args...)
					cc.Args[0] = x.In.Un("assert", c.Args[0], m.Signature.Recv().Type())
					if x.H.OnCall != nil {
						switch x.H.OnCall(ns, &cc) {
						case Opaque:
							all = append(all, f.external(ns, &cc, keep)...)
							continue
						case Halt:
							all = append(all, Exit{ExHalt, ns, nil})
							continue
						case Prune:
							continue
						}
					}
					all = append(all, f.inline(ns, &cc, keep)...)
				}
				return all
			}
		}
		if c.Fn != nil && len(c.Fn.Blocks) > 0 && x.P.InModule(c.Fn) {
			if act == Inline || x.OpaqueFn == nil || !x.OpaqueFn(c.Fn) {
				return f.inline(s, c, keep)
			}
		}
	}
	return f.external(s, c, keep)
}

func (f *frame) inline(s *State, c *Call, keep []*Val) []Exit {
	x := f.x
	if x.onStack(f.ctx, c.Fn) || f.ctx.depth > x.Depth {
		return f.external(s, c, keep)
	}
	ctx := x.In.ctx(f.ctx, c.Instr, c.Fn)
	k := append([]*Val(nil), keep...)
	olog, pend := s.olog, s.pend
	for a := range olog {
		k = append(k, x.In.Stale(a))
	}
	for a := range pend {
		k = append(k, x.In.Stale(a))
	}
	s.olog, s.pend = nil, nil
	outs := x.runFunc(c.Fn, ctx, c.Args, c.Binds, s, k)
	for i := range outs {
		s := outs[i].S
		if x.H.Returned != nil && outs[i].Kind == ExRet {
			cc := c
			if len(s.olog) > 0 {
				d := *c
				for a := range s.olog {
					d.Args = substAll(x.In, d.Args, a, x.In.Stale(a))
					d.Binds = substAll(x.In, d.Binds, a, x.In.Stale(a))
				}
				cc = &d
			}
			x.H.Returned(s, cc, outs[i].Results)
		}
		retired := s.olog
		s.olog = cloneSet(olog)
		s.pend = cloneSet(pend)
		for a := range retired {
			if s.pend == nil {
				s.pend = map[*Val]bool{}
			}
			s.pend[a] = true
		}
	}
	return outs
}

var prof map[string]int

// Prof prints the most visited program points (development aid).
func Prof() {
	var ks []string
	for k := range prof {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return prof[ks[i]] > prof[ks[j]] })
	for i, k := range ks {
		if i > 40 {
			break
		}
		fmt.Fprintln(os.Stderr, prof[k], k)
	}
}
