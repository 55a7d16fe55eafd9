package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// Compositional analysis of which memory each function accesses, under which
// locks, and in which goroutine. Memory is named by access paths from the
// parameters, captured variables, globals and fresh objects of a function;
// what a function does to fresh objects is its own business until it starts a
// goroutine with them.

type rpath struct {
	kind  byte // 'P' parameter, 'F' captured variable, 'G' global, 'A' fresh
	idx   int
	g     *ssa.Global
	a     ssa.Instruction // the instruction which makes the fresh object
	via   ssa.Instruction // the call which brought it here, if any
	steps []string
}

func (p rpath) root() string {
	switch p.kind {
	case 'P', 'F':
		return fmt.Sprintf("%c%d", p.kind, p.idx)
	case 'G':
		return "G" + p.g.RelString(nil)
	}
	return fmt.Sprintf("A%p/%p", p.a, p.via)
}

func (p rpath) key() string { return p.root() + "|" + strings.Join(p.steps, "|") }

func (p rpath) with(steps ...string) rpath {
	q := p
	q.steps = append([]string(nil), p.steps...)
	for _, s := range steps {
		// recursive data is folded
		cut := -1
		for i, o := range q.steps {
			if o == s {
				cut = i
			}
		}
		if cut >= 0 {
			q.steps = q.steps[:cut+1]
			continue
		}
		if len(q.steps) < 7 {
			q.steps = append(q.steps, s)
		}
	}
	return q
}

type rset map[string]rpath

func (s rset) add(p rpath) bool {
	k := p.key()
	if _, ok := s[k]; ok {
		return false
	}
	if len(s) > 40 {
		return false
	}
	s[k] = p
	return true
}

func (s rset) addAll(o rset) bool {
	c := false
	for _, p := range o {
		c = s.add(p) || c
	}
	return c
}

type rlocks map[string]rlock

type rlock struct {
	p rpath
	w bool
}

func (l rlocks) clone() rlocks {
	n := rlocks{}
	for k, v := range l {
		n[k] = v
	}
	return n
}

func (l rlocks) key() string {
	var ks []string
	for k, v := range l {
		if v.w {
			k += "!"
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

type raccess struct {
	p     rpath
	write bool
	locks rlocks
	site  ssa.Instruction
	thr   *rthread          // nil: in the goroutine of the caller
	pair  map[*rthread]bool // only against these goroutines
	self  bool              // the goroutine may run several times at once with the same object
}

func (a *raccess) key() string {
	t := ""
	if a.thr != nil {
		t = fmt.Sprintf("%p%v", a.thr.at, a.self)
	}
	return fmt.Sprintf("%s#%v#%s#%p#%s", a.p.key(), a.write, a.locks.key(), a.site, t)
}

type rthread struct {
	at   ssa.Instruction // the go statement; nil for a handler
	fn   *ssa.Function
	name string
}

type rsum struct {
	acc   map[string]*raccess
	ret   []rset
	rcont map[string]map[string]rset // content of fresh objects returned
	rpa   map[string]rpath
	acq   rlocks // held at return, taken here
	rel   map[string]rpath
}

type rfun struct {
	f    *ssa.Function
	env  map[ssa.Value]rset
	cont map[string]rset // content of fresh memory
	cpa  map[string]rpath
	tup  map[ssa.Value][]rset
	in   map[*ssa.BasicBlock]rlocks
	sum  *rsum
	chg  bool
}

// phases of the analysis: values, then locks, then accesses.
const (
	rpVals = iota
	rpLocks
	rpAcc
)

type race struct {
	phase int
	r     *Report
	fs    map[*ssa.Function]*rfun
	dyn   map[string][]*ssa.Function
	thr   map[ssa.Instruction]*rthread
	bind  map[*ssa.Function]*ssa.MakeClosure
	hthr  map[*ssa.Function]*rthread
	fin   []*raccess // accesses by goroutines, with the objects told apart
	finK  map[string]bool
	chg   bool
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(c *ssa.BasicBlock) bool
	walk = func(c *ssa.BasicBlock) bool {
		for _, n := range c.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if walk(n) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// sameCycle: both blocks lie on a cycle together.
func sameCycle(a, b *ssa.BasicBlock) bool {
	return a == b && inCycle(a) || a != b && blockReaches(a, b) && blockReaches(b, a)
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{a: true}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		for _, n := range c.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				work = append(work, n)
			}
		}
	}
	return false
}

func (r *Report) newRace() *race {
	c := &race{r: r, fs: map[*ssa.Function]*rfun{}, thr: map[ssa.Instruction]*rthread{}, bind: map[*ssa.Function]*ssa.MakeClosure{}, finK: map[string]bool{}, hthr: map[*ssa.Function]*rthread{}}
	t := r.newTaint()
	c.dyn = t.dyn
	for _, f := range r.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					c.bind[g] = mc
				}
			}
		}
	}
	for k, v := range c.dyn {
		var out []*ssa.Function
		for _, g := range v {
			// wrappers and closures with captured variables are handled where they are made
			if len(g.FreeVars) == 0 {
				out = append(out, g)
			}
		}
		c.dyn[k] = out
	}
	return c
}

func (c *race) fun(f *ssa.Function) *rfun {
	if x := c.fs[f]; x != nil {
		return x
	}
	x := &rfun{f: f, env: map[ssa.Value]rset{}, cont: map[string]rset{}, cpa: map[string]rpath{}, tup: map[ssa.Value][]rset{}, in: map[*ssa.BasicBlock]rlocks{},
		sum: &rsum{acc: map[string]*raccess{}, rcont: map[string]map[string]rset{}, rpa: map[string]rpath{}, acq: rlocks{}, rel: map[string]rpath{}}}
	x.sum.ret = make([]rset, f.Signature.Results().Len())
	for i := range x.sum.ret {
		x.sum.ret[i] = rset{}
	}
	for i, p := range f.Params {
		if followed(p.Type()) {
			x.env[p] = rset{}
			x.env[p].add(rpath{kind: 'P', idx: i})
		}
	}
	for i, p := range f.FreeVars {
		x.env[p] = rset{}
		x.env[p].add(rpath{kind: 'F', idx: i})
	}
	c.fs[f] = x
	return x
}

// followed: values of the type may lead to memory.
func followed(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if followed(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return followed(u.Elem())
	case *types.Signature:
		return false
	case *types.Tuple:
		return true
	}
	return true
}

func (c *race) val(x *rfun, v ssa.Value) rset {
	switch u := v.(type) {
	case nil:
		return nil
	case *ssa.Global:
		s := rset{}
		s.add(rpath{kind: 'G', g: u})
		return s
	}
	return x.env[v]
}

func (x *rfun) set(v ssa.Value, s rset) {
	if len(s) == 0 || !followed(v.Type()) {
		return
	}
	e := x.env[v]
	if e == nil {
		e = rset{}
		x.env[v] = e
	}
	if e.addAll(s) {
		x.chg = true
	}
}

// load is what the memory at the paths holds.
func (x *rfun) load(s rset) rset {
	out := rset{}
	for _, p := range s {
		if p.kind != 'A' {
			out.add(p)
			continue
		}
		// the embedded part itself
		for n := len(p.steps); n >= 0; n-- {
			q := p
			q.steps = p.steps[:n]
			for _, c := range x.cont[q.key()] {
				out.add(c.with(p.steps[n:]...))
			}
		}
	}
	return out
}

// through resolves the fresh memory a path leads through.
func (x *rfun) through(p rpath) rset {
	out := rset{}
	out.add(p)
	for round := 0; round < 6; round++ {
		n := len(out)
		for _, q := range out {
			if q.kind != 'A' {
				continue
			}
			for i := 0; i < len(q.steps); i++ {
				h := q
				h.steps = q.steps[:i]
				for _, c := range x.cont[h.key()] {
					out.add(c.with(q.steps[i:]...))
				}
			}
		}
		if len(out) == n {
			break
		}
	}
	return out
}

func (x *rfun) store(at, v rset) {
	for _, p := range at {
		if p.kind != 'A' {
			continue
		}
		k := p.key()
		if x.cont[k] == nil {
			x.cont[k] = rset{}
		}
		x.cpa[k] = p
		for _, q := range v {
			if q.root() == p.root() {
				continue
			}
			if x.cont[k].add(q) {
				x.chg = true
			}
		}
	}
}

func structStep(t types.Type, i int) (string, *types.Var) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?", nil
	}
	n := strings.TrimPrefix(t.String(), "github.com/hound-search/hound/")
	if len(n) > 60 {
		n = "struct"
	}
	return n + "." + st.Field(i).Name(), st.Field(i)
}

func ext(s rset, step string) rset {
	out := rset{}
	for _, p := range s {
		out.add(p.with(step))
	}
	return out
}

func isSyncT(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func (c *race) access(x *rfun, s rset, write bool, l rlocks, at ssa.Instruction) {
	for _, p := range s {
		c.addAcc(x, &raccess{p: p, write: write, locks: l, site: at})
	}
}

func (c *race) addAcc(x *rfun, a *raccess) {
	if c.phase != rpAcc {
		return
	}
	if a.thr == nil && a.p.kind == 'A' {
		return
	}
	// a goroutine started here accesses what is fresh here: the end of it
	if a.thr != nil && a.p.kind == 'A' {
		c.finish(a, x)
		return
	}
	k := a.key()
	if x.sum.acc[k] == nil {
		if len(x.sum.acc) > 6000 {
			return
		}
		x.sum.acc[k] = a
		x.chg = true
	}
}

func (c *race) finish(a *raccess, x *rfun) {
	k := a.key()
	if !c.finK[k] {
		c.finK[k] = true
		c.fin = append(c.fin, a)
	}
}

// callees of a call, with the closures passed along.
func (c *race) callees(ci ssa.CallInstruction) []*ssa.Function {
	com := ci.Common()
	if com.IsInvoke() {
		return c.r.P.Implementations(com.Method)
	}
	if g := com.StaticCallee(); g != nil {
		if c.r.P.InModule(g) && len(g.Blocks) > 0 {
			return []*ssa.Function{g}
		}
		return nil
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil
	}
	if mc, ok := com.Value.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	if com.Signature() != nil {
		return c.dyn[sigKey(com.Signature())]
	}
	return nil
}

// mutators: external calls which change what their receiver or an argument
// leads to. The index says which argument.
func mutated(name string) int {
	switch {
	case strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*strings.Builder)."):
		for _, s := range []string{".Write", ".WriteString", ".WriteByte", ".WriteRune", ".Reset", ".Truncate", ".Read", ".ReadByte", ".ReadString", ".ReadBytes", ".Next", ".ReadFrom", ".WriteTo", ".Grow"} {
			if strings.HasSuffix(name, s) {
				return 0
			}
		}
		return -1
	case strings.HasPrefix(name, "(*bufio."), strings.HasPrefix(name, "(*math/rand.Rand)."), strings.HasPrefix(name, "(*container/"),
		strings.HasPrefix(name, "(*encoding/json.Encoder)."), strings.HasPrefix(name, "(*compress/gzip."), strings.HasPrefix(name, "(*encoding/gob."),
		strings.HasPrefix(name, "(*strings.Reader)."), strings.HasPrefix(name, "(*bytes.Reader)."), strings.HasPrefix(name, "(hash.Hash"),
		strings.HasPrefix(name, "(*text/tabwriter."), strings.HasPrefix(name, "(*text/scanner."):
		return 0
	case name == "(net/url.Values).Set", name == "(net/url.Values).Add", name == "(net/url.Values).Del",
		name == "(net/http.Header).Set", name == "(net/http.Header).Add", name == "(net/http.Header).Del",
		name == "(*html/template.Template).Parse", name == "(*html/template.Template).Funcs", name == "(*text/template.Template).Parse", name == "(*text/template.Template).Funcs",
		name == "sort.Slice", name == "sort.SliceStable", name == "sort.Strings", name == "sort.Ints", name == "sort.Sort", name == "sort.Stable", name == "math/rand.Shuffle":
		return 0
	case name == "(*encoding/json.Decoder).Decode", name == "encoding/json.Unmarshal", name == "(io.Reader).Read", name == "io.ReadFull", name == "(*os.File).Read", name == "(*os.File).ReadAt":
		return 1
	case name == "encoding/binary.Read":
		return 2
	}
	return -1
}

func (c *race) lockCall(x *rfun, ci ssa.CallInstruction) (paths rset, lock, write bool) {
	com := ci.Common()
	g := com.StaticCallee()
	if g == nil || com.IsInvoke() && false {
		return nil, false, false
	}
	switch eng.CalleeName(com) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return c.val(x, com.Args[0]), true, true
	case "(*sync.RWMutex).RLock":
		return c.val(x, com.Args[0]), true, false
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return c.val(x, com.Args[0]), false, false
	}
	return nil, false, false
}

// samePlace: the paths are ways to name the same field, or only one path.
func samePlace(s rset) bool {
	last := ""
	for _, p := range s {
		if len(s) == 1 {
			return true
		}
		if len(p.steps) == 0 {
			return false
		}
		if l := p.steps[len(p.steps)-1]; last == "" {
			last = l
		} else if l != last {
			return false
		}
	}
	return len(s) > 0
}

func lockKey(p rpath) string { return p.key() }

// transfer runs the locks through one instruction.
func (c *race) transfer(x *rfun, l rlocks, i ssa.Instruction, defers []*ssa.Defer) rlocks {
	switch i := i.(type) {
	case *ssa.Call:
		return c.locked(x, l, i)
	case *ssa.RunDefers:
		for n := len(defers) - 1; n >= 0; n-- {
			l = c.locked(x, l, defers[n])
		}
	}
	return l
}

// locked is what is held after a call.
func (c *race) locked(x *rfun, l rlocks, ci ssa.CallInstruction) rlocks {
	{
		if ps, lock, w := c.lockCall(x, ci); len(ps) > 0 {
			l = l.clone()
			for _, p := range ps {
				if lock {
					if samePlace(ps) {
						l[lockKey(p)] = rlock{p, w}
					}
				} else {
					delete(l, lockKey(p))
					if _, ok := x.sum.rel[lockKey(p)]; !ok {
						x.sum.rel[lockKey(p)] = p
						x.chg = true
					}
				}
			}
			return l
		}
		apply := func(y *rfun, tr func(rpath) rset) {
			if len(y.sum.acq) == 0 && len(y.sum.rel) == 0 {
				return
			}
			l = l.clone()
			for _, p := range y.sum.rel {
				for _, q := range tr(p) {
					delete(l, lockKey(q))
				}
				if _, ok := x.sum.rel[lockKey(p)]; !ok && p.kind == 'G' {
					x.sum.rel[lockKey(p)] = p
					x.chg = true
				}
			}
			for _, k := range y.sum.acq {
				if qs := tr(k.p); samePlace(qs) {
					for _, q := range qs {
						l[lockKey(q)] = rlock{q, k.w}
					}
				}
			}
		}
		for _, g := range c.callees(ci) {
			y := c.fun(g)
			apply(y, c.translator(x, y, ci, g))
		}
		// a function another one has returned
		for _, made := range madeBy(ci.Common().Value) {
			g := made.Call.StaticCallee()
			if g == nil || !c.r.P.InModule(g) {
				continue
			}
			z := c.fun(g)
			outer := c.translator(x, z, made, g)
			for _, mc := range returnedClosures(g) {
				h := mc.Fn.(*ssa.Function)
				inner := c.translate(z, h, nil, mc, mc)
				apply(c.fun(h), func(p rpath) rset {
					out := rset{}
					for _, q := range inner(p) {
						for k, v := range outer(q) {
							out[k] = v
						}
					}
					return out
				})
			}
		}
	}
	return l
}

// madeBy: the calls a function value called comes from.
func madeBy(v ssa.Value) []*ssa.Call {
	var out []*ssa.Call
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Call:
			out = append(out, v)
		case *ssa.Extract:
			walk(v.Tuple)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						walk(st.Val)
					}
				}
			}
		}
	}
	if _, ok := v.Type().Underlying().(*types.Signature); ok {
		walk(v)
	}
	return out
}

// returnedClosures: what a function which returns functions makes of them.
func returnedClosures(f *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ret, ok := i.(*ssa.Return); ok {
				for _, v := range ret.Results {
					if mc := closureOf(v); mc != nil {
						out = append(out, mc)
					}
				}
			}
		}
	}
	return out
}

// translator maps paths of the callee to paths of the caller.
func (c *race) translator(x *rfun, y *rfun, ci ssa.CallInstruction, g *ssa.Function) func(rpath) rset {
	com := ci.Common()
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	return c.translate(x, g, args, com.Value, ci.(ssa.Instruction))
}

func (c *race) translate(x *rfun, g *ssa.Function, args []ssa.Value, fv ssa.Value, at ssa.Instruction) func(rpath) rset {
	return func(p rpath) rset {
		out := rset{}
		switch p.kind {
		case 'G':
			out.add(p)
		case 'P':
			if p.idx < len(args) {
				for _, b := range c.val(x, args[p.idx]) {
					for k, q := range x.through(b.with(p.steps...)) {
						out[k] = q
					}
				}
			}
		case 'F':
			mc, _ := fv.(*ssa.MakeClosure)
			if mc == nil {
				mc = c.bind[g]
				if mc == nil || mc.Parent() != x.f {
					return out
				}
			}
			if mc.Fn == g && p.idx < len(mc.Bindings) {
				for _, b := range c.val(x, mc.Bindings[p.idx]) {
					for k, q := range x.through(b.with(p.steps...)) {
						out[k] = q
					}
				}
			}
		case 'A':
			q := p
			q.via = at
			out.add(q)
		}
		return out
	}
}

// use instantiates what the callee does at a call.
func (c *race) use(x *rfun, g *ssa.Function, args []ssa.Value, fv ssa.Value, at ssa.Instruction, l rlocks, gi *ssa.Go) {
	y := c.fun(g)
	tr := c.translate(x, g, args, fv, at)
	var th *rthread
	if gi != nil {
		th = c.thr[gi]
		if th == nil {
			th = &rthread{at: gi, fn: g, name: FnName(g)}
			c.thr[gi] = th
		}
	}
	for _, a := range y.sum.acc {
		if c.phase != rpAcc {
			break
		}
		n := &raccess{write: a.write, site: a.site, thr: a.thr, self: a.self}
		n.locks = rlocks{}
		for _, k := range a.locks {
			qs := tr(k.p)
			if k.p.kind == 'A' {
				continue
			}
			if samePlace(qs) {
				for _, q := range qs {
					n.locks[lockKey(q)] = rlock{q, k.w}
				}
			}
		}
		if a.thr == nil {
			if gi != nil {
				n.thr = th
			} else {
				for k, v := range l {
					n.locks[k] = v
				}
			}
		}
		for _, q := range tr(a.p) {
			m := *n
			m.p = q
			if m.thr != nil {
				// several goroutines with the same object
				if sameObject(at, q, a.p.kind == 'G') {
					m.self = true
				}
			}
			c.addAcc(x, &m)
		}
	}
	if gi != nil {
		return
	}
	if v, ok := at.(ssa.Value); ok && at != nil {
		if call, ok := at.(*ssa.Call); !ok || call.Common().Value != fv {
			return
		}
		n := len(y.sum.ret)
		if n == 0 {
			return
		}
		rs := x.tup[v]
		if rs == nil {
			rs = make([]rset, n)
			for i := range rs {
				rs[i] = rset{}
			}
			x.tup[v] = rs
		}
		for i := range y.sum.ret {
			if i >= len(rs) {
				break
			}
			for _, p := range y.sum.ret[i] {
				if rs[i].addAll(tr(p)) {
					x.chg = true
				}
			}
		}
		if n == 1 {
			x.set(v, rs[0])
		}
		// what the fresh objects returned hold
		for rk, cs := range y.sum.rcont {
			at := y.sum.rpa[rk]
			dst := tr(at)
			for _, s := range cs {
				vs := rset{}
				for _, p := range s {
					vs.addAll(tr(p))
				}
				x.store(dst, vs)
			}
		}
	}
}

// sameObject: the goroutine started at the instruction, or started by the
// function called there, may run several times at once with the object.
func sameObject(at ssa.Instruction, q rpath, global bool) bool {
	if at == nil || !inCycle(at.Block()) {
		return false
	}
	if q.kind == 'A' {
		mk := q.a
		if q.via != nil {
			mk = q.via
		}
		return !sameCycle(mk.Block(), at.Block())
	}
	// the object comes from outside, unless it is another element each time
	if global {
		return true
	}
	for n, s := range q.steps {
		if s == "[]" || s == "{}" && n+1 < len(q.steps) {
			return false
		}
	}
	return true
}

// elemStep is the step to the elements of a container: those of a map cannot be
// told apart, for a change to one is a change to the map.
func elemStep(v ssa.Value) string {
	if _, ok := v.Type().Underlying().(*types.Map); ok {
		return "{}"
	}
	return "[]"
}

// ownElement: the site accesses an element which a goroutine chose by what it
// was given at its start.
func ownElement(site ssa.Instruction) bool {
	var addr ssa.Value
	switch i := site.(type) {
	case *ssa.Store:
		addr = i.Addr
	case *ssa.UnOp:
		addr = i.X
	}
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	switch v := ia.Index.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		_, ok := v.X.(*ssa.FreeVar)
		return ok
	}
	return false
}

// passes: control may get from just after the one instruction to the other
// without executing the third.
func passes(from, to, without ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, n int) bool
	walk = func(b *ssa.BasicBlock, n int) bool {
		for _, j := range b.Instrs[n:] {
			if j == to {
				return true
			}
			if j == without {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for n, j := range from.Block().Instrs {
		if j == from {
			return walk(from.Block(), n+1)
		}
	}
	return false
}

func (c *race) step(x *rfun) {
	f := x.f
	var defers []*ssa.Defer
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	// locks at the start of each block
	if c.phase == rpLocks {
		x.in = map[*ssa.BasicBlock]rlocks{f.Blocks[0]: {}}
	}
	for round := 0; round < 20 && c.phase == rpLocks; round++ {
		ch := false
		for _, b := range f.Blocks {
			l, ok := x.in[b]
			if !ok {
				continue
			}
			for _, i := range b.Instrs {
				l = c.transfer(x, l, i, defers)
			}
			for _, n := range b.Succs {
				o, ok := x.in[n]
				if !ok {
					x.in[n] = l.clone()
					ch = true
					continue
				}
				for k, v := range o {
					w, ok := l[k]
					if !ok {
						delete(o, k)
						ch = true
					} else if v.w && !w.w {
						o[k] = w
						ch = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	var acq rlocks
	for _, b := range f.Blocks {
		l, ok := x.in[b]
		if c.phase == rpVals {
			for _, i := range b.Instrs {
				c.instr(x, i, nil)
			}
			continue
		}
		if !ok {
			continue
		}
		for _, i := range b.Instrs {
			if c.phase == rpAcc {
				c.instr(x, i, l)
			}
			l = c.transfer(x, l, i, defers)
			if _, ok := i.(*ssa.Return); ok {
				if acq == nil {
					acq = l.clone()
				} else {
					for k := range acq {
						if _, ok := l[k]; !ok {
							delete(acq, k)
						}
					}
				}
			}
		}
	}
	if c.phase == rpLocks && len(acq) != len(x.sum.acq) {
		x.sum.acq = rlocks{}
		for k, v := range acq {
			x.sum.acq[k] = v
		}
		x.chg = true
	}
}

func (c *race) instr(x *rfun, i ssa.Instruction, l rlocks) {
	put := func(v ssa.Value, ops ...ssa.Value) {
		for _, o := range ops {
			x.set(v, c.val(x, o))
		}
	}
	fresh := func(v ssa.Value) {
		if x.env[v] == nil {
			x.env[v] = rset{}
			x.env[v].add(rpath{kind: 'A', a: v.(ssa.Instruction)})
			x.chg = true
		}
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		fresh(i)
	case *ssa.MakeMap:
		fresh(i)
	case *ssa.MakeSlice:
		fresh(i)
	case *ssa.MakeChan:
	case *ssa.Phi:
		put(i, i.Edges...)
	case *ssa.ChangeType:
		put(i, i.X)
	case *ssa.ChangeInterface:
		put(i, i.X)
	case *ssa.MakeInterface:
		put(i, i.X)
	case *ssa.Convert:
		put(i, i.X)
	case *ssa.TypeAssert:
		if i.CommaOk {
			x.tup[i] = []rset{c.val(x, i.X), nil}
		} else {
			put(i, i.X)
		}
	case *ssa.Slice:
		put(i, i.X)
	case *ssa.SliceToArrayPointer:
		put(i, i.X)
	case *ssa.FieldAddr:
		st, _ := structStep(i.X.Type(), i.Field)
		x.set(i, ext(c.val(x, i.X), st))
	case *ssa.Field:
		st, _ := structStep(i.X.Type(), i.Field)
		x.set(i, x.load(ext(c.val(x, i.X), st)))
	case *ssa.IndexAddr:
		x.set(i, ext(c.val(x, i.X), "[]"))
	case *ssa.Index:
		x.set(i, x.load(ext(c.val(x, i.X), "[]")))
	case *ssa.UnOp:
		if i.Op == token.MUL {
			s := c.val(x, i.X)
			if !isSyncT(i.Type()) {
				c.access(x, s, false, l, i)
			}
			x.set(i, x.load(s))
		}
	case *ssa.Store:
		s := c.val(x, i.Addr)
		if !isSyncT(i.Val.Type()) {
			c.access(x, s, true, l, i)
		}
		x.store(s, c.val(x, i.Val))
	case *ssa.Lookup:
		s := ext(c.val(x, i.X), elemStep(i.X))
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			c.access(x, s, false, l, i)
		}
		if i.CommaOk {
			x.tup[i] = []rset{x.load(s), nil}
		} else {
			x.set(i, x.load(s))
		}
	case *ssa.MapUpdate:
		s := ext(c.val(x, i.Map), "{}")
		c.access(x, s, true, l, i)
		x.store(s, c.val(x, i.Value))
	case *ssa.Range:
		put(i, i.X)
	case *ssa.Next:
		if !i.IsString {
			s := ext(c.val(x, i.Iter.(*ssa.Range).X), elemStep(i.Iter.(*ssa.Range).X))
			c.access(x, s, false, l, i)
			x.tup[i] = []rset{nil, nil, x.load(s)}
		}
	case *ssa.Extract:
		if rs := x.tup[i.Tuple]; i.Index < len(rs) {
			x.set(i, rs[i.Index])
		}
	case *ssa.MakeClosure:
	case *ssa.Return:
		for n, v := range i.Results {
			s := c.val(x, v)
			if x.sum.ret[n].addAll(s) {
				x.chg = true
			}
			for _, p := range s {
				c.export(x, p, 0)
			}
		}
	case *ssa.Call:
		c.call(x, i, l, nil)
	case *ssa.Defer:
		c.call(x, i, l, nil)
	case *ssa.Go:
		c.call(x, i, rlocks{}, i)
	}
}

// export notes the content of a fresh object which is returned.
func (c *race) export(x *rfun, p rpath, depth int) {
	if p.kind != 'A' || depth > 4 {
		return
	}
	root := p
	root.steps = nil
	pre := root.key()
	for k, s := range x.cont {
		if !strings.HasPrefix(k, pre) {
			continue
		}
		if x.sum.rcont[k] == nil {
			x.sum.rcont[k] = map[string]rset{"": {}}
			x.sum.rpa[k] = x.cpa[k]
		}
		if x.sum.rcont[k][""].addAll(s) {
			x.chg = true
			for _, q := range s {
				c.export(x, q, depth+1)
			}
		}
	}
}

func (c *race) call(x *rfun, ci ssa.CallInstruction, l rlocks, gi *ssa.Go) {
	com := ci.Common()
	at := ci.(ssa.Instruction)
	name := eng.CalleeName(com)
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	v, _ := at.(ssa.Value)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			x.set(v, c.val(x, args[0]))
			if len(x.env[v]) == 0 && x.env[v] == nil {
				x.env[v] = rset{}
				x.env[v].add(rpath{kind: 'A', a: at})
				x.chg = true
			}
			if len(args) > 1 {
				x.store(ext(x.env[v], "[]"), x.load(ext(c.val(x, args[1]), "[]")))
			}
		case "copy":
			c.access(x, ext(c.val(x, args[0]), "[]"), true, l, at)
		case "delete":
			c.access(x, ext(c.val(x, args[0]), "{}"), true, l, at)
		case "clear":
			c.access(x, ext(c.val(x, args[0]), elemStep(args[0])), true, l, at)
		case "len":
			if elemStep(args[0]) == "{}" {
				c.access(x, ext(c.val(x, args[0]), "{}"), false, l, at)
			}
		}
		return
	}
	// functions passed along are called while the call lasts
	for _, a := range com.Args {
		if mc := closureOf(a); mc != nil {
			g := mc.Fn.(*ssa.Function)
			if registers(at) {
				continue
			}
			if name == "(*sync.Once).Do" {
				continue
			}
			c.use(x, g, nil, mc, at, l, gi)
		}
	}
	gs := c.callees(ci)
	for _, g := range gs {
		c.use(x, g, args, com.Value, at, l, gi)
	}
	if len(gs) > 0 {
		return
	}
	switch name {
	case "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete", "(*sync/atomic.Value).Load":
		s := ext(c.val(x, args[0]), "[]")
		if com.Signature().Results().Len() == 2 {
			x.tup[v] = []rset{s, nil}
		} else if v != nil {
			x.set(v, s)
		}
		return
	case "(*sync.WaitGroup).Go":
		return
	}
	if n := mutated(name); n >= 0 && n < len(args) {
		t := args[n].Type()
		s := c.val(x, args[n])
		switch t.Underlying().(type) {
		case *types.Map:
			s = ext(s, "{}")
		case *types.Slice:
			s = ext(s, "[]")
		default:
			s = ext(s, "*")
		}
		c.access(x, s, true, l, at)
	}
	// conversions of the standard library which keep what they are given
	switch name {
	case "bufio.NewReader", "bufio.NewWriter", "bufio.NewReaderSize", "bufio.NewWriterSize", "encoding/json.NewEncoder", "encoding/json.NewDecoder":
	}
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	for {
		switch u := v.(type) {
		case *ssa.MakeClosure:
			return u
		case *ssa.ChangeType:
			v = u.X
		case *ssa.MakeInterface:
			v = u.X
		default:
			return nil
		}
	}
}

// run computes the accesses of every function and returns those of every
// goroutine.
func (c *race) run() []*raccess {
	funcs := c.r.P.Funcs
	for round := 0; ; round++ {
		if round > 90 {
			c.r.Undecided("the analysis of shared memory did not reach a fixed point")
			return nil
		}
		ch := false
		for _, f := range funcs {
			c.r.Funcs[f] = true
			x := c.fun(f)
			x.chg = false
			c.step(x)
			ch = ch || x.chg
		}
		if !ch {
			if c.phase == rpAcc {
				break
			}
			c.phase++
		}
	}
	out := append([]*raccess(nil), c.fin...)
	called := c.r.P.CallersOf()
	for _, f := range funcs {
		x := c.fun(f)
		h := isHandlerSig(f.Signature)
		for _, a := range x.sum.acc {
			switch {
			case a.thr != nil:
				// goroutines working on what their starters were given: as
				// far up as it goes
				switch {
				case h && (a.p.kind != 'P' || a.p.idx < len(f.Params)-f.Signature.Params().Len()):
					// every request starts the goroutine
					b := *a
					b.self = true
					out = append(out, &b)
				case a.p.kind == 'G' || len(called[f]) == 0 || h:
					out = append(out, a)
				}
			case h:
				off := 0
				if f.Signature.Recv() != nil {
					off = 1
				}
				if a.p.kind == 'P' && a.p.idx >= off {
					continue
				}
				b := *a
				b.thr = c.handlerThread(f)
				b.self = true
				out = append(out, &b)
			}
		}
		out = append(out, c.after(x)...)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].site.Pos() < out[j].site.Pos() })
	return out
}

func (c *race) handlerThread(f *ssa.Function) *rthread {
	if c.hthr[f] == nil {
		c.hthr[f] = &rthread{fn: f, name: FnName(f)}
	}
	return c.hthr[f]
}

// spawns: the goroutines which a call may leave behind.
func (c *race) spawns(ci ssa.CallInstruction) map[*rthread]bool {
	out := map[*rthread]bool{}
	if gi, ok := ci.(*ssa.Go); ok {
		if t := c.thr[gi]; t != nil {
			out[t] = true
		}
	}
	served := false
	scan := func(i ssa.Instruction) bool {
		if gi, ok := i.(*ssa.Go); ok && c.thr[gi] != nil {
			out[c.thr[gi]] = true
		}
		if calleeIs(i, "net/http.ListenAndServe", "(*net/http.Server).ListenAndServe", "net/http.Serve", "(*net/http.Server).Serve") {
			served = true
		}
		return false
	}
	for g := range c.r.P.Reach(c.callees(ci)...) {
		mentions(g, scan)
	}
	if served {
		for _, f := range c.r.P.Funcs {
			if isHandlerSig(f.Signature) {
				out[c.handlerThread(f)] = true
			}
		}
	}
	return out
}

// after lists what a function does itself to memory it shares with goroutines
// after starting them and before it waits for anything.
func (c *race) after(x *rfun) []*raccess {
	var out []*raccess
	for _, b := range x.f.Blocks {
		for n, i := range b.Instrs {
			gi, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := i.(*ssa.Defer); ok {
				continue
			}
			pairs := c.spawns(gi)
			if len(pairs) == 0 {
				continue
			}
			shared := map[string]bool{}
			var share func(p rpath, d int)
			share = func(p rpath, d int) {
				if p.kind != 'A' || d > 4 {
					return
				}
				r := p
				r.steps = nil
				if shared[r.root()] {
					return
				}
				shared[r.root()] = true
				for k, s := range x.cont {
					if strings.HasPrefix(k, r.root()+"|") {
						for _, q := range s {
							share(q, d+1)
						}
					}
				}
			}
			vals := append([]ssa.Value(nil), gi.Common().Args...)
			if mc := closureOf(gi.Common().Value); mc != nil {
				vals = append(vals, mc.Bindings...)
			}
			for _, v := range vals {
				if mc := closureOf(v); mc != nil {
					vals = append(vals, mc.Bindings...)
				}
			}
			for _, v := range vals {
				for _, p := range c.val(x, v) {
					share(p, 0)
				}
			}
			if v, ok := i.(ssa.Value); ok {
				for _, p := range x.env[v] {
					share(p, 0)
				}
				for _, s := range x.tup[v] {
					for _, p := range s {
						share(p, 0)
					}
				}
			}
			me := &rthread{fn: x.f, name: FnName(x.f) + " itself"}
			_, direct := i.(*ssa.Go)
			note := func(p rpath, write bool, l rlocks, site ssa.Instruction, here ssa.Instruction, live map[*rthread]bool) {
				if p.kind != 'A' || !shared[p.root()] {
					return
				}
				// a new object in each round is not the one given away
				mk := p.a
				if p.via != nil {
					mk = p.via
				}
				if mk == i && !direct {
					mk = here
				}
				if mk != here && !passes(i, here, mk) {
					return
				}
				out = append(out, &raccess{p: p, write: write, locks: l, site: site, thr: me, pair: live})
			}
			seen := map[string]bool{}
			var walk func(b *ssa.BasicBlock, n int, w rwait)
			walk = func(b *ssa.BasicBlock, n int, w rwait) {
				l := x.in[b]
				var defers []*ssa.Defer
				for k, j := range b.Instrs {
					if k < n {
						l = c.transfer(x, l, j, defers)
						continue
					}
					if w = c.waited(w, j); len(w.live) == 0 {
						return
					}
					switch j := j.(type) {
					case *ssa.Store:
						for _, p := range c.val(x, j.Addr) {
							note(p, true, l, j, j, w.live)
						}
					case *ssa.MapUpdate:
						for _, p := range ext(c.val(x, j.Map), "{}") {
							note(p, true, l, j, j, w.live)
						}
					case *ssa.UnOp:
						if j.Op == token.MUL && !isSyncT(j.Type()) {
							for _, p := range c.val(x, j.X) {
								note(p, false, l, j, j, w.live)
							}
						}
					case *ssa.Lookup:
						if _, ok := j.X.Type().Underlying().(*types.Map); ok {
							for _, p := range ext(c.val(x, j.X), elemStep(j.X)) {
								note(p, false, l, j, j, w.live)
							}
						}
					case *ssa.Call:
						args := j.Common().Args
						if j.Common().IsInvoke() {
							args = append([]ssa.Value{j.Common().Value}, args...)
						}
						for _, g := range c.callees(j) {
							tr := c.translate(x, g, args, j.Common().Value, j)
							for _, a := range c.fun(g).sum.acc {
								if a.thr != nil || a.p.kind == 'G' {
									continue
								}
								ls := l.clone()
								for _, k := range a.locks {
									if qs := tr(k.p); samePlace(qs) {
										for _, q := range qs {
											ls[lockKey(q)] = rlock{q, k.w}
										}
									}
								}
								for _, q := range tr(a.p) {
									note(q, a.write, ls, a.site, j, w.live)
								}
							}
						}
					}
					l = c.transfer(x, l, j, defers)
				}
				for _, n := range b.Succs {
					v := w.leave(b, n)
					if len(v.live) == 0 {
						continue
					}
					if k := fmt.Sprintf("%d/%s", n.Index, v.key()); !seen[k] {
						seen[k] = true
						walk(n, 0, v)
					}
				}
			}
			walk(b, n+1, rwait{live: pairs})
		}
	}
	return out
}

// rwait: the goroutines not known to have come to their end, or to have
// handed over what they work on, and those which have when a loop ends.
type rwait struct {
	live map[*rthread]bool
	pend map[*rthread]*ssa.BasicBlock
}

func (w rwait) key() string {
	var ks []string
	for t := range w.live {
		k := fmt.Sprintf("%p", t)
		if b := w.pend[t]; b != nil {
			k += fmt.Sprint("@", b.Index)
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (w rwait) clone() rwait {
	v := rwait{map[*rthread]bool{}, map[*rthread]*ssa.BasicBlock{}}
	for t := range w.live {
		v.live[t] = true
	}
	for t, b := range w.pend {
		v.pend[t] = b
	}
	return v
}

func (w rwait) leave(from, to *ssa.BasicBlock) rwait {
	if len(w.pend) == 0 {
		return w
	}
	v := w
	cloned := false
	for t, b := range w.pend {
		if !sameCycle(b, to) {
			if !cloned {
				v, cloned = w.clone(), true
			}
			delete(v.live, t)
			delete(v.pend, t)
		}
	}
	return v
}

// waited: the goroutines left once the instruction has been executed.
func (c *race) waited(w rwait, i ssa.Instruction) rwait {
	v := w
	cloned := false
	for t := range w.live {
		if t.at == nil || !c.awaits(i, t, true) {
			continue
		}
		if !cloned {
			v, cloned = w.clone(), true
		}
		if t.at != nil && inCycle(t.at.Block()) && inCycle(i.Block()) {
			v.pend[t] = i.Block()
			continue
		}
		delete(v.live, t)
	}
	return v
}

// awaits: the instruction waits for a signal such as the goroutine gives.
func (c *race) awaits(i ssa.Instruction, t *rthread, deep bool) bool {
	gives := func(elem types.Type) bool {
		for g := range c.r.P.Reach(t.fn) {
			if mentions(g, func(j ssa.Instruction) bool {
				switch j := j.(type) {
				case *ssa.Send:
					return elem != nil && types.Identical(j.X.Type(), elem)
				case *ssa.Select:
					for _, s := range j.States {
						if elem != nil && s.Dir == types.SendOnly && types.Identical(s.Send.Type(), elem) {
							return true
						}
					}
				case ssa.CallInstruction:
					if b, ok := j.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && elem != nil {
						ch, ok := j.Common().Args[0].Type().Underlying().(*types.Chan)
						return ok && types.Identical(ch.Elem(), elem)
					}
					return elem == nil && calleeIs(j.(ssa.Instruction), "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Add")
				}
				return false
			}) {
				return true
			}
		}
		return false
	}
	elem := func(v ssa.Value) types.Type {
		if ch, ok := v.Type().Underlying().(*types.Chan); ok {
			return ch.Elem()
		}
		return nil
	}
	switch i := i.(type) {
	case *ssa.UnOp:
		return i.Op == token.ARROW && gives(elem(i.X))
	case *ssa.Next:
		return false
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.RecvOnly && gives(elem(s.Chan)) {
				return true
			}
		}
	case *ssa.Call:
		if calleeIs(i, "(*sync.WaitGroup).Wait") {
			return gives(nil)
		}
		if !deep {
			return false
		}
		for g := range c.r.P.Reach(c.callees(i)...) {
			if mentions(g, func(j ssa.Instruction) bool { return c.awaits(j, t, false) }) {
				return true
			}
		}
	}
	return false
}

// where names the memory of an access in a way which is the same in every
// goroutine.
func (c *race) where(a *raccess, f *ssa.Function) string {
	p := a.p
	return c.place(p, f)
}

func (c *race) place(p rpath, f *ssa.Function) string {
	for i := len(p.steps) - 1; i >= 0; i-- {
		s := p.steps[i]
		if s != "[]" && s != "{}" && s != "*" {
			return strings.Join(p.steps[i:], "")
		}
	}
	tail := strings.Join(p.steps, "")
	switch p.kind {
	case 'G':
		return strings.TrimPrefix(p.g.RelString(nil), "github.com/hound-search/hound/") + tail
	case 'A':
		return fmt.Sprintf("the %s of %s", allocName(p.a), FnName(p.a.Parent())) + tail
	case 'F':
		g := f
		idx := p.idx
		for g != nil {
			mc := c.bind[g]
			if mc == nil || idx >= len(mc.Bindings) {
				break
			}
			switch b := mc.Bindings[idx].(type) {
			case *ssa.FreeVar:
				g = mc.Parent()
				for n, v := range g.FreeVars {
					if v == b {
						idx = n
					}
				}
				continue
			case ssa.Instruction:
				return fmt.Sprintf("the %s of %s", allocName(b), FnName(b.Parent())) + tail
			case ssa.Value:
				return fmt.Sprintf("%s of %s", b.Name(), FnName(mc.Parent())) + tail
			}
			break
		}
	}
	return fmt.Sprintf("%s of %s", p.root(), FnName(f)) + tail
}

func allocName(i ssa.Instruction) string {
	if a, ok := i.(*ssa.Alloc); ok && a.Comment != "" {
		return "variable " + a.Comment
	}
	return "object made"
}

// sameElement: a lock which is one of many belongs to the same element of the
// container as the memory.
func sameElement(lock, mem rpath) bool {
	for n := len(lock.steps) - 1; n >= 0; n-- {
		if lock.steps[n] != "[]" && lock.steps[n] != "{}" {
			continue
		}
		if lock.root() != mem.root() || len(mem.steps) <= n {
			return false
		}
		for k := 0; k <= n; k++ {
			if lock.steps[k] != mem.steps[k] {
				return false
			}
		}
		return true
	}
	return true
}

// conflict: two accesses of different goroutines may collide.
func (c *race) protected(a, b *raccess, af, bf *ssa.Function) bool {
	for _, k := range a.locks {
		if !sameElement(k.p, a.p) {
			continue
		}
		ka := c.place(k.p, af)
		for _, m := range b.locks {
			if ka != c.place(m.p, bf) || !sameElement(m.p, b.p) {
				continue
			}
			if (!a.write || k.w) && (!b.write || m.w) && (k.w || m.w) {
				return true
			}
		}
	}
	return false
}
