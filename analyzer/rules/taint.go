package rules

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// taint is a flow-insensitive, field-based dataflow over all functions of the
// module. A label is a set of up to four kinds, each either the function's own
// (bits 0-3) or come in from a caller (bits 4-7), and the parameters a value
// derives from (bits 8-). Results depend on the caller by the parameters, so
// that what one caller passes in does not come out at another.
type taint struct {
	r      *Report
	lab    map[ssa.Value]uint64
	tup    map[ssa.Value][]uint64
	fld    map[*types.Var]uint64
	res    map[*ssa.Function][]uint64
	mut    map[*ssa.Function][]uint64
	binds  map[*ssa.FreeVar][]ssa.Value
	dyn    map[string][]*ssa.Function
	keys   map[string]uint64
	change bool
	// source labels a value by itself (own kinds).
	source func(v ssa.Value) uint64
	// ext decides the labels of an external call's results; ok=false means
	// the default (union of the arguments).
	ext func(ci ssa.CallInstruction, name string, args []uint64) (res uint64, ok bool)
	// fills: structs of the module which a decoder is given to fill in carry
	// the label of what is decoded in their fields.
	fills bool
}

const (
	tOwn    = uint64(0xf)
	tCaller = uint64(0xf0)
	tParams = ^uint64(0xff)
)

// kinds are the kinds of a label, from here or from callers.
func kinds(l uint64) uint64 { return (l | l>>4) & tOwn }

func (r *Report) newTaint() *taint {
	t := &taint{r: r, lab: map[ssa.Value]uint64{}, tup: map[ssa.Value][]uint64{}, fld: map[*types.Var]uint64{},
		res: map[*ssa.Function][]uint64{}, mut: map[*ssa.Function][]uint64{}, keys: map[string]uint64{}, binds: map[*ssa.FreeVar][]ssa.Value{}, dyn: map[string][]*ssa.Function{}}
	// functions used as values, by signature
	seen := map[*ssa.Function]bool{}
	for _, f := range r.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var buf [16]*ssa.Value
				for n, op := range i.Operands(buf[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if ci, ok := i.(ssa.CallInstruction); ok && n == 0 && !ci.Common().IsInvoke() && ci.Common().Value == *op {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if !seen[g] && r.P.InModule(g) && len(g.Blocks) > 0 {
						seen[g] = true
						k := sigKey(g.Signature)
						t.dyn[k] = append(t.dyn[k], g)
					}
				}
			}
		}
	}
	return t
}

func sigKey(s *types.Signature) string {
	k := ""
	for _, tu := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < tu.Len(); i++ {
			k += types.TypeString(tu.At(i).Type(), nil) + ","
		}
		k += ";"
	}
	return k
}

// inert: a value of the type carries no data worth following.
func inert(t types.Type) bool {
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.UntypedNil {
		return b.Kind() == types.UntypedNil
	}
	return b.Info()&(types.IsBoolean|types.IsNumeric) != 0
}

func (t *taint) get(v ssa.Value) uint64 {
	if v == nil {
		return 0
	}
	l := t.lab[v]
	if t.source != nil {
		l |= t.source(v)
	}
	return l
}

func (t *taint) set(v ssa.Value, l uint64) {
	if l == 0 || inert(v.Type()) {
		return
	}
	if t.lab[v]|l != t.lab[v] {
		t.lab[v] |= l
		t.change = true
	}
}

func (t *taint) setField(f *types.Var, l uint64) {
	l = kinds(l)
	if l == 0 || inert(f.Type()) {
		return
	}
	if t.fld[f]|l != t.fld[f] {
		t.fld[f] |= l
		t.change = true
	}
}

func (t *taint) moduleStruct(ty types.Type) *types.Struct {
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
	}
	st, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(ty).(*types.Named); ok {
		if n.Obj().Pkg() == nil || !t.inModule(n.Obj().Pkg().Path()) {
			return nil
		}
	}
	return st
}

func (t *taint) inModule(path string) bool {
	return path == t.r.P.Module || strings.HasPrefix(path, t.r.P.Module+"/")
}

// into adds the label to the object v denotes or belongs to.
func (t *taint) into(v ssa.Value, l uint64, seen map[ssa.Value]bool) {
	if l == 0 || v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.FieldAddr:
		st := u.X.Type().Underlying().(*types.Pointer).Elem()
		if s := t.moduleStruct(st); s != nil {
			t.setField(s.Field(u.Field), l)
			return
		}
		t.into(u.X, l, seen)
	case *ssa.IndexAddr:
		t.into(u.X, l, seen)
	case *ssa.Slice:
		t.set(v, l)
		t.into(u.X, l, seen)
	case *ssa.ChangeType:
		t.set(v, l)
		t.into(u.X, l, seen)
	case *ssa.Convert:
		t.set(v, l)
	case *ssa.MakeInterface:
		t.set(v, l)
		t.into(u.X, l, seen)
	case *ssa.ChangeInterface:
		t.set(v, l)
		t.into(u.X, l, seen)
	case *ssa.TypeAssert:
		t.set(v, l)
		t.into(u.X, l, seen)
	case *ssa.Extract:
		t.set(v, l)
		if nx, ok := u.Tuple.(*ssa.Next); ok {
			t.into(nx.Iter.(*ssa.Range).X, l, seen)
		}
		if lk, ok := u.Tuple.(*ssa.Lookup); ok {
			t.into(lk.X, l, seen)
		}
	case *ssa.Lookup:
		t.set(v, l)
		t.into(u.X, l, seen)
	case *ssa.UnOp:
		t.set(v, l)
		if u.Op == token.MUL {
			t.into(u.X, l, seen)
		}
	case *ssa.Phi:
		t.set(v, l)
		for _, e := range u.Edges {
			t.into(e, l, seen)
		}
	case *ssa.Parameter:
		t.set(v, l)
		f := u.Parent()
		for i, p := range f.Params {
			if p == u {
				m := t.mut[f]
				if m == nil {
					m = make([]uint64, len(f.Params))
					t.mut[f] = m
				}
				own := l &^ tCaller
				if m[i]|own != m[i] {
					m[i] |= own
					t.change = true
				}
			}
		}
	case *ssa.FreeVar:
		t.set(v, l)
		for _, b := range t.binds[u] {
			t.into(b, l&^tParams, seen)
		}
	default:
		t.set(v, l)
	}
}

func (t *taint) run() {
	for round := 0; round < 60; round++ {
		t.change = false
		for _, f := range t.r.P.Funcs {
			t.r.Funcs[f] = true
			for i, p := range f.Params {
				if i < 56 && !inert(p.Type()) {
					t.lab[p] |= 1 << (8 + i)
				}
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					t.instr(f, i)
				}
			}
		}
		if !t.change {
			return
		}
	}
	t.r.Undecided("dataflow did not reach a fixed point")
}

func (t *taint) instr(f *ssa.Function, i ssa.Instruction) {
	put := func(v ssa.Value, ops ...ssa.Value) {
		for _, o := range ops {
			t.set(v, t.get(o))
		}
	}
	switch i := i.(type) {
	case *ssa.Phi:
		put(i, i.Edges...)
	case *ssa.UnOp:
		if i.Op == token.MUL || i.Op == token.ARROW {
			put(i, i.X)
		}
	case *ssa.BinOp:
		if i.Op == token.ADD {
			put(i, i.X, i.Y)
		}
	case *ssa.FieldAddr:
		st := i.X.Type().Underlying().(*types.Pointer).Elem()
		if s := t.moduleStruct(st); s != nil {
			t.set(i, t.fld[s.Field(i.Field)])
		} else if _, fv := fieldOf(i); fv == nil || fv.Name() != "Dir" {
			put(i, i.X)
		}
	case *ssa.Field:
		if s := t.moduleStruct(i.X.Type()); s != nil {
			t.set(i, t.fld[s.Field(i.Field)])
		} else {
			put(i, i.X)
		}
	case *ssa.IndexAddr:
		put(i, i.X)
	case *ssa.Index:
		put(i, i.X)
	case *ssa.Lookup:
		put(i, i.X)
	case *ssa.Slice:
		put(i, i.X)
	case *ssa.Convert:
		put(i, i.X)
	case *ssa.MultiConvert:
		put(i, i.X)
	case *ssa.ChangeType:
		put(i, i.X)
	case *ssa.ChangeInterface:
		put(i, i.X)
	case *ssa.SliceToArrayPointer:
		put(i, i.X)
	case *ssa.MakeInterface:
		put(i, i.X)
	case *ssa.TypeAssert:
		put(i, i.X)
	case *ssa.Range:
		put(i, i.X)
	case *ssa.Next:
		if l := t.get(i.Iter); l&^t.lab[i] != 0 {
			t.lab[i] |= l
			t.change = true
		}
	case *ssa.Extract:
		if rs, ok := t.tup[i.Tuple]; ok {
			t.set(i, rs[i.Index])
		} else if nx, ok := i.Tuple.(*ssa.Next); ok && i.Index == 1 && !nx.IsString {
			// keys of a map carry data only if such keys are put in
			t.set(i, t.get(i.Tuple)&t.keys[nx.Iter.(*ssa.Range).X.Type().String()])
		} else {
			put(i, i.Tuple)
		}
	case *ssa.Select:
		for _, st := range i.States {
			if st.Dir == types.SendOnly {
				t.into(st.Chan, t.get(st.Send), map[ssa.Value]bool{})
			} else if l := t.get(st.Chan); l&^t.lab[i] != 0 {
				t.lab[i] |= l
				t.change = true
			}
		}
	case *ssa.Send:
		t.into(i.Chan, t.get(i.X), map[ssa.Value]bool{})
	case *ssa.Store:
		t.into(i.Addr, t.get(i.Val), map[ssa.Value]bool{})
	case *ssa.MapUpdate:
		if l, k := t.get(i.Key), i.Map.Type().String(); kinds(l) != 0 && !inert(i.Key.Type()) && t.keys[k] == 0 {
			t.keys[k] = ^uint64(0)
			t.change = true
		}
		t.into(i.Map, t.get(i.Key)|t.get(i.Value), map[ssa.Value]bool{})
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for n, b := range i.Bindings {
			fv := fn.FreeVars[n]
			has := false
			for _, o := range t.binds[fv] {
				has = has || o == b
			}
			if !has {
				t.binds[fv] = append(t.binds[fv], b)
				t.change = true
			}
			t.set(fv, t.get(b)&^tParams)
			// what the closure puts in flows back by into
			if l := t.lab[fv] &^ tParams; l != 0 {
				if _, ok := b.(*ssa.Alloc); ok {
					t.set(b, l)
				}
			}
		}
	case *ssa.Return:
		rs := t.res[f]
		if rs == nil {
			rs = make([]uint64, len(i.Results))
			t.res[f] = rs
		}
		for n, v := range i.Results {
			l := t.get(v) &^ tCaller
			if inert(v.Type()) {
				continue
			}
			if rs[n]|l != rs[n] {
				rs[n] |= l
				t.change = true
			}
		}
	case ssa.CallInstruction:
		t.call(i)
	}
}

// callArgVals are the arguments with the receiver first.
func callArgVals(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (t *taint) targets(c *ssa.CallCommon) (fns []*ssa.Function, ext bool) {
	if c.IsInvoke() {
		fns = t.r.P.Implementations(c.Method)
		return fns, c.Method.Pkg() == nil || !t.inModule(c.Method.Pkg().Path())
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if f := c.StaticCallee(); f != nil {
		if t.r.P.InModule(f) && len(f.Blocks) > 0 {
			return []*ssa.Function{f}, false
		}
		return nil, true
	}
	fns = t.dyn[sigKey(c.Signature())]
	return fns, len(fns) == 0
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return f.RelString(nil)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	return ""
}

func (t *taint) translate(l uint64, args []uint64) uint64 {
	out := l & tOwn
	for i := range args {
		if i < 56 && l&(1<<(8+i)) != 0 {
			out |= args[i]
		}
	}
	return out
}

func (t *taint) call(ci ssa.CallInstruction) {
	c := ci.Common()
	vals := callArgVals(c)
	args := make([]uint64, len(vals))
	for i, a := range vals {
		args[i] = t.get(a)
	}
	nres := c.Signature().Results().Len()
	out := make([]uint64, nres)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "min", "max":
			l := uint64(0)
			for _, a := range args {
				l |= a
			}
			if v := ci.Value(); v != nil {
				t.set(v, l)
			}
		case "copy":
			t.into(vals[0], args[1], map[ssa.Value]bool{})
		}
		return
	}
	fns, ext := t.targets(c)
	for _, f := range fns {
		for i, p := range f.Params {
			if i < len(args) {
				t.set(p, kinds(args[i])<<4)
			}
		}
		for i, l := range t.res[f] {
			if i < nres {
				out[i] |= t.translate(l, args)
			}
		}
		for i, l := range t.mut[f] {
			if i < len(vals) && l != 0 {
				t.into(vals[i], t.translate(l, args), map[ssa.Value]bool{})
			}
		}
	}
	if ext {
		all := uint64(0)
		for _, a := range args {
			all |= a
		}
		res, given := uint64(0), false
		if t.ext != nil {
			res, given = t.ext(ci, calleeName(c), args)
		}
		if !given {
			res = all
		}
		for i := 0; i < nres; i++ {
			if (nres > 1 || !given) && isErrorT(c.Signature().Results().At(i).Type()) {
				continue
			}
			out[i] |= res
		}
		if !given && all != 0 {
			for _, v := range vals {
				t.fill(v, all, calleeName(c))
			}
		}
	}
	v := ci.Value()
	if v == nil {
		return
	}
	if nres == 1 {
		t.set(v, out[0])
	} else if nres > 1 {
		old := t.tup[v]
		if old == nil {
			old = make([]uint64, nres)
			t.tup[v] = old
		}
		for i := range out {
			if inert(c.Signature().Results().At(i).Type()) {
				continue
			}
			if old[i]|out[i] != old[i] {
				old[i] |= out[i]
				t.change = true
			}
		}
	}
}

// fill: an external function given data with label l may write it through v.
func (t *taint) fill(v ssa.Value, l uint64, name string) {
	if l == 0 {
		return
	}
	x := v
	if mi, ok := x.(*ssa.MakeInterface); ok {
		x = mi.X
	}
	switch u := x.Type().Underlying().(type) {
	case *types.Pointer:
		if st := t.moduleStruct(u.Elem()); st != nil {
			if decodes(name) {
				t.structFill(st, l, map[*types.Struct]bool{})
			}
			return
		}
		t.into(x, l, map[ssa.Value]bool{})
		if x != v {
			t.set(v, l)
		}
	case *types.Map, *types.Slice:
		if _, ok := x.(*ssa.Const); !ok {
			// arguments which are only read are the rule
			return
		}
	case *types.Signature:
		var fn *ssa.Function
		switch g := x.(type) {
		case *ssa.MakeClosure:
			fn = g.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = g
		}
		if fn != nil {
			for _, p := range fn.Params {
				t.set(p, kinds(l)<<4)
			}
		}
	}
}

func decodes(name string) bool {
	return strings.Contains(name, "nmarshal") || strings.Contains(name, "Decode") || strings.Contains(name, "Scan")
}

func (t *taint) structFill(st *types.Struct, l uint64, seen map[*types.Struct]bool) {
	if !t.fills || seen[st] {
		return
	}
	seen[st] = true
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ft := f.Type()
		for {
			switch u := ft.Underlying().(type) {
			case *types.Pointer:
				ft = u.Elem()
				continue
			case *types.Slice:
				ft = u.Elem()
				continue
			case *types.Map:
				ft = u.Elem()
				continue
			}
			break
		}
		if sub := t.moduleStruct(ft); sub != nil {
			t.structFill(sub, l, seen)
			continue
		}
		t.setField(f, l)
	}
}

// jsonTag is the name a field has in JSON ("-" if none).
func jsonTag(st *types.Struct, i int) string {
	f := st.Field(i)
	if !f.Exported() && !f.Embedded() {
		return "-"
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if tag == "-" {
		return "-"
	}
	n, _, _ := strings.Cut(tag, ",")
	if n == "" {
		return f.Name()
	}
	return n
}

var _ = eng.True
