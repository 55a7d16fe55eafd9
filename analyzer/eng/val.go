// Package eng is a whole-program, path-correlated, interprocedural typestate
// dataflow engine over go/ssa. It never executes the analysed program: it
// computes, per program point and calling context, the set of abstract states
// (abstract store + nilness/boolean/sign facts + property state) reachable
// there, up to a fixpoint.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst   Kind = iota // constant (nil when C == nil)
	KZero                // zero value of a composite type
	KGlobal              // address of a package variable
	KFunc                // function value
	KParam               // parameter / free variable of the analysed root
	KInstr               // opaque result of an instruction in a context
	KAlloc               // address of a local/heap cell
	KOut                 // content written by an opaque operation
	KStale               // an earlier incarnation of a KInstr/KAlloc/KOut
	KField               // address of a field
	KIndex               // address of an element of a slice/array
	KElem                // pseudo-address of a map element
	KFieldV              // field of a struct value
	KLoad                // initial content of an address
	KExtract             // component of an opaque tuple
	KBin                 // binary operation
	KUn                  // unary operation (named)
	KClosure             // closure value
	KIface               // interface value made from a concrete value
	KTuple               // known tuple
)

// Val is a hash-consed abstract value.
type Val struct {
	ID    int
	Kind  Kind
	Op    string
	Idx   int
	Args  []*Val
	C     constant.Value
	T     types.Type
	Fn    *ssa.Function
	G     *ssa.Global
	Instr ssa.Value
	Site  ssa.Instruction
	Ctx   *Ctx
	Fld   *types.Var
	depth int
	atoms []*Val // sorted by ID
}

// Ctx is a call string.
type Ctx struct {
	Parent *Ctx
	Site   ssa.Instruction
	Fn     *ssa.Function
	id     int
	depth  int
}

type Interner struct {
	vals map[string]*Val
	ctxs map[string]*Ctx
	n    int
}

func NewInterner() *Interner {
	return &Interner{vals: map[string]*Val{}, ctxs: map[string]*Ctx{}}
}

func (in *Interner) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d/%p/%p", pid, site, fn)
	if c := in.ctxs[k]; c != nil {
		return c
	}
	c := &Ctx{parent, site, fn, len(in.ctxs) + 1, d}
	in.ctxs[k] = c
	return c
}

func (in *Interner) mk(key string, v Val) *Val {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", v.Kind, key)
	for _, a := range v.Args {
		fmt.Fprintf(&sb, "%d,", a.ID)
	}
	k := sb.String()
	if x := in.vals[k]; x != nil {
		return x
	}
	in.n++
	v.ID = in.n
	for _, a := range v.Args {
		if a.depth+1 > v.depth {
			v.depth = a.depth + 1
		}
	}
	p := &v
	switch v.Kind {
	case KInstr, KAlloc, KOut, KStale:
		p.atoms = []*Val{p}
	default:
		m := map[*Val]bool{}
		for _, a := range v.Args {
			for _, x := range a.atoms {
				m[x] = true
			}
		}
		for x := range m {
			p.atoms = append(p.atoms, x)
		}
		sort.Slice(p.atoms, func(i, j int) bool { return p.atoms[i].ID < p.atoms[j].ID })
	}
	in.vals[k] = p
	return p
}

func (v *Val) hasAtom(a *Val) bool {
	for _, x := range v.atoms {
		if x == a {
			return true
		}
	}
	return false
}

func tkey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (in *Interner) Const(c constant.Value, t types.Type) *Val {
	if c == nil {
		return in.mk("nil", Val{Kind: KConst, T: t})
	}
	return in.mk(c.Kind().String()+c.ExactString(), Val{Kind: KConst, C: c, T: t})
}
func (in *Interner) Bool(b bool) *Val { return in.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (in *Interner) Int(i int64) *Val { return in.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (in *Interner) Nil() *Val        { return in.Const(nil, nil) }

func (in *Interner) Zero(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Bool(false)
		case u.Info()&types.IsString != 0:
			return in.Const(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return in.Const(constant.MakeInt64(0), t)
		}
		return in.Nil()
	case *types.Struct, *types.Array:
		return in.mk(tkey(t), Val{Kind: KZero, T: t})
	}
	return in.Nil()
}
func (in *Interner) Global(g *ssa.Global) *Val {
	return in.mk(fmt.Sprintf("%p", g), Val{Kind: KGlobal, G: g, T: g.Type()})
}
func (in *Interner) Func(f *ssa.Function) *Val {
	return in.mk(fmt.Sprintf("%p", f), Val{Kind: KFunc, Fn: f, T: f.Signature})
}
func (in *Interner) Param(fn *ssa.Function, name string, i int, t types.Type) *Val {
	return in.mk(fmt.Sprintf("%p/%d", fn, i), Val{Kind: KParam, Op: name, Idx: i, Fn: fn, T: t})
}
func (in *Interner) Instr(c *Ctx, v ssa.Value) *Val {
	return in.mk(fmt.Sprintf("%d/%p", c.id, v), Val{Kind: KInstr, Instr: v, Ctx: c, T: v.Type()})
}
func (in *Interner) Alloc(c *Ctx, v ssa.Value) *Val {
	return in.mk(fmt.Sprintf("%d/%p", c.id, v), Val{Kind: KAlloc, Instr: v, Ctx: c, T: v.Type()})
}

// Out is a fresh opaque value produced at site for the purpose named tag.
func (in *Interner) Out(c *Ctx, site ssa.Instruction, tag string, t types.Type) *Val {
	id := 0
	if c != nil {
		id = c.id
	}
	return in.mk(fmt.Sprintf("%d/%p/%s", id, site, tag), Val{Kind: KOut, Op: tag, Site: site, Ctx: c, T: t})
}
func (in *Interner) Stale(v *Val) *Val {
	if v.Kind == KStale {
		return v
	}
	return in.mk(fmt.Sprintf("s%d", v.ID), Val{Kind: KStale, T: v.T, Instr: v.Instr, Ctx: v.Ctx, Site: v.Site, Op: v.Op})
}
func (in *Interner) Field(base *Val, i int, fld *types.Var) *Val {
	return in.mk(fmt.Sprintf("%d/%s", i, fld.Name()), Val{Kind: KField, Idx: i, Fld: fld, Args: []*Val{base}, T: types.NewPointer(fld.Type())})
}
func (in *Interner) FieldV(base *Val, i int, fld *types.Var) *Val {
	return in.mk(fmt.Sprintf("%d/%s", i, fld.Name()), Val{Kind: KFieldV, Idx: i, Fld: fld, Args: []*Val{base}, T: fld.Type()})
}
func (in *Interner) Index(base, idx *Val, t types.Type) *Val {
	return in.mk("", Val{Kind: KIndex, Args: []*Val{base, idx}, T: t})
}
func (in *Interner) Elem(m, k *Val, t types.Type) *Val {
	return in.mk("", Val{Kind: KElem, Args: []*Val{m, k}, T: types.NewPointer(t)})
}
func (in *Interner) Load(addr *Val, t types.Type) *Val {
	return in.mk("", Val{Kind: KLoad, Args: []*Val{addr}, T: t})
}
func (in *Interner) Extract(t *Val, i int, ty types.Type) *Val {
	if t.Kind == KTuple {
		return t.Args[i]
	}
	return in.mk(fmt.Sprint(i), Val{Kind: KExtract, Idx: i, Args: []*Val{t}, T: ty})
}
func (in *Interner) Tuple(vs []*Val) *Val { return in.mk("", Val{Kind: KTuple, Args: vs}) }
func (in *Interner) Un(op string, x *Val, t types.Type) *Val {
	return in.mk(op+"/"+tkey(t), Val{Kind: KUn, Op: op, Args: []*Val{x}, T: t})
}
func (in *Interner) Iface(x *Val, t types.Type) *Val {
	return in.mk(tkey(x.T), Val{Kind: KIface, Args: []*Val{x}, T: t})
}
func (in *Interner) Closure(c *Ctx, mk ssa.Value, fn *ssa.Function, b []*Val) *Val {
	return in.mk(fmt.Sprintf("%p", fn), Val{Kind: KClosure, Instr: mk, Fn: fn, Args: b, Ctx: c, T: fn.Signature})
}

func (in *Interner) Bin(op token.Token, x, y *Val, t types.Type) *Val {
	// constant folding
	if x.Kind == KConst && y.Kind == KConst && x.C != nil && y.C != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.C.Kind() == y.C.Kind() {
				return in.Bool(constant.Compare(x.C, op, y.C))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.C.Kind() == y.C.Kind() && x.C.Kind() != constant.Bool {
				return in.Const(constant.BinaryOp(x.C, op, y.C), t)
			}
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(y.C); ok && s < 64 && x.C.Kind() == constant.Int {
				return in.Const(constant.Shift(x.C, op, uint(s)), t)
			}
		}
	}
	// normalise orderings and commutative operators
	switch op {
	case token.GTR:
		return in.Bin(token.LSS, y, x, t)
	case token.GEQ:
		return in.Not(in.Bin(token.LSS, x, y, t))
	case token.LEQ:
		return in.Not(in.Bin(token.LSS, y, x, t))
	case token.NEQ:
		return in.Not(in.Bin(token.EQL, x, y, t))
	case token.EQL:
		if x.Kind == KConst && x.C != nil && x.C.Kind() == constant.Bool {
			x, y = y, x
		}
		if y.Kind == KConst && y.C != nil && y.C.Kind() == constant.Bool {
			if constant.BoolVal(y.C) {
				return x
			}
			return in.Not(x)
		}
		if x.ID > y.ID {
			x, y = y, x
		}
	case token.ADD:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if x.Kind == KConst {
				x, y = y, x
			}
			// (a + c1) + c2
			if y.Kind == KConst && x.Kind == KBin && x.Op == "+" && x.Args[1].Kind == KConst {
				s := in.Bin(token.ADD, x.Args[1], y, t)
				return in.Bin(token.ADD, x.Args[0], s, t)
			}
			if y.Kind == KConst && constant.Sign(y.C) == 0 {
				return x
			}
		}
	case token.SUB:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
			if y.Kind == KConst && y.C != nil && y.C.Kind() == constant.Int {
				return in.Bin(token.ADD, x, in.Const(constant.UnaryOp(token.SUB, y.C, 0), t), t)
			}
		}
	}
	return in.mk(op.String(), Val{Kind: KBin, Op: op.String(), Args: []*Val{x, y}, T: t})
}

func (in *Interner) Not(x *Val) *Val {
	if x.Kind == KConst && x.C != nil && x.C.Kind() == constant.Bool {
		return in.Bool(!constant.BoolVal(x.C))
	}
	if x.Kind == KUn && x.Op == "!" {
		return x.Args[0]
	}
	return in.mk("!", Val{Kind: KUn, Op: "!", Args: []*Val{x}, T: types.Typ[types.Bool]})
}

// Subst rebuilds v with atom old replaced by nw.
func (in *Interner) Subst(v, old, nw *Val) *Val {
	if v == nil || !v.hasAtom(old) {
		return v
	}
	if v == old {
		return nw
	}
	args := make([]*Val, len(v.Args))
	for i, a := range v.Args {
		args[i] = in.Subst(a, old, nw)
	}
	switch v.Kind {
	case KField:
		return in.Field(args[0], v.Idx, v.Fld)
	case KFieldV:
		return in.FieldV(args[0], v.Idx, v.Fld)
	case KIndex:
		return in.Index(args[0], args[1], v.T)
	case KElem:
		return in.mk("", Val{Kind: KElem, Args: args, T: v.T})
	case KLoad:
		return in.Load(args[0], v.T)
	case KExtract:
		return in.Extract(args[0], v.Idx, v.T)
	case KTuple:
		return in.Tuple(args)
	case KUn:
		if v.Op == "!" {
			return in.Not(args[0])
		}
		return in.Un(v.Op, args[0], v.T)
	case KIface:
		return in.mk(tkey(v.Args[0].T), Val{Kind: KIface, Args: args, T: v.T})
	case KClosure:
		return in.Closure(v.Ctx, v.Instr, v.Fn, args)
	case KBin:
		if v.Op == "==" && args[0].ID > args[1].ID {
			args[0], args[1] = args[1], args[0]
		}
		return in.mk(v.Op, Val{Kind: KBin, Op: v.Op, Args: args, T: v.T})
	}
	panic(fmt.Sprintf("subst kind %d", v.Kind))
}

// IsNil reports whether v is the literal nil.
func (v *Val) IsNil() bool { return v.Kind == KConst && v.C == nil }

// Str returns the constant string value of v.
func (v *Val) Str() (string, bool) {
	if v.Kind == KConst && v.C != nil && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

// IntVal returns the constant integer value of v.
func (v *Val) IntVal() (int64, bool) {
	if v.Kind == KConst && v.C != nil && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}

// Strip removes interface wrapping and conversions.
func (v *Val) Strip() *Val {
	for {
		switch {
		case v.Kind == KIface:
			v = v.Args[0]
		case v.Kind == KUn && (v.Op == "conv" || v.Op == "assert"):
			v = v.Args[0]
		default:
			return v
		}
	}
}

// Mentions reports whether x occurs in v.
func (v *Val) Mentions(x *Val) bool {
	if v == x {
		return true
	}
	for _, a := range v.Args {
		if a.Mentions(x) {
			return true
		}
	}
	return false
}

// Any reports whether some subterm of v satisfies p.
func (v *Val) Any(p func(*Val) bool) bool {
	if p(v) {
		return true
	}
	for _, a := range v.Args {
		if a.Any(p) {
			return true
		}
	}
	return false
}

// Root is the base of an address or of a chain of loads/fields.
func (v *Val) Root() *Val {
	for {
		switch v.Kind {
		case KField, KIndex, KElem, KLoad, KExtract, KFieldV, KIface:
			v = v.Args[0]
		case KUn:
			v = v.Args[0]
		default:
			return v
		}
	}
}

func (v *Val) String() string {
	if v == nil {
		return "<none>"
	}
	switch v.Kind {
	case KConst:
		if v.C == nil {
			return "nil"
		}
		return v.C.String()
	case KZero:
		return "zero(" + types.TypeString(v.T, relQ) + ")"
	case KGlobal:
		return "&" + v.G.Pkg.Pkg.Name() + "." + v.G.Name()
	case KFunc:
		return v.Fn.Name()
	case KParam:
		return v.Op
	case KInstr:
		if c, ok := v.Instr.(*ssa.Call); ok {
			return CalleeName(c.Common()) + "()"
		}
		if p, ok := v.Instr.(*ssa.Phi); ok && p.Comment != "" {
			return p.Comment
		}
		return v.Instr.Name()
	case KAlloc:
		if a, ok := v.Instr.(*ssa.Alloc); ok && a.Comment != "" {
			return "&" + a.Comment
		}
		return "&" + v.Instr.Name()
	case KOut:
		return "out:" + v.Op
	case KStale:
		return "old(" + fmt.Sprint(v.Op) + ")"
	case KField, KFieldV:
		return v.Args[0].String() + "." + v.Fld.Name()
	case KIndex, KElem:
		return v.Args[0].String() + "[" + v.Args[1].String() + "]"
	case KLoad:
		return "*" + v.Args[0].String()
	case KExtract:
		return fmt.Sprintf("%s#%d", v.Args[0], v.Idx)
	case KBin:
		return "(" + v.Args[0].String() + v.Op + v.Args[1].String() + ")"
	case KUn:
		return v.Op + "(" + v.Args[0].String() + ")"
	case KClosure:
		return "closure " + v.Fn.Name()
	case KIface:
		return v.Args[0].String()
	case KTuple:
		s := make([]string, len(v.Args))
		for i, a := range v.Args {
			s[i] = a.String()
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return "?"
}

func relQ(p *types.Package) string { return p.Name() }

// CalleeName gives a stable printable name of the statically named callee.
func CalleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return f.RelString(nil)
	case *ssa.Builtin:
		return f.Name()
	case *ssa.MakeClosure:
		return f.Fn.(*ssa.Function).RelString(nil)
	}
	return "func value"
}
