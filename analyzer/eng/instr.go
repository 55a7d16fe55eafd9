package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// simple executes an instruction that neither branches nor calls.
func (f *frame) simple(ps *pstate, ins ssa.Instruction) {
	in := f.x.In
	h := &f.x.H
	set := func(v ssa.Value, r *Val) { ps.env[v] = r }
	switch v := ins.(type) {
	case *ssa.Alloc:
		a := in.Alloc(f.ctx, v)
		f.retire(ps, a)
		set(v, a)
		ps.s.Mem[a] = in.Zero(deref(v.Type()))
	case *ssa.BinOp:
		set(v, in.Bin(v.Op, f.val(ps, v.X), f.val(ps, v.Y), v.Type()))
	case *ssa.UnOp:
		x := f.val(ps, v.X)
		switch v.Op {
		case token.MUL:
			if h.OnDeref != nil {
				h.OnDeref(ps.s, x, f.site(ins))
			}
			r := f.load(ps, v, x)
			if h.OnLoad != nil {
				h.OnLoad(ps.s, x, r, f.site(ins))
				if _, st := v.Type().Underlying().(*types.Struct); !st {
					r = f.load(ps, v, x) // the hook may have refreshed the cell
				}
			}
			set(v, r)
		case token.NOT:
			set(v, in.Not(x))
		case token.ARROW:
			r := f.fresh(ps, v)
			x = in.Subst(x, r, in.Stale(r))
			if h.OnRecv != nil {
				h.OnRecv(ps.s, x, r, true, f.site(ins))
			}
		default:
			set(v, in.Un(v.Op.String(), x, v.Type()))
		}
	case *ssa.ChangeType:
		set(v, f.val(ps, v.X))
	case *ssa.ChangeInterface:
		set(v, f.val(ps, v.X))
	case *ssa.Convert:
		x := f.val(ps, v.X)
		if x.Kind == KConst && x.C != nil && isIntT(x.T) && isIntT(v.Type()) {
			set(v, in.Const(x.C, v.Type()))
		} else {
			set(v, in.Un("conv", x, v.Type()))
		}
	case *ssa.MultiConvert:
		set(v, in.Un("conv", f.val(ps, v.X), v.Type()))
	case *ssa.SliceToArrayPointer:
		set(v, in.Un("conv", f.val(ps, v.X), v.Type()))
	case *ssa.MakeInterface:
		set(v, in.Iface(f.val(ps, v.X), v.Type()))
	case *ssa.TypeAssert:
		x := f.val(ps, v.X)
		var r *Val
		if x.Kind == KIface && types.Identical(x.Args[0].T, v.AssertedType) {
			r = x.Args[0]
			if v.CommaOk {
				r = in.Tuple([]*Val{r, in.Bool(true)})
			}
		} else if x.Kind == KIface && !types.IsInterface(v.AssertedType) && v.CommaOk {
			r = in.Tuple([]*Val{in.Zero(v.AssertedType), in.Bool(false)})
		} else {
			r = in.Un("assert", x, v.AssertedType)
			if v.CommaOk {
				r = in.Tuple([]*Val{r, in.Un("is:"+tkey(v.AssertedType), x, types.Typ[types.Bool])})
			}
		}
		set(v, r)
	case *ssa.MakeClosure:
		var b []*Val
		for _, x := range v.Bindings {
			b = append(b, f.val(ps, x))
		}
		set(v, in.Closure(f.ctx, v, v.Fn.(*ssa.Function), b))
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		a := f.fresh(ps, v.(ssa.Value))
		set(v.(ssa.Value), in.Un("make", a, v.(ssa.Value).Type()))
		if mc, ok := v.(*ssa.MakeChan); ok {
			ps.s.Mem[in.Un("cap", in.Un("make", a, mc.Type()), types.Typ[types.Int])] = f.val(ps, mc.Size)
		}
		if ms, ok := v.(*ssa.MakeSlice); ok {
			ps.s.Mem[in.Un("len", in.Un("make", a, ms.Type()), types.Typ[types.Int])] = f.val(ps, ms.Len)
		}
	case *ssa.FieldAddr:
		x := f.val(ps, v.X)
		if h.OnDeref != nil {
			h.OnDeref(ps.s, x, f.site(ins))
		}
		st := deref(v.X.Type()).Underlying().(*types.Struct)
		set(v, in.Field(x, v.Field, st.Field(v.Field)))
	case *ssa.Field:
		x := f.val(ps, v.X)
		st := v.X.Type().Underlying().(*types.Struct)
		set(v, ps.s.FieldOf(x, v.Field, st.Field(v.Field)))
	case *ssa.IndexAddr:
		set(v, in.Index(f.val(ps, v.X), f.val(ps, v.Index), v.Type()))
	case *ssa.Index:
		set(v, in.Un("index:"+fmt.Sprint(f.val(ps, v.Index).ID), f.val(ps, v.X), v.Type()))
	case *ssa.Lookup:
		m := f.val(ps, v.X)
		k := f.val(ps, v.Index)
		if _, isMap := v.X.Type().Underlying().(*types.Map); !isMap {
			set(v, in.Un("index:"+fmt.Sprint(k.ID), m, v.Type()))
			return
		}
		et := v.X.Type().Underlying().(*types.Map).Elem()
		addr := in.Elem(m, k, et)
		r := ps.s.Read(addr, et)
		if h.OnLookup != nil {
			h.OnLookup(ps.s, m, k, r, f.site(ins))
			r = ps.s.Read(addr, et)
		}
		if v.CommaOk {
			ok := in.Un("has", addr, types.Typ[types.Bool])
			if _, known := ps.s.Mem[addr]; known {
				if c, has := ps.s.Mem[ok]; has {
					ok = c
				}
			}
			set(v, in.Tuple([]*Val{r, ok}))
		} else {
			set(v, r)
		}
	case *ssa.Range:
		a := f.fresh(ps, v)
		_ = a
		set(v, in.Un("range", f.val(ps, v.X), v.Type()))
	case *ssa.Next:
		r := f.fresh(ps, v)
		_ = r
	case *ssa.Extract:
		t := f.val(ps, v.Tuple)
		set(v, in.Extract(t, v.Index, v.Type()))
		// value yielded by ranging over a map = the element for the key
		if nx, ok := v.Tuple.(*ssa.Next); ok && v.Index == 2 && !nx.IsString {
			it := f.val(ps, nx.Iter)
			if it.Kind == KUn && it.Op == "range" && t.Kind == KInstr {
				m := it.Args[0]
				kt := nx.Type().(*types.Tuple).At(1).Type()
				key := in.Extract(t, 1, kt)
				addr := in.Elem(m, key, v.Type())
				if _, known := ps.s.Mem[addr]; !known {
					ps.s.Mem[addr] = ps.env[v]
				}
			}
		}
	case *ssa.Slice:
		x := f.val(ps, v.X)
		key := ""
		for _, o := range []ssa.Value{v.Low, v.High, v.Max} {
			if o == nil {
				key += ":"
			} else {
				key += fmt.Sprintf("%d:", f.val(ps, o).ID)
			}
		}
		if v.Low == nil && v.High == nil && v.Max == nil {
			set(v, in.Un("slice", x, v.Type()))
		} else {
			set(v, in.Un("slice["+key+"]", x, v.Type()))
		}
	case *ssa.Store:
		a, val := f.val(ps, v.Addr), f.val(ps, v.Val)
		if h.OnDeref != nil {
			h.OnDeref(ps.s, a, f.site(ins))
		}
		if h.OnStore != nil {
			h.OnStore(ps.s, a, val, f.site(ins))
		}
		ps.s.Write(a, val, siteT{f.ctx, ins})
	case *ssa.MapUpdate:
		m, k, val := f.val(ps, v.Map), f.val(ps, v.Key), f.val(ps, v.Value)
		if h.OnUpdate != nil {
			h.OnUpdate(ps.s, m, k, val, f.site(ins))
		}
		et := v.Map.Type().Underlying().(*types.Map).Elem()
		addr := in.Elem(m, k, et)
		ps.s.Write(addr, val, siteT{f.ctx, ins})
		ps.s.Mem[in.Un("has", addr, types.Typ[types.Bool])] = in.Bool(true)
	case *ssa.Send:
		if h.OnSend != nil {
			h.OnSend(ps.s, f.val(ps, v.Chan), f.val(ps, v.X), true, f.site(ins))
		}
	default:
		if val, ok := ins.(ssa.Value); ok {
			f.fresh(ps, val)
		}
	}
}

// load reads *addr, materialising struct values field by field.
func (f *frame) load(ps *pstate, v *ssa.UnOp, addr *Val) *Val {
	in := f.x.In
	s := ps.s
	st, ok := v.Type().Underlying().(*types.Struct)
	if !ok {
		return s.Read(addr, v.Type())
	}
	has := false
	for a := range s.Mem {
		if a != addr && a.Kind == KField && a.Args[0] == addr {
			has = true
			break
		}
	}
	if !has {
		return s.Read(addr, v.Type())
	}
	a := in.Instr(f.ctx, v)
	vals := make([]*Val, st.NumFields())
	for i := range vals {
		vals[i] = s.Read(in.Field(addr, i, st.Field(i)), st.Field(i).Type())
	}
	f.retire(ps, a)
	stl := in.Stale(a)
	for i := range vals {
		s.Mem[in.FieldV(a, i, st.Field(i))] = in.Subst(vals[i], a, stl)
	}
	return a
}

func (f *frame) builtin(ps *pstate, ins *ssa.Call, c *Call) {
	in := f.x.In
	name := strings.TrimPrefix(c.Name, "builtin:")
	if f.x.H.OnCall != nil {
		f.x.H.OnCall(ps.s, c)
	}
	switch name {
	case "recover":
		if !f.x.panicking {
			ps.env[ins] = in.Nil()
		} else {
			ps.env[ins] = f.fresh(ps, ins)
			ps.s.AssumeNil(ps.env[ins], false)
		}
	case "len":
		if t := c.Args[0]; true {
			r := in.Un("len", t, types.Typ[types.Int])
			if v, ok := ps.s.Mem[r]; ok {
				r = v
			}
			if sv, ok := t.Str(); ok {
				r = in.Int(int64(len(sv)))
			}
			if t.IsNil() {
				r = in.Int(0)
			}
			ps.env[ins] = r
		}
	case "cap":
		r := in.Un("cap", c.Args[0], types.Typ[types.Int])
		if v, ok := ps.s.Mem[r]; ok {
			r = v
		}
		ps.env[ins] = r
	case "append":
		a := in.Instr(f.ctx, ins)
		st := in.Stale(a)
		f.retire(ps, a)
		args := substAll(in, c.Args, a, st)
		ps.env[ins] = a
		f2 := Fact{Nil: -1}
		if len(args) > 1 && !args[1].IsNil() {
			ps.s.Facts[a] = f2
		}
		if f.x.H.OnAppend != nil {
			f.x.H.OnAppend(ps.s, args[0], a, args[1:], f.site(ins))
		}
	case "delete":
		if mt, ok := ins.Call.Args[0].Type().Underlying().(*types.Map); ok {
			addr := in.Elem(c.Args[0], c.Args[1], mt.Elem())
			if f.x.H.OnUpdate != nil {
				f.x.H.OnUpdate(ps.s, c.Args[0], c.Args[1], nil, f.site(ins))
			}
			ps.s.Write(addr, in.Zero(mt.Elem()), siteT{f.ctx, ins})
			ps.s.Mem[in.Un("has", addr, types.Typ[types.Bool])] = in.Bool(false)
		}
	case "copy":
		if f.x.H.OnCopy != nil {
			f.x.H.OnCopy(ps.s, c.Args[0], c.Args[1], f.site(ins))
		}
		f.fresh(ps, ins)
	case "min", "max", "real", "imag", "complex":
		ps.env[ins] = in.Un(name, in.Tuple(c.Args), ins.Type())
	default:
		f.fresh(ps, ins)
	}
}

func (f *frame) doSelect(ps *pstate, v *ssa.Select, b *ssa.BasicBlock, i int) {
	in := f.x.In
	h := &f.x.H
	t := v.Type().(*types.Tuple)
	// received values are fresh
	var chans, sends []*Val
	for _, st := range v.States {
		chans = append(chans, f.val(ps, st.Chan))
		if st.Send != nil {
			sends = append(sends, f.val(ps, st.Send))
		} else {
			sends = append(sends, nil)
		}
	}
	a := in.Instr(f.ctx, v)
	stl := in.Stale(a)
	f.retire(ps, a)
	chans = substAll(in, chans, a, stl)
	mk := func(idx int) []*Val {
		rs := []*Val{in.Int(int64(idx)), in.Extract(a, 1, types.Typ[types.Bool])}
		for k := 2; k < t.Len(); k++ {
			rs = append(rs, in.Extract(a, k, t.At(k).Type()))
		}
		return rs
	}
	n := len(v.States)
	lo := 0
	if !v.Blocking {
		lo = -1
	}
	for k := lo; k < n; k++ {
		if k >= 0 && ps.s.Nilness(chans[k]) == True {
			continue // a nil channel never proceeds
		}
		q := ps.clone()
		q.env[v] = in.Tuple(mk(k))
		if k >= 0 {
			st := v.States[k]
			if st.Dir == types.SendOnly {
				sv := in.Subst(sends[k], a, stl)
				if h.OnSend != nil {
					h.OnSend(q.s, chans[k], sv, v.Blocking, f.site(v))
				}
			} else if h.OnRecv != nil {
				// index of received value among results
				r := 2
				for j := 0; j < k; j++ {
					if v.States[j].Dir == types.RecvOnly {
						r++
					}
				}
				h.OnRecv(q.s, chans[k], in.Extract(a, r, t.At(r).Type()), v.Blocking, f.site(v))
			}
		}
		f.push(b, i+1, q)
	}
}
