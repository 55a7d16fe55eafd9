package rules

import (
	"go/constant"
	"go/types"
	"sort"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// driver is one registered version control driver.
type driver struct {
	name    string
	factory *ssa.Function
	types   []types.Type // dynamic types the factory may return
}

// drivers finds the registered drivers: calls which pass a function returning
// a Driver together with constant names.
func (r *Report) drivers() []driver {
	var out []driver
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "vcs" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var fac *ssa.Function
				for _, a := range ci.Common().Args {
					g := a
					if mc, ok := g.(*ssa.MakeClosure); ok {
						g = mc.Fn
					}
					if ct, ok := g.(*ssa.ChangeType); ok {
						g = ct.X
					}
					if fn, ok := g.(*ssa.Function); ok && r.returnsDriver(fn.Signature) {
						fac = fn
					}
				}
				if fac == nil {
					continue
				}
				for _, n := range constStrings(ci.Common().Args) {
					out = append(out, driver{n, fac, r.dynTypes(fac)})
				}
			}
		}
	}
	// a table of drivers built with map updates
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "vcs" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				v := mu.Value
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				fn, ok := v.(*ssa.Function)
				if !ok || !r.returnsDriver(fn.Signature) {
					continue
				}
				if c, ok := mu.Key.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					out = append(out, driver{constant.StringVal(c.Value), fn, r.dynTypes(fn)})
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (r *Report) returnsDriver(s *types.Signature) bool {
	return s.Results().Len() == 2 && r.isNamed(s.Results().At(0).Type(), "vcs", "Driver")
}

func constStrings(args []ssa.Value) []string {
	var out []string
	for _, a := range args {
		if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			out = append(out, constant.StringVal(c.Value))
		}
		if sl, ok := a.(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					ia, ok := ref.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
								out = append(out, constant.StringVal(c.Value))
							}
						}
					}
				}
			}
		}
	}
	return out
}

// dynTypes are the concrete types converted to Driver in the factory.
func (r *Report) dynTypes(f *ssa.Function) []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	for g := range r.P.Reach(f) {
		if r.P.RelPkg(g) != "vcs" {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				mi, ok := i.(*ssa.MakeInterface)
				if ok && r.isNamed(mi.Type(), "vcs", "Driver") && !seen[mi.X.Type().String()] {
					seen[mi.X.Type().String()] = true
					out = append(out, mi.X.Type())
				}
			}
		}
	}
	return out
}

func (r *Report) methodOfType(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := r.P.SSA.MethodValue(ms.At(i))
			return f
		}
	}
	return nil
}

// fieldContent reads the named field of what pointer (or struct) v denotes.
func (r *Report) fieldContent(s *eng.State, v *eng.Val, name string) *eng.Val {
	t := v.T
	if t == nil {
		return nil
	}
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			if ptr {
				return s.Read(r.P.In.Field(v, i, st.Field(i)), st.Field(i).Type())
			}
			return s.FieldOf(v, i, st.Field(i))
		}
	}
	return nil
}
