package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var intT types.Type = types.Typ[types.Int]

// fieldOf returns the struct type name (package path relative to the module)
// and field accessed by an instruction, if it is a field access.
func fieldOf(i ssa.Instruction) (*types.Named, *types.Var) {
	var t types.Type
	var idx int
	switch v := i.(type) {
	case *ssa.FieldAddr:
		t, idx = v.X.Type().Underlying().(*types.Pointer).Elem(), v.Field
	case *ssa.Field:
		t, idx = v.X.Type(), v.Field
	default:
		return nil, nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n, st.Field(idx)
}

// isNamed reports whether t (or what it points to) is the named type rel.name.
func (r *Report) isNamed(t types.Type, rel, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Name() != name || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == r.P.Module+"/"+rel
}

func (r *Report) mentionsField(f *ssa.Function, rel, typ, field string) bool {
	return mentions(f, func(i ssa.Instruction) bool {
		n, v := fieldOf(i)
		return n != nil && v.Name() == field && r.isNamed(n, rel, typ)
	})
}
