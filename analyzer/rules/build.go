package rules

import (
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// Roles in the construction of an index.

func (r *Report) writerType() *types.Named { return r.P.Type("codesearch/index", "IndexWriter") }

// writerMethod is the name of the index writer method being called.
func (r *Report) writerMethod(c *eng.Call) string {
	if c.Fn == nil {
		return ""
	}
	recv := c.Fn.Signature.Recv()
	if recv == nil || !r.isNamed(recv.Type(), "codesearch/index", "IndexWriter") {
		return ""
	}
	return c.Fn.Name()
}

// terms of a path value: the constants and values it is joined from.
func pathHas(v *eng.Val, p func(*eng.Val) bool) bool { return v.Any(p) }

func pathConst(v *eng.Val, names map[string]bool) bool {
	return v.Any(func(x *eng.Val) bool {
		s, ok := x.Str()
		if !ok {
			return false
		}
		if names[s] {
			return true
		}
		for n := range names {
			if strings.HasSuffix(s, "/"+n) {
				return true
			}
		}
		return false
	})
}

// fileWrite classifies calls that create or change files and directories.
func fileWrite(name string) (pathArg int, ok bool) {
	switch name {
	case "os.Create", "os.OpenFile", "os.Mkdir", "os.MkdirAll", "io/ioutil.WriteFile", "os.WriteFile", "os.Symlink", "os.Truncate":
		return 0, true
	case "os.Rename", "os.Link":
		return 1, true
	case "os.Remove", "os.RemoveAll":
		return 0, true
	}
	return 0, false
}

// manifestNames: constant file names which the reader of the index metadata
// opens and decodes.
func (r *Report) manifestNames() map[string]bool {
	names := map[string]bool{}
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "index" {
			continue
		}
		res := f.Signature.Results()
		isRead := false
		for i := 0; i < res.Len(); i++ {
			if r.isNamed(res.At(i).Type(), "index", "IndexRef") {
				isRead = true
			}
		}
		if !isRead || !mentions(f, func(i ssa.Instruction) bool {
			return calleeIs(i, "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal")
		}) {
			continue
		}
		x := eng.NewExec(r.P, eng.Hooks{OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if i, rm, ok := fileOp(c.Name); ok && !rm && len(c.Args) > i {
				c.Args[i].Any(func(v *eng.Val) bool {
					if t, ok := v.Str(); ok {
						names[t] = true
					}
					return false
				})
			}
			return eng.Default
		}})
		x.Run(f, nil)
		r.Absorb(x, FnName(f))
	}
	return names
}

// buildRoot is the function which builds an index.
func (r *Report) buildRoot() *ssa.Function {
	f := r.P.Func("index", "Build")
	if f == nil {
		r.Undecided("index.Build not found")
	}
	return f
}

// buildExec prepares an execution of index building which looks into the
// functions of package index that matter for building.
func (r *Report) buildExec(h eng.Hooks) *eng.Exec {
	x := eng.NewExec(r.P, h)
	r.slice(x, func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := eng.CalleeName(ci.Common())
		if _, ok := fileWrite(n); ok {
			return true
		}
		if f := ci.Common().StaticCallee(); f != nil {
			if r.writerMethod(&eng.Call{Fn: f}) != "" {
				return true
			}
		}
		switch n {
		case "path/filepath.Walk", "path/filepath.WalkDir", "(*encoding/gob.Encoder).Encode", "(*encoding/json.Encoder).Encode", "os.Open", "os.ReadFile", "io/ioutil.ReadFile":
			return true
		}
		return false
	})
	sl := x.OpaqueFn
	x.OpaqueFn = func(f *ssa.Function) bool {
		return strings.HasPrefix(r.P.RelPkg(f), "codesearch") || sl(f)
	}
	return x
}

// walkCallback reports whether the call enters the callback of a directory walk.
func walkCallback(c *eng.Call) bool {
	ci, ok := c.Instr.(ssa.CallInstruction)
	if !ok || c.Fn == nil || len(c.Args) != 3 {
		return false
	}
	switch eng.CalleeName(ci.Common()) {
	case "path/filepath.Walk", "path/filepath.WalkDir":
		return c.Name != eng.CalleeName(ci.Common())
	}
	return false
}

func isWalk(name string) bool {
	return name == "path/filepath.Walk" || name == "path/filepath.WalkDir"
}
