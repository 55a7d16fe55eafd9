package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// isHandlerSig: the signature of an HTTP handler function.
func isHandlerSig(s *types.Signature) bool {
	n := s.Params().Len()
	if n != 2 || s.Results().Len() != 0 {
		return false
	}
	return s.Params().At(0).Type().String() == "net/http.ResponseWriter" && s.Params().At(1).Type().String() == "*net/http.Request"
}

// registers: the instruction registers a handler at a ServeMux.
func registers(i ssa.Instruction) bool {
	return calleeIs(i, "(*net/http.ServeMux).HandleFunc", "net/http.HandleFunc", "(*net/http.ServeMux).Handle", "net/http.Handle")
}

// apiRoots: the exported functions of the api which register handlers.
func (r *Report) apiRoots() []*ssa.Function {
	return r.roots(func(f *ssa.Function) bool { return mentions(f, registers) }, "api")
}

// strConst is the constant string v, if it is one.
func strConst(v *eng.Val) (string, bool) {
	v = v.Strip()
	if v.Kind == eng.KConst && v.C != nil && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

// patternOf is the pattern under which the handler of a thread was registered.
func patternOf(t *eng.Thread) string {
	for _, a := range t.Reg {
		if s, ok := strConst(a); ok {
			return s
		}
	}
	return "?"
}

// handlers analyses every handler of the api, each in the state in which it
// was registered, with goroutines it starts. mk makes the property state of a
// handler; goroutines continue with a copy of the one of their handler.
func (r *Report) handlers(x *eng.Exec, event func(ssa.Instruction) bool, mk func(t *eng.Thread) *M, done func(t *eng.Thread, exits []eng.Exit)) {
	r.handlersOf(x, event, mk, done, nil)
}

// handlersOf is handlers for those handlers which only accepts.
func (r *Report) handlersOf(x *eng.Exec, event func(ssa.Instruction) bool, mk func(t *eng.Thread) *M, done func(t *eng.Thread, exits []eng.Exit), only func(*ssa.Function) bool) {
	if mk == nil {
		mk = func(*eng.Thread) *M { return newM() }
	}
	for _, root := range r.apiRoots() {
		r.slice(x, func(i ssa.Instruction) bool { return registers(i) || event(i) })
		sl := x.OpaqueFn
		x.OpaqueFn = func(f *ssa.Function) bool {
			switch p := r.P.RelPkg(f); p {
			case "index", "vcs", "config", "searcher":
				return !simpleFn(f) || f.Signature.Recv() != nil && r.isNamed(f.Signature.Recv().Type(), "searcher", "Searcher")
			}
			return strings.HasPrefix(r.P.RelPkg(f), "codesearch") || sl(f) || f.Parent() == nil && x.OpaqueDyn(f)
		}
		x.Run(root, newM())
		x.RunThreads(func(t *eng.Thread) eng.Monitor {
			if t.Kind == "async" {
				if only != nil && !only(t.Call.Fn) {
					return nil
				}
				r.SeenAt("request handler", FnName(t.Call.Fn))
				m := mk(t)
				m.Flags["handler"] = 1
				return m
			}
			return mon(t.S).Clone()
		}, done)
		r.Absorb(x, FnName(root))
	}
}

// isSearcherMap: a map from names to searchers.
func (r *Report) isSearcherMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && r.isSearcherPtr(m.Elem())
}

func (r *Report) isSearcherPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && r.isNamed(t, "searcher", "Searcher")
}
