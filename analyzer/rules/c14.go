package rules

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tData = 1 << iota // the secret itself
	tJSON             // its JSON form contains a secret
	tFmt              // its printed form contains a secret
)

var secretName = regexp.MustCompile(`(?i)passw|secret|token|credential|private`)

func init() {
	r := register("C14", "Version control credentials stay inside the server",
		"taint analysis over all functions: nothing derived from the vcs-config of a repository, or from a password taken from it, reaches a response, a page, the log, the console, an error which is logged, a file or a request to elsewhere; type-directed check that what is encoded as JSON or printed does not contain such a value, except in a form which is shown not to depend on it",
		func(r *Report) {
			r.secrets()
			r.Need("source of secrets", 3)
			r.Need("place where data leaves the server", 20)
			r.Need("JSON form of a secret", 1)
		})
	r.Assume = []string{"version control commands do not print the password given to them", "which values lead to which branch is not followed"}
}

// secretField: the field holds credentials: the vcs-config of a repository, or
// a password within it.
func secretField(st *types.Struct, i int) bool {
	n := jsonTag(st, i)
	f := st.Field(i)
	if n == "vcs-config" {
		return true
	}
	if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
		return false
	}
	return secretName.MatchString(f.Name()) && !strings.Contains(strings.ToLower(f.Name()), "message")
}

func (r *Report) secrets() {
	t := r.newTaint()
	shapes := map[types.Type]uint64{}
	structOf := func(v *ssa.FieldAddr) *types.Struct {
		return v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	}
	var jsonLeak func(ty types.Type, addr bool, seen map[types.Type]bool) bool
	var fmtLeak func(ty types.Type, depth int, seen map[types.Type]bool) bool
	// the result of the module's method of that name on ty depends on a secret
	method := func(ty types.Type, addr bool, names ...string) (found, leaks bool) {
		if addr {
			if _, ok := ty.Underlying().(*types.Pointer); !ok {
				ty = types.NewPointer(ty)
			}
		}
		for _, n := range names {
			if ms := types.NewMethodSet(ty); ms.Lookup(nil, n) != nil {
				f := r.methodOfType(ty, n)
				if f == nil {
					continue
				}
				o := ms.Lookup(nil, n).Obj()
				if o.Pkg() == nil || !t.inModule(o.Pkg().Path()) {
					return false, false
				}
				if fn, ok := o.(*types.Func); ok {
					if d := r.P.SSA.FuncValue(fn); d != nil {
						f = d // not a wrapper
					}
				}
				l := uint64(0)
				for _, x := range t.res[f] {
					l |= x
				}
				return true, kinds(l)&tData != 0
			}
		}
		return false, false
	}
	jsonLeak = func(ty types.Type, addr bool, seen map[types.Type]bool) bool {
		if found, leaks := method(ty, addr, "MarshalJSON", "MarshalText"); found {
			return leaks
		}
		if seen[ty] {
			return false
		}
		seen[ty] = true
		switch u := ty.Underlying().(type) {
		case *types.Pointer:
			return jsonLeak(u.Elem(), true, seen)
		case *types.Slice:
			return jsonLeak(u.Elem(), true, seen)
		case *types.Array:
			return jsonLeak(u.Elem(), addr, seen)
		case *types.Map:
			return jsonLeak(u.Elem(), false, seen)
		case *types.Struct:
			if n, ok := types.Unalias(ty).(*types.Named); ok && (n.Obj().Pkg() == nil || !t.inModule(n.Obj().Pkg().Path())) {
				return false
			}
			for i := 0; i < u.NumFields(); i++ {
				if jsonTag(u, i) == "-" {
					continue
				}
				ft := u.Field(i).Type()
				if secretField(u, i) || t.fld[u.Field(i)]&tData != 0 {
					fa := addr
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						ft, fa = p.Elem(), true
					} else if m, ok := ft.Underlying().(*types.Map); ok {
						ft, fa = m.Elem(), false
						if p, ok := ft.Underlying().(*types.Pointer); ok {
							ft, fa = p.Elem(), true
						}
					}
					if found, leaks := method(ft, fa, "MarshalJSON", "MarshalText"); !found || leaks {
						return true
					}
					continue
				}
				if jsonLeak(ft, addr, seen) {
					return true
				}
			}
		}
		return false
	}
	fmtLeak = func(ty types.Type, depth int, seen map[types.Type]bool) bool {
		if found, leaks := method(ty, false, "Format", "Error", "String"); found {
			return leaks
		}
		if seen[ty] {
			return false
		}
		seen[ty] = true
		switch u := ty.Underlying().(type) {
		case *types.Pointer:
			if depth > 0 {
				return false
			}
			return fmtLeak(u.Elem(), depth+1, seen)
		case *types.Slice:
			return fmtLeak(u.Elem(), depth+1, seen)
		case *types.Array:
			return fmtLeak(u.Elem(), depth+1, seen)
		case *types.Map:
			return fmtLeak(u.Elem(), depth+1, seen)
		case *types.Struct:
			if n, ok := types.Unalias(ty).(*types.Named); ok && (n.Obj().Pkg() == nil || !t.inModule(n.Obj().Pkg().Path())) {
				return false
			}
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if secretField(u, i) || t.fld[u.Field(i)]&tData != 0 {
					if _, ok := ft.Underlying().(*types.Pointer); ok {
						continue
					}
					if m, ok := ft.Underlying().(*types.Map); ok {
						if _, ok := m.Elem().Underlying().(*types.Pointer); ok {
							continue
						}
					}
					if found, leaks := method(ft, false, "Format", "Error", "String"); found && !leaks {
						continue
					}
					return true
				}
				if fmtLeak(ft, depth+1, seen) {
					return true
				}
			}
		}
		return false
	}
	round := -1
	shape := func(ty types.Type) uint64 {
		if l, ok := shapes[ty]; ok {
			return l
		}
		l := uint64(0)
		if jsonLeak(ty, false, map[types.Type]bool{}) {
			l |= tJSON
		}
		if fmtLeak(ty, 0, map[types.Type]bool{}) {
			l |= tFmt
		}
		shapes[ty] = l
		return l
	}
	secretT := map[string]bool{} // types made for credentials
	for _, f := range r.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || t.moduleStruct(fa.X.Type()) == nil || !secretField(structOf(fa), fa.Field) {
					continue
				}
				ty := structOf(fa).Field(fa.Field).Type()
				if m, ok := ty.Underlying().(*types.Map); ok {
					ty = m.Elem()
				}
				if p, ok := ty.Underlying().(*types.Pointer); ok {
					ty = p.Elem()
				}
				if n, ok := types.Unalias(ty).(*types.Named); ok && n.Obj().Pkg() != nil && t.inModule(n.Obj().Pkg().Path()) {
					secretT[ty.String()] = true
				}
			}
		}
	}
	t.source = func(v ssa.Value) uint64 {
		switch v := v.(type) {
		case *ssa.FieldAddr:
			if st := structOf(v); t.moduleStruct(st) != nil && t.moduleStruct(v.X.Type()) != nil && secretField(st, v.Field) {
				if round == -1 {
					r.Seen("source of secrets", v)
				}
				return tData
			}
		case *ssa.Field:
			if st := t.moduleStruct(v.X.Type()); st != nil && secretField(st, v.Field) {
				if round == -1 {
					r.Seen("source of secrets", v)
				}
				return tData
			}
		case *ssa.UnOp:
			if v.Op == token.MUL && secretT[v.Type().String()] {
				return tData
			}
		case *ssa.MakeInterface:
			return shape(v.X.Type())
		}
		return 0
	}
	// a value of a type with a form of its own in JSON
	safeJSON := func(v ssa.Value) bool {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			return false
		}
		found, leaks := method(mi.X.Type(), false, "MarshalJSON", "MarshalText")
		return found && !leaks
	}
	t.ext = func(ci ssa.CallInstruction, name string, args []uint64) (uint64, bool) {
		vals := callArgVals(ci.Common())
		shift := func(l, from uint64) uint64 { // a shape becomes data
			if kinds(l)&from != 0 {
				if l&from != 0 {
					l |= tData
				} else {
					l |= tData << 4
				}
			}
			return l
		}
		all := uint64(0)
		for _, a := range args {
			all |= a
		}
		switch {
		case strings.HasPrefix(name, "(*os/exec.Cmd)"):
			if strings.HasSuffix(name, ".String") {
				return all, true
			}
			return 0, true
		case name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent":
			if safeJSON(vals[0]) {
				return 0, true
			}
			return shift(args[0], tJSON) &^ (tJSON | tFmt | (tJSON|tFmt)<<4), true
		case strings.HasPrefix(name, "fmt.Sprint") || name == "fmt.Errorf" || strings.HasPrefix(name, "fmt.Append"):
			return shift(all, tFmt) &^ (tJSON | tFmt | (tJSON|tFmt)<<4), true
		case name == "errors.New" || name == "errors.Join":
			return all, true
		case strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "sync/") || strings.HasPrefix(name, "(error)"):
			return all, name == "(error).Error"
		}
		return 0, false
	}
	t.run()
	// once more, as shapes depend on what was found
	for n := 0; n < 4; n++ {
		round = n
		shapes = map[types.Type]uint64{}
		t.run()
	}
	// the sinks
	for _, f := range r.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if p, ok := i.(*ssa.Panic); ok {
					if k := kinds(t.get(p.X)); k&(tData|tFmt) != 0 {
						r.Violate("C14.leak", p, "credentials may be printed by a panic")
					}
					continue
				}
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				what, bad := leaves(ci)
				if what == "" {
					continue
				}
				r.Seen("place where data leaves the server", i)
				for n, a := range callArgVals(ci.Common()) {
					if strings.HasPrefix(what, "JSON") && safeJSON(a) {
						continue
					}
					if n > 0 || !ci.Common().IsInvoke() && ci.Common().Signature().Recv() == nil {
						if kinds(t.get(a))&bad != 0 {
							r.Violate("C14.leak", i, "credentials may get into %s", strings.TrimPrefix(what, "JSON "))
						}
					}
				}
			}
		}
	}
	// the JSON form of the secrets
	done := map[string]bool{}
	for _, f := range r.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !secretField(structOf(fa), fa.Field) {
					continue
				}
				ty := structOf(fa).Field(fa.Field).Type()
				if m, ok := ty.Underlying().(*types.Map); ok {
					ty = m.Elem()
				}
				if found, leaks := method(ty, true, "MarshalJSON"); found && !done[ty.String()] {
					done[ty.String()] = true
					r.SeenAt("JSON form of a secret", ty.String())
					if leaks {
						m := r.methodOfType(ptrTo(ty), "MarshalJSON")
						r.ViolateFn("C14.json", FnName(m), m.Pos(), "the JSON form of credentials may contain them")
					}
				}
			}
		}
	}
}

func ptrTo(t types.Type) types.Type {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return t
	}
	return types.NewPointer(t)
}

// leaves: where the call sends its arguments, if outside the server, and which
// kinds of them must not contain secrets.
func leaves(ci ssa.CallInstruction) (string, uint64) {
	c := ci.Common()
	name := calleeName(c)
	local := func(v ssa.Value) bool { // a writer which keeps what it gets
		if mi, ok := v.(*ssa.MakeInterface); ok {
			s := mi.X.Type().String()
			return s == "*bytes.Buffer" || s == "*strings.Builder"
		}
		s := v.Type().String()
		return s == "hash.Hash" || s == "*bytes.Buffer" || s == "*strings.Builder"
	}
	recv := func() types.Type {
		if c.IsInvoke() {
			return c.Value.Type()
		}
		if len(c.Args) > 0 {
			return c.Args[0].Type()
		}
		return types.Typ[types.Int]
	}
	switch {
	case strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger)") || strings.HasPrefix(name, "log/slog.") || strings.HasPrefix(name, "(*log/slog.Logger)"):
		return "the log", tData | tFmt
	case strings.HasPrefix(name, "fmt.Print"), name == "builtin:println", name == "builtin:print":
		return "the console", tData | tFmt
	case strings.HasPrefix(name, "fmt.Fprint"):
		if local(c.Args[0]) {
			return "", 0
		}
		return "an output", tData | tFmt
	case strings.HasPrefix(name, "(*encoding/json.Encoder).Encode"), strings.HasPrefix(name, "(*encoding/gob.Encoder).Encode"):
		return "JSON an encoded document", tData | tJSON
	case strings.HasSuffix(name, "template.Template).Execute"), strings.HasSuffix(name, "template.Template).ExecuteTemplate"), name == "(html/template.Template).Execute":
		return "JSON a page", tData | tJSON | tFmt
	case c.IsInvoke() && (c.Method.Name() == "Execute" || c.Method.Name() == "ExecuteTemplate"):
		return "JSON a page", tData | tJSON | tFmt
	case name == "net/http.Error" || name == "net/http.Redirect" || name == "net/http.SetCookie" || name == "net/http.ServeContent" || name == "io.WriteString":
		if name == "io.WriteString" && local(c.Args[0]) {
			return "", 0
		}
		return "a response", tData
	case name == "(net/http.Header).Set" || name == "(net/http.Header).Add":
		return "a header", tData
	case strings.HasPrefix(name, "net/http.") && (strings.Contains(name, "Get") || strings.Contains(name, "Post") || strings.Contains(name, "NewRequest")):
		return "a request", tData
	case name == "os.WriteFile" || name == "io/ioutil.WriteFile":
		return "a file", tData
	case strings.HasSuffix(name, ".Write") || strings.HasSuffix(name, ".WriteString"):
		s := recv().String()
		switch {
		case s == "net/http.ResponseWriter":
			return "a response", tData
		case s == "*os.File" || s == "*bufio.Writer" || s == "io.Writer" || strings.Contains(s, "zip.Writer"):
			return "an output", tData
		}
	}
	return "", 0
}
