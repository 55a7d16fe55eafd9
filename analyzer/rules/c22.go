package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C22", "Only index directories and temporary files are written or removed",
		"backward provenance of the path of every removal, truncation, renaming and creation of a file which the server reaches, through variables, fields, parameters, containers and path functions: on every way it is made it lies in an index directory (a name with the prefix of index directories below the data directory, or a path found by a pattern with that prefix) or is a temporary file created here",
		func(r *Report) {
			r.ownPaths()
			r.Need("removal", 4)
			r.Need("creation or truncation of a file", 4)
		})
	r.Assume = []string{"relative names found while walking a tree do not lead out of it", "programs the version control drivers run keep to their working directory"}
}

const idxPrefix = "idx-"

// Where a path comes from.
const (
	oIndex = "an index directory"
	oName  = "the name of an index directory"
	oTemp  = "a temporary file"
)

type origins struct {
	r       *Report
	live    map[*ssa.Function]bool
	sites   map[*ssa.Function][]ssa.CallInstruction
	stores  map[*types.Var][]ssa.Value
	elems   map[string][]ssa.Value // put in maps and channels, by type
	gstores map[*ssa.Global][]ssa.Value
	decoded map[*types.Var]bool
	taken   map[string]map[*ssa.Function]bool
	passed  map[*ssa.Function][]ssa.CallInstruction // external calls the function is passed to
}

func (r *Report) newOrigins(live map[*ssa.Function]bool) *origins {
	o := &origins{r: r, live: live, sites: map[*ssa.Function][]ssa.CallInstruction{}, stores: map[*types.Var][]ssa.Value{},
		elems: map[string][]ssa.Value{}, gstores: map[*ssa.Global][]ssa.Value{}, decoded: map[*types.Var]bool{}, passed: map[*ssa.Function][]ssa.CallInstruction{}}
	t := r.newTaint()
	for f := range live {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					switch a := i.Addr.(type) {
					case *ssa.FieldAddr:
						if _, fv := fieldOf(a); fv != nil {
							o.stores[fv] = append(o.stores[fv], i.Val)
						}
					case *ssa.Global:
						o.gstores[a] = append(o.gstores[a], i.Val)
					}
				case *ssa.MapUpdate:
					k := i.Map.Type().Underlying().String()
					o.elems[k] = append(o.elems[k], i.Value)
					o.elems["key "+k] = append(o.elems["key "+k], i.Key)
				case *ssa.Send:
					k := i.Chan.Type().Underlying().(*types.Chan).Elem().String()
					o.elems["chan "+k] = append(o.elems["chan "+k], i.X)
				}
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				fns, ext := t.targets(ci.Common())
				for _, g := range fns {
					o.sites[g] = append(o.sites[g], ci)
				}
				if c := ci.Common(); !c.IsInvoke() && c.StaticCallee() == nil {
					if mc := closureOf(c.Value); mc != nil {
						g := mc.Fn.(*ssa.Function)
						o.sites[g] = append(o.sites[g], ci)
					}
				}
				if !ext {
					continue
				}
				for _, a := range ci.Common().Args {
					if mc := closureOf(a); mc != nil {
						g := mc.Fn.(*ssa.Function)
						o.passed[g] = append(o.passed[g], ci)
					} else if g, ok := a.(*ssa.Function); ok {
						o.passed[g] = append(o.passed[g], ci)
					}
					if n := calleeName(ci.Common()); strings.Contains(n, "Decode") || strings.Contains(n, "Unmarshal") {
						o.decodes(a.Type(), 0)
						if mi, ok := a.(*ssa.MakeInterface); ok {
							o.decodes(mi.X.Type(), 0)
						}
					}
				}
			}
		}
	}
	return o
}

// decodes notes the fields which are filled in from outside.
func (o *origins) decodes(t types.Type, depth int) {
	if depth > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		o.decodes(u.Elem(), depth+1)
	case *types.Slice:
		o.decodes(u.Elem(), depth+1)
	case *types.Map:
		o.decodes(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); f.Exported() {
				o.decoded[f] = true
				o.decodes(f.Type(), depth+1)
			}
		}
	}
}

func (o *origins) of(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	o.walk(v, out, map[ssa.Value]bool{})
	return out
}

func only(m map[string]bool, want ...string) bool {
	for k := range m {
		ok := false
		for _, w := range want {
			ok = ok || k == w
		}
		if !ok {
			return false
		}
	}
	return len(m) > 0
}

// variadicElems are the values of the slice made for a variadic call.
func variadicElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, arr.Len())
	for _, ref := range *a.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				out[k.Int64()] = st.Val
			}
		}
	}
	for _, e := range out {
		if e == nil {
			return nil
		}
	}
	return out
}

func (o *origins) walk(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil || v.Value.Kind() != constant.String {
			return
		}
		s := constant.StringVal(v.Value)
		switch {
		case s == "":
		case strings.HasPrefix(s, idxPrefix):
			out[oName] = true
		default:
			out["the constant "+strconvQuote(s)] = true
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			o.walk(e, out, seen)
		}
	case *ssa.Parameter:
		o.param(v, out, seen)
	case *ssa.FreeVar:
		f := v.Parent()
		for g := range o.live {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
						for n, fv := range f.FreeVars {
							if fv == v {
								o.walk(mc.Bindings[n], out, seen)
							}
						}
					}
				}
			}
		}
	case *ssa.Alloc:
		o.cell(v, out, seen)
	case *ssa.Global:
		for _, w := range o.gstores[v] {
			o.walk(w, out, seen)
		}
		if len(o.gstores[v]) == 0 {
			out["the variable "+v.Name()] = true
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			o.walk(v.X, out, seen)
		case token.ARROW:
			o.many("chan "+v.X.Type().Underlying().(*types.Chan).Elem().String(), out, seen)
		}
	case *ssa.FieldAddr:
		_, fv := fieldOf(v)
		o.field(fv, out, seen)
	case *ssa.Field:
		_, fv := fieldOf(v)
		o.field(fv, out, seen)
	case *ssa.IndexAddr:
		o.walk(v.X, out, seen)
	case *ssa.Index:
		o.walk(v.X, out, seen)
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Basic); ok {
			out["part of a string"] = true
			return
		}
		if es := variadicElems(v); es != nil {
			for _, e := range es {
				o.walk(e, out, seen)
			}
			return
		}
		o.walk(v.X, out, seen)
	case *ssa.Lookup:
		if m, ok := v.X.Type().Underlying().(*types.Map); ok {
			o.many(m.String(), out, seen)
		}
	case *ssa.Extract:
		switch tu := v.Tuple.(type) {
		case *ssa.Next:
			if tu.IsString {
				return
			}
			k := tu.Iter.(*ssa.Range).X.Type().Underlying().String()
			if v.Index == 1 {
				k = "key " + k
			}
			o.many(k, out, seen)
		case *ssa.Lookup:
			o.walk(tu, out, seen)
		case *ssa.TypeAssert:
			o.walk(tu.X, out, seen)
		case *ssa.UnOp:
			o.walk(tu, out, seen)
		case *ssa.Call:
			o.call(tu, v.Index, out, seen)
		case *ssa.Select:
			for _, st := range tu.States {
				if st.Dir == types.RecvOnly {
					o.many("chan "+st.Chan.Type().Underlying().(*types.Chan).Elem().String(), out, seen)
				}
			}
		}
	case *ssa.Call:
		o.call(v, 0, out, seen)
	case *ssa.BinOp:
		if v.Op != token.ADD {
			return
		}
		if k, ok := v.Y.(*ssa.Const); ok && strings.Contains(constant.StringVal(k.Value), "..") {
			out["a path which leads up"] = true
			return
		}
		x, y := o.of2(v.X, seen), o.of2(v.Y, seen)
		switch {
		case only(x, oIndex):
			out[oIndex] = true
		case only(x, oName):
			out[oName] = true
		case only(y, oName) || only(y, oIndex):
			out[oIndex] = true
		default:
			for k := range x {
				out[k] = true
			}
			if len(x) == 0 {
				out["a string put together"] = true
			}
		}
	case *ssa.Convert:
		o.walk(v.X, out, seen)
	case *ssa.ChangeType:
		o.walk(v.X, out, seen)
	case *ssa.ChangeInterface:
		o.walk(v.X, out, seen)
	case *ssa.MakeInterface:
		o.walk(v.X, out, seen)
	case *ssa.TypeAssert:
		o.walk(v.X, out, seen)
	case *ssa.MakeSlice, *ssa.MakeMap:
	default:
		out["an unknown place"] = true
	}
}

func strconvQuote(s string) string { return "\"" + s + "\"" }

// of2 is of, guarded against going round in circles.
func (o *origins) of2(v ssa.Value, seen map[ssa.Value]bool) map[string]bool {
	out := map[string]bool{}
	s2 := map[ssa.Value]bool{}
	for k := range seen {
		if k != v {
			s2[k] = true
		}
	}
	o.walk(v, out, s2)
	return out
}

func (o *origins) many(key string, out map[string]bool, seen map[ssa.Value]bool) {
	for _, w := range o.elems[key] {
		o.walk(w, out, seen)
	}
}

func (o *origins) field(fv *types.Var, out map[string]bool, seen map[ssa.Value]bool) {
	if fv == nil {
		out["an unknown field"] = true
		return
	}
	if o.decoded[fv] || fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), "/config") {
		out["the field "+fv.Name()+", read from a file"] = true
	}
	for _, w := range o.stores[fv] {
		o.walk(w, out, seen)
	}
}

// cell: everything put in the variable.
func (o *origins) cell(a *ssa.Alloc, out map[string]bool, seen map[ssa.Value]bool) {
	var refs func(v ssa.Value, depth int)
	refs = func(v ssa.Value, depth int) {
		if depth > 4 || v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == v {
					o.walk(ref.Val, out, seen)
				}
			case *ssa.IndexAddr:
				refs(ref, depth+1)
			case *ssa.MakeClosure:
				for n, b := range ref.Bindings {
					if b == v {
						refs(ref.Fn.(*ssa.Function).FreeVars[n], depth+1)
					}
				}
			}
		}
	}
	refs(a, 0)
}

func (o *origins) param(p *ssa.Parameter, out map[string]bool, seen map[ssa.Value]bool) {
	f := p.Parent()
	n := -1
	for i, q := range f.Params {
		if p == q {
			n = i
		}
	}
	found := false
	for _, ci := range o.sites[f] {
		vals := callArgVals(ci.Common())
		if n < len(vals) {
			found = true
			o.walk(vals[n], out, seen)
		}
	}
	for _, ci := range o.passed[f] {
		found = true
		if name := calleeName(ci.Common()); isWalkName(name) && n == 0 {
			if x := o.of2(ci.Common().Args[0], seen); only(x, oIndex) {
				out[oIndex] = true
				continue
			}
		}
		out["an argument of "+calleeName(ci.Common())] = true
	}
	if !found {
		out["a parameter of "+FnName(f)] = true
	}
}

func isWalkName(n string) bool {
	return n == "path/filepath.Walk" || n == "path/filepath.WalkDir"
}

func (o *origins) call(c *ssa.Call, res int, out map[string]bool, seen map[ssa.Value]bool) {
	com := &c.Call
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range com.Args {
				o.walk(a, out, seen)
			}
		}
		return
	}
	name := calleeName(com)
	arg := func(i int) ssa.Value { return callArgVals(com)[i] }
	switch name {
	case "path/filepath.Join", "path.Join":
		o.join(c, variadicElems(com.Args[0]), out, seen)
		return
	case "fmt.Sprintf":
		f, ok := arg(0).(*ssa.Const)
		if !ok {
			break
		}
		s := constant.StringVal(f.Value)
		es := variadicElems(arg(1))
		switch {
		case strings.HasPrefix(s, idxPrefix):
			out[oName] = true
			return
		case strings.Contains(s, "/"+idxPrefix):
			out[oIndex] = true
			return
		case strings.HasPrefix(s, "%s") && len(es) > 0:
			if x := o.of2(es[0], seen); only(x, oIndex) || only(x, oName) {
				o.walk(es[0], out, seen)
				return
			}
		}
		// %s/%s with the name of an index
		for k, e := range es {
			if k > 0 && strings.HasSuffix(s, "/%s") && k == len(es)-1 && only(o.of2(e, seen), oName) {
				out[oIndex] = true
				return
			}
		}
	case "path/filepath.Clean", "path/filepath.Abs", "path/filepath.FromSlash", "path.Clean", "path/filepath.Glob", "sort.StringSlice", "strings.Clone":
		o.walk(arg(0), out, seen)
		return
	case "path/filepath.Dir":
		if j, ok := arg(0).(*ssa.Call); ok && calleeName(&j.Call) == "path/filepath.Join" {
			if es := variadicElems(j.Call.Args[0]); len(es) > 1 {
				if _, ok := es[len(es)-1].(*ssa.Const); ok && only(o.of2(es[0], seen), oIndex) {
					out[oIndex] = true
					return
				}
			}
		}
	case "os.Open", "os.OpenFile", "os.Create", "(*os.File).Name":
		o.walk(arg(0), out, seen)
		return
	case "io/ioutil.TempFile", "os.CreateTemp", "io/ioutil.TempDir", "os.MkdirTemp":
		out[oTemp] = true
		return
	}
	fns, ext := o.r.newTaintTargets().targets(com)
	if mc := closureOf(com.Value); !com.IsInvoke() && mc != nil {
		fns, ext = []*ssa.Function{mc.Fn.(*ssa.Function)}, false
	}
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if ret, ok := i.(*ssa.Return); ok && b != g.Recover && res < len(ret.Results) {
					o.walk(ret.Results[res], out, seen)
				}
			}
		}
	}
	if ext || len(fns) == 0 {
		out["a result of "+name] = true
	}
}

func (o *origins) join(c *ssa.Call, es []ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if len(es) == 0 {
		out["a joined path"] = true
		return
	}
	for _, e := range es[1:] {
		if k, ok := e.(*ssa.Const); ok && strings.Contains(constant.StringVal(k.Value), "..") {
			out["a path which leads up"] = true
			return
		}
	}
	x := o.of2(es[0], seen)
	if only(x, oIndex, oTemp) {
		for k := range x {
			out[k] = true
		}
		return
	}
	if len(es) > 1 {
		if only(o.of2(es[1], seen), oName) || o.prefixChecked(c, es[1]) {
			out[oIndex] = true
			return
		}
		if last := es[len(es)-1]; only(o.of2(last, seen), oName) || o.prefixChecked(c, last) {
			out[oIndex] = true
			return
		}
	}
	for k := range x {
		if k == oIndex || k == oTemp || k == oName {
			continue
		}
		out["a path below "+strings.TrimPrefix(k, "a path below ")] = true
	}
	if len(x) == 0 {
		out["a joined path"] = true
	}
}

// prefixChecked: where the call is made v is known to have the prefix of index
// directories.
func (o *origins) prefixChecked(at ssa.Instruction, v ssa.Value) bool {
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		c, ok1 := a.(*ssa.Call)
		d, ok2 := b.(*ssa.Call)
		if !ok1 || !ok2 || calleeName(&c.Call) != calleeName(&d.Call) {
			return false
		}
		x, y := callArgVals(&c.Call), callArgVals(&d.Call)
		return len(x) == 1 && len(y) == 1 && x[0] == y[0]
	}
	for _, b := range at.Parent().Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, want := iff.Cond, 0
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, want = u.X, 1-want
		}
		c, ok := cond.(*ssa.Call)
		if !ok || calleeName(&c.Call) != "strings.HasPrefix" || !same(c.Call.Args[0], v) || !only(o.of(c.Call.Args[1]), oName) {
			continue
		}
		s := b.Succs[want]
		if len(s.Preds) == 1 && s.Dominates(at.Block()) {
			return true
		}
	}
	return false
}

func (r *Report) newTaintTargets() *taint {
	if r.tt == nil {
		r.tt = r.newTaint()
	}
	return r.tt
}

func (r *Report) ownPaths() {
	var main *ssa.Function
	for _, f := range r.P.Funcs {
		if f.Name() == "main" && f.Parent() == nil && r.P.RelPkg(f) == "cmds/houndd" {
			main = f
		}
	}
	if main == nil {
		r.Undecided("no main function of the server")
		return
	}
	live := r.P.Reach(main)
	o := r.newOrigins(live)
	var fs []*ssa.Function
	for f := range live {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return FnName(fs[i]) < FnName(fs[j]) })
	for _, f := range fs {
		r.Funcs[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				name := calleeName(c)
				verb := ""
				paths := c.Args[:min(1, len(c.Args))]
				switch name {
				case "os.Remove", "os.RemoveAll", "syscall.Unlink", "syscall.Rmdir":
					verb = "removed"
				case "os.Rename":
					verb, paths = "renamed", c.Args[:2]
				case "os.Truncate", "os.Chmod", "os.Chtimes", "os.Create", "os.WriteFile", "io/ioutil.WriteFile":
					verb = "written"
				case "os.OpenFile":
					k, ok := c.Args[1].(*ssa.Const)
					if ok && k.Int64()&3 == 0 {
						continue
					}
					verb = "written"
				case "os.Link", "os.Symlink":
					if r.P.RelPkg(f) == "vcs" {
						continue // what a driver checks out
					}
					verb, paths = "linked", c.Args[1:2]
				}
				if verb == "" {
					continue
				}
				if verb == "written" {
					r.Seen("creation or truncation of a file", i)
				} else {
					r.Seen("removal", i)
				}
				for _, p := range paths {
					from := o.of(p)
					if len(from) == 0 {
						r.Violate("C22.path", i, "a file may be %s which is neither in an index directory nor temporary", verb)
					}
					var ks []string
					for k := range from {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						if k != oIndex && k != oTemp {
							r.Violate("C22.path", i, "a file may be %s which is neither in an index directory nor temporary (its path comes from %s)", verb, k)
						}
					}
				}
			}
		}
	}
}
