package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded, type-checked program.
type Prog struct {
	noRet   map[*ssa.Function]int
	Dir     string
	GOOS    string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	Module  string
	In      *Interner
	byPath  map[string]*packages.Package
	Funcs   []*ssa.Function // every module function, anonymous ones included
	impls   map[*types.Func][]*ssa.Function
	mods    map[*ssa.Function]*modSet
	callees map[*ssa.Function][]*ssa.Function
	Errors  []string
}

// Overlay replaces the contents of files (development aid).
var Overlay map[string][]byte

// Load type-checks the module rooted at dir.
func Load(dir, goos string) (*Prog, error) {
	env := os.Environ()
	env = append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if goos != "" {
		env = append(env, "GOOS="+goos)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedModule | packages.NeedDeps | packages.NeedEmbedFiles | packages.NeedEmbedPatterns,
		Dir:     dir,
		Env:     env,
		Overlay: Overlay,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	p := &Prog{Dir: dir, GOOS: goos, Pkgs: ps, Fset: ps[0].Fset, In: NewInterner(), byPath: map[string]*packages.Package{},
		impls: map[*types.Func][]*ssa.Function{}, mods: map[*ssa.Function]*modSet{}}
	for _, q := range ps {
		for _, e := range q.Errors {
			// the embedded UI assets are build output and may be absent
			if strings.Contains(e.Msg, "no matching files found") && strings.Contains(e.Msg, "pattern") {
				continue
			}
			p.Errors = append(p.Errors, e.Error())
		}
		p.byPath[q.PkgPath] = q
		if q.Module != nil && p.Module == "" {
			p.Module = q.Module.Path
		}
	}
	if p.Module == "" {
		return nil, fmt.Errorf("no module")
	}
	if len(p.Errors) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(p.Errors, "; "))
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for fn := range ssautil.AllFunctions(prog) {
		if p.InModule(fn) && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.RelString(nil) < b.RelString(nil)
	})
	return p, nil
}

// Pkg returns the module package at the given module-relative path.
func (p *Prog) Pkg(rel string) *packages.Package { return p.byPath[p.Module+"/"+rel] }

// SSAPkg returns the SSA package at the module-relative path.
func (p *Prog) SSAPkg(rel string) *ssa.Package {
	q := p.Pkg(rel)
	if q == nil {
		return nil
	}
	return p.SSA.Package(q.Types)
}

// InModule reports whether fn belongs to the analysed module (synthetic
// wrappers and bound methods count as belonging everywhere).
func (p *Prog) InModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Synthetic != "" && fn.Pkg == nil {
		return true
	}
	path := pkgOf(fn)
	if path == "" && fn.Parent() != nil {
		return p.InModule(fn.Parent())
	}
	if o := fn.Origin(); o != nil && path == "" {
		return p.InModule(o)
	}
	return path == p.Module || strings.HasPrefix(path, p.Module+"/")
}

// RelPkg is the module-relative package of fn.
func (p *Prog) RelPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return strings.TrimPrefix(pkgOf(fn), p.Module+"/")
}

// Type finds a named type by module-relative package and name.
func (p *Prog) Type(rel, name string) *types.Named {
	q := p.Pkg(rel)
	if q == nil {
		return nil
	}
	o, ok := q.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Func finds a package-level function.
func (p *Prog) Func(rel, name string) *ssa.Function {
	q := p.SSAPkg(rel)
	if q == nil {
		return nil
	}
	return q.Func(name)
}

// Method finds a method (pointer or value receiver) of a named type.
func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	n := p.Type(rel, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(n), n} {
		if sel := p.SSA.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), name); sel != nil {
			return p.SSA.MethodValue(sel)
		}
	}
	return nil
}

func (p *Prog) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	if types.IsInterface(t) {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

func (p *Prog) isModuleIface(m *types.Func) bool {
	if m.Pkg() == nil {
		return false
	}
	path := m.Pkg().Path()
	return path == p.Module || strings.HasPrefix(path, p.Module+"/")
}

// implementations lists the module methods an interface method may dispatch to.
func (p *Prog) implementations(m *types.Func) []*ssa.Function {
	if r, ok := p.impls[m]; ok {
		return r
	}
	var r []*ssa.Function
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil
	}
	iface, _ := sig.Recv().Type().Underlying().(*types.Interface)
	if iface != nil {
		for _, q := range p.Pkgs {
			sc := q.Types.Scope()
			for _, name := range sc.Names() {
				tn, ok := sc.Lookup(name).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				t := tn.Type()
				if types.IsInterface(t) {
					continue
				}
				for _, c := range []types.Type{t, types.NewPointer(t)} {
					if types.Implements(c, iface) {
						if f := p.methodOf(c, m); f != nil {
							// skip wrappers that merely forward to the same interface
							if st, ok := t.Underlying().(*types.Struct); ok && f.Synthetic != "" && embedsIface(st, iface) {
								break
							}
							r = append(r, f)
						}
						break
					}
				}
			}
		}
	}
	p.impls[m] = r
	return r
}

func embedsIface(st *types.Struct, iface *types.Interface) bool {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() && types.IsInterface(f.Type()) && types.Implements(f.Type(), iface) {
			return true
		}
	}
	return false
}

// Implementations of an interface method within the module.
func (p *Prog) Implementations(m *types.Func) []*ssa.Function { return p.implementations(m) }

// Pos renders a position relative to the module root.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// ---- mod sets ----

type modSet struct {
	fields  map[*types.Var]bool
	globals map[*ssa.Global]bool
	elems   bool
	through []types.Type // types stored through other pointers
}

func (m *modSet) has(a *Val) bool {
	switch a.Kind {
	case KField:
		return m.fields[a.Fld]
	case KGlobal:
		return m.globals[a.G]
	case KIndex, KElem:
		return m.elems
	}
	return false
}

// mayWrite: the cell of type t, or a part of it, may be stored to through a pointer.
func (m *modSet) mayWrite(t types.Type) bool {
	for _, w := range m.through {
		if holds(t, w) {
			return true
		}
	}
	return false
}

func holds(t, w types.Type) bool {
	if types.Identical(t, w) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holds(u.Field(i).Type(), w) {
				return true
			}
		}
	case *types.Array:
		return holds(u.Elem(), w)
	case *types.Interface:
		return types.IsInterface(w)
	}
	return false
}

// Callees lists the functions fn may call (module functions only): static
// callees, closures it makes, function values it mentions and module
// implementations of interface methods it invokes.
func (p *Prog) Callees(fn *ssa.Function) []*ssa.Function {
	if p.callees == nil {
		p.callees = map[*ssa.Function][]*ssa.Function{}
	}
	if r, ok := p.callees[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && p.InModule(g) && len(g.Blocks) > 0 {
			seen[g] = true
			r = append(r, g)
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var buf [16]*ssa.Value
			for _, op := range ins.Operands(buf[:0]) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					add(g)
				}
			}
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
			if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
				for _, g := range p.implementations(ci.Common().Method) {
					add(g)
				}
			}
		}
	}
	p.callees[fn] = r
	return r
}

// Reach is the set of module functions reachable from the given ones.
func (p *Prog) Reach(from ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, g := range p.Callees(f) {
			walk(g)
		}
	}
	for _, f := range from {
		walk(f)
	}
	return seen
}

// ModSet over-approximates the cells an opaque call to module code may write.
func (p *Prog) ModSet(c *Call) *modSet {
	var roots []*ssa.Function
	if c.Fn != nil {
		roots = append(roots, c.Fn)
	} else if c.Invoke != nil {
		roots = p.implementations(c.Invoke)
	}
	out := &modSet{fields: map[*types.Var]bool{}, globals: map[*ssa.Global]bool{}}
	for _, r := range roots {
		m := p.mods[r]
		if m == nil {
			m = &modSet{fields: map[*types.Var]bool{}, globals: map[*ssa.Global]bool{}}
			for f := range p.Reach(r) {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						switch ins := ins.(type) {
						case *ssa.Store:
							switch a := ins.Addr.(type) {
							case *ssa.FieldAddr:
								m.fields[deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field)] = true
							case *ssa.Global:
								m.globals[a] = true
							case *ssa.IndexAddr:
								m.elems = true
							case *ssa.Alloc:
							default:
								m.through = append(m.through, ins.Val.Type())
							}
							if st, ok := ins.Val.Type().Underlying().(*types.Struct); ok {
								for i := 0; i < st.NumFields(); i++ {
									m.fields[st.Field(i)] = true
								}
							}
						case *ssa.MapUpdate:
							m.elems = true
						}
					}
				}
			}
			p.mods[r] = m
		}
		for k := range m.fields {
			out.fields[k] = true
		}
		for k := range m.globals {
			out.globals[k] = true
		}
		out.elems = out.elems || m.elems
		out.through = append(out.through, m.through...)
	}
	return out
}

// IsAddressTaken etc. are computed on demand by CallersOf.
func (p *Prog) CallersOf() map[*ssa.Function][]*ssa.Function {
	r := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		for _, g := range p.Callees(f) {
			r[g] = append(r[g], f)
		}
	}
	return r
}

// GoMinor is the minor version of the go directive of the module.
func (p *Prog) GoMinor() int {
	for _, q := range p.Pkgs {
		if q.Module != nil && q.Module.Path == p.Module {
			var a, b int
			if n, _ := fmt.Sscanf(q.Module.GoVersion, "%d.%d", &a, &b); n == 2 && a == 1 {
				return b
			}
		}
	}
	return 0
}

// NoReturn: the function of the module never comes back to its caller, but
// panics or ends the process.
func (p *Prog) NoReturn(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !p.InModule(fn) {
		return false
	}
	if p.noRet == nil {
		p.noRet = map[*ssa.Function]int{}
	}
	switch p.noRet[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	p.noRet[fn] = 3
	seen := map[*ssa.BasicBlock]bool{}
	returns, ends := false, false
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] || returns {
			return
		}
		seen[b] = true
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Return:
				returns = true
			case *ssa.Panic:
				ends = true
			case *ssa.Call:
				g := i.Call.StaticCallee()
				if g != nil && (p.NoReturn(g) || endsProcess(CalleeName(&i.Call))) {
					ends = true
					return
				}
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(fn.Blocks[0])
	r := 2
	if !returns && ends {
		r = 1
	}
	p.noRet[fn] = r
	return r == 1
}

func endsProcess(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}
