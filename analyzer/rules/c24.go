package rules

import (
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"text/template/parse"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C24", "Pages contain outside data only escaped",
		"taint analysis: nothing derived from a request or the configuration is declared to be trusted markup, nor written into a page directly; path-sensitive check that pages are parsed by the escaping template engine only; every other template escapes each of the values concerned itself",
		func(r *Report) {
			t := r.outsideTaint(true)
			r.trustedMarkup(t)
			names := r.templateKinds()
			r.plainTemplates(t, names)
			r.Need("trusted markup", 2)
			r.Need("value of a page", 4)
			r.Need("parser of templates", 3)
			r.Need("plain template", 1)
			r.Need("page", 2)
		})
	r.Assume = []string{"html/template escapes for the context, as documented", "the bundled assets are trusted"}
}

// outsideTaint labels what comes from requests and, if cfg, from the
// configuration (kind 1).
func (r *Report) outsideTaint(cfg bool) *taint {
	t := r.newTaint()
	t.fills = true
	t.source = func(v ssa.Value) uint64 {
		switch v := v.(type) {
		case *ssa.Parameter:
			if v.Type().String() == "*net/http.Request" {
				return 1
			}
		case *ssa.FieldAddr:
			if n, _ := fieldOf(v); cfg && n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == r.P.Module+"/config" {
				return 1
			}
		case *ssa.Field:
			if n, _ := fieldOf(v); cfg && n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == r.P.Module+"/config" {
				return 1
			}
		case *ssa.Call:
			if !cfg {
				return 0
			}
			switch calleeName(&v.Call) {
			case "os.Getenv", "os.ReadFile", "io/ioutil.ReadFile", "os.Open":
				return 1
			}
		}
		return 0
	}
	t.ext = func(ci ssa.CallInstruction, name string, args []uint64) (uint64, bool) {
		all := uint64(0)
		for _, a := range args {
			all |= a
		}
		switch {
		case strings.HasPrefix(name, "encoding/json.Marshal") && cfg:
			// what is encoded may hold configuration
			v := callArgVals(ci.Common())[0]
			if mi, ok := v.(*ssa.MakeInterface); ok && r.holdsConfig(mi.X.Type(), map[types.Type]bool{}) {
				return all | 1, true
			}
		case strings.HasPrefix(name, "(*os/exec.Cmd)") && (strings.HasSuffix(name, "Output")) && cfg:
			return all | 1, true
		case name == "(embed.FS).Open" || name == "(embed.FS).ReadFile":
			return 0, true
		}
		return 0, false
	}
	t.run()
	return t
}

func (r *Report) holdsConfig(ty types.Type, seen map[types.Type]bool) bool {
	if seen[ty] {
		return false
	}
	seen[ty] = true
	if n, ok := types.Unalias(ty).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == r.P.Module+"/config" {
		return true
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		return r.holdsConfig(u.Elem(), seen)
	case *types.Slice:
		return r.holdsConfig(u.Elem(), seen)
	case *types.Map:
		return r.holdsConfig(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if r.holdsConfig(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func safeMarkup(ty types.Type) string {
	n, ok := types.Unalias(ty).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "html/template" {
		return ""
	}
	switch n.Obj().Name() {
	case "HTML", "JS", "JSStr", "CSS", "HTMLAttr", "URL", "Srcset":
		return n.Obj().Name()
	}
	return ""
}

func (r *Report) trustedMarkup(t *taint) {
	asValue := map[*ssa.Function]bool{}
	for _, fs := range t.dyn {
		for _, f := range fs {
			asValue[f] = true
		}
	}
	for _, f := range r.P.Funcs {
		rel := r.P.RelPkg(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var x ssa.Value
				var to types.Type
				switch i := i.(type) {
				case *ssa.ChangeType:
					x, to = i.X, i.Type()
				case *ssa.Convert:
					x, to = i.X, i.Type()
				}
				if x != nil && safeMarkup(to) != "" {
					r.Seen("trusted markup", i)
					l := t.get(x)
					if kinds(l) != 0 || (l&tParams != 0 && (asValue[f] || f.Parent() != nil)) {
						r.Violate("C24.trusted", i, "outside data may be declared trusted markup (template.%s)", safeMarkup(to))
					}
				}
				ci, ok := i.(ssa.CallInstruction)
				if !ok || (rel != "ui" && rel != "web") {
					continue
				}
				c := ci.Common()
				name := calleeName(c)
				var w ssa.Value
				rest := callArgVals(c)
				switch {
				case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "io.Copy":
					w, rest = c.Args[0], rest[1:]
				case c.IsInvoke() && (c.Method.Name() == "Write" || c.Method.Name() == "WriteString"):
					w, rest = c.Value, rest[1:]
				default:
					continue
				}
				s := w.Type().String()
				if mi, ok := w.(*ssa.MakeInterface); ok {
					s = mi.X.Type().String()
				}
				if ch, ok := w.(*ssa.ChangeInterface); ok {
					s = ch.X.Type().String()
				}
				if s != "net/http.ResponseWriter" && s != "io.Writer" {
					continue
				}
				r.Seen("direct write to a response", i)
				for _, a := range rest {
					if kinds(t.get(a)) != 0 {
						r.Violate("C24.raw", i, "outside data may be written into a page as it is")
					}
				}
			}
		}
	}
}

// templateKinds finds the table of pages (which kind each template is of) and
// checks that pages are parsed by the escaping engine only. It returns the
// files of the templates which are not HTML.
func (r *Report) templateKinds() []string {
	htmlKinds := map[string]bool{}
	plain := map[string]bool{}
	n := 0
	var tableT types.Type
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "ui" || f.Parent() != nil || f.Signature.Recv() != nil || !(f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			continue
		}
		x := eng.NewExec(r.P, eng.Hooks{
			OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
				if v == nil || v.T == nil {
					return
				}
				p, ok := v.T.Underlying().(*types.Pointer)
				if !ok {
					return
				}
				st, ok := p.Elem().Underlying().(*types.Struct)
				if !ok {
					return
				}
				var file string
				kindsOf := []string{}
				for i := 0; i < st.NumFields(); i++ {
					if b, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
						continue
					}
					if c, ok := strConst(r.fieldContent(s, v, st.Field(i).Name())); ok {
						if strings.Contains(c, ".") {
							file = c
						} else if c != "" {
							kindsOf = append(kindsOf, c)
						}
					}
				}
				if file == "" {
					return
				}
				tableT = p.Elem()
				n++
				if strings.HasSuffix(file, ".html") || strings.HasSuffix(file, ".htm") {
					r.SeenAt("page", file)
					for _, c := range kindsOf {
						htmlKinds[c] = true
					}
				} else {
					r.SeenAt("plain template", file)
					plain[file] = true
				}
			},
		})
		x.OpaqueFn = func(g *ssa.Function) bool { return r.P.RelPkg(g) != "ui" }
		x.Run(f, newM())
		r.Absorb(x, FnName(f))
	}
	if n == 0 {
		r.Undecided("table of pages not found")
		return nil
	}
	isParse := func(name string) bool {
		return strings.Contains(name, "text/template.") && (strings.Contains(name, ".Parse") || strings.HasSuffix(name, ".New"))
	}
	for _, root := range r.roots(func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && strings.Contains(calleeName(ci.Common()), "template.") && strings.Contains(calleeName(ci.Common()), "Parse")
		})
	}, "ui") {
		x := eng.NewExec(r.P, eng.Hooks{
			OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
				m := mon(s)
				for cond.Kind == eng.KUn && cond.Op == "!" {
					cond, taken = cond.Args[0], !taken
				}
				val := 0
				if taken {
					val = 1
				}
				if cond.Kind == eng.KBin && (cond.Op == "==" || cond.Op == "!=") {
					if cond.Op == "!=" {
						val = 1 - val
					}
					a, b := cond.Args[0], cond.Args[1]
					if _, ok := strConst(a); ok {
						a, b = b, a
					}
					if c, ok := strConst(b); ok && ofTable(a, tableT) {
						m.Flags["eq:"+c] = val + 1
						if val == 1 {
							m.Flags["known"] = 1
							m.Flags["is:"+c] = 1
						}
					}
				}
				if anyPure(cond, "strings.HasSuffix") && len(cond.Args) > 0 && len(cond.Args[0].Args) == 2 && ofTable(cond.Args[0].Args[0], tableT) {
					if c, ok := strConst(cond.Args[0].Args[1]); ok && strings.HasSuffix(c, "html") {
						m.Flags["suffix"] = val + 1
					}
				}
			},
			OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
				mon(s).Flags = map[string]int{}
			},
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				if strings.Contains(c.Name, "html/template.") && strings.Contains(c.Name, "Parse") {
					r.Seen("parser of templates", c.Instr)
				}
				if isParse(c.Name) {
					r.Seen("parser of templates", c.Instr)
					m := mon(s)
					if m.Flags["suffix"] == 1 {
						return eng.Default
					}
					for k := range htmlKinds {
						if m.Flags["eq:"+k] == 1 || (m.Flags["known"] == 1 && m.Flags["is:"+k] == 0) {
							continue
						}
						r.Violate("C24.engine", c.Instr, "a page may be parsed by the template engine which does not escape")
					}
				}
				return eng.Default
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && strings.Contains(calleeName(ci.Common()), "template.") && strings.Contains(calleeName(ci.Common()), "Parse")
		})
		x.OpaqueFn = func(g *ssa.Function) bool { return r.P.RelPkg(g) != "ui" }
		x.Lim, x.FactLim = 8, 16
		x.Run(root, newM())
		r.Absorb(x, FnName(root))
	}
	return sortedKeys(plain)
}

// ofTable: v is a field of an entry of the table of pages.
func ofTable(v *eng.Val, tableT types.Type) bool {
	v = v.Strip()
	if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField {
		b := v.Args[0].Args[0]
		if b.T == nil {
			return false
		}
		p, ok := b.T.Underlying().(*types.Pointer)
		return ok && tableT != nil && types.Identical(p.Elem(), tableT)
	}
	return v.Kind == eng.KParam || v.Kind == eng.KFieldV
}

// plainTemplates: a template which is not HTML escapes what comes from outside
// itself.
func (r *Report) plainTemplates(t *taint, files []string) {
	clean := map[string]bool{}
	dirty := map[string]bool{}
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "ui" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && strings.Contains(calleeName(ci.Common()), "Execute") {
					for _, a := range ci.Common().Args {
						mi, ok := a.(*ssa.MakeInterface)
						if !ok || t.moduleStruct(mi.X.Type()) == nil {
							continue
						}
						st := t.moduleStruct(mi.X.Type())
						for n := 0; n < st.NumFields(); n++ {
							k := st.Field(n).Name()
							r.SeenAt("value of a page", k)
							if t.fld[st.Field(n)] != 0 {
								dirty[k] = true
							} else {
								clean[k] = true
							}
						}
					}
				}
				mu, ok := i.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				c, ok := mu.Key.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.String || !types.IsInterface(mu.Value.Type()) {
					continue
				}
				k := constant.StringVal(c.Value)
				r.SeenAt("value of a page", k)
				if kinds(t.get(mu.Value)) != 0 {
					dirty[k] = true
				} else {
					clean[k] = true
				}
			}
		}
	}
	for _, file := range files {
		path := filepath.Join(r.P.Dir, "ui", "assets", file)
		src, err := os.ReadFile(path)
		if err != nil {
			r.Undecided("template %s not found", file)
			continue
		}
		tree := parse.New(file)
		tree.Mode = parse.SkipFuncCheck
		set := map[string]*parse.Tree{}
		tree, err = tree.Parse(string(src), "", "", set)
		if err != nil {
			r.Undecided("template %s not understood: %v", file, err)
			continue
		}
		var visit func(n parse.Node)
		visit = func(n parse.Node) {
			switch n := n.(type) {
			case *parse.ListNode:
				if n == nil {
					return
				}
				for _, m := range n.Nodes {
					visit(m)
				}
			case *parse.IfNode:
				visit(n.List)
				visit(n.ElseList)
			case *parse.RangeNode:
				visit(n.List)
				visit(n.ElseList)
			case *parse.WithNode:
				visit(n.List)
				visit(n.ElseList)
			case *parse.ActionNode:
				if len(n.Pipe.Decl) > 0 {
					return
				}
				r.SeenAt("value printed by a plain template", file+" "+n.String())
				last := n.Pipe.Cmds[len(n.Pipe.Cmds)-1]
				if id, ok := last.Args[0].(*parse.IdentifierNode); ok {
					switch id.Ident {
					case "html", "js", "urlquery":
						return
					}
				}
				bad := false
				for _, c := range n.Pipe.Cmds {
					for _, a := range c.Args {
						switch a := a.(type) {
						case *parse.FieldNode:
							bad = bad || dirty[a.Ident[0]] || !clean[a.Ident[0]]
						case *parse.StringNode, *parse.NumberNode, *parse.BoolNode, *parse.IdentifierNode:
						default:
							bad = true
						}
					}
				}
				if bad {
					r.ViolateFn("C24.plain", "ui/assets/"+file, 0, "outside data is put into a page as it is: %s", n.String())
				}
			}
		}
		visit(tree.Root)
		for _, tr := range set {
			if tr != tree {
				visit(tr.Root)
			}
		}
	}
}
