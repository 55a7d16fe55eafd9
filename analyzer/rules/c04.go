package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C04", "Existing indexes are reused and cleaned up correctly",
		"typestate of the index references found at start-up from every entry point through the start-up goroutines: a reference is used only after it was claimed, claimed only in one critical section with the checks that it is unclaimed and has the url and the revision at hand; a directory is deleted only if found unclaimed, all unclaimed ones are, and only after the result of every start-up goroutine was received; each such goroutine reports exactly once",
		func(r *Report) {
			remove := r.P.Method("index", "IndexRef", "Remove")
			if remove == nil {
				r.Undecided("the method removing an index directory was not found")
				return
			}
			roots := r.roots(func(f *ssa.Function) bool { return mentions(f, r.isHeavyInstr) }, "searcher")
			for _, root := range roots {
				r.reuseRoot(root, remove)
			}
			r.Need("claim of an existing index", 1)
			r.Need("use of an existing index", 1)
			r.foundRule()
			r.patternRule()
			r.Need("deletion of an unclaimed index", 1)
			r.Need("start-up goroutine", 1)
			r.Need("start-up completed", 1)
		})
	r.Assume = []string{"the url and revision recorded with an index are those it was built from (C08)"}
}

func (r *Report) isRefT(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && r.isNamed(p, "index", "IndexRef")
}

// pullCall: the call updates a working copy; d is the directory.
func (r *Report) pullCall(c *eng.Call) *eng.Val {
	switch r.heavyCall(c) {
	case "vcs pull", "vcs clone":
		if len(c.Args) > 1 {
			return c.Args[1]
		}
	}
	return nil
}

// unclaimed decides whether the reference is known to be (not) in the table.
func unclaimed(s *eng.State, m *M, ref *eng.Val) eng.Tri {
	for p := range m.Rel["look"] {
		if p[1] != ref {
			continue
		}
		v := p[0]
		if v.Kind == eng.KTuple && len(v.Args) == 2 {
			v = v.Args[1]
		} else if t, ok := v.T.(*types.Tuple); ok && t.Len() == 2 {
			continue
		}
		switch s.Decide(v) {
		case eng.True:
			return eng.False
		case eng.False:
			return eng.True
		}
	}
	return eng.Unknown
}

func (r *Report) reuseRoot(root, remove *ssa.Function) {
	refUse := func(c *eng.Call) bool {
		if c.Fn == nil || c.Fn.Signature.Recv() == nil || len(c.Args) == 0 || !r.isRefT(c.Fn.Signature.Recv().Type()) {
			return false
		}
		switch c.Fn.Name() {
		case "Dir", "Open":
			return c.Instr != nil && r.P.RelPkg(c.Instr.Parent()) == "searcher"
		}
		return false
	}
	refTable := func(mp *eng.Val) bool {
		if mp.T == nil {
			return false
		}
		t, ok := mp.T.Underlying().(*types.Map)
		return ok && r.isRefT(t.Key())
	}
	// the table is protected by a lock of the object it belongs to
	guarded := func(s *eng.State, m *M, mp *eng.Val) bool {
		for _, a := range m.members("lock") {
			if m.get("lock", a) < 2 {
				continue
			}
			if a.Kind == eng.KGlobal {
				return true
			}
			if a.Kind != eng.KField {
				continue
			}
			o := a.Args[0]
			if mp.Any(func(x *eng.Val) bool { return x.Kind == eng.KField && x.Args[0] == o }) {
				return true
			}
			for k, c := range s.Mem {
				if c == mp && k.Kind == eng.KField && k.Args[0] == o {
					return true
				}
			}
		}
		return false
	}
	hasRemove := func(f *ssa.Function) bool {
		for g := range r.P.Reach(f) {
			if mentions(g, func(i ssa.Instruction) bool {
				ci, ok := i.(ssa.CallInstruction)
				return ok && ci.Common().StaticCallee() == remove && r.P.RelPkg(i.Parent()) == "searcher"
			}) {
				return true
			}
		}
		return false
	}
	cleans := hasRemove(root)
	settle := func(s *eng.State, m *M) {
		for p := range m.Rel["look"] {
			if unclaimed(s, m, p[1]) == eng.False {
				delete(m.Flags, "todo")
			}
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			settle(s, m)
			switch k, _ := trackLocks(m, c); k {
			case lkUnlock, lkRUnlock:
				m.unrel("look", func(a, b *eng.Val) bool { return true })
			}
			if r.pullCall(c) != nil {
				m.clear("rev")
				return eng.Opaque
			}
			if c.Name == "(*sync.WaitGroup).Wait" && m.Flags["go"] == 1 {
				m.Flags["drained"] = 1
			}
			if refUse(c) {
				ref := c.Args[0].Strip()
				if m.has("built", ref) {
					return eng.Default
				}
				r.Seen("use of an existing index", c.Instr)
				if !m.has("claimed", ref) {
					r.Violate("C04.use", c.Instr, "an existing index is used without having been claimed")
				}
			}
			if c.Fn == remove && c.Instr != nil && r.P.RelPkg(c.Instr.Parent()) == "searcher" {
				ref := c.Args[0].Strip()
				r.Seen("deletion of an unclaimed index", c.Instr)
				if unclaimed(s, m, ref) != eng.True {
					r.Violate("C04.delete", c.Instr, "an index is deleted which may have been claimed")
				}
				if m.Flags["go"] == 1 && m.Flags["drained"] == 0 {
					r.Violate("C04.early", c.Instr, "indexes are deleted before every repository has been set up")
				}
				delete(m.Flags, "todo")
				return eng.Opaque
			}
			if r.heavyCall(c) != "" {
				return eng.Opaque
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if r.pullCall(c) != nil {
				m.put("rev", r.P.In.Extract(res, 0, types.Typ[types.String]), 1)
			}
			if r.heavyCall(c) == "index build" {
				m.put("built", r.P.In.Extract(res, 0, c.Fn.Signature.Results().At(0).Type()), 1)
			}
			return nil
		},
		OnLookup: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if refTable(mp) {
				m := mon(s)
				if guarded(s, m, mp) {
					m.rel("look", v, k.Strip())
					m.rel("look", r.P.In.Un("has", r.P.In.Elem(mp, k, mp.T.Underlying().(*types.Map).Elem()), types.Typ[types.Bool]), k.Strip())
				}
			}
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if !refTable(mp) || v == nil {
				return
			}
			m := mon(s)
			ref := k.Strip()
			r.Seen("claim of an existing index", at.Instr)
			if !guarded(s, m, mp) {
				r.Violate("C04.lock", at.Instr, "an index is claimed without holding the lock of the table")
			}
			if b := s.Decide(v); v.T != nil && types.Identical(v.T.Underlying(), types.Typ[types.Bool]) && b != eng.True {
				r.Violate("C04.mark", at.Instr, "the claim of an index is not recorded")
			}
			if unclaimed(s, m, ref) != eng.True {
				r.Violate("C04.twice", at.Instr, "an index is claimed without checking, in the same critical section, that it is not claimed already")
			}
			url, rev := false, false
			for f, b := range s.Facts {
				if f.Kind != eng.KBin || f.Op != "==" || b.Bool <= 0 {
					continue
				}
				for i := 0; i < 2; i++ {
					l, o := f.Args[i], f.Args[1-i]
					if l.Kind != eng.KLoad || l.Args[0].Kind != eng.KField || l.Args[0].Args[0] != ref {
						continue
					}
					switch l.Args[0].Fld.Name() {
					case "Url":
						if o.Any(func(x *eng.Val) bool {
							return x.Kind == eng.KField && x.Fld.Name() == "Url" && r.isNamed(x.Args[0].T, "config", "Repo")
						}) {
							url = true
						}
					case "Rev":
						if m.has("rev", o) {
							rev = true
						}
					}
				}
			}
			if !url {
				r.Violate("C04.url", at.Instr, "an index is claimed which is not known to belong to the repository's url")
			}
			if !rev {
				r.Violate("C04.rev", at.Instr, "an index is claimed which is not known to have the current revision")
			}
			m.put("claimed", ref, 1)
		},
		OnGo: func(s *eng.State, c *eng.Call) {
			m := mon(s)
			if c.Fn == nil || r.P.RelPkg(c.Fn) != "searcher" {
				return
			}
			heavy := false
			for f := range r.P.Reach(c.Fn) {
				if mentions(f, r.isHeavyInstr) {
					heavy = true
				}
			}
			if !heavy {
				return
			}
			m.Flags["go"] = 1
			for _, k := range m.members("itc") {
				m.put("spawnc", k, 1)
			}
		},
		OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if m := mon(s); blocking && ch.T != nil && r.isResult(ch.T) && m.Flags["go"] == 1 && m.Flags["recv"] < 2 {
				m.Flags["recv"]++
			}
		},
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			m := mon(s)
			if m.Flags["startup"] == 1 && ch.T != nil && r.isResult(ch.T) && m.Flags["sent"] < 2 {
				m.Flags["sent"]++
			}
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			settle(s, m)
			if more {
				m.put("itc", cont, 1)
			} else {
				m.del("itc", cont)
			}
			if m.Flags["go"] == 1 && m.has("spawnc", cont) && r.loopRecv(at.Instr) {
				if m.Flags["recv"] != 1 && m.Flags["looping"] == 1 {
					m.Flags["bad"] = 1
				}
				m.Flags["looping"] = 0
				m.Flags["recv"] = 0
				if more {
					m.Flags["looping"] = 1
				} else if m.Flags["bad"] == 0 {
					m.Flags["drained"] = 1
				}
			}
			// the loop which deletes
			if st, ok := sliceElem(cont); ok && r.isRefT(st) && loopCalls(at.Instr, hasRemove, remove) {
				if m.Flags["todo"] == 1 {
					r.Violate("C04.left", at.Instr, "an unclaimed index may be left undeleted")
				}
				delete(m.Flags, "todo")
				if more {
					m.Flags["todo"] = 1
				} else {
					m.Flags["cleaned"] = 1
				}
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) { settle(s, mon(s)) },
	})
	r.slice(x, func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.Go:
			return true
		case *ssa.UnOp:
			return i.Op == token.ARROW
		case *ssa.MapUpdate, *ssa.Lookup:
			for _, o := range i.Operands(nil) {
				if mt, ok := (*o).Type().Underlying().(*types.Map); ok && r.isRefT(mt.Key()) {
					return true
				}
			}
			return false
		}
		if ci, ok := i.(ssa.CallInstruction); ok {
			if f := ci.Common().StaticCallee(); f == remove || f != nil && f.Signature.Recv() != nil && r.isRefT(f.Signature.Recv().Type()) {
				return r.P.RelPkg(i.Parent()) == "searcher"
			}
		}
		return r.isHeavyInstr(i)
	})
	for _, e := range x.Run(root, newM()) {
		if e.Kind != eng.ExRet || !cleans {
			continue
		}
		m := mon(e.S)
		if n := len(e.Results); n > 0 && e.S.Nilness(e.Results[n-1]) == eng.False && isErrorT(root.Signature.Results().At(n-1).Type()) {
			continue
		}
		r.SeenAt("start-up completed", FnName(root))
		if m.Flags["cleaned"] == 0 {
			r.ViolateFn("C04.cleanup", FnName(root), root.Pos(), "start-up may complete without deleting unclaimed indexes")
		}
	}
	x.RunThreads(func(t *eng.Thread) eng.Monitor {
		m := newM()
		heavy := false
		for f := range r.P.Reach(t.Call.Fn) {
			heavy = heavy || mentions(f, r.isHeavyInstr)
		}
		if heavy && r.reports(t.Call.Fn) {
			m.Flags["startup"] = 1
		}
		return m
	}, func(t *eng.Thread, exits []eng.Exit) {
		for _, e := range exits {
			m := mon(e.S)
			if m.Flags["startup"] == 0 || e.Kind != eng.ExRet {
				continue
			}
			r.SeenAt("start-up goroutine", FnName(t.Call.Fn))
			if m.Flags["sent"] != 1 {
				r.ViolateFn("C04.report", FnName(t.Call.Fn), t.Call.Fn.Pos(), "a start-up goroutine may end without reporting exactly one result")
			}
		}
	})
	r.Absorb(x, FnName(root))
}

// isResult: a channel of the results of start-up goroutines.
func (r *Report) isResult(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	return r.isResultStruct(c.Elem())
}

func (r *Report) isResultStruct(e types.Type) bool {
	if p, ok := e.Underlying().(*types.Pointer); ok {
		e = p.Elem()
	}
	st, ok := e.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if r.isNamed(st.Field(i).Type(), "searcher", "Searcher") {
			return true
		}
	}
	return false
}

func (r *Report) reports(f *ssa.Function) bool {
	for g := range r.P.Reach(f) {
		if mentions(g, func(i ssa.Instruction) bool {
			sd, ok := i.(*ssa.Send)
			return ok && r.isResult(sd.Chan.Type())
		}) {
			return true
		}
	}
	return false
}

// loopRecv: the loop of the branch receives the results of goroutines.
func (r *Report) loopRecv(br ssa.Instruction) bool { return r.loopRecvOf(br, r.isResultStruct) }

// loopRecvOf: the loop of the branch receives values of such a type.
func (r *Report) loopRecvOf(br ssa.Instruction, elem func(types.Type) bool) bool {
	is := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && elem(c.Elem())
	}
	recv := func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.UnOp:
			return i.Op == token.ARROW && is(i.X.Type())
		case *ssa.Select:
			for _, st := range i.States {
				if st.Dir == types.RecvOnly && is(st.Chan.Type()) {
					return true
				}
			}
		}
		return false
	}
	for _, b := range loopOf(br) {
		for _, i := range b.Instrs {
			if recv(i) {
				return true
			}
			if i, ok := i.(*ssa.Call); ok {
				if f := i.Common().StaticCallee(); f != nil && r.P.InModule(f) {
					for g := range r.P.Reach(f) {
						if mentions(g, recv) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// loopOf lists the blocks of the innermost loop headed by the block of br.
func loopOf(br ssa.Instruction) []*ssa.BasicBlock {
	h := br.Block()
	in := map[*ssa.BasicBlock]bool{h: true}
	var out []*ssa.BasicBlock
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		out = append(out, b)
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			back(p)
		}
	}
	return append(out, h)
}

func loopCalls(br ssa.Instruction, reach func(*ssa.Function) bool, target *ssa.Function) bool {
	for _, b := range loopOf(br) {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && (f == target || len(f.Blocks) > 0 && reach(f)) {
					return true
				}
			}
		}
	}
	return false
}

func sliceElem(v *eng.Val) (types.Type, bool) {
	if v.T == nil {
		return nil, false
	}
	s, ok := v.T.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return s.Elem(), true
}

// lists: the call lists the entries of a directory.
func lists(n string) bool {
	switch n {
	case "path/filepath.Glob", "os.ReadDir", "io/ioutil.ReadDir", "(*os.File).Readdir", "(*os.File).Readdirnames", "(*os.File).ReadDir":
		return true
	}
	return false
}

func isDirTest(n string) bool {
	return strings.HasSuffix(n, ").IsDir")
}

// readsRefs: the loop of the branch reads the references of index directories
// one after the other.
func (r *Report) readsRefs(br ssa.Instruction) bool {
	reads := false
	for _, b := range loopOf(br) {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := i.(*ssa.Go); ok {
				return false
			}
			f := ci.Common().StaticCallee()
			if f == nil || !r.P.InModule(f) {
				continue
			}
			for k := 0; k < f.Signature.Results().Len(); k++ {
				reads = reads || r.isRefT(f.Signature.Results().At(k).Type())
			}
		}
	}
	return reads
}

// foundRule: every directory listed at start-up becomes a reference, which is
// offered for reuse or deleted.
func (r *Report) foundRule() {
	listing := func(f *ssa.Function) bool {
		return r.P.RelPkg(f) == "searcher" && mentions(f, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && lists(eng.CalleeName(ci.Common()))
		})
	}
	reading := func(f *ssa.Function) bool {
		return r.P.RelPkg(f) == "searcher" && mentions(f, func(i ssa.Instruction) bool {
			_, ok := i.(*ssa.If)
			return ok && r.readsRefs(i)
		})
	}
	both := func(f *ssa.Function) bool {
		l, d := false, false
		for g := range r.P.Reach(f) {
			l, d = l || listing(g), d || reading(g)
		}
		return l && d
	}
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "searcher" || len(f.Blocks) == 0 || !both(f) {
			continue
		}
		inner := false
		for g := range r.P.Reach(f) {
			inner = inner || g != f && both(g)
		}
		if !inner {
			r.foundIn(f)
		}
	}
}

// patternRule: the pattern which finds index directories matches every name
// such a directory is given.
func (r *Report) patternRule() {
	lastConst := func(v ssa.Value) (string, bool) {
		if c, ok := v.(*ssa.Call); ok && strings.HasSuffix(calleeName(&c.Call), "filepath.Join") {
			es := variadicElems(c.Call.Args[0])
			if len(es) == 0 {
				return "", false
			}
			v = es[len(es)-1]
		}
		if b, ok := v.(*ssa.BinOp); ok {
			v = b.Y
		}
		s, ok := ssaStr(v)
		return s[strings.LastIndex(s, "/")+1:], ok
	}
	var names []string
	var globs []*ssa.Call
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "searcher" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				switch calleeName(&c.Call) {
				case "path/filepath.Glob":
					globs = append(globs, c)
				case "fmt.Sprintf":
					f, ok := ssaStr(c.Call.Args[0])
					if !ok {
						continue
					}
					for _, digits := range []string{"0a1b2c3d", "0a1b2c3d4e5f6071"} {
						n, ok := sample(f, variadicElems(c.Call.Args[1]), digits)
						if n = n[strings.LastIndex(n, "/")+1:]; ok && strings.HasPrefix(n, idxPrefix) {
							names = append(names, n)
						}
					}
				}
			}
		}
	}
	for _, g := range globs {
		p, ok := lastConst(g.Call.Args[0])
		if !ok {
			continue
		}
		for _, n := range names {
			r.Seen("name of an index directory against the pattern which finds them", g)
			if m, err := filepath.Match(p, n); err != nil || !m {
				r.Violate("C04.found", g, "the pattern which finds index directories does not match every name they are given")
				break
			}
		}
	}
}

// sample formats with digits for everything which is not a constant string.
func sample(f string, args []ssa.Value, digits string) (string, bool) {
	var b strings.Builder
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b.WriteByte(f[i])
			continue
		}
		for i++; i < len(f) && strings.IndexByte("0123456789.+-# ", f[i]) >= 0; i++ {
		}
		switch {
		case i >= len(f):
			return "", false
		case f[i] == '%':
			b.WriteByte('%')
			continue
		case n >= len(args):
			return "", false
		}
		if s, ok := ssaStr(args[n]); ok {
			b.WriteString(s)
		} else {
			b.WriteString(digits)
		}
		n++
	}
	return b.String(), true
}

func (r *Report) foundIn(root *ssa.Function) {
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if c.Name == "os.RemoveAll" || c.Name == "os.Remove" || c.Fn != nil && c.Fn == r.P.Method("index", "IndexRef", "Remove") {
				delete(mon(s).Flags, "unread")
			}
			if c.Fn != nil && r.P.InModule(c.Fn) && r.P.RelPkg(c.Fn) != "searcher" {
				return eng.Opaque
			}
			return eng.Default
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			if t, ok := sliceElem(res); ok && r.isRefT(t) {
				delete(mon(s).Flags, "unread")
			}
		},
		OnStore: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			if v != nil && r.isRefT(v.T) && a.Root().Kind != eng.KAlloc {
				delete(mon(s).Flags, "unread")
			}
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if r.isRefT(k.T) || v != nil && r.isRefT(v.T) {
				delete(mon(s).Flags, "unread")
			}
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if call, ok := c.Instr.(*ssa.Call); ok && lists(c.Name) {
				m.put("listing", r.P.In.Extract(res, 0, call.Call.Signature().Results().At(0).Type()), 1)
			}
			if isDirTest(c.Name) {
				m.put("isdir", res, 1)
			}
			return nil
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			if !m.has("listing", cont.Strip()) || !r.readsRefs(at.Instr) {
				return
			}
			r.Seen("directory found at start-up", at.Instr)
			if m.Flags["unread"] == 1 {
				plain := false
				for _, v := range m.members("isdir") {
					plain = plain || s.Decide(v) == eng.False
				}
				if !plain {
					r.Violate("C04.found", at.Instr, "an index directory found at start-up may be neither offered for reuse nor deleted")
				}
			}
			delete(m.Flags, "unread")
			m.clear("isdir")
			if more {
				m.Flags["unread"] = 1
			}
		},
	})
	x.Run(root, newM())
	r.Absorb(x, FnName(root))
}

// ssaStr is the value of a constant string.
func ssaStr(v ssa.Value) (string, bool) {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}
