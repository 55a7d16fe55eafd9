package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C27", "The index writer loses nothing, however much there is",
		"path-sensitive execution of the index writer: obligation per trigram of a file to be recorded with the file's number before the next one, memory of entries given up only once they were sorted, written in full and their file remembered, every such file and the rest in memory merged before the first entry is taken out; typestate of every buffered file: what is given is buffered or written behind what is buffered, nothing buffered is dropped, and the file is copied, handed out or finished only once its buffer was written; dataflow of the trigram's bits from byte to byte, over the refilling of the read buffer",
		func(r *Report) {
			w := r.bufferType()
			if w == nil {
				r.Undecided("no buffered file of the index writer found")
				return
			}
			r.bufferedFiles(w)
			r.entriesKept()
			r.slidingTrigram()
			r.Need("method which takes data for a file", 4)
			r.Need("file copied or handed out", 2)
			r.Need("trigram of a file recorded", 1)
			r.Need("memory of entries given up", 1)
			r.Need("flushed entries merged", 1)
			r.Need("trigram continued from byte to byte", 1)
		})
	r.Assume = []string{"the heap merges sorted lists in order", "the set of trigrams holds what was added to it"}
}

const csIndex = "codesearch/index"

// bufferType is the struct of the index writer with a file and a buffer.
func (r *Report) bufferType() *types.Named {
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != csIndex || f.Signature.Recv() == nil {
			continue
		}
		p, ok := f.Signature.Recv().Type().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		file, buf := bufFields(st)
		if file != "" && buf != "" && takesData(f) {
			return n
		}
	}
	return nil
}

func bufFields(st *types.Struct) (file, buf string) {
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().String() {
		case "*os.File":
			file = st.Field(i).Name()
		case "[]byte":
			buf = st.Field(i).Name()
		}
	}
	return
}

func takesData(f *ssa.Function) bool {
	s := f.Signature
	if s.Params().Len() != 1 || s.Recv() == nil || len(f.Blocks) == 0 {
		return false
	}
	switch t := s.Params().At(0).Type().Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsUnsigned != 0 || t.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

// within: v occurs in the term.
func within(t, v *eng.Val, depth int) bool {
	if t == v {
		return true
	}
	if depth > 8 {
		return false
	}
	for _, a := range t.Args {
		if within(a, v, depth+1) {
			return true
		}
	}
	return false
}

func (r *Report) bufferedFiles(w *types.Named) {
	fileF, bufF := bufFields(w.Underlying().(*types.Struct))
	isW := func(t types.Type) bool {
		if t == nil {
			return false
		}
		p, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(types.Unalias(p.Elem()), w)
	}
	isMethod := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && isW(f.Signature.Recv().Type())
	}
	writes := map[*ssa.Function]bool{} // may leave something in a buffer
	isData := func(f *ssa.Function) bool {
		return isMethod(f) && takesData(f)
	}
	for _, f := range r.P.Funcs {
		for g := range r.callReach(f) {
			if isData(g) {
				writes[f] = true
			}
		}
	}
	// what a value of the file's type belongs to
	owner := func(s *eng.State, v *eng.Val) *eng.Val {
		v = v.Strip()
		if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField && v.Args[0].Fld.Name() == fileF && isW(v.Args[0].Args[0].T) {
			return v.Args[0].Args[0]
		}
		for p := range mon(s).Rel["file"] {
			if p[0] == v {
				return p[1]
			}
		}
		return nil
	}
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != csIndex || f.Synthetic != "" || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		uses := isMethod(f)
		for g := range r.callReach(f) {
			uses = uses || mentions(g, func(i ssa.Instruction) bool {
				fa, ok := i.(*ssa.FieldAddr)
				return ok && isW(fa.X.Type())
			})
		}
		if !uses || !r.reachedByServer(f) {
			continue
		}
		var recv, x *eng.Val
		if isData(f) {
			r.SeenAt("method which takes data for a file", FnName(f))
		}
		f := f
		clean := func(s *eng.State, b *eng.Val) bool {
			if mon(s).has("clean", b) {
				return true
			}
			c := r.fieldContent(s, b, bufF)
			return c != nil && emptySlice(r.P.In, s, c)
		}
		written := map[*eng.Val]ssa.Instruction{}
		ex := eng.NewExec(r.P, eng.Hooks{
			OnEnter: func(s *eng.State, fn *ssa.Function, ctx *eng.Ctx, args []*eng.Val) {
				if fn == f && recv == nil && isMethod(f) {
					recv = args[0]
					if isData(f) {
						x = args[1]
					}
				}
			},
			OnLoad: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
				if addr.Kind == eng.KField && addr.Fld.Name() == fileF && isW(addr.Args[0].T) {
					mon(s).rel("file", v, addr.Args[0])
				}
			},
			OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
				m := mon(s)
				for p := range m.Rel["file"] {
					if !m.has("clean", p[1]) && clean(s, p[1]) {
						m.put("clean", p[1], 1)
					}
				}
				if recv != nil && !m.has("clean", recv) && clean(s, recv) {
					m.put("clean", recv, 1)
				}
			},
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				name := c.Name
				switch name {
				case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(io.Writer).Write", "(*os.File).ReadFrom", "io.Copy", "io.CopyBuffer", "io.CopyN":
					b := owner(s, c.Args[0])
					if b == nil {
						break
					}
					cur := r.fieldContent(s, b, bufF)
					arg := c.Args[1].Strip()
					if cur != nil && (arg == cur || sliceBase(arg) == cur && arg.Op == "slice") {
						m.put("clean", b, 1)
						break
					}
					if strings.HasPrefix(name, "io.Copy") {
						r.Seen("file copied or handed out", c.Instr)
					}
					if !clean(s, b) {
						r.Violate("C27.order", c.Instr, "data is written to a file before what is buffered for it")
					}
					if x != nil && b == recv && within(arg, x, 0) {
						m.Flags["done"] = 1
					}
				}
				if c.Fn != nil && r.P.InModule(c.Fn) && c.Fn != f {
					if isData(c.Fn) {
						if x != nil && c.Args[0] == recv && within(c.Args[1], x, 0) {
							m.Flags["done"] = 1
						}
						if x == nil || c.Args[0] != recv {
							m.del("clean", c.Args[0])
							if c.Args[0] != recv {
								m.put("written", c.Args[0], 1)
								written[c.Args[0]] = c.Instr
							}
							return eng.Opaque
						}
					}
				}
				return eng.Default
			},
			OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
				m := mon(s)
				if recv == nil {
					return
				}
				cur := r.fieldContent(s, recv, bufF)
				if base != cur {
					return
				}
				m.put("appended", res, 1)
				if x == nil {
					return
				}
				for _, e := range elems {
					for _, k := range append(variadic(s, e), e) {
						if within(k, x, 0) {
							m.put("takes", res, 1)
						}
					}
				}
			},
			OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
				if addr.Kind != eng.KField || addr.Fld.Name() != bufF || !isW(addr.Args[0].T) {
					return
				}
				b := addr.Args[0]
				if b.Kind == eng.KAlloc {
					return // being made
				}
				m := mon(s)
				if m.has("appended", v) {
					m.del("clean", b)
					if m.has("takes", v) {
						m.Flags["done"] = 1
					}
					m.clear("appended")
					m.clear("takes")
					return
				}
				if !clean(s, b) {
					r.Violate("C27.dropped", at.Instr, "what is buffered for a file is dropped before it was written")
				}
			},
		})
		ex.OpaqueFn = func(g *ssa.Function) bool {
			return !strings.HasPrefix(r.P.RelPkg(g), csIndex)
		}
		ex.Lim, ex.FactLim = 12, 10
		for _, e := range ex.Run(f, newM()) {
			if e.Kind != eng.ExRet {
				continue
			}
			m := mon(e.S)
			if x != nil && m.Flags["done"] == 0 && !emptySlice(r.P.In, e.S, x) {
				r.ViolateFn("C27.taken", FnName(f), f.Pos(), "data given to a buffered file may be neither buffered nor written")
			}
			for _, v := range e.Results {
				if b := owner(e.S, v); b != nil {
					r.SeenAt("file copied or handed out", FnName(f))
					if !clean(e.S, b) {
						r.ViolateFn("C27.order", FnName(f), f.Pos(), "a file is handed out before what is buffered for it was written")
					}
				}
			}
			// whoever finishes the index leaves nothing in a buffer
			if f.Signature.Recv() != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && r.isNamed(f.Signature.Recv().Type(), csIndex, "IndexWriter") && f.Object() != nil && f.Object().Exported() {
				for _, b := range m.members("written") {
					if !clean(e.S, b) {
						r.Violate("C27.unfinished", written[b], "data may stay in the buffer of a file when the index is finished")
					}
				}
			}
		}
		r.Absorb(ex, FnName(f))
	}
}

// reachedByServer: building or searching an index leads there.
func (r *Report) reachedByServer(f *ssa.Function) bool {
	if r.server == nil {
		r.server = map[*ssa.Function]bool{}
		for _, g := range r.P.Funcs {
			if g.Name() == "main" && g.Parent() == nil && r.P.RelPkg(g) == "cmds/houndd" {
				r.server = r.P.Reach(g)
			}
		}
	}
	return r.server[f]
}

// fieldsOf: names of the fields of the index writer by their type.
func (r *Report) writerField(pred func(types.Type) bool) string {
	t := r.writerType()
	if t == nil {
		return ""
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if pred(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func (r *Report) isEntry(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != r.P.Module+"/"+csIndex {
		return false
	}
	b, ok := n.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (r *Report) isEntries(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && r.isEntry(s.Elem())
}

func (r *Report) isWriter(t types.Type) bool {
	return t != nil && r.isNamed(t, csIndex, "IndexWriter")
}

// entriesKept: posting entries from the file they are of to the merge.
func (r *Report) entriesKept() {
	post := r.writerField(r.isEntries)
	files := r.writerField(func(t types.Type) bool { return t.String() == "[]*os.File" })
	if post == "" || files == "" {
		r.Undecided("the index writer's entries were not found")
		return
	}
	isPost := func(v *eng.Val) bool { return isFieldLoad(v, post, r.isWriter) }
	current := func(s *eng.State, base *eng.Val, name string, v *eng.Val) bool {
		return r.fieldContent(s, base, name) == v
	}
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != csIndex || f.Synthetic != "" || f.Parent() != nil || f.Signature.Recv() == nil || !r.isWriter(f.Signature.Recv().Type()) || !r.reachedByServer(f) {
			continue
		}
		touches := false
		for g := range r.callReach(f) {
			touches = touches || mentions(g, func(i ssa.Instruction) bool {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					return false
				}
				_, fv := fieldOf(fa)
				return fv != nil && (fv.Name() == post || fv.Name() == files) && r.isWriter(fa.X.Type())
			})
		}
		if !touches || r.calledWithin(f) {
			continue // examined where it is called
		}
		var recv *eng.Val
		merges := false
		for g := range r.callReach(f) {
			merges = merges || r.isHeapMethod(g) && g.Signature.Results().Len() == 1 && r.isEntry(g.Signature.Results().At(0).Type())
		}
		f := f
		ex := eng.NewExec(r.P, eng.Hooks{
			OnEnter: func(s *eng.State, fn *ssa.Function, ctx *eng.Ctx, args []*eng.Val) {
				if fn == f && recv == nil {
					recv = args[0]
				}
			},
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				cur := r.fieldContent(s, recv, post)
				switch {
				case strings.Contains(strings.ToLower(c.Name), "sort"):
					for _, a := range c.Args {
						if within(a, cur, 0) && !partial(a, cur) {
							m.Flags["sorted"] = 1
						}
					}
					return eng.Opaque
				case strings.HasSuffix(c.Name, ").Write") && len(c.Args) == 2 || c.Name == "encoding/binary.Write":
					w, d := c.Args[0], c.Args[len(c.Args)-1]
					if !within(d, cur, 0) {
						for _, k := range m.Rel2("view", d.Strip()) {
							if k == cur {
								d = cur
							}
						}
					}
					if within(d, cur, 0) || r.viewOf(s, d, recv, post) {
						if m.Flags["sorted"] == 0 {
							r.Violate("C27.unsorted", c.Instr, "entries are written before they were sorted")
						}
						if ok, known := r.wholeView(c.Instr.(ssa.CallInstruction)); known && !ok {
							r.Violate("C27.part", c.Instr, "only a part of the entries is written")
						}
						m.put("wrote", w.Strip(), 1)
						m.Flags["written"] = 1
					}
				}
				if c.Fn != nil && r.isHeapMethod(c.Fn) {
					for _, a := range c.Args[1:] {
						if m.has("file", a) {
							m.clear("file")
							m.Flags["file"] = 0
							m.Flags["fileadded"] = 1
						}
						if a == cur || within(a, cur, 0) && !partial(a, cur) {
							if m.Flags["sorted"] == 0 {
								r.Violate("C27.unsorted", c.Instr, "entries are merged before they were sorted")
							}
							m.Flags["memadded"] = 1
						}
					}
					if res := c.Fn.Signature.Results(); res.Len() == 1 && r.isEntry(res.At(0).Type()) && c.Fn.Signature.Params().Len() == 0 {
						r.Seen("flushed entries merged", c.Instr)
						m.Flags["out"] = 1
						if m.Flags["allfiles"] == 0 {
							r.Violate("C27.merge", c.Instr, "entries are taken out before all flushed files were added")
						}
						if m.Flags["memadded"] == 0 && !emptySlice(r.P.In, s, cur) {
							r.Violate("C27.merge", c.Instr, "entries are taken out before those in memory were added")
						}
					}
					return eng.Opaque
				}
				return eng.Default
			},
			OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
				m := mon(s)
				if current(s, recv, files, cont) {
					if merges && m.Flags["out"] == 0 && m.Flags["file"] == 1 {
						r.Violate("C27.merge", at.Instr, "a file of flushed entries may be left out of the merge")
					}
					m.Flags["file"] = 0
					if more {
						m.Flags["file"] = 1
						m.next("file", cont, k)
					} else {
						m.Flags["allfiles"] = 1
					}
				}
				if r.isTrigrams(cont) {
					r.Seen("trigram of a file recorded", at.Instr)
					if m.Flags["tri"] == 1 {
						r.Violate("C27.trigram", at.Instr, "a trigram of a file may be left out of the index")
					}
					m.Flags["tri"] = 0
					if more {
						m.Flags["tri"] = 1
						m.next("tri", cont, k)
					} else {
						m.Flags["alltri"] = 1
					}
				}
			},
			OnLoad: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
				if addr.Kind != eng.KIndex {
					return
				}
				m := mon(s)
				for _, n := range []string{"tri", "file"} {
					if m.has(n+"cont", addr.Args[0]) && m.has(n+"key", addr.Args[1]) {
						m.put(n, v, 1)
					}
				}
			},
			OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
				m := mon(s)
				var all []*eng.Val
				for _, e := range elems {
					all = append(append(all, variadic(s, e)...), e)
				}
				switch {
				case isPost(base) || base == r.fieldContent(s, recv, post):
					m.put("app", res, 1)
					for _, e := range all {
						for _, t := range m.members("tri") {
							if within(e, t, 0) {
								m.rel("has", res, t)
							}
						}
					}
				case base == r.fieldContent(s, recv, files):
					for _, e := range all {
						m.rel("keeps", res, e.Strip())
					}
				}
			},
			OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
				if addr.Kind != eng.KField || !r.isWriter(addr.Args[0].T) || addr.Args[0].Kind == eng.KAlloc {
					return
				}
				m := mon(s)
				switch addr.Fld.Name() {
				case post:
					if m.has("app", v) {
						if len(m.Rel2("has", v)) > 0 {
							m.Flags["tri"] = 0
							m.clear("tri")
						}
						m.clear("app")
						m.unrel("has", func(a, b *eng.Val) bool { return true })
						m.Flags["sorted"] = 0
						m.Flags["written"] = 0
						m.clear("wrote")
						return
					}
					r.Seen("memory of entries given up", at.Instr)
					cur := r.fieldContent(s, recv, post)
					if emptySlice(r.P.In, s, cur) || m.Flags["memadded"] == 1 {
						return
					}
					kept := false
					for _, w := range m.members("wrote") {
						kept = kept || m.has("kept", w)
					}
					switch {
					case m.Flags["written"] == 0:
						r.Violate("C27.given up", at.Instr, "entries in memory are given up before they were written")
					case !kept:
						r.Violate("C27.given up", at.Instr, "entries in memory are given up although the file they were written to is not remembered")
					}
					m.Flags["written"] = 0
					m.Flags["sorted"] = 0
				case files:
					for _, w := range m.Rel2("keeps", v) {
						m.put("kept", w, 1)
					}
				}
			},
		})
		ex.OpaqueFn = func(g *ssa.Function) bool {
			if r.isHeapMethod(g) {
				return true
			}
			if p := r.P.RelPkg(g); p == csIndex && !isBufMethod(g) {
				return false
			}
			return true
		}
		ex.Lim, ex.FactLim = 12, 10
		for _, e := range ex.Run(f, newM()) {
			if e.Kind != eng.ExRet {
				continue
			}
			m := mon(e.S)
			if m.Flags["tri"] == 1 {
				r.ViolateFn("C27.trigram", FnName(f), f.Pos(), "a trigram of a file may be left out of the index")
			}
			// a file reported as indexed
			if len(e.Results) == 1 && types.Identical(e.Results[0].T, types.Typ[types.String]) && takesReader(f) {
				if emptyStr(e.S, e.Results[0]) != eng.False && !notEmptyTerm(e.Results[0]) && m.Flags["alltri"] == 0 {
					r.ViolateFn("C27.trigram", FnName(f), f.Pos(), "a file is reported as indexed although its trigrams were not recorded")
				}
			}
		}
		r.Absorb(ex, FnName(f))
	}
	// views of files' contents as entries
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) == csIndex && r.reachedByServer(f) {
			r.entryViews(f)
		}
	}
}

func takesReader(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if f.Signature.Params().At(i).Type().String() == "io.Reader" {
			return true
		}
	}
	return false
}

func isBufMethod(g *ssa.Function) bool {
	rc := g.Signature.Recv()
	if rc == nil {
		return false
	}
	p, ok := rc.Type().(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	a, b := bufFields(st)
	return a != "" && b != ""
}

// isHeapMethod: a method of the heap entries are merged with.
func (r *Report) isHeapMethod(g *ssa.Function) bool {
	rc := g.Signature.Recv()
	if rc == nil || r.P.RelPkg(g) != csIndex {
		return false
	}
	p, ok := rc.Type().(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		s, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		el := s.Elem()
		if q, ok := el.Underlying().(*types.Pointer); ok {
			el = q.Elem()
		}
		cs, ok := el.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for k := 0; k < cs.NumFields(); k++ {
			if r.isEntries(cs.Field(k).Type()) {
				return true
			}
		}
	}
	return false
}

// isTrigrams: the list of the trigrams of a file.
func (r *Report) isTrigrams(v *eng.Val) bool {
	v = v.Strip()
	if v.Instr == nil {
		return false
	}
	ci, ok := v.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := ci.Common().StaticCallee()
	if g == nil || r.P.RelPkg(g) != "codesearch/sparse" || g.Signature.Results().Len() != 1 {
		return false
	}
	s, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	return ok && s.Elem().String() == "uint32"
}

// partial: the term is a part of the slice only.
func partial(t, of *eng.Val) bool {
	for t != of {
		if t.Kind == eng.KUn && strings.HasPrefix(t.Op, "slice[") {
			return true
		}
		if len(t.Args) == 0 {
			return false
		}
		t = t.Args[0]
	}
	return false
}

// viewOf: d is made from the address of an element of the field.
func (r *Report) viewOf(s *eng.State, d *eng.Val, recv *eng.Val, field string) bool {
	cur := r.fieldContent(s, recv, field)
	return cur != nil && within(d, cur, 0)
}

// next: the element of a list a loop has come to.
func (m *M) next(n string, cont, key *eng.Val) {
	m.clear(n)
	m.clear(n + "cont")
	m.clear(n + "key")
	m.put(n+"cont", cont, 1)
	m.put(n+"key", key, 1)
}

// calledWithin: f is only called by others of its package.
func (r *Report) calledWithin(f *ssa.Function) bool {
	called := false
	for _, g := range r.P.Funcs {
		if g == f {
			continue
		}
		if mentions(g, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() == f
		}) {
			if r.P.RelPkg(g) != r.P.RelPkg(f) {
				return false
			}
			called = true
		}
	}
	return called
}

// entrySize is the size of an entry in memory.
const entrySize = 8

// wholeView: if the data written is a view of entries as bytes, whether it
// covers all of them.
func (r *Report) wholeView(ci ssa.CallInstruction) (ok, known bool) {
	args := ci.Common().Args
	v := args[len(args)-1]
	sl, is := v.(*ssa.Slice)
	if !is {
		return false, false
	}
	if sl.Low != nil {
		if c, ok := sl.Low.(*ssa.Const); !ok || c.Int64() != 0 {
			return false, true
		}
	}
	if sl.High == nil {
		return false, false
	}
	m, is := sl.High.(*ssa.BinOp)
	if !is {
		return false, true
	}
	if m.Op == token.SHL {
		c, ok := m.Y.(*ssa.Const)
		return ok && c.Int64() == 3 && r.lenOfEntries(m.X), true
	}
	if m.Op != token.MUL {
		return false, true
	}
	for _, p := range [][2]ssa.Value{{m.X, m.Y}, {m.Y, m.X}} {
		if c, ok := p[1].(*ssa.Const); ok && c.Value.Kind() == constant.Int && c.Int64() == entrySize && r.lenOfEntries(p[0]) {
			return true, true
		}
	}
	return false, true
}

func (r *Report) lenOfEntries(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && r.isEntries(c.Call.Args[0].Type())
}

// entryViews: bytes viewed as entries are viewed in full.
func (r *Report) entryViews(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			sl, ok := i.(*ssa.Slice)
			if !ok || !r.isEntries(sl.Type()) || sl.High == nil {
				continue
			}
			if _, ok := sl.X.Type().Underlying().(*types.Pointer); !ok {
				continue
			}
			if cv, ok := sl.X.(*ssa.Convert); !ok || !strings.Contains(cv.X.Type().String(), "unsafe.Pointer") {
				continue
			}
			r.Seen("bytes viewed as entries", i)
			q, ok := sl.High.(*ssa.BinOp)
			good := false
			if ok {
				if c, isC := q.Y.(*ssa.Const); isC && (q.Op == token.QUO && c.Int64() == entrySize || q.Op == token.SHR && c.Int64() == 3) {
					if l, ok := q.X.(*ssa.Call); ok {
						if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							good = true
						}
					}
				}
			}
			if sl.Low != nil {
				if c, ok := sl.Low.(*ssa.Const); !ok || c.Int64() != 0 {
					good = false
				}
			}
			if !good {
				r.Violate("C27.part", i, "only a part of the flushed entries is merged")
			}
		}
	}
}

// slidingTrigram: a trigram added to the set is made of the byte just read and
// the two before it, wherever in the read buffer they were.
func (r *Report) slidingTrigram() {
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != csIndex || !r.reachedByServer(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || r.P.RelPkg(g) != "codesearch/sparse" || g.Signature.Params().Len() != 1 || len(c.Call.Args) != 2 {
					continue
				}
				r.Seen("trigram continued from byte to byte", i)
				v := c.Call.Args[1]
				switch v.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
					continue // put together by the caller
				}
				bits := bitsOf(v, map[ssa.Value][]bit{}, 0)
				if len(bits) != 32 {
					continue
				}
				if hidden(bits) {
					continue // kept in memory: not followed
				}
				// the byte just read, and the value its upper bytes are from
				var prev ssa.Value
				ok = true
				for k := 8; k < 24; k++ {
					if bits[k].v == nil || bits[k].n != k-8 || prev != nil && bits[k].v != prev {
						ok = false
						break
					}
					prev = bits[k].v
				}
				for k := 24; k < 32 && ok; k++ {
					ok = ok && bits[k].v == nil && !bits[k].unknown && bits[k].n == 0
				}
				for k := 0; k < 8 && ok; k++ {
					ok = ok && bits[k].v != nil && bits[k].n == k && bits[k].v != prev && bits[k].v == bits[0].v
				}
				if !ok {
					r.Violate("C27.trigram", i, "a trigram is not put together from the last three bytes")
					continue
				}
				// round the loop
				phi, isPhi := prev.(*ssa.Phi)
				switch prev.(type) {
				case *ssa.Parameter, *ssa.UnOp:
					continue // kept by the caller
				}
				if !isPhi {
					r.Violate("C27.trigram", i, "a trigram is not continued from byte to byte")
					continue
				}
				seen := map[ssa.Value]bool{}
				var from func(w ssa.Value, in bool) bool
				from = func(w ssa.Value, in bool) bool {
					if seen[w] {
						return true
					}
					if p, ok := w.(*ssa.Phi); ok {
						seen[w] = true
						for k, e := range p.Edges {
							if !from(e, sameCycle(p.Block().Preds[k], i.Block())) {
								return false
							}
						}
						return true
					}
					if w == v {
						return true
					}
					k, ok := w.(*ssa.Const)
					if ok {
						return k.Int64() == 0 && !in
					}
					wb := bitsOf(w, map[ssa.Value][]bit{}, 0)
					if len(wb) < 16 {
						return false
					}
					for n := 0; n < 16; n++ {
						if wb[n] != bits[n] && !(wb[n].v == v && wb[n].n == n) {
							return false
						}
					}
					return true
				}
				if !from(phi, false) {
					r.Violate("C27.trigram", i, "a trigram is not continued from byte to byte")
				}
			}
		}
	}
}

// A bit of an integer: bit n of v, or (v nil) the constant n, or unknown.
type bit struct {
	v       ssa.Value
	n       int
	unknown bool
}

// hidden: bits from a variable in memory or a call.
func hidden(bits []bit) bool {
	for _, b := range bits {
		switch x := b.v.(type) {
		case *ssa.UnOp:
			if width(x.Type()) > 8 {
				return true
			}
		case *ssa.Call, *ssa.Extract:
			return true
		}
	}
	return false
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint, types.Uintptr, types.Int, types.Int64:
		return 64
	case types.Int32:
		return 32
	}
	return 0
}

// bitsOf follows the bits of an integer through shifts, masks and conversions.
func bitsOf(v ssa.Value, memo map[ssa.Value][]bit, depth int) []bit {
	if m, ok := memo[v]; ok {
		return m
	}
	w := width(v.Type())
	if w == 0 {
		return nil
	}
	leaf := make([]bit, w)
	for k := range leaf {
		leaf[k] = bit{v: v, n: k}
	}
	if depth > 20 {
		return leaf
	}
	out := leaf
	switch u := v.(type) {
	case *ssa.Const:
		out = make([]bit, w)
		n := u.Uint64()
		for k := range out {
			out[k] = bit{n: int(n >> uint(k) & 1)}
		}
	case *ssa.Convert:
		x := bitsOf(u.X, memo, depth+1)
		if x == nil {
			break
		}
		out = make([]bit, w)
		signed := false
		if b, ok := u.X.Type().Underlying().(*types.Basic); ok {
			signed = b.Info()&types.IsUnsigned == 0
		}
		for k := range out {
			switch {
			case k < len(x):
				out[k] = x[k]
			case signed:
				out[k] = bit{unknown: true}
			}
		}
	case *ssa.ChangeType:
		if x := bitsOf(u.X, memo, depth+1); len(x) == w {
			out = x
		}
	case *ssa.Call:
		// a function which only puts bits together
		g := u.Call.StaticCallee()
		if g == nil || len(g.Blocks) != 1 || len(g.FreeVars) > 0 {
			break
		}
		ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			break
		}
		in := bitsOf(ret.Results[0], map[ssa.Value][]bit{}, depth+1)
		res := make([]bit, w)
		if len(in) != w {
			break
		}
		for k, b := range in {
			p, isParam := b.v.(*ssa.Parameter)
			switch {
			case b.v == nil:
				res[k] = b
			case isParam:
				for j, q := range g.Params {
					if q == p {
						if a := bitsOf(u.Call.Args[j], memo, depth+1); b.n < len(a) {
							res[k] = a[b.n]
						}
					}
				}
			default:
				res[k] = bit{unknown: true}
			}
		}
		out = res
	case *ssa.BinOp:
		x := bitsOf(u.X, memo, depth+1)
		switch u.Op {
		case token.SHL, token.SHR:
			c, ok := u.Y.(*ssa.Const)
			if !ok || len(x) != w {
				break
			}
			n := int(c.Int64())
			out = make([]bit, w)
			for k := range out {
				j := k - n
				if u.Op == token.SHR {
					j = k + n
				}
				if j >= 0 && j < w {
					out[k] = x[j]
				}
			}
		case token.AND, token.OR, token.XOR, token.ADD:
			y := bitsOf(u.Y, memo, depth+1)
			if len(x) != w || len(y) != w {
				break
			}
			out = make([]bit, w)
			carry := false
			for k := range out {
				a, b := x[k], y[k]
				zero := func(c bit) bool { return c.v == nil && !c.unknown && c.n == 0 }
				one := func(c bit) bool { return c.v == nil && !c.unknown && c.n == 1 }
				switch {
				case carry:
					out[k] = bit{unknown: true}
				case u.Op == token.AND && (zero(a) || zero(b)):
				case u.Op == token.AND && one(a):
					out[k] = b
				case u.Op == token.AND && one(b):
					out[k] = a
				case u.Op != token.AND && zero(a):
					out[k] = b
				case u.Op != token.AND && zero(b):
					out[k] = a
				default:
					out[k] = bit{unknown: true}
					carry = u.Op == token.ADD
				}
			}
		case token.REM:
			// by a power of two
			c, ok := u.Y.(*ssa.Const)
			if !ok || len(x) != w {
				break
			}
			n := c.Uint64()
			if n == 0 || n&(n-1) != 0 {
				break
			}
			out = make([]bit, w)
			for k := range out {
				if uint64(1)<<uint(k) < n {
					out[k] = x[k]
				}
			}
		}
	}
	memo[v] = out
	return out
}
