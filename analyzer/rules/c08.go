package rules

import (
	"go/token"
	"go/types"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C08", "Indexes are labelled with the revision and URL indexed",
		"provenance of the revision and url from the version control update through build, metadata, live index and search response on every path; a lock of the working copy's directory held from every update to the end of the build from it; typestate of the poller: an update without a build only if the update failed or the live index has its revision",
		func(r *Report) {
			roots := r.roots(func(f *ssa.Function) bool { return mentions(f, r.isHeavyInstr) }, "searcher")
			fams := map[string]int{}
			pulls := 0
			for _, root := range roots {
				r.revRoot(root, fams, &pulls)
			}
			shared := false
			for _, n := range fams {
				shared = shared || n == pulls
			}
			if pulls > 0 && !shared {
				r.ViolateFn("C08.lock", "searcher", token.NoPos, "no lock of the working copy is common to all updates")
			}
			r.labelRule()
			r.responseRule()
			r.Need("update of a working copy", 2)
			r.Need("build from a working copy", 1)
			r.Need("outcome of an update by the poller", 1)
			r.Need("metadata written", 1)
			r.Need("index built", 1)
			r.Need("search response", 1)
		})
	r.Assume = []string{"the driver reports the revision of the working copy it leaves behind (C21)", "an index claimed at start-up has the recorded revision (C04)"}
}

// eqKnown: a and b are known to be equal.
func (r *Report) eqKnown(s *eng.State, a, b *eng.Val) bool {
	return a == b || s.Decide(r.P.In.Bin(token.EQL, a, b, types.Typ[types.Bool])) == eng.True
}

func isFieldLoad(v *eng.Val, name string, named func(types.Type) bool) bool {
	return v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField && v.Args[0].Fld.Name() == name && named(v.Args[0].Args[0].T)
}

// isLiveField: the field of a searcher which holds the live index.
func (r *Report) isLiveField(a *eng.Val) bool {
	return a.Kind == eng.KField && r.isNamed(a.Fld.Type(), "index", "Index") && r.isNamed(a.Args[0].T, "searcher", "Searcher")
}

func (r *Report) isRepo(t types.Type) bool { return t != nil && r.isNamed(t, "config", "Repo") }

func (r *Report) revRoot(root *ssa.Function, fams map[string]int, pulls *int) {
	// the part of a lock's identity which is common to all working copies
	family := func(m *M, a, dir *eng.Val) (string, bool) {
		if a.Kind == eng.KGlobal {
			return "global " + a.G.Name(), true
		}
		for p := range m.Rel["keyed"] {
			res, key := p[0], p[1]
			if !a.Any(func(x *eng.Val) bool { return x == res }) {
				continue
			}
			k := key.Strip()
			if k == dir || dir.Any(func(x *eng.Val) bool { return x == k && x.Kind != eng.KConst }) ||
				isFieldLoad(k, "Url", r.isRepo) {
				for q := range m.Rel["table"] {
					if q[0] == res {
						return q[1].String(), true
					}
				}
				return "?", true
			}
		}
		return "", false
	}
	// keyed notes that the lock res was found under a key of a table; only
	// the last lock found and those held matter.
	keyed := func(m *M, res, key, table *eng.Val) {
		held := func(x *eng.Val) bool {
			for _, l := range m.members("lock") {
				if l.Any(func(y *eng.Val) bool { return y == x }) {
					return true
				}
			}
			return false
		}
		old := map[*eng.Val]bool{}
		for p := range m.Rel["keyed"] {
			old[p[0]] = p[0] != res && !held(p[0])
		}
		m.unrel("keyed", func(a, b *eng.Val) bool { return old[a] })
		m.unrel("table", func(a, b *eng.Val) bool { return old[a] })
		m.rel("keyed", res, key)
		m.rel("table", res, table)
	}
	inSearcher := func(i ssa.Instruction) bool { return i != nil && r.P.RelPkg(i.Parent()) == "searcher" }
	settle := func(s *eng.State, m *M) bool {
		for _, e := range m.members("perr") {
			if s.Nilness(e) == eng.False {
				return true
			}
		}
		if m.Flags["built"] == 1 {
			return true
		}
		for _, rev := range m.members("rev") {
			for _, l := range m.members("live") {
				if r.eqKnown(s, rev, l) {
					return true
				}
			}
			// compared with the revision recorded in the live index
			for f, b := range s.Facts {
				if f.Kind != eng.KBin || f.Op != "==" || b.Bool <= 0 || f.Args[0] != rev && f.Args[1] != rev {
					continue
				}
				for _, o := range f.Args {
					if isFieldLoad(o, "Rev", func(t types.Type) bool { return r.isRefT(t) }) && o.Any(func(x *eng.Val) bool { return r.isLiveField(x) || m.has("liveidx", x) }) {
						return true
					}
				}
			}
		}
		return false
	}
	judge := func(s *eng.State, m *M, at ssa.Instruction) {
		if m.Flags["upd"] != 1 || m.Flags["pulled"] != 1 {
			return
		}
		r.Seen("outcome of an update by the poller", at)
		m.Flags["pulled"] = 0
		if settle(s, m) {
			return
		}
		r.Violate("C08.skip", at, "an update of the working copy is left unindexed although the live index may have another revision")
	}
	pull := func(s *eng.State, c *eng.Call) {
		m := mon(s)
		dir := r.pullCall(c).Strip()
		judge(s, m, c.Instr)
		r.Seen("update of a working copy", c.Instr)
		m.clear("plock")
		m.clear("rev")
		m.clear("perr")
		m.clear("pdir")
		m.clear("purl")
		m.put("pdir", dir, 1)
		if r.heavyCall(c) == "vcs clone" && len(c.Args) > 2 {
			m.put("purl", c.Args[2].Strip(), 1)
		}
		*pulls++
		have := map[string]bool{}
		for _, a := range m.members("lock") {
			if m.get("lock", a) < 2 {
				continue
			}
			if f, ok := family(m, a, dir); ok {
				m.put("plock", a, 1)
				have[f] = true
			}
		}
		if len(have) == 0 {
			r.Violate("C08.lock", c.Instr, "a working copy is updated without holding a lock of its directory")
		}
		for f := range have {
			fams[f]++
		}
		m.Flags["pulled"], m.Flags["built"] = 1, 0
	}
	build := func(s *eng.State, c *eng.Call) {
		m := mon(s)
		r.Seen("build from a working copy", c.Instr)
		src, url, rev := c.Args[2].Strip(), c.Args[3].Strip(), c.Args[4].Strip()
		if !m.has("pdir", src) {
			r.Violate("C08.source", c.Instr, "an index is built from a directory which is not the working copy updated before")
		}
		ok := m.has("rev", rev)
		if !ok {
			for _, v := range m.members("rev") {
				ok = ok || r.eqKnown(s, v, rev)
			}
		}
		if !ok {
			r.Violate("C08.rev", c.Instr, "an index is labelled with a revision which is not that of the working copy it is built from")
		}
		for _, e := range m.members("perr") {
			if s.Nilness(e) != eng.True {
				r.Violate("C08.failed", c.Instr, "an index is built although the update of the working copy may have failed")
			}
		}
		if !isFieldLoad(url, "Url", r.isRepo) {
			r.Violate("C08.url", c.Instr, "an index is labelled with something other than the url of the repository")
		}
		for _, u := range m.members("purl") {
			if u != url {
				r.Violate("C08.url", c.Instr, "an index is labelled with something other than the url of the repository")
			}
		}
		if len(m.Sets["plock"]) == 0 {
			r.Violate("C08.unlocked", c.Instr, "an index is built while another goroutine may update the working copy")
		}
		m.Flags["built"] = 1
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if k, a := trackLocks(m, c); k == lkUnlock || k == lkRUnlock {
				m.del("plock", a)
			}
			switch r.heavyCall(c) {
			case "vcs pull", "vcs clone":
				pull(s, c)
				return eng.Opaque
			case "index build":
				build(s, c)
				return eng.Opaque
			}
			if c.Fn != nil && r.P.RelPkg(c.Fn) == "index" {
				// an index found in the (new) directory is opened: see C03
				if res := c.Fn.Signature.Results(); res.Len() == 2 && r.isNamed(res.At(0).Type(), "index", "Index") {
					m.Flags["built"] = 1
				}
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if r.pullCall(c) != nil {
				m.put("rev", r.P.In.Extract(res, 0, types.Typ[types.String]), 1)
				m.put("perr", r.P.In.Extract(res, 1, types.Universe.Lookup("error").Type()), 1)
			}
			switch c.Name {
			case "(*sync.Map).LoadOrStore", "(*sync.Map).Load":
				keyed(m, res, c.Args[1], c.Args[0])
			}
			return nil
		},
		OnLookup: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if v != nil && inSearcher(at.Instr) {
				if mt, ok := mp.T.Underlying().(*types.Map); ok {
					if p, ok := mt.Elem().Underlying().(*types.Pointer); ok {
						if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
							keyed(mon(s), v, k, mp)
						}
					}
				}
			}
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if v != nil && inSearcher(at.Instr) {
				if p, ok := v.T.(*types.Pointer); ok {
					if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
						keyed(mon(s), v, k, mp)
					}
				}
			}
		},
		OnStore: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			if !r.isLiveField(a) {
				return
			}
			m := mon(s)
			m.clear("live")
			m.clear("liveidx")
			m.put("liveidx", v, 1)
			for _, x := range m.members("rev") {
				m.put("live", x, 1)
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			if m := mon(s); m.Flags["pulled"] == 1 && settle(s, m) {
				m.Flags["pulled"] = 0
				if m.Flags["upd"] == 1 {
					r.Seen("outcome of an update by the poller", at.Instr)
				}
			}
		},
	})
	r.slice(x, func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Select, *ssa.Go:
			return true
		case *ssa.UnOp:
			return i.Op == token.ARROW
		case *ssa.Store:
			if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
				n, v := fieldOf(fa)
				return n != nil && r.isNamed(n, "searcher", "Searcher") && r.isNamed(v.Type(), "index", "Index")
			}
		}
		return r.isHeavyInstr(i) || isLockInstr(i) || calleeIs(i, "(*sync.Map).LoadOrStore", "(*sync.Map).Load")
	})
	sl := x.OpaqueFn
	x.OpaqueFn = func(f *ssa.Function) bool {
		return r.P.RelPkg(f) == "index" || r.P.RelPkg(f) == "config" && !simpleFn(f) || sl(f)
	}
	end := func(fn *ssa.Function, exits []eng.Exit) {
		for _, e := range exits {
			if e.Kind == eng.ExRet {
				judge(e.S, mon(e.S), fn.Blocks[0].Instrs[0])
			}
		}
	}
	end(root, x.Run(root, newM()))
	x.RunThreads(func(t *eng.Thread) eng.Monitor {
		old := mon(t.S)
		m := newM()
		for _, v := range old.members("live") {
			m.put("live", v, 1)
		}
		for _, v := range old.members("liveidx") {
			m.put("liveidx", v, 1)
		}
		if len(m.Sets["live"]) > 0 {
			m.Flags["upd"] = 1
		}
		return m
	}, func(t *eng.Thread, exits []eng.Exit) { end(t.Call.Fn, exits) })
	r.Absorb(x, FnName(root))
}

// labelRule: a build records the url, revision and directory it was given.
func (r *Report) labelRule() {
	root := r.buildRoot()
	if root == nil {
		return
	}
	p := func(name string, i int) *eng.Val {
		return r.P.In.Param(root, root.Params[i].Name(), i, root.Params[i].Type())
	}
	dst, url, rev := p("dst", 1), p("url", 3), p("rev", 4)
	check := func(s *eng.State, ref *eng.Val, dir bool) string {
		want := map[string]*eng.Val{"Url": url, "Rev": rev}
		for n, w := range want {
			if g := r.fieldContent(s, ref, n); g == nil || g.Strip() != w {
				return n
			}
		}
		if dir {
			if g := r.fieldContent(s, ref, "dir"); g == nil || g.Strip() != dst {
				return "directory"
			}
		}
		return ""
	}
	x := r.buildExec(eng.Hooks{OnCall: func(s *eng.State, c *eng.Call) eng.Action {
		switch c.Name {
		case "(*encoding/gob.Encoder).Encode", "(*encoding/json.Encoder).Encode":
			ref := c.Args[len(c.Args)-1].Strip()
			if !r.isRefT(ref.T) && !r.isNamed(ref.T, "index", "IndexRef") {
				break
			}
			r.Seen("metadata written", c.Instr)
			if f := check(s, ref, false); f != "" {
				r.Violate("C08.metadata", c.Instr, "the %s written to the metadata may not be that of the build", f)
			}
		}
		return eng.Default
	}})
	for _, e := range x.Run(root, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 2 || e.S.Nilness(e.Results[1]) == eng.False || e.S.Nilness(e.Results[0]) == eng.True {
			continue
		}
		r.SeenAt("index built", FnName(root))
		if f := check(e.S, e.Results[0].Strip(), true); f != "" {
			r.ViolateFn("C08.label", FnName(root), root.Pos(), "the %s of the reference returned by a build may not be that of the build", f)
		}
	}
	r.Absorb(x, FnName(root))
	// the reader of the metadata knows where it read it from
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "index" || f.Parent() != nil || !mentions(f, func(i ssa.Instruction) bool {
			return calleeIs(i, "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode")
		}) {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 2 || !r.isNamed(res.At(0).Type(), "index", "IndexRef") || len(f.Params) == 0 {
			continue
		}
		x := eng.NewExec(r.P, eng.Hooks{OnStore: func(s *eng.State, a, v *eng.Val, at eng.Site) {
			if a.Kind == eng.KField && (a.Fld.Name() == "Url" || a.Fld.Name() == "Rev") && r.isNamed(a.Args[0].T, "index", "IndexRef") && len(mon(s).Flags) > 0 {
				r.Violate("C08.read", at.Instr, "the url or revision read from the metadata of an index is overwritten")
			}
		}, AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			if calleeIs(c.Instr, "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode") {
				mon(s).Flags["decoded"] = 1
			}
			return nil
		}})
		d := r.P.In.Param(f, f.Params[0].Name(), 0, f.Params[0].Type())
		for _, e := range x.Run(f, newM()) {
			if e.Kind != eng.ExRet || e.S.Nilness(e.Results[1]) == eng.False {
				continue
			}
			r.SeenAt("metadata read", FnName(f))
			if g := r.fieldContent(e.S, e.Results[0].Strip(), "dir"); g == nil || g.Strip() != d {
				r.ViolateFn("C08.readdir", FnName(f), f.Pos(), "the metadata read is attributed to another directory than the one it was read from")
			}
		}
		r.Absorb(x, FnName(f))
	}
}

// responseRule: a response names the revision of the index searched.
func (r *Report) responseRule() {
	isRoot := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		if f.Parent() != nil || f.Signature.Recv() == nil || !r.isNamed(f.Signature.Recv().Type(), "index", "Index") {
			return false
		}
		return f.Object() != nil && f.Object().Exported() && res.Len() > 0 && r.isNamed(res.At(0).Type(), "index", "SearchResponse")
	}
	for _, f := range r.P.Funcs {
		if !isRoot(f) {
			continue
		}
		recv := r.P.In.Param(f, f.Params[0].Name(), 0, f.Params[0].Type())
		x := eng.NewExec(r.P, eng.Hooks{})
		r.slice(x, func(i ssa.Instruction) bool {
			n, v := fieldOf(i)
			return n != nil && v.Name() == "Revision" && r.isNamed(n, "index", "SearchResponse")
		})
		x.Lim, x.FactLim = 6, 6
		for _, e := range x.Run(f, newM()) {
			if e.Kind != eng.ExRet || e.S.Nilness(e.Results[0]) == eng.True {
				continue
			}
			if n := len(e.Results); n > 1 && e.S.Nilness(e.Results[n-1]) == eng.False {
				continue
			}
			r.SeenAt("search response", FnName(f))
			g := r.fieldContent(e.S, e.Results[0].Strip(), "Revision")
			if g == nil || !isFieldLoad(g.Strip(), "Rev", func(t types.Type) bool { return r.isRefT(t) || r.isNamed(t, "index", "IndexRef") }) ||
				!g.Any(func(x *eng.Val) bool { return x == recv }) {
				r.ViolateFn("C08.response", FnName(f), f.Pos(), "a search response may not carry the revision of the index searched (%v)", g)
			}
		}
		r.Absorb(x, FnName(f))
	}
}
