package rules

import (
	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C03", "Only completely built indexes are ever opened",
		"typestate over every path of an index build: the metadata file, without which a directory is not recognised as an index, is created only after the walk of the sources, the list of excluded files and the trigram index have been completed without error, and nothing is written after it; a directory is opened for searching only if its metadata was read or its build was reported without an error; every index is built in a freshly named directory",
		func(r *Report) {
			r.manifestRule()
			r.openRule()
			r.freshDirRule()
			r.Need("metadata file name", 1)
			r.Need("creation of the metadata file", 1)
			r.Need("write before the metadata file", 4)
			r.Need("opening of an index", 2)
			r.Need("build in a fresh directory", 1)
		})
	r.Assume = []string{"a crash leaves a prefix of the file system operations performed (no reordering by the file system)", "gob refuses to decode a truncated value"}
}

func (r *Report) manifestRule() {
	names := r.manifestNames()
	for n := range names {
		r.SeenAt("metadata file name", n)
	}
	root := r.buildRoot()
	if root == nil {
		return
	}
	exJSON := map[string]bool{"excluded_files.json": true}
	x := r.buildExec(eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if i, ok := fileWrite(c.Name); ok && i < len(c.Args) {
				if pathConst(c.Args[i], names) {
					r.Seen("creation of the metadata file", c.Instr)
					if m.Flags["manifest"] == 0 {
						m.Flags["manifest"] = 1
						if m.Flags["flushed"] == 0 {
							r.Violate("C03.order", c.Instr, "the metadata file is created before the trigram index has been completed")
						}
						if m.Flags["walked"] == 0 {
							r.Violate("C03.order", c.Instr, "the metadata file is created before the sources have been walked")
						}
						for _, v := range m.members("mustnil") {
							if s.Nilness(v) != eng.True {
								r.Violate("C03.order", c.Instr, "the metadata file is created although an earlier step may have failed")
								m.del("mustnil", v)
							}
						}
						if m.Flags["excluded"] == 0 {
							r.Violate("C03.order", c.Instr, "the metadata file is created before the list of excluded files has been written")
						}
					}
					return eng.Default
				}
				if m.Flags["manifest"] == 1 {
					r.Violate("C03.after", c.Instr, "%s after the metadata file has been created", c.Name)
				} else {
					r.Seen("write before the metadata file", c.Instr)
				}
				if pathConst(c.Args[i], exJSON) {
					m.Flags["exopen"] = 1
				}
			}
			switch w := r.writerMethod(c); w {
			case "Add", "AddFile":
				if m.Flags["manifest"] == 1 {
					r.Violate("C03.after", c.Instr, "a file is indexed after the metadata file has been created")
				}
				m.Flags["flushed"] = 0
				r.Seen("write before the metadata file", c.Instr)
			case "Flush":
				if m.Flags["manifest"] == 1 {
					r.Violate("C03.after", c.Instr, "the trigram index is completed after the metadata file has been created")
				}
				m.Flags["flushed"] = 1
				r.Seen("write before the metadata file", c.Instr)
			case "Close":
				if !c.Defer && m.Flags["flushed"] == 0 {
					m.Flags["closed"] = 1
				}
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if isWalk(c.Name) {
				m.Flags["walked"] = 1
				m.put("mustnil", res, 1)
			}
			if c.Name == "(*encoding/json.Encoder).Encode" && m.Flags["exopen"] == 1 {
				m.Flags["excluded"] = 1
				m.put("mustnil", res, 1)
			}
			if (c.Name == "os.WriteFile" || c.Name == "io/ioutil.WriteFile") && m.Flags["exopen"] == 1 {
				m.Flags["excluded"] = 1
				m.put("mustnil", res, 1)
			}
			return nil
		},
	})
	for _, e := range x.Run(root, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 2 {
			continue
		}
		if e.S.Nilness(e.Results[1]) != eng.False && mon(e.S).Flags["manifest"] == 0 {
			r.ViolateFn("C03.manifest", FnName(root), root.Pos(), "a build can succeed without having written the metadata file")
		}
	}
	r.Absorb(x, FnName(root))
}

// openRule: (*IndexRef).Open only on the reference of a completed index.
func (r *Report) openRule() {
	open := r.P.Method("index", "IndexRef", "Open")
	if open == nil {
		r.Undecided("the method opening an index was not found")
		return
	}
	target := func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() == open
		})
	}
	refRes := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		return res.Len() == 2 && r.isNamed(res.At(0).Type(), "index", "IndexRef") && res.At(1).Type().String() == "error"
	}
	x0 := func() *eng.Exec {
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				if c.Fn != nil && r.P.RelPkg(c.Fn) == "index" && refRes(c.Fn) {
					return eng.Opaque
				}
				if c.Fn != open {
					return eng.Default
				}
				r.Seen("opening of an index", c.Instr)
				v := c.Args[0]
				if c.Ctx.Parent == nil && v.Kind == eng.KParam {
					return eng.Default
				}
				e := s.Companion(v)
				if e == nil {
					r.Violate("C03.open", c.Instr, "an index is opened whose metadata was neither read nor just written")
				} else if s.Nilness(e) != eng.True {
					r.Violate("C03.open", c.Instr, "an index is opened although its build or the reading of its metadata may have failed")
				}
				return eng.Opaque
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() == open
		})
		x.Lim, x.FactLim = 12, 12
		return x
	}
	for _, root := range r.roots(target) {
		x := x0()
		x.Run(root, newM())
		x.RunThreads(func(*eng.Thread) eng.Monitor { return newM() }, nil)
		r.Absorb(x, FnName(root))
	}
	// the reader must not report success without having decoded the metadata
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "index" || !refRes(f) || f.Parent() != nil {
			continue
		}
		if !mentions(f, func(i ssa.Instruction) bool {
			return calleeIs(i, "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode")
		}) {
			continue
		}
		x := eng.NewExec(r.P, eng.Hooks{AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			if c.Name == "(*encoding/gob.Decoder).Decode" || c.Name == "(*encoding/json.Decoder).Decode" {
				mon(s).put("decoded", res, 1)
			}
			return nil
		}})
		for _, e := range x.Run(f, newM()) {
			if e.Kind != eng.ExRet || e.S.Nilness(e.Results[1]) == eng.False {
				continue
			}
			ok := false
			for _, d := range mon(e.S).members("decoded") {
				if e.S.Nilness(d) == eng.True || d == e.Results[1] {
					ok = true
				}
			}
			r.SeenAt("reader of the metadata", FnName(f))
			if !ok {
				r.ViolateFn("C03.read", FnName(f), f.Pos(), "the metadata of an index can be reported as read although it was not decoded")
			}
		}
		r.Absorb(x, FnName(f))
	}
}

// freshDirRule: what is built is built in a directory with a new name.
func (r *Report) freshDirRule() {
	build := r.buildRoot()
	if build == nil {
		return
	}
	isSource := func(n string) bool {
		switch n {
		case "math/rand.Uint32", "math/rand.Uint64", "math/rand.Int63", "math/rand.Int", "math/rand.Int31", "crypto/rand.Read",
			"os.MkdirTemp", "io/ioutil.TempDir", "time.Now", "(*math/rand.Rand).Uint32", "(*math/rand.Rand).Uint64", "(*math/rand.Rand).Int63",
			"math/rand.Read", "(*math/rand.Rand).Int":
			return true
		}
		return false
	}
	usesRand := false
	x0 := func() *eng.Exec {
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				if c.Fn != build {
					return eng.Default
				}
				dst := c.Args[1]
				fresh := dst.Any(func(v *eng.Val) bool {
					call, ok := instrCall(v)
					if !ok {
						return false
					}
					n := eng.CalleeName(call)
					if isSource(n) {
						if len(n) > 10 && n[:10] == "math/rand." {
							usesRand = true
						}
						return true
					}
					return false
				})
				reused := dst.Any(func(v *eng.Val) bool {
					return v.Kind == eng.KField && r.isNamed(v.Args[0].T, "index", "IndexRef")
				})
				r.Seen("build in a fresh directory", c.Instr)
				if !fresh && !reused {
					r.Violate("C03.fresh", c.Instr, "an index is built in a directory whose name is not unique to this build")
				}
				return eng.Opaque
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && (ci.Common().StaticCallee() == build || isSource(eng.CalleeName(ci.Common())))
		})
		sl := x.OpaqueFn
		x.OpaqueFn = func(f *ssa.Function) bool { return r.P.RelPkg(f) == "vcs" || sl(f) }
		x.Lim, x.FactLim = 12, 12
		return x
	}
	target := func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() == build
		})
	}
	for _, root := range r.roots(target, "searcher") {
		x := x0()
		x.Run(root, newM())
		x.RunThreads(func(*eng.Thread) eng.Monitor { return newM() }, nil)
		r.Absorb(x, FnName(root))
	}
	if usesRand && r.P.GoMinor() < 20 {
		// the global source starts in the same state in every process
		ok := false
		for _, f := range r.P.Funcs {
			if mentions(f, func(i ssa.Instruction) bool { return calleeIs(i, "math/rand.Seed") }) {
				x := eng.NewExec(r.P, eng.Hooks{OnCall: func(s *eng.State, c *eng.Call) eng.Action {
					if c.Name == "math/rand.Seed" && c.Args[0].Any(func(v *eng.Val) bool {
						call, is := instrCall(v)
						return is && (isSource(eng.CalleeName(call)) || mentionsCall(call, isSource))
					}) {
						ok = true
						r.Seen("seeding of the random names", c.Instr)
					}
					return eng.Default
				}})
				x.Run(f, newM())
			}
		}
		if !ok {
			r.ViolateFn("C03.seed", "searcher", 0, "the names of index directories repeat in every process: the random source is not seeded")
		}
	}
}

// instrCall is the call whose opaque result v is.
func instrCall(v *eng.Val) (*ssa.CallCommon, bool) {
	if v.Instr == nil {
		return nil, false
	}
	c, ok := v.Instr.(*ssa.Call)
	if !ok {
		return nil, false
	}
	return &c.Call, true
}

// mentionsCall: some argument of the call is directly the result of a call to
// a function satisfying p.
func mentionsCall(c *ssa.CallCommon, p func(string) bool) bool {
	for _, a := range c.Args {
		for {
			if u, ok := a.(*ssa.UnOp); ok {
				a = u.X
				continue
			}
			break
		}
		if al, ok := a.(*ssa.Alloc); ok && al.Referrers() != nil {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok {
					if call, ok := st.Val.(*ssa.Call); ok && p(eng.CalleeName(&call.Call)) {
						return true
					}
				}
			}
		}
		if call, ok := a.(*ssa.Call); ok && p(eng.CalleeName(&call.Call)) {
			return true
		}
	}
	return false
}
