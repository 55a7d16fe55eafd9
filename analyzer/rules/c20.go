package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// the documented defaults, by the names the options have in the file.
var cfgDefaults = map[string]map[string]string{
	"Config": {"title": "Hound", "max-concurrent-indexers": "2", "health-check-uri": "/healthz", "result-limit": "5000"},
	"Repo":   {"ms-between-poll": "30000", "vcs": "git", "url-pattern": ""},
	"UrlPattern": {"base-url": "{url}/blob/{rev}/{path}{anchor}",
		"anchor": "#L{line}"},
}

var cfgBools = map[string]bool{"enable-poll-updates": true, "enable-push-updates": false}

func init() {
	r := register("C20", "The configuration takes effect as written",
		"path-sensitive dataflow over the loading of the configuration: an option is set by the program only where it is known not to be given, and then to its documented default; every option with a default has a value when loading succeeds, for every repository; the merge of the global vcs-config reaches every repository it concerns, for each of its settings, and never replaces a repository's own; a relative data path is resolved against the directory of the file; errors are reported; each switch means what its field says or its default",
		func(r *Report) {
			load := r.loadRoot()
			if load == nil {
				r.Undecided("loading of the configuration not found")
				return
			}
			r.errorsKept(load, "C20.error", "loading the configuration", func(f *ssa.Function) bool { return r.P.RelPkg(f) == "config" }, nil)
			r.configRule(load)
			r.switchRule()
			r.Need("default filled in", 9)
			r.Need("configuration loaded", 1)
			r.Need("setting merged", 1)
			r.Need("repository's settings replaced by merged ones", 1)
			r.Need("global settings read", 1)
			r.Need("switch of a repository", 2)
		})
	r.Assume = []string{"encoding/json decodes what is in the file", "an option given with its zero value counts as not given"}
}

// loadRoot is the exported method of Config which decodes a file.
func (r *Report) loadRoot() *ssa.Function {
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "config" || f.Parent() != nil || f.Signature.Recv() == nil || !r.isNamed(f.Signature.Recv().Type(), "config", "Config") || f.Synthetic != "" {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for g := range r.P.Reach(f) {
			if mentions(g, func(i ssa.Instruction) bool {
				return calleeIs(i, "(*encoding/json.Decoder).Decode", "os.Open", "os.ReadFile", "io/ioutil.ReadFile")
			}) {
				return f
			}
		}
	}
	return nil
}

// cfgField is the option a field holds, and the struct it is of.
func (r *Report) cfgField(base types.Type, name string) (st, opt string) {
	if p, ok := base.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	n, ok := types.Unalias(base).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != r.P.Module+"/config" {
		return "", ""
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return "", ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return n.Obj().Name(), jsonTag(s, i)
		}
	}
	return "", ""
}

// optField is the field of v (of struct type st) for the option.
func (r *Report) optField(t types.Type, opt string) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if jsonTag(s, i) == opt {
			return s.Field(i).Name()
		}
	}
	return ""
}

// zeroness: whether v is the zero value of its type.
func zeroness(s *eng.State, v *eng.Val) eng.Tri {
	if v == nil || v.T == nil {
		return eng.Unknown
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return emptyStr(s, v)
		case u.Info()&types.IsInteger != 0:
			if v.Kind == eng.KZero {
				return eng.True
			}
			lo, hi := s.Interval(v)
			if lo == 0 && hi == 0 {
				return eng.True
			}
			if lo > 0 || hi < 0 || isNonZero(s, v) {
				return eng.False
			}
			return eng.Unknown
		}
	}
	return s.Nilness(v)
}

func (r *Report) configRule(load *ssa.Function) {
	in := r.P.In
	cfg := func(fn *ssa.Function) *eng.Val { return in.Param(fn, fn.Params[0].Name(), 0, fn.Params[0].Type()) }
	c0 := cfg(load)
	isRepos := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && r.isNamed(m.Elem(), "config", "Repo")
	}
	option := func(s *eng.State, v *eng.Val, opt string) bool { // the option of the configuration
		v = v.Strip()
		c := r.fieldContent(s, c0, r.optField(c0.T, opt))
		return c != nil && (v == c || v == c.Strip())
	}
	isGlobals := func(s *eng.State, v *eng.Val) bool { return option(s, v, "vcs-config") }
	settingsT := func(t types.Type) bool { // map[string]interface{}
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		return types.IsInterface(m.Elem())
	}
	tableT := func(t types.Type) bool { // settings by version control system
		m, ok := t.Underlying().(*types.Map)
		return ok && settingsT(m.Elem())
	}
	// note which options are known to have a value
	isDbPath := func(s *eng.State, v *eng.Val) bool { return option(s, v, "dbpath") }
	note := func(s *eng.State) {
		m := mon(s)
		var rec func(v *eng.Val, st, pre string)
		rec = func(v *eng.Val, st, pre string) {
			for opt := range cfgDefaults[st] {
				k := pre + opt
				fn := r.optField(v.T, opt)
				if fn == "" {
					continue
				}
				c := r.fieldContent(s, v, fn)
				if m.Flags[k] == 0 && zeroness(s, c) == eng.False {
					m.Flags[k] = 1
				}
				if opt == "url-pattern" && c != nil && s.Nilness(c) == eng.False {
					rec(c, "UrlPattern", pre)
				}
			}
		}
		if m.Flags["decoded"] == 1 {
			rec(c0, "Config", "c:")
		}
		for _, el := range m.members("repo") {
			rec(el, "Repo", "r:")
		}
	}
	all := func(m *M, st, pre string) bool {
		for opt := range cfgDefaults[st] {
			if m.Flags[pre+opt] == 0 {
				return false
			}
		}
		return true
	}
	endRepo := func(s *eng.State, at ssa.Instruction) {
		m := mon(s)
		if m.Flags["inrepo"] == 1 {
			note(s)
			if !all(m, "Repo", "r:") || !all(m, "UrlPattern", "r:") {
				m.Flags["incomplete"] = 1
			}
			if m.Flags["wantmerge"] == 1 {
				r.Violate("C20.merge", at, "the global settings of a version control system may not reach a repository")
			}
		}
		for k := range m.Flags {
			if strings.HasPrefix(k, "r:") {
				delete(m.Flags, k)
			}
		}
		for _, k := range []string{"inrepo", "wantmerge", "ownseen", "ownin", "vacant", "ownvacant"} {
			delete(m.Flags, k)
		}
		m.clear("cand")
		m.clear("fullt")
		m.clear("hasown")
		m.clear("owned")
		m.clear("over")
		m.clear("repo")
		m.clear("filled")
		m.clear("own")
	}
	endKey := func(m *M, at ssa.Instruction) {
		if m.Flags["wantkey"] == 1 {
			r.Violate("C20.merge", at, "a global setting which a repository lacks may not be merged")
		}
		m.Flags["wantkey"] = 0
		m.clear("k")
		m.clear("v")
	}
	endGlob := func(m *M, at ssa.Instruction) {
		if m.Flags["wantglob"] == 1 {
			r.Violate("C20.merge", at, "the global settings of a version control system may get lost")
		}
		m.Flags["wantglob"] = 0
		m.clear("gk")
		m.clear("gel")
		m.clear("gdst")
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			switch c.Name {
			case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
				dst := c.Args[1].Strip()
				if dst.Kind == eng.KIface {
					dst = dst.Args[0].Strip()
				}
				if dst == c0 {
					m.Flags = map[string]int{"decoded": 1}
					r.Seen("configuration loaded", c.Instr)
					return eng.Opaque
				}
				if c.Name == "encoding/json.Unmarshal" && dst.T != nil {
					if p, ok := dst.T.Underlying().(*types.Pointer); ok && settingsT(p.Elem()) {
						if old := s.Read(dst, p.Elem()); s.Nilness(old) != eng.True && !(old.Kind == eng.KUn && old.Op == "make") {
							r.Violate("C20.merge", c.Instr, "settings may be added to those of another version control system or repository")
						}
					}
					src := c.Args[0].Strip()
					for _, el := range m.members("gel") {
						if src.Mentions(el) {
							m.put("gdst", dst, 1)
							r.Seen("global settings read", c.Instr)
						}
					}
					for _, el := range m.members("repo") {
						if src.Any(func(v *eng.Val) bool { return v == el }) {
							m.put("own", dst, 1)
							m.Flags["ownseen"] = 1
							if p, ok := dst.T.Underlying().(*types.Pointer); ok {
								if m.has("filled", s.Read(dst, p.Elem()).Strip()) {
									m.put("refill", dst, 1) // own settings decoded over all global ones
								}
							}
						}
					}
				}
			case "path/filepath.Abs":
				a := c.Args[0].Strip()
				if anyPure(a, "path/filepath.Join") && len(a.Args[0].Args) == 2 {
					d, p := a.Args[0].Args[0].Strip(), a.Args[0].Args[1].Strip()
					if anyPure(d, "path/filepath.Dir") && isDbPath(s, p) && d.Args[0].Args[0].Strip().Kind == eng.KParam {
						m.Flags["absarg"] = 1
					}
				}
			case "encoding/json.Marshal":
				a := c.Args[0].Strip()
				if a.Kind == eng.KIface {
					a = a.Args[0].Strip()
				}
				if a.T != nil {
					if p, ok := a.T.Underlying().(*types.Pointer); ok {
						a = s.Read(a, p.Elem()).Strip()
					}
				}
				// all global settings, and the repository's own ones over them
				own := m.Flags["ownseen"] == 0 || r.ownSettings(s, a) || m.has("owned", a) || m.Flags["ownvacant"] == 1
				if (m.has("filled", a) || m.Flags["vacant"] == 1) && own && (!m.has("over", a) || m.Flags["ownvacant"] == 1) {
					m.Flags["marshalfull"] = 1
				} else {
					m.Flags["marshalfull"] = 0
				}
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if c.Name == "path/filepath.Abs" {
				if m.Flags["absarg"] == 1 {
					m.put("abspath", in.Extract(res, 0, types.Typ[types.String]), 1)
				}
				m.Flags["absarg"] = 0
			}
			if c.Name == "encoding/json.Unmarshal" {
				for _, d := range m.members("refill") {
					if p, ok := d.T.Underlying().(*types.Pointer); ok {
						m.put("filled", s.Read(d, p.Elem()).Strip(), 1)
					}
				}
				m.clear("refill")
			}
			if c.Name == "encoding/json.Marshal" {
				if m.Flags["marshalfull"] == 1 {
					m.put("fullt", res, 1)
				}
				m.Flags["marshalfull"] = 0
			}
			return nil
		},
		OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			m := mon(s)
			if addr.Kind != eng.KField || m.Flags["decoded"] == 0 {
				return
			}
			if st, ok := at.Instr.(*ssa.Store); ok {
				if a, ok := st.Val.(*ssa.Alloc); ok && inCycle(st.Block()) && !sameCycle(a.Block(), st.Block()) && writtenWith(a, st.Block()) {
					r.Violate("C20.merge", at.Instr, "the settings of one repository may be replaced by those of another")
				}
			}
			base := addr.Args[0]
			st, opt := r.cfgField(base.T, addr.Fld.Name())
			if st == "" || base.Kind == eng.KAlloc && base != c0 {
				if st != "" && base.Kind == eng.KAlloc {
					r.defaultValue(s, st, opt, v, at)
				}
				return
			}
			if opt == "-" {
				return
			}
			old := s.Read(addr, addr.Fld.Type())
			if st == "Config" && opt == "dbpath" {
				if v.Strip() == old.Strip() {
					return
				}
				r.Seen("data path resolved", at.Instr)
				if !m.has("abspath", v.Strip()) {
					r.Violate("C20.path", at.Instr, "the data path may be replaced by something other than its absolute form, taken from the directory of the configuration")
				}
				if m.Flags["isabs"] == 1 {
					r.Violate("C20.path", at.Instr, "an absolute data path may be replaced")
				}
				m.Flags["abs"] = 1
				return
			}
			if st == "Repo" && opt == "vcs-config" {
				r.Seen("repository's settings replaced by merged ones", at.Instr)
				c := v
				if v.T != nil {
					if p, ok := v.T.Underlying().(*types.Pointer); ok {
						c = s.Read(v, p.Elem())
					}
				}
				c = c.Strip()
				ok := false
				for _, res := range m.members("fullt") {
					ok = ok || c.Mentions(res)
				}
				if !ok || !m.has("repo", base) {
					r.Violate("C20.replace", at.Instr, "the settings of a repository may be replaced by something which is not the full merge of its own and the global ones")
				}
				if m.has("repo", base) {
					m.Flags["wantmerge"] = 0
				}
				return
			}
			if zeroness(s, old) != eng.True {
				if v.Strip() != old.Strip() {
					r.Violate("C20.override", at.Instr, "an option which is given may be replaced (%s)", opt)
				}
				return
			}
			r.defaultValue(s, st, opt, v, at)
			if _, ok := cfgDefaults[st][opt]; ok && zeroness(s, v) == eng.False {
				if st == "Config" {
					m.Flags["c:"+opt] = 1
				} else {
					m.Flags["r:"+opt] = 1
					if opt == "url-pattern" {
						for o := range cfgDefaults["UrlPattern"] {
							if fn := r.optField(v.T, o); fn != "" && zeroness(s, r.fieldContent(s, v, fn)) == eng.False {
								m.Flags["r:"+o] = 1
							}
						}
					}
				}
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			for cond.Kind == eng.KUn && cond.Op == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if anyPure(cond, "path/filepath.IsAbs") && taken && isDbPath(s, cond.Args[0].Args[0]) {
				m.Flags["abs"], m.Flags["isabs"] = 1, 1
			}
			// no global settings at all
			cond.Any(func(v *eng.Val) bool {
				if v.Kind == eng.KUn && v.Op == "len" && isGlobals(s, v.Args[0]) {
					if lo, hi := s.Interval(v); lo == 0 && hi == 0 {
						m.Flags["noglobal"] = 1
					}
				}
				if isGlobals(s, v) && s.Nilness(v) == eng.True {
					m.Flags["noglobal"] = 1
				}
				return false
			})
			if cond.Kind == eng.KUn && cond.Op == "has" && cond.Args[0].Kind == eng.KElem {
				mp, k := cond.Args[0].Args[0].Strip(), cond.Args[0].Args[1].Strip()
				switch {
				case mp.T != nil && tableT(mp.T) && !taken:
					m.Flags["wantmerge"] = 0
				case mp.T != nil && settingsT(mp.T):
					if m.has("k", k) {
						m.put("cand", mp, 1)
						if taken {
							m.Flags["wantkey"] = 0
						} else {
							m.put("absent", mp, 1)
						}
					}
				}
			}
			// settings found or not by their value
			cond.Any(func(v *eng.Val) bool {
				if v.Kind == eng.KLoad && v.Args[0].Kind == eng.KElem && v.Args[0].Args[0].T != nil && tableT(v.Args[0].Args[0].T) && s.Nilness(v) == eng.True {
					m.Flags["wantmerge"] = 0
				}
				if v.Kind == eng.KUn && v.Op == "len" && v.Args[0].Kind == eng.KLoad && v.Args[0].Args[0].Kind == eng.KElem && v.Args[0].T != nil && settingsT(v.Args[0].T) && tableT(v.Args[0].Args[0].Args[0].T) {
					if lo, hi := s.Interval(v); lo == 0 && hi == 0 {
						m.Flags["wantmerge"] = 0
					}
				}
				return false
			})
			note(s)
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			m := mon(s)
			mp, k = mp.Strip(), k.Strip()
			if mp.T == nil {
				return
			}
			if tableT(mp.T) {
				ok := false
				for _, d := range m.members("gdst") {
					if p, isp := d.T.Underlying().(*types.Pointer); isp && v != nil && s.Read(d, p.Elem()).Strip() == v.Strip() {
						ok = true
					}
				}
				if !ok || !m.has("gk", k) {
					r.Violate("C20.merge", at.Instr, "the global settings of a version control system may be mixed up")
				}
				m.Flags["wantglob"] = 0
				return
			}
			if !settingsT(mp.T) || m.Flags["inrepo"] == 0 {
				return
			}
			r.Seen("setting merged", at.Instr)
			m.put("cand", mp, 1)
			if v == nil || !m.has("k", k) || !m.has("v", v.Strip()) {
				r.Violate("C20.merge", at.Instr, "a setting may be merged under another name")
				return
			}
			if m.get("v", v.Strip()) == 2 {
				m.put("hasown", mp, 1)
				m.Flags["wantkey"] = 0
				return // the repository's own setting, which goes first
			}
			if !m.has("absent", mp) && m.Flags["ownseen"] == 1 {
				if r.ownSettings(s, mp) || m.has("owned", mp) {
					r.Violate("C20.override", at.Instr, "a repository's own setting may be replaced by a global one")
				}
				m.put("over", mp, 1)
			}
			m.Flags["wantkey"] = 0
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			cs := cont.Strip()
			if cont.T == nil {
				return
			}
			switch {
			case isRepos(cont.T):
				endGlob(m, at.Instr)
				endKey(m, at.Instr)
				endRepo(s, at.Instr)
				if more {
					if el != nil {
						m.put("repo", el.Strip(), 1)
						m.Flags["inrepo"] = 1
						if r.loopReaches(at.Instr, isMarshal) {
							m.Flags["wantmerge"] = 1
							if m.Flags["filledin"] == 0 {
								r.Violate("C20.order", at.Instr, "settings may be merged before the version control system of each repository is known")
							}
						}
					}
					return
				}
				if m.Flags["incomplete"] == 0 {
					m.Flags["filledin"] = 1
				}
				m.Flags["incomplete"] = 0
				if r.loopReaches(at.Instr, isMarshal) {
					m.Flags["merged"] = 1
				}
			case isGlobals(s, cont):
				endGlob(m, at.Instr)
				if more && el != nil {
					m.put("gk", k.Strip(), 1)
					m.put("gel", el.Strip(), 1)
					m.Flags["wantglob"] = 1
				}
			case settingsT(cont.T) && m.Flags["inrepo"] == 1:
				endKey(m, at.Instr)
				m.clear("absent")
				own := r.ownSettings(s, cs)
				if more && el != nil {
					m.put("k", k.Strip(), 1)
					m.put("v", el.Strip(), 1)
					if own {
						m.put("v", el.Strip(), 2)
					}
					m.Flags["wantkey"] = 1
					if own {
						m.Flags["ownin"] = 1
					}
					return
				}
				if own {
					for _, mp := range m.members("hasown") {
						m.put("owned", mp, 1)
						m.del("over", mp)
					}
					if m.Flags["ownin"] == 0 {
						m.Flags["ownvacant"] = 1
					}
					m.clear("cand")
					return
				}
				// what was looked at or updated in this loop has all global settings
				for _, mp := range m.members("cand") {
					m.put("filled", mp, 1)
				}
				if len(m.members("cand")) == 0 {
					m.Flags["vacant"] = 1
				}
				m.clear("cand")
			}
		},
		OnLookup: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if mp.T != nil && tableT(mp.T) && mon(s).Flags["inrepo"] == 1 {
				// looked up for the repository's own system
				ks := k.Strip()
				ok := false
				for _, el := range mon(s).members("repo") {
					if f := r.optField(el.T, "vcs"); f != "" && r.fieldContent(s, el, f).Strip() == ks {
						ok = true
					}
				}
				if !ok {
					r.Violate("C20.merge", at.Instr, "a repository may get the settings of another version control system")
				}
			}
		},
	})
	x.OpaqueFn = func(f *ssa.Function) bool { return r.P.RelPkg(f) != "config" }
	x.Lim, x.FactLim = 16, 16
	for _, e := range x.Run(load, newM()) {
		if e.Kind != eng.ExRet {
			continue
		}
		m := mon(e.S)
		if n := len(e.Results); n > 0 && e.S.Nilness(e.Results[n-1]) == eng.False {
			continue
		}
		if n := len(e.Results); n > 0 && e.S.Nilness(e.Results[n-1]) == eng.Unknown && !e.Results[n-1].IsNil() && e.Results[n-1].Kind != eng.KConst {
			// an error passed on; what matters is the other case, which the
			// same path covers
		}
		bad := func(format string, args ...interface{}) {
			r.ViolateFn("C20.default", FnName(load), load.Pos(), format, args...)
		}
		if m.Flags["wantglob"] == 1 {
			bad("the global settings of a version control system may get lost")
		}
		if m.Flags["decoded"] == 0 {
			bad("loading may succeed without reading the file")
			continue
		}
		for opt := range cfgDefaults["Config"] {
			if m.Flags["c:"+opt] == 0 {
				bad("the option %s may have no value after loading", opt)
			}
		}
		if m.Flags["filledin"] == 0 {
			bad("a repository may have options without a value after loading")
		}
		if m.Flags["abs"] == 0 {
			bad("the data path may not be absolute after loading")
		}
		if m.Flags["merged"] == 0 && m.Flags["noglobal"] == 0 {
			bad("the global settings may not be merged into those of the repositories")
		}
	}
	r.Absorb(x, FnName(load))
}

func isMarshal(i ssa.Instruction) bool { return calleeIs(i, "encoding/json.Marshal") }

// ownSettings: the map was decoded from the repository's own settings.
func (r *Report) ownSettings(s *eng.State, mp *eng.Val) bool {
	m := mon(s)
	for _, d := range m.members("own") {
		if p, ok := d.T.Underlying().(*types.Pointer); ok && s.Read(d, p.Elem()).Strip() == mp {
			return true
		}
	}
	return false
}

// loopReaches: the loop has such an instruction, or calls a function which has.
func (r *Report) loopReaches(at ssa.Instruction, pred func(ssa.Instruction) bool) bool {
	for _, b := range loopOf(at) {
		for _, i := range b.Instrs {
			if pred(i) {
				return true
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil {
					for g := range r.P.Reach(f) {
						if mentions(g, pred) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// defaultValue checks the value an option gets where it is not given.
func (r *Report) defaultValue(s *eng.State, st, opt string, v *eng.Val, at eng.Site) {
	want, ok := cfgDefaults[st][opt]
	if !ok {
		if zeroness(s, v) != eng.True {
			r.Violate("C20.set", at.Instr, "an option which is not given may be set (%s)", opt)
		}
		return
	}
	if zeroness(s, v) == eng.True {
		return // still not set
	}
	r.SeenAt("default filled in", opt)
	if want == "" {
		return
	}
	got := ""
	if v.Kind == eng.KConst && v.C != nil {
		if v.C.Kind() == constant.String {
			got = constant.StringVal(v.C)
		} else {
			got = v.C.ExactString()
		}
	}
	if got != want {
		r.Violate("C20.default", at.Instr, "the default of %s may not be %q", opt, want)
	}
}

// switchRule: a switch of a repository is what its field says, or its default.
func (r *Report) switchRule() {
	for _, f := range r.P.Funcs {
		sig := f.Signature
		if r.P.RelPkg(f) != "config" || f.Parent() != nil || sig.Recv() == nil || !r.isNamed(sig.Recv().Type(), "config", "Repo") || sig.Results().Len() != 1 || sig.Params().Len() != 0 {
			continue
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		opts := map[string]string{}
		for g := range r.P.Reach(f) {
			mentions(g, func(i ssa.Instruction) bool {
				if n, fv := fieldOf(i); n != nil {
					if st, opt := r.cfgField(n, fv.Name()); st == "Repo" {
						if _, ok := cfgBools[opt]; ok {
							opts[opt] = fv.Name()
						}
					}
				}
				return false
			})
		}
		if len(opts) != 1 {
			continue
		}
		for opt, fn := range opts {
			r.SeenAt("switch of a repository", opt)
			recv := r.P.In.Param(f, f.Params[0].Name(), 0, f.Params[0].Type())
			x := eng.NewExec(r.P, eng.Hooks{})
			for _, e := range x.Run(f, newM()) {
				if e.Kind != eng.ExRet {
					continue
				}
				p := r.fieldContent(e.S, recv, fn)
				res := e.Results[0]
				ok := false
				switch e.S.Nilness(p) {
				case eng.True:
					want := eng.False
					if cfgBools[opt] {
						want = eng.True
					}
					ok = e.S.Decide(res) == want
				case eng.False:
					v := e.S.Read(p, types.Typ[types.Bool])
					ok = v == res || e.S.Decide(v) != eng.Unknown && e.S.Decide(v) == e.S.Decide(res)
				}
				if !ok {
					r.ViolateFn("C20.switch", FnName(f), f.Pos(), "%s may be taken for something else than its value, or its default %v", opt, cfgBools[opt])
				}
			}
			r.Absorb(x, FnName(f))
		}
	}
}

// writtenWith: the variable is written in the loop the block is in.
func writtenWith(a *ssa.Alloc, b *ssa.BasicBlock) bool {
	for _, ref := range *a.Referrers() {
		switch w := ref.(type) {
		case *ssa.Store:
			if w.Addr == ssa.Value(a) && sameCycle(w.Block(), b) {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			for _, r2 := range *w.(ssa.Value).Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == w.(ssa.Value) && sameCycle(st.Block(), b) {
					return true
				}
			}
		}
	}
	return false
}
