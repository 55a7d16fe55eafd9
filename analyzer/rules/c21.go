package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// vcsTool describes the commands of a version control system: what updates a
// working directory (each step is a list of alternatives), what makes one,
// and which queries print the revision it is at.
type vcsTool struct {
	cmds    map[string]bool
	pull    [][]string
	clone   [][]string
	queries [][]string // constants which must all be among the arguments
	dirArg  bool       // a directory among the arguments is the one worked on
}

var vcsTools = map[string]*vcsTool{
	"git": {cmds: map[string]bool{"git": true},
		pull:    [][]string{{"fetch"}, {"reset", "checkout"}},
		clone:   [][]string{{"clone"}, {"fetch"}, {"reset", "checkout"}},
		queries: [][]string{{"rev-parse", "HEAD"}, {"rev-parse", "--verify", "HEAD"}, {"log", "-1", "--format=%H"}, {"log", "-1", "--pretty=format:%H"}, {"show-ref", "--head", "HEAD"}}},
	"hg": {cmds: map[string]bool{"hg": true},
		pull:    [][]string{{"pull"}},
		clone:   [][]string{{"clone"}},
		queries: [][]string{{"log", "-r", ".", "--template", "{node}"}, {"id", "-i"}, {"identify", "-i"}, {"identify", "--id"}, {"id", "--id"}, {"parents", "--template", "{node}"}}},
	"svn": {cmds: map[string]bool{"svn": true, "svnversion": true}, dirArg: true,
		pull:    [][]string{{"update", "up"}},
		clone:   [][]string{{"checkout", "co"}},
		queries: [][]string{{"svnversion"}, {"info", "--show-item", "revision"}}},
	"bzr": {cmds: map[string]bool{"bzr": true},
		pull:    [][]string{{"pull"}},
		clone:   [][]string{{"branch", "clone", "get"}},
		queries: [][]string{{"revno"}, {"version-info", "--revno"}, {"revision-info"}}},
}

var vcsNames = map[string]string{"git": "git", "hg": "hg", "mercurial": "hg", "svn": "svn", "subversion": "svn", "bzr": "bzr", "local": ""}

func init() {
	r := register("C21", "Version control commands do what the server takes them for",
		"path-sensitive dataflow over every driver: each command is the driver's own tool, run without a shell, in the directory given, with the URL given as an argument; an update or clone which reports success has run all its steps, in order, for the configured reference, none of which failed, and returns what the tool's query printed in that directory afterwards; factories decode the configuration they are given and drivers are found by their documented names",
		func(r *Report) {
			ds := r.drivers()
			byName := map[string]driver{}
			for _, d := range ds {
				if o, ok := byName[d.name]; ok && o.factory != d.factory {
					r.ViolateFn("C21.names", FnName(d.factory), d.factory.Pos(), "the name %s is registered for two drivers", d.name)
				}
				byName[d.name] = d
			}
			done := map[string]bool{}
			var names []string
			for n := range vcsNames {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				d, ok := byName[n]
				if !ok {
					r.ViolateFn("C21.names", "vcs", 0, "no driver is registered for %s", n)
					continue
				}
				r.SeenAt("driver by name", n)
				for _, t := range d.types {
					k := vcsNames[n] + "|" + t.String()
					if done[k] {
						continue
					}
					done[k] = true
					r.driverRule(vcsNames[n], t)
					r.factoryRule(d.factory, t)
				}
				if len(d.types) == 0 {
					r.Undecided("the driver made for %s is unknown", n)
				}
			}
			r.newDriverRule()
			r.pullOrCloneRule()
			r.Need("driver by name", 7)
			r.Need("command run", 13)
			r.Need("revision reported", 9)
			r.Need("driver made", 1)
			r.Need("update or clone", 1)
			r.Need("file hashed", 1)
		})
	r.Assume = []string{"the version control tools do what their manuals say, and exit with an error when they fail"}
}

// cmdText: the tool and the constants of a command.
type cmdSite struct {
	tool string
	verb string
	at   ssa.Instruction
}

// flattened argument list of a slice value, as far as known
func (r *Report) sliceArgs(s *eng.State, v *eng.Val, depth int) []*eng.Val {
	m := mon(s)
	if depth > 4 {
		return []*eng.Val{v}
	}
	var out []*eng.Val
	vs := variadic(s, v)
	if len(vs) > 1 {
		return vs[1:]
	}
	for _, k := range m.Rel2("app", v) {
		out = append(out, r.sliceArgs(s, k, depth+1)...)
	}
	if len(out) == 0 && v.T != nil {
		if _, ok := v.T.Underlying().(*types.Slice); !ok {
			return []*eng.Val{v}
		}
	}
	return out
}

// Rel2 lists what a is related to.
func (m *M) Rel2(n string, a *eng.Val) []*eng.Val {
	var out []*eng.Val
	for k := range m.Rel[n] {
		if k[0] == a {
			out = append(out, k[1])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func (r *Report) driverRule(toolName string, t types.Type) {
	tool := vcsTools[toolName]
	for _, meth := range []string{"HeadRev", "Pull", "Clone"} {
		f := r.methodOfType(t, meth)
		if f == nil {
			continue
		}
		if tool == nil {
			r.localRule(meth, f)
			continue
		}
		r.driverMethod(toolName, tool, meth, f)
	}
}

func (r *Report) driverMethod(toolName string, tool *vcsTool, meth string, f *ssa.Function) {
	in := r.P.In
	param := func(i int) *eng.Val {
		if i >= len(f.Params) {
			return nil
		}
		return in.Param(f, f.Params[i].Name(), i, f.Params[i].Type())
	}
	recv, dir, url := param(0), param(1), param(2)
	steps := tool.pull
	if meth == "Clone" {
		steps = tool.clone
	}
	if meth == "HeadRev" {
		steps = nil
	}
	what := map[string]string{"HeadRev": "reading the revision", "Pull": "an update", "Clone": "a clone"}[meth]
	var sites []cmdSite
	idx := map[string]int{}
	siteOf := func(c cmdSite) int {
		k := fmt.Sprintf("%p|%s|%s", c.at, c.tool, c.verb)
		if i, ok := idx[k]; ok {
			return i
		}
		idx[k] = len(sites)
		sites = append(sites, c)
		return len(sites) - 1
	}
	text := func(i int) string {
		if sites[i].tool == "" {
			return calleeText(sites[i].at)
		}
		return strings.TrimSpace(sites[i].tool + " " + sites[i].verb)
	}
	bad := func(rule string, at ssa.Instruction, format string, a ...interface{}) {
		r.Violate(rule, at, format, a...)
	}
	consts := func(m *M, cmd *eng.Val) map[string]bool {
		out := map[string]bool{}
		for _, a := range m.Rel2("arg", cmd) {
			if c, ok := a.Strip().Str(); ok {
				out[c] = true
			}
		}
		return out
	}
	isQuery := func(m *M, cmd *eng.Val, name string) bool {
		cs := consts(m, cmd)
		cs[name] = true
		for _, q := range tool.queries {
			ok := true
			for _, w := range q {
				ok = ok && cs[w]
			}
			if ok {
				return true
			}
		}
		return false
	}
	// the reference an update concerns
	checkRef := func(s *eng.State, at ssa.Instruction, verb string, cmd *eng.Val) {
		m := mon(s)
		rf, df := r.optField(recv.T, "ref"), r.optField(recv.T, "detect-ref")
		if rf == "" {
			return
		}
		var leaves []*eng.Val
		head := false
		for _, a := range m.Rel2("arg", cmd) {
			if c, ok := a.Strip().Str(); ok && c == "FETCH_HEAD" && verb != "fetch" {
				head = true
			}
			leaves = append(leaves, r.refLeaves(a)...)
		}
		if head && len(leaves) == 0 {
			return
		}
		if len(leaves) == 0 {
			bad("C21.ref", at, "git %s may not concern the configured reference", verb)
			return
		}
		ref := r.fieldContent(s, recv, rf).Strip()
		var det *eng.Val
		if df != "" {
			det = r.fieldContent(s, recv, df)
		}
		for _, l := range leaves {
			ok := false
			c, isC := l.Str()
			switch emptyStr(s, ref) {
			case eng.False:
				ok = l == ref
			case eng.True:
				switch {
				case det != nil && s.Decide(det) == eng.False:
					ok = isC && c == "master"
				case det != nil && s.Decide(det) == eng.True:
					ok = isC && c == "master" && m.Flags["tried"] == 1 || !isC && m.has("detected", l) || !isC && r.fromDetected(m, l)
				}
			}
			if !ok {
				bad("C21.ref", at, "git %s may concern another reference than the one configured, detected or default", verb)
			}
			if verb == "fetch" {
				m.put("fref", l, 1)
			} else if !m.has("fref", l) {
				bad("C21.ref", at, "the working directory may be reset to another reference than the one fetched")
			}
		}
	}
	derived := func(m *M, v *eng.Val) (int, bool) {
		k, ok := -1, false
		v.Any(func(x *eng.Val) bool {
			if m.has("from", x) {
				k, ok = m.get("from", x), true
				return true
			}
			return false
		})
		return k, ok
	}
	prune := func(s *eng.State) {
		m := mon(s)
		for _, v := range m.members("err") {
			if s.Nilness(v) == eng.True {
				m.del("err", v)
			}
		}
	}
	ptrT := func(v *eng.Val) bool {
		if v.T == nil {
			return false
		}
		switch v.T.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			return true
		}
		return false
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			prune(s)
			return eng.Default
		},
		OnAppend: func(s *eng.State, base, res *eng.Val, elems []*eng.Val, at eng.Site) {
			m := mon(s)
			for _, a := range r.sliceArgs(s, base, 0) {
				m.rel("app", res, a)
			}
			for _, a := range elems {
				for _, b := range r.sliceArgs(s, a, 0) {
					m.rel("app", res, b)
				}
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			prune(s)
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			k := -1
			switch c.Name {
			case "os/exec.Command", "os/exec.CommandContext":
				args := c.Args
				if strings.HasSuffix(c.Name, "Context") {
					args = args[1:]
				}
				r.Seen("command made", c.Instr)
				name, ok := args[0].Strip().Str()
				if !ok || !tool.cmds[name] {
					bad("C21.tool", c.Instr, "a command other than that of the driver may be run for a %s repository", toolName)
				}
				var list []*eng.Val
				for _, a := range args[1:] {
					list = append(list, r.sliceArgs(s, a, 0)...)
				}
				verb := ""
				for _, a := range list {
					if cs, ok := a.Strip().Str(); ok && verb == "" && !strings.HasPrefix(cs, "-") {
						verb = cs
					}
					m.rel("arg", res, a)
					// the directory after an option naming it
				}
				for i := 0; i+1 < len(list); i++ {
					if cs, ok := list[i].Strip().Str(); ok && (cs == "-C" || cs == "-R" || cs == "--repository" || cs == "--cwd" || cs == "-d") {
						m.rel("cwd", res, list[i+1])
					}
				}
				m.put("cmd", res, siteOf(cmdSite{name, verb, c.Instr}))
				return nil
			case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
				cmd := c.Args[0]
				if !m.has("cmd", cmd) {
					r.Undecided("a command run for a %s repository is unknown", toolName)
					return nil
				}
				k = m.get("cmd", cmd)
				cs := sites[k]
				r.SeenAt("command run", FnName(f)+": "+text(k))
				// where it runs
				d := r.fieldContent(s, cmd, "Dir")
				if d != nil {
					d = d.Strip()
				}
				inDir := d == dir
				for _, w := range m.Rel2("cwd", cmd) {
					inDir = inDir || w.Strip() == dir
				}
				mkURL, hasDir, hasBase := false, false, false
				for _, a := range m.Rel2("arg", cmd) {
					as := a.Strip()
					mkURL = mkURL || url != nil && as.Any(func(v *eng.Val) bool { return v == url })
					hasDir = hasDir || as == dir
					hasBase = hasBase || isBaseOf(as, dir)
				}
				if tool.dirArg && hasDir && !mkURL {
					inDir = true
				}
				step := -1
				for i, alts := range steps {
					for _, a := range alts {
						if cs.verb == a {
							step = i
						}
					}
				}
				first := meth == "Clone" && step == 0
				switch {
				case first:
					if !mkURL {
						bad("C21.url", cs.at, "%s may not use the URL of the repository", text(k))
					}
					if !(hasDir || hasBase && d != nil && isParentOf(d, dir)) {
						bad("C21.dir", cs.at, "%s may not create the directory given", text(k))
					}
				case !inDir:
					bad("C21.dir", cs.at, "%s may run in another directory than the one given", text(k))
				}
				if step >= 0 {
					if m.Flags["step"] == step || step < m.Flags["step"] {
						if step == m.Flags["step"] {
							m.Flags["step"] = step + 1
						}
					} else {
						bad("C21.steps", cs.at, "%s may be run before what has to precede it", text(k))
					}
					// what was printed before does not count any more
					m.clear("from")
					if toolName == "git" && cs.verb == "fetch" || toolName == "git" && (cs.verb == "reset" || cs.verb == "checkout") {
						checkRef(s, cs.at, cs.verb, cmd)
					}
					if toolName == "git" && cs.verb == "reset" && !consts(m, cmd)["--hard"] {
						bad("C21.steps", cs.at, "git reset may leave changed files")
					}
					if toolName == "git" && cs.verb == "checkout" && !(consts(m, cmd)["-f"] || consts(m, cmd)["--force"]) {
						bad("C21.steps", cs.at, "git checkout may leave changed files")
					}
					if toolName == "hg" && cs.verb == "pull" && (consts(m, cmd)["-u"] || consts(m, cmd)["--update"]) {
						m.Flags["updated"] = 1
					}
				} else if toolName == "hg" && (cs.verb == "update" || cs.verb == "up") {
					m.Flags["updated"] = 1
					m.clear("from")
				}
				if isQuery(m, cmd, cs.tool) {
					m.put("query", cmd, 1)
				}
				// what it prints
				for _, fld := range []string{"Stdout"} {
					if o := r.fieldContent(s, cmd, fld); o != nil && s.Nilness(o) != eng.True && m.has("query", cmd) {
						m.put("from", o.Strip(), k)
						if o.Kind == eng.KIface {
							m.put("from", o.Args[0].Strip(), k)
						}
					}
				}
				for _, p := range m.Rel2("pipe", cmd) {
					if m.has("query", cmd) {
						m.put("from", p, k)
					}
				}
				if strings.HasSuffix(c.Name, "utput") && m.has("query", cmd) {
					m.put("from", in.Extract(res, 0, types.NewSlice(types.Typ[types.Byte])), k)
				}
				if isDetect(consts(m, cmd)) {
					m.Flags["tried"] = 1
				}
				if strings.HasSuffix(c.Name, "utput") && isDetect(consts(m, cmd)) {
					m.put("detected", in.Extract(res, 0, types.NewSlice(types.Typ[types.Byte])), 1)
				}
			case "(*os/exec.Cmd).StdoutPipe":
				if len(m.Rel2("pipe", c.Args[0])) == 0 {
					m.rel("pipe", c.Args[0], in.Extract(res, 0, r.pipeT(c)))
				}
			case "(*os/exec.Cmd).Wait":
				if m.has("cmd", c.Args[0]) {
					k = m.get("cmd", c.Args[0])
				}
			default:
				// what is made of the output
				args := callArgs(s, c)
				if j, ok := -1, false; true {
					det := false
					for _, a := range args {
						if a == nil {
							continue
						}
						if i, o := derived(m, a); o {
							j, ok = i, true
						}
						det = det || r.fromDetected(m, a)
					}
					if ok && c.Invoke == nil || ok && !strings.HasSuffix(c.Name, "Close") {
						if res != nil {
							m.put("from", res, j)
							for i := 0; i < 2; i++ {
								if t := resultAt(c, i); t != nil && !isErrorT(t) && resultCount(c) > 1 {
									m.put("from", in.Extract(res, i, t), j)
								}
							}
						}
						for _, a := range args {
							if a != nil && ptrT(a) && !strings.HasPrefix(c.Name, "log.") {
								m.put("from", a.Strip(), j)
								if a.Strip().Kind == eng.KIface {
									m.put("from", a.Strip().Args[0].Strip(), j)
								}
							}
						}
					}
					if det && res != nil {
						m.put("detected", res, 1)
					}
				}
			}
			if c.Defer || !r.mayFailInstr(c.Instr) {
				return nil
			}
			call, ok := c.Instr.(*ssa.Call)
			if !ok {
				return nil
			}
			r.Seen("call which may fail", c.Instr)
			v := res
			if n := call.Call.Signature().Results().Len(); n > 1 {
				v = in.Extract(res, n-1, call.Call.Signature().Results().At(n-1).Type())
			}
			if s.Nilness(v) == eng.True {
				return nil
			}
			if strings.HasPrefix(c.Name, "(*os/exec.Cmd).") && m.has("cmd", c.Args[0]) && isDetect(consts(m, c.Args[0])) {
				return nil // a reference which cannot be detected is the default one
			}
			if k < 0 {
				k = siteOf(cmdSite{at: c.Instr})
			}
			m.put("err", v, k)
			return nil
		},
	})
	x.OpaqueFn = func(g *ssa.Function) bool { return r.P.RelPkg(g) != "vcs" }
	x.Lim, x.FactLim = 16, 16
	for _, e := range x.Run(f, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 2 {
			continue
		}
		prune(e.S)
		res := e.Results[1]
		if e.S.Nilness(res) == eng.False {
			continue
		}
		m := mon(e.S)
		for _, v := range m.members("err") {
			if v != res {
				i := m.get("err", v)
				r.ViolateFn("C21.error", FnName(f), sites[i].at.Pos(), "%s may be reported as successful although %s failed", what, text(i))
			}
		}
		r.SeenAt("revision reported", FnName(f))
		if m.Flags["step"] < len(steps) {
			r.ViolateFn("C21.steps", FnName(f), f.Pos(), "%s may be reported as successful without %s", what, strings.Join(steps[m.Flags["step"]], " or "))
		}
		if toolName == "hg" && meth == "Pull" && m.Flags["updated"] == 0 {
			r.ViolateFn("C21.steps", FnName(f), f.Pos(), "%s may be reported as successful without updating the files", what)
		}
		if _, ok := derived(m, e.Results[0]); !ok {
			r.ViolateFn("C21.rev", FnName(f), f.Pos(), "the revision reported may not be what the query of the tool printed for the directory, after all changes to it")
		}
	}
	r.Absorb(x, FnName(f))
}

func isDetect(cs map[string]bool) bool {
	return cs["remote"] && cs["show"] || cs["ls-remote"] || cs["symbolic-ref"]
}

func (r *Report) fromDetected(m *M, v *eng.Val) bool {
	return v.Any(func(x *eng.Val) bool { return m.has("detected", x) })
}

func resultCount(c *eng.Call) int {
	if c.Instr == nil {
		return 0
	}
	return c.Instr.Common().Signature().Results().Len()
}

func resultAt(c *eng.Call, i int) types.Type {
	if i >= resultCount(c) {
		return nil
	}
	return c.Instr.Common().Signature().Results().At(i).Type()
}

func (r *Report) pipeT(c *eng.Call) types.Type { return resultAt(c, 0) }

// refLeaves are the strings a reference specification is put together from.
func (r *Report) refLeaves(v *eng.Val) []*eng.Val {
	v = v.Strip()
	if v.Kind == eng.KIface {
		v = v.Args[0].Strip()
	}
	master := r.P.In.Const(constant.MakeString("master"), types.Typ[types.String])
	if anyPure(v, "fmt.Sprintf") {
		var out []*eng.Val
		for _, a := range v.Args[0].Args[1:] {
			a = a.Strip()
			if a.Kind == eng.KIface {
				a = a.Args[0].Strip()
			}
			switch c, ok := a.Str(); {
			case ok && c == "master":
				a = master
			case ok && c == "origin":
				continue
			}
			out = append(out, a)
		}
		return out
	}
	if v.Kind == eng.KBin && v.Op == "+" {
		var out []*eng.Val
		for _, a := range v.Args {
			out = append(out, r.refLeaves(a)...)
		}
		return out
	}
	if c, ok := v.Str(); ok {
		if c == "master" || strings.HasSuffix(c, "/master") {
			return []*eng.Val{master}
		}
		return nil
	}
	return []*eng.Val{v}
}

func isBaseOf(v, dir *eng.Val) bool {
	if anyPure(v, "path/filepath.Base") && v.Args[0].Args[0].Strip() == dir {
		return true
	}
	return v.Kind == eng.KExtract && v.Idx == 1 && anyPure(v.Args[0], "path/filepath.Split") && v.Args[0].Args[0].Args[0].Strip() == dir
}

func isParentOf(v, dir *eng.Val) bool {
	if anyPure(v, "path/filepath.Dir") && v.Args[0].Args[0].Strip() == dir {
		return true
	}
	return v.Kind == eng.KExtract && v.Idx == 0 && anyPure(v.Args[0], "path/filepath.Split") && v.Args[0].Args[0].Args[0].Strip() == dir
}

// factoryRule: a driver with options has those of the configuration it is
// made from.
func (r *Report) factoryRule(f *ssa.Function, t types.Type) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	opts := 0
	for i := 0; i < st.NumFields(); i++ {
		if strings.Contains(st.Tag(i), "json:") {
			opts++
		}
	}
	if opts == 0 {
		return
	}
	in := r.P.In
	cfg := in.Param(f, f.Params[0].Name(), 0, f.Params[0].Type())
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if c.Name == "encoding/json.Unmarshal" {
				dst := c.Args[1].Strip()
				if dst.Kind == eng.KIface {
					dst = dst.Args[0].Strip()
				}
				if c.Args[0].Strip() == cfg {
					mon(s).put("dst", dst, 1)
				}
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			if c.Name == "encoding/json.Unmarshal" {
				mon(s).put("err", res, 1)
			}
			return nil
		},
	})
	for _, e := range x.Run(f, newM()) {
		if e.Kind != eng.ExRet || e.S.Nilness(e.Results[1]) == eng.False {
			continue
		}
		m := mon(e.S)
		for _, v := range m.members("err") {
			if e.S.Nilness(v) != eng.True && v != e.Results[1] {
				r.ViolateFn("C21.config", FnName(f), f.Pos(), "a configuration which cannot be parsed may be ignored")
			}
		}
		d := e.Results[0].Strip()
		if d.Kind == eng.KIface {
			d = d.Args[0].Strip()
		}
		if e.S.Nilness(cfg) != eng.True {
			if lo, hi := e.S.Interval(in.Un("len", cfg, intT)); lo == 0 && hi == 0 {
				continue
			}
			if !m.has("dst", d) {
				r.ViolateFn("C21.config", FnName(f), f.Pos(), "the driver may not have the options of the configuration given")
			}
		}
	}
	r.SeenAt("options decoded", FnName(f))
	// and keeps them
	making := r.P.Reach(f)
	for _, g := range r.P.Funcs {
		if making[g] || r.P.RelPkg(g) != "vcs" {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				w, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := w.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), t) || !strings.Contains(st.Tag(fa.Field), "json:") {
					continue
				}
				if _, copied := fa.X.(*ssa.Alloc); !copied {
					r.Violate("C21.config", i, "an option of a driver may be changed after the driver was made")
				}
			}
		}
	}
	r.Absorb(x, FnName(f))
}

// newDriverRule: the driver made is the one registered under the name, with
// the configuration given.
func (r *Report) newDriverRule() {
	f := r.P.Func("vcs", "New")
	if f == nil {
		r.Undecided("vcs.New not found")
		return
	}
	in := r.P.In
	name := in.Param(f, f.Params[0].Name(), 0, f.Params[0].Type())
	cfg := in.Param(f, f.Params[1].Name(), 1, f.Params[1].Type())
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if c.Fn == nil && c.Invoke == nil && c.FnVal != nil && len(c.Args) == 1 {
				fv := c.FnVal.Strip()
				ok := fv.Kind == eng.KLoad && fv.Args[0].Kind == eng.KElem && fv.Args[0].Args[1].Strip() == name
				if !ok {
					r.Violate("C21.names", c.Instr, "a driver may be made by another factory than the one registered under its name")
				}
				if c.Args[0].Strip() != cfg {
					r.Violate("C21.config", c.Instr, "a driver may be made with another configuration than the one given")
				}
				if s.Nilness(c.FnVal) != eng.False {
					r.Violate("C21.names", c.Instr, "the name of a driver may not be checked")
				}
				r.Seen("driver made", c.Instr)
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			if c.Fn == nil && c.Invoke == nil && len(c.Args) == 1 && resultCount(c) == 2 {
				mon(s).put("made", in.Extract(res, 0, resultAt(c, 0)), 1)
				mon(s).put("err", in.Extract(res, 1, resultAt(c, 1)), 1)
			}
			return nil
		},
	})
	x.OpaqueDyn = func(*ssa.Function) bool { return true }
	for _, e := range x.Run(f, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 2 || e.S.Nilness(e.Results[1]) == eng.False {
			continue
		}
		m := mon(e.S)
		for _, v := range m.members("err") {
			if e.S.Nilness(v) != eng.True && v != e.Results[1] {
				r.ViolateFn("C21.error", FnName(f), f.Pos(), "a driver which could not be made may be used")
			}
		}
		d := r.fieldContent(e.S, e.Results[0], "Driver")
		if d == nil || !m.has("made", d.Strip()) {
			r.ViolateFn("C21.names", FnName(f), f.Pos(), "the driver returned may not be the one made")
		}
	}
	r.Absorb(x, FnName(f))
}

// pullOrCloneRule: a directory which exists is updated, one which does not is
// made, and the outcome is passed on.
func (r *Report) pullOrCloneRule() {
	f := r.P.Method("vcs", "WorkDir", "PullOrClone")
	if f == nil {
		r.Undecided("PullOrClone not found")
		return
	}
	in := r.P.In
	dir := in.Param(f, f.Params[1].Name(), 1, f.Params[1].Type())
	url := in.Param(f, f.Params[2].Name(), 2, f.Params[2].Type())
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if c.Invoke != nil && strings.HasSuffix(c.Invoke.FullName(), "/vcs.Driver)."+c.Invoke.Name()) {
				return eng.Opaque
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if c.Name == "os.Stat" || c.Name == "os.Lstat" {
				if c.Args[0].Strip() == dir {
					m.put("stat", in.Extract(res, 1, resultAt(c, 1)), 1)
				}
			}
			if c.Invoke == nil {
				return nil
			}
			n := c.Invoke.Name()
			if n != "Pull" && n != "Clone" {
				return nil
			}
			r.Seen("update or clone", c.Instr)
			if c.Args[1].Strip() != dir || n == "Clone" && c.Args[2].Strip() != url {
				r.Violate("C21.dir", c.Instr, "another directory or URL than the one given may be used")
			}
			ok := false
			for _, v := range m.members("stat") {
				if n == "Pull" && s.Nilness(v) == eng.True || n == "Clone" && s.Nilness(v) == eng.False {
					ok = true
				}
			}
			if !ok {
				r.Violate("C21.choice", c.Instr, "%s may be called although the working directory does not call for it", n)
			}
			m.put("rev", in.Extract(res, 0, resultAt(c, 0)), 1)
			m.put("err", in.Extract(res, 1, resultAt(c, 1)), 1)
			m.Flags[n]++
			return nil
		},
	})
	for _, e := range x.Run(f, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 2 || e.S.Nilness(e.Results[1]) == eng.False {
			continue
		}
		m := mon(e.S)
		for _, v := range m.members("err") {
			if e.S.Nilness(v) != eng.True && v != e.Results[1] {
				r.ViolateFn("C21.error", FnName(f), f.Pos(), "an update or clone which failed may be taken for a success")
			}
		}
		if !m.has("rev", e.Results[0].Strip()) {
			r.ViolateFn("C21.rev", FnName(f), f.Pos(), "the revision reported may not be the one of the update or clone")
		}
	}
	r.Absorb(x, FnName(f))
}

// localRule: directories used in place.
func (r *Report) localRule(meth string, f *ssa.Function) {
	in := r.P.In
	recv := in.Param(f, f.Params[0].Name(), 0, f.Params[0].Type())
	dir := in.Param(f, f.Params[1].Name(), 1, f.Params[1].Type())
	var url *eng.Val
	if len(f.Params) > 2 {
		url = in.Param(f, f.Params[2].Name(), 2, f.Params[2].Type())
	}
	hashers := map[*ssa.Function]bool{}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			switch c.Name {
			case "os/exec.Command":
				r.Violate("C21.tool", c.Instr, "a command may be run for a local directory")
			case "os.Symlink":
				r.SeenAt("local directory linked", FnName(f))
				m.Flags["linked"] = 1
				if url == nil || c.Args[1].Strip() != dir || !c.Args[0].Any(func(v *eng.Val) bool { return v == url }) || c.Args[0].Strip() == url {
					r.Violate("C21.dir", c.Instr, "the link made for a local directory may not lead from the directory given to the one of the URL")
				}
			}
			if strings.HasSuffix(c.Name, "dirhash.HashDir") || strings.HasSuffix(c.Name, "dirhash.Hash1") {
				a := c.Args[0].Strip()
				if a != dir && !m.has("target", a) {
					r.Violate("C21.dir", c.Instr, "another directory than the one given may be hashed")
				}
				for _, v := range c.Args {
					if w := v.Strip(); (w.Kind == eng.KFunc || w.Kind == eng.KClosure) && w.Fn != nil && r.P.InModule(w.Fn) {
						hashers[w.Fn] = true
					}
				}
				return eng.Opaque
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if (c.Name == "os.Readlink" || c.Name == "path/filepath.EvalSymlinks") && c.Args[0].Strip() == dir {
				m.put("target", in.Extract(res, 0, types.Typ[types.String]), 1)
			}
			if strings.HasSuffix(c.Name, "dirhash.HashDir") || strings.HasSuffix(c.Name, "dirhash.Hash1") {
				m.put("hash", in.Extract(res, 0, types.Typ[types.String]), 1)
				m.put("err", in.Extract(res, 1, resultAt(c, 1)), 1)
			}
			if c.Name == "os.Symlink" {
				m.put("err", res, 1)
			}
			return nil
		},
	})
	x.OpaqueFn = func(g *ssa.Function) bool { return r.P.RelPkg(g) != "vcs" }
	for _, e := range x.Run(f, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 2 || e.S.Nilness(e.Results[1]) == eng.False {
			continue
		}
		m := mon(e.S)
		for _, v := range m.members("err") {
			if e.S.Nilness(v) != eng.True && v != e.Results[1] {
				r.ViolateFn("C21.error", FnName(f), f.Pos(), "a failure may be taken for a success")
			}
		}
		r.SeenAt("revision reported", FnName(f))
		if meth == "Clone" && m.Flags["linked"] == 0 {
			r.ViolateFn("C21.steps", FnName(f), f.Pos(), "a local directory may be taken as linked without being linked")
		}
		rev := e.Results[0].Strip()
		w := r.optField(recv.T, "watch-changes")
		watch := eng.Unknown
		if w != "" {
			watch = e.S.Decide(r.fieldContent(e.S, recv, w))
		}
		switch {
		case watch == eng.False:
			if !rev.Any(func(v *eng.Val) bool { return v == dir }) || m.has("hash", rev) {
				r.ViolateFn("C21.rev", FnName(f), f.Pos(), "the revision of a local directory which is not watched may change")
			}
		default:
			if !m.has("hash", rev) {
				r.ViolateFn("C21.rev", FnName(f), f.Pos(), "the revision of a watched local directory may not be the hash of its files")
			}
		}
	}
	r.Absorb(x, FnName(f))
	if meth == "HeadRev" {
		for h := range hashers {
			r.hashRule(h)
		}
	}
}

// hashRule: the hash depends on the content and the name of every file.
func (r *Report) hashRule(f *ssa.Function) {
	r.errorsKept(f, "C21.error", "hashing a local directory", func(g *ssa.Function) bool { return r.P.RelPkg(g) == "vcs" }, nil)
	in := r.P.In
	derived := func(m *M, v *eng.Val) bool {
		return v.Any(func(x *eng.Val) bool { return m.has("data", x) })
	}
	isEl := func(m *M, v *eng.Val) bool {
		return v.Any(func(x *eng.Val) bool {
			return x.Kind == eng.KLoad && x.Args[0].Kind == eng.KIndex && x.T != nil && types.Identical(x.T.Underlying(), types.Typ[types.String])
		})
	}
	outside := func(m *M, v *eng.Val) bool { // made before the loop
		return m.has("acc", v.Strip())
	}
	done := func(m *M, at ssa.Instruction) {
		if m.Flags["in"] == 1 {
			if m.Flags["content"] == 0 {
				r.Violate("C21.hash", at, "the content of a file may not count for the revision of a watched local directory")
			}
			if m.Flags["name"] == 0 {
				r.Violate("C21.hash", at, "the name of a file may not count for the revision of a watched local directory")
			}
		}
		m.Flags["in"], m.Flags["content"], m.Flags["name"] = 0, 0, 0
		m.clear("data")
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			if at.Instr.Parent() != f {
				return
			}
			done(m, at.Instr)
			if more {
				m.Flags["in"] = 1
				r.Seen("file hashed", at.Instr)
			}
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if strings.HasSuffix(c.Name, "Close") {
				return nil
			}
			if res != nil && m.Flags["in"] == 0 && resultCount(c) == 1 && !isErrorT(resultAt(c, 0)) {
				m.put("acc", res.Strip(), 1)
			}
			args := callArgs(s, c)
			if c.Fn == nil && c.Invoke == nil && c.FnVal != nil {
				// the function which opens a file
				for _, a := range c.Args {
					if isEl(m, a) && resultCount(c) == 2 {
						m.put("data", in.Extract(res, 0, resultAt(c, 0)), 1)
					}
				}
				return nil
			}
			d, n := false, false
			for _, a := range args {
				if a == nil {
					continue
				}
				d = d || derived(m, a)
				n = n || isEl(m, a)
			}
			toAcc := false
			for _, a := range args {
				if a != nil && (outside(m, a) || a.Kind == eng.KIface && outside(m, a.Args[0])) {
					toAcc = true
				}
			}
			if toAcc && m.Flags["in"] == 1 {
				if d {
					m.Flags["content"] = 1
				}
				if n {
					m.Flags["name"] = 1
				}
				return nil
			}
			if d && m.Flags["in"] == 1 {
				if res != nil {
					m.put("data", res, 1)
				}
				for _, a := range args {
					if a == nil || a.T == nil {
						continue
					}
					switch a.T.Underlying().(type) {
					case *types.Pointer, *types.Interface:
						m.put("data", a.Strip(), 1)
						if a.Strip().Kind == eng.KIface {
							m.put("data", a.Strip().Args[0].Strip(), 1)
						}
					}
				}
			}
			return nil
		},
	})
	x.OpaqueDyn = func(*ssa.Function) bool { return true }
	for _, e := range x.Run(f, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 2 || e.S.Nilness(e.Results[1]) == eng.False {
			continue
		}
		done(mon(e.S), f.Blocks[0].Instrs[0])
	}
	r.Absorb(x, FnName(f))
}
