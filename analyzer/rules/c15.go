package rules

import (
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// what the handler of each documented address of the api has to reach, and
// what only it may reach.
var apiPatterns = map[string]string{
	"/api/v1/repos":          "",
	"/api/v1/search":         "Search",
	"/api/v1/excludes":       "GetExcludedFiles",
	"/api/v1/update":         "Update",
	"/api/v1/github-webhook": "Update",
}

func init() {
	r := register("C15", "Requests are served according to readiness",
		"path-sensitive dataflow over the server: the health check is answered with 200 before any lock or wait; without a multiplexer every other request gets 503 and nothing else, with one it is handed over unchanged, once; the multiplexer is installed under the lock and only with the user interface and the whole api registered on it; the command serves before it indexes and enables everything after; each documented address leads to a handler doing what it says",
		func(r *Report) {
			st := r.serverType()
			if st == nil {
				r.Undecided("server type of package web not found")
				return
			}
			r.serveRule(st)
			r.installRule(st)
			r.startRule(st)
			r.commandRule(st)
			r.routeRule()
			r.Need("health check answered", 1)
			r.Need("request refused as not ready", 1)
			r.Need("request handed over", 1)
			r.Need("multiplexer installed", 1)
			r.Need("server started", 1)
			r.Need("server fully enabled", 1)
			r.Need("address of the api", 5)
		})
	r.Assume = []string{"net/http dispatches to the handler registered for the path"}
}

// serverType is the type of package web which handles requests.
func (r *Report) serverType() *types.Named {
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) == "web" && f.Name() == "ServeHTTP" && f.Synthetic == "" && f.Signature.Recv() != nil {
			t := f.Signature.Recv().Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			n, _ := types.Unalias(t).(*types.Named)
			return n
		}
	}
	return nil
}

func isMuxT(t types.Type) bool {
	switch types.Unalias(t).String() {
	case "*net/http.ServeMux", "net/http.Handler", "sync/atomic.Value", "sync/atomic.Pointer[net/http.ServeMux]":
		return true
	}
	return false
}

// muxField: an address of the field of the server which holds its multiplexer.
func (r *Report) muxField(st *types.Named, a *eng.Val) bool {
	if a.Kind != eng.KField || !isMuxT(a.Fld.Type()) {
		return false
	}
	t := a.Args[0].T
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n == st
}

func isAtomicT(t types.Type) bool {
	return strings.HasPrefix(types.Unalias(t).String(), "sync/atomic.")
}

// lockedFor: a lock of the object is held (2: for writing).
func lockedFor(s *eng.State, obj *eng.Val, want int) bool {
	m := mon(s)
	for _, l := range m.members("lock") {
		if b, _ := lockBase(l); b == obj && m.get("lock", l) >= want {
			return true
		}
	}
	return false
}

func (r *Report) serveRule(st *types.Named) {
	f := r.methodOfType(types.NewPointer(st), "ServeHTTP")
	if f == nil {
		r.Undecided("ServeHTTP of the server not found")
		return
	}
	in := r.P.In
	recv := in.Param(f, f.Params[0].Name(), 0, f.Params[0].Type())
	w := in.Param(f, f.Params[1].Name(), 1, f.Params[1].Type())
	req := in.Param(f, f.Params[2].Name(), 2, f.Params[2].Type())
	isPath := func(s *eng.State, v *eng.Val) bool {
		u := r.fieldContent(s, req, "URL")
		return u != nil && v.Strip() == r.fieldContent(s, u, "Path").Strip()
	}
	isURI := func(v *eng.Val) bool {
		v = v.Strip()
		if v.Kind != eng.KLoad || v.Args[0].Kind != eng.KField {
			return false
		}
		s, opt := r.cfgField(v.Args[0].Args[0].T, v.Args[0].Fld.Name())
		return s == "Config" && opt == "health-check-uri"
	}
	health := func(m *M) eng.Tri {
		switch m.Flags["health"] {
		case 1:
			return eng.True
		case 2:
			return eng.False
		}
		return eng.Unknown
	}
	waits := func(s *eng.State, at ssa.Instruction) {
		if health(mon(s)) != eng.False {
			r.Violate("C15.health", at, "the health check may have to wait")
		}
	}
	isMux := func(s *eng.State, v *eng.Val) bool {
		v = v.Strip()
		if v.Kind == eng.KIface {
			v = v.Args[0].Strip()
		}
		if mon(s).has("mux", v) {
			return true
		}
		return v.Any(func(x *eng.Val) bool { return mon(s).has("mux", x) })
	}
	status := func(s *eng.State, n int64, at ssa.Instruction) {
		m := mon(s)
		if m.Flags["begun"] == 1 {
			return
		}
		m.Flags["begun"], m.Flags["status"] = 1, int(n)
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if k, _ := trackLocks(m, c); k == lkLock || k == lkRLock {
				waits(s, c.Instr)
			}
			args := callArgs(s, c)
			switch {
			case strings.HasSuffix(c.Name, ".ServeHTTP") && len(args) == 3 && (c.Invoke != nil || c.Fn != nil && !r.P.InModule(c.Fn)):
				r.Seen("request handed over", c.Instr)
				if health(m) != eng.False {
					r.Violate("C15.health", c.Instr, "the health check may be handled by something else than the server itself")
				}
				if !isMux(s, args[0]) || s.Nilness(args[0]) == eng.True || m.Flags["ready"] == 0 && s.Nilness(args[0]) != eng.False {
					r.Violate("C15.handover", c.Instr, "a request may be handed to a multiplexer which is not there yet")
				}
				if args[1].Strip() != w || args[2].Strip() != req {
					r.Violate("C15.handover", c.Instr, "another request or response may be handed over than the one at hand")
				}
				if m.Flags["handed"] == 1 || m.Flags["begun"] == 1 {
					r.Violate("C15.handover", c.Instr, "a request may be answered twice")
				}
				m.Flags["handed"] = 1
				return eng.Opaque
			case c.Name == "net/http.Error" && args[0].Strip() == w:
				n, _ := args[2].Strip().IntVal()
				if m.Flags["handed"] == 1 || m.Flags["begun"] == 1 {
					r.Violate("C15.handover", c.Instr, "a request may be answered twice")
				}
				status(s, n, c.Instr)
				m.Flags["body"] = 1
			case c.Name == "(net/http.ResponseWriter).WriteHeader" && args[0].Strip() == w:
				n, _ := args[1].Strip().IntVal()
				if m.Flags["handed"] == 1 {
					r.Violate("C15.handover", c.Instr, "a request may be answered twice")
				}
				status(s, n, c.Instr)
			case c.Name == "(net/http.ResponseWriter).Header":
			case c.Fn == nil || !r.P.InModule(c.Fn):
				for _, a := range args {
					a = a.Strip()
					if a.Kind == eng.KIface {
						a = a.Args[0].Strip()
					}
					if a == w {
						if m.Flags["handed"] == 1 {
							r.Violate("C15.handover", c.Instr, "a request may be answered twice")
						}
						status(s, 200, c.Instr)
						m.Flags["body"] = 1
					}
				}
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			m := mon(s)
			if strings.HasPrefix(c.Name, "(*sync/atomic.") && strings.HasSuffix(c.Name, ".Load") && r.muxField(st, c.Args[0].Strip()) {
				m.put("mux", res, 1)
			}
			return nil
		},
		OnLoad: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			if r.muxField(st, addr) && !isAtomicT(addr.Fld.Type()) {
				if !lockedFor(s, addr.Args[0], 1) {
					r.Violate("C15.lock", at.Instr, "the multiplexer may be read while it is being installed")
				}
				mon(s).put("mux", v.Strip(), 1)
			}
		},
		OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if blocking {
				waits(s, at.Instr)
				if mon(s).Flags["handed"] == 0 {
					r.Violate("C15.wait", at.Instr, "a request may have to wait instead of being refused")
				}
			}
		},
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if blocking {
				waits(s, at.Instr)
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			for cond.Kind == eng.KUn && cond.Op == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Kind == eng.KBin && cond.Op == "==" {
				a, b := cond.Args[0], cond.Args[1]
				if isPath(s, a) && isURI(b) || isPath(s, b) && isURI(a) {
					m.Flags["health"] = 2
					if taken {
						m.Flags["health"] = 1
					}
				}
			}
			for _, v := range m.members("mux") {
				switch s.Nilness(v) {
				case eng.True:
					m.Flags["notready"] = 1
				case eng.False:
					m.Flags["ready"] = 1
				}
			}
		},
	})
	_ = recv
	x.OpaqueFn = func(g *ssa.Function) bool { return r.P.RelPkg(g) != "web" }
	for _, e := range x.Run(f, newM()) {
		if e.Kind != eng.ExRet {
			continue
		}
		m := mon(e.S)
		if len(m.members("lock")) > 0 {
			r.ViolateFn("C15.lock", FnName(f), f.Pos(), "the lock of the server may be kept after a request")
		}
		switch {
		case health(m) == eng.True:
			r.SeenAt("health check answered", FnName(f))
			if m.Flags["handed"] == 1 || m.Flags["status"] != 200 || m.Flags["body"] == 0 {
				r.ViolateFn("C15.health", FnName(f), f.Pos(), "the health check may not be answered with status 200")
			}
		case health(m) == eng.Unknown:
			r.ViolateFn("C15.health", FnName(f), f.Pos(), "a request may be answered without finding out whether it is the health check")
		case m.Flags["ready"] == 1 && m.Flags["notready"] == 0:
			if m.Flags["handed"] == 0 {
				r.ViolateFn("C15.handover", FnName(f), f.Pos(), "a request may not be handed over although the server is ready")
			}
		default:
			r.SeenAt("request refused as not ready", FnName(f))
			if m.Flags["status"] != 503 || m.Flags["body"] == 0 || m.Flags["handed"] == 1 {
				r.ViolateFn("C15.refuse", FnName(f), f.Pos(), "a request may not be refused with status 503 although the server is not ready")
			}
		}
	}
	r.Absorb(x, FnName(f))
}

// uiContent: makes the handler of the user interface.
func (r *Report) uiContent(f *ssa.Function) bool {
	return f != nil && r.P.RelPkg(f) == "ui" && f.Parent() == nil && f.Signature.Recv() == nil && f.Signature.Results().Len() == 2 && f.Signature.Results().At(0).Type().String() == "net/http.Handler"
}

// installRule: when and with what the server is fully enabled.
func (r *Report) installRule(st *types.Named) {
	in := r.P.In
	apis := map[*ssa.Function]bool{}
	for _, f := range r.apiRoots() {
		apis[f] = true
	}
	roots := r.roots(func(f *ssa.Function) bool {
		return mentions(f, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && apis[ci.Common().StaticCallee()]
		})
	}, "web")
	if len(roots) == 0 {
		r.Undecided("nothing in package web sets up the api")
		return
	}
	for _, root := range roots {
		root := root
		var idx, recv *eng.Val
		for i, p := range root.Params {
			if r.isSearcherMap(p.Type()) {
				idx = in.Param(root, p.Name(), i, p.Type())
			}
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Unalias(pt.Elem()) == types.Type(st) {
				recv = in.Param(root, p.Name(), i, p.Type())
			}
		}
		if recv == nil {
			continue
		}
		isHandler := func(m *M, v *eng.Val) bool {
			v = v.Strip()
			if v.Kind == eng.KClosure && len(v.Args) == 1 && v.Fn != nil && strings.HasPrefix(v.Fn.Synthetic, "bound method") && v.Fn.Name() == "ServeHTTP$bound" {
				v = v.Args[0].Strip()
			}
			return m.has("ui", v) || v.Kind == eng.KIface && m.has("ui", v.Args[0].Strip())
		}
		install := func(s *eng.State, obj, v *eng.Val, at ssa.Instruction) {
			m := mon(s)
			v = v.Strip()
			if v.Kind == eng.KIface {
				v = v.Args[0].Strip()
			}
			r.Seen("multiplexer installed", at)
			if !m.has("hasui", v) {
				r.Violate("C15.install", at, "the server may be enabled without its user interface")
			}
			if !m.has("hasapi", v) {
				r.Violate("C15.install", at, "the server may be enabled without its api")
			}
			for _, e := range m.members("err") {
				if s.Nilness(e) != eng.True {
					r.Violate("C15.install", at, "the server may be enabled although its user interface could not be made")
				}
			}
			m.Flags["installed"] = 1
			m.put("live", v, 1)
			if obj != recv {
				r.Violate("C15.install", at, "another server may be enabled than the one at hand")
			}
		}
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				trackLocks(m, c)
				switch {
				case apis[c.Fn]:
					mux := c.Args[0].Strip()
					if m.has("live", mux) {
						r.Violate("C15.install", c.Instr, "the api may be registered while requests are already served")
					}
					ok := false
					for _, a := range c.Args[1:] {
						if a.Strip() == idx {
							ok = true
						}
					}
					if !ok {
						r.Violate("C15.install", c.Instr, "the api may serve other searchers than the ones given")
					}
					m.put("hasapi", mux, 1)
					return eng.Opaque
				case c.Name == "(*net/http.ServeMux).Handle" || c.Name == "(*net/http.ServeMux).HandleFunc":
					if m.has("live", c.Args[0].Strip()) {
						r.Violate("C15.install", c.Instr, "a handler may be registered while requests are already served")
					}
					if len(c.Args) == 3 {
						if p, ok := strConst(c.Args[1]); ok && p == "/" && isHandler(m, c.Args[2]) {
							m.put("hasui", c.Args[0].Strip(), 1)
						}
					}
				case strings.HasPrefix(c.Name, "(*sync/atomic.") && (strings.HasSuffix(c.Name, ".Store") || strings.HasSuffix(c.Name, ".Swap")) && r.muxField(st, c.Args[0].Strip()):
					install(s, c.Args[0].Strip().Args[0], c.Args[1], c.Instr)
				case r.uiContent(c.Fn):
					return eng.Opaque
				}
				return eng.Default
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				if r.uiContent(c.Fn) {
					mon(s).put("ui", in.Extract(res, 0, resultAt(c, 0)), 1)
					mon(s).put("err", in.Extract(res, 1, resultAt(c, 1)), 1)
				}
				return nil
			},
			OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
				if r.muxField(st, addr) && !isAtomicT(addr.Fld.Type()) {
					if !lockedFor(s, addr.Args[0], 2) {
						r.Violate("C15.lock", at.Instr, "the multiplexer may be installed while a request reads it")
					}
					install(s, addr.Args[0], v, at.Instr)
				}
			},
			OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
				m := mon(s)
				if blocking {
					if m.Flags["installed"] == 0 {
						r.Violate("C15.install", at.Instr, "the server may wait for its end without being enabled")
					}
					if len(m.members("lock")) > 0 {
						r.Violate("C15.lock", at.Instr, "the lock of the server may be held while it runs")
					}
				}
				m.put("end", v, 1)
			},
		})
		x.OpaqueFn = func(g *ssa.Function) bool { return r.P.RelPkg(g) != "web" }
		for g := range r.P.Reach(root) {
			if r.P.RelPkg(g) != "web" {
				continue
			}
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if sel, ok := i.(*ssa.Select); ok && sel.Blocking && len(sel.States) == 0 {
						r.Violate("C15.end", i, "the server may wait for ever without its end being reported")
					}
				}
			}
		}
		for _, e := range x.Run(root, newM()) {
			if e.Kind != eng.ExRet {
				continue
			}
			m := mon(e.S)
			if n := len(e.Results); n > 0 {
				res := e.Results[n-1]
				if m.Flags["installed"] == 1 && !m.has("end", res.Strip()) {
					r.ViolateFn("C15.end", FnName(root), root.Pos(), "the outcome of the server may not be reported")
				}
				if m.Flags["installed"] == 0 && e.S.Nilness(res) != eng.False {
					r.ViolateFn("C15.install", FnName(root), root.Pos(), "the server may not be enabled")
				}
			}
		}
		r.Absorb(x, FnName(root))
	}
	// nothing else installs a multiplexer
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) == "web" {
			continue
		}
		mentions(f, func(i ssa.Instruction) bool {
			if n, fv := fieldOf(i); n == st && isMuxT(fv.Type()) {
				r.Violate("C15.install", i, "the multiplexer may be reached from outside package web")
			}
			return false
		})
	}
}

// startRule: the server listens from the start, with itself as the handler.
func (r *Report) startRule(st *types.Named) {
	in := r.P.In
	listens := func(i ssa.Instruction) bool {
		return calleeIs(i, "net/http.ListenAndServe", "(*net/http.Server).ListenAndServe", "net/http.Serve", "(*net/http.Server).Serve")
	}
	roots := r.roots(func(f *ssa.Function) bool { return mentions(f, listens) }, "web")
	for _, root := range roots {
		root := root
		returns := false
		for i := 0; i < root.Signature.Results().Len(); i++ {
			if p, ok := root.Signature.Results().At(i).Type().Underlying().(*types.Pointer); ok && types.Unalias(p.Elem()) == types.Type(st) {
				returns = true
			}
		}
		if !returns {
			r.ViolateFn("C15.start", FnName(root), root.Pos(), "the server may be run by something which does not return it")
			continue
		}
		var addr, cfg *eng.Val
		for i, p := range root.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && addr == nil {
				addr = in.Param(root, p.Name(), i, p.Type())
			}
			if r.isNamed(p.Type(), "config", "Config") {
				cfg = in.Param(root, p.Name(), i, p.Type())
			}
		}
		var srv *eng.Val // the server the goroutine serves
		var ch *eng.Val
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				isL := false
				switch c.Name {
				case "net/http.ListenAndServe", "(*net/http.Server).ListenAndServe", "net/http.Serve", "(*net/http.Server).Serve":
					isL = true
				}
				if isL {
					r.Seen("server started", c.Instr)
					if m.Flags["thread"] == 0 {
						r.Violate("C15.start", c.Instr, "starting the server may block")
					}
					var h, a *eng.Val
					if c.Name == "net/http.ListenAndServe" {
						a, h = c.Args[0], c.Args[1]
					} else if strings.HasPrefix(c.Name, "(*net/http.Server)") {
						h, a = r.fieldContent(s, c.Args[0], "Handler"), r.fieldContent(s, c.Args[0], "Addr")
					}
					if h != nil {
						h = h.Strip()
						if h.Kind == eng.KIface {
							h = h.Args[0].Strip()
						}
						srv = h
					}
					if a != nil && addr != nil && a.Strip() != addr && strings.Contains(c.Name, "Listen") {
						r.Violate("C15.start", c.Instr, "the server may listen at another address than the one given")
					}
				}
				return eng.Default
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				if strings.HasSuffix(c.Name, "ListenAndServe") || strings.HasSuffix(c.Name, ".Serve") {
					mon(s).put("out", res, 1)
				}
				return nil
			},
			OnSend: func(s *eng.State, c, v *eng.Val, blocking bool, at eng.Site) {
				if mon(s).has("out", v.Strip()) {
					ch = c.Strip()
					mon(s).Flags["told"] = 1
				}
			},
		})
		var exits []eng.Exit
		exits = x.Run(root, newM())
		x.RunThreads(func(t *eng.Thread) eng.Monitor {
			m := newM()
			m.Flags["thread"] = 1
			return m
		}, func(t *eng.Thread, es []eng.Exit) {
			for _, e := range es {
				if m := mon(e.S); e.Kind == eng.ExRet && len(m.members("out")) > 0 && m.Flags["told"] == 0 {
					r.ViolateFn("C15.end", FnName(root), root.Pos(), "the outcome of the server may not be reported")
				}
			}
		})
		for _, e := range exits {
			if e.Kind != eng.ExRet {
				continue
			}
			res := e.Results[0].Strip()
			if srv == nil || res != srv {
				r.ViolateFn("C15.start", FnName(root), root.Pos(), "the server returned may not be the one which handles requests")
				continue
			}
			stt := st.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				fl := stt.Field(i)
				c := r.fieldContent(e.S, res, fl.Name())
				if r.isNamed(fl.Type(), "config", "Config") && c.Strip() != cfg {
					r.ViolateFn("C15.start", FnName(root), root.Pos(), "the server may use another configuration than the one given")
				}
				if _, ok := fl.Type().Underlying().(*types.Chan); ok && ch != nil && c.Strip() != ch {
					r.ViolateFn("C15.end", FnName(root), root.Pos(), "the outcome of the server may be sent where nothing waits for it")
				}
				if isMuxT(fl.Type()) && !isAtomicT(fl.Type()) && e.S.Nilness(c) != eng.True {
					r.ViolateFn("C15.install", FnName(root), root.Pos(), "the server may start out enabled")
				}
			}
		}
		r.Absorb(x, FnName(root))
	}
}

// commandRule: the command serves before it indexes and enables everything
// afterwards.
func (r *Report) commandRule(st *types.Named) {
	in := r.P.In
	makes := func(f *ssa.Function) bool {
		return f != nil && r.P.RelPkg(f) == "searcher" && f.Signature.Results().Len() > 0 && r.isSearcherMap(f.Signature.Results().At(0).Type())
	}
	starts := func(f *ssa.Function) bool {
		if f == nil || r.P.RelPkg(f) != "web" || f.Signature.Results().Len() == 0 || f.Signature.Recv() != nil {
			return false
		}
		p, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
		return ok && types.Unalias(p.Elem()) == types.Type(st)
	}
	enables := func(f *ssa.Function) bool {
		if f == nil || r.P.RelPkg(f) != "web" || f.Signature.Recv() == nil {
			return false
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if r.isSearcherMap(f.Signature.Params().At(i).Type()) {
				return true
			}
		}
		return false
	}
	for _, root := range r.P.Funcs {
		if root.Name() != "main" || root.Parent() != nil || root.Pkg == nil || root.Pkg.Pkg.Name() != "main" || root.Signature.Recv() != nil {
			continue
		}
		ok := false
		for g := range r.P.Reach(root) {
			ok = ok || makes(g)
		}
		if !ok {
			continue
		}
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				switch {
				case starts(c.Fn):
					m.Flags["started"] = 1
					return eng.Opaque
				case makes(c.Fn):
					if m.Flags["started"] == 0 {
						r.Violate("C15.early", c.Instr, "indexes may be built before the server answers anything")
					}
					return eng.Opaque
				case enables(c.Fn):
					r.Seen("server fully enabled", c.Instr)
					if !m.has("idx", c.Args[1].Strip()) && !m.has("idx", c.Args[len(c.Args)-1].Strip()) {
						r.Violate("C15.install", c.Instr, "the server may be enabled with other searchers than the ones made")
					}
					if !m.has("srv", c.Args[0].Strip()) {
						r.Violate("C15.install", c.Instr, "another server may be enabled than the one started")
					}
					for _, e := range m.members("err") {
						if s.Nilness(e) != eng.True {
							r.Violate("C15.install", c.Instr, "the server may be enabled although making the searchers failed")
						}
					}
					m.Flags["enabled"] = 1
					return eng.Opaque
				}
				return eng.Default
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				m := mon(s)
				switch {
				case starts(c.Fn):
					m.put("srv", res, 1)
				case makes(c.Fn):
					m.put("idx", in.Extract(res, 0, resultAt(c, 0)), 1)
					n := resultCount(c)
					m.put("err", in.Extract(res, n-1, resultAt(c, n-1)), 1)
				}
				return nil
			},
			OnGo: func(s *eng.State, c *eng.Call) {},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && (starts(ci.Common().StaticCallee()) || makes(ci.Common().StaticCallee()) || enables(ci.Common().StaticCallee()))
		})
		for _, e := range x.Run(root, newM()) {
			m := mon(e.S)
			if e.Kind == eng.ExRet && m.Flags["enabled"] == 0 {
				r.ViolateFn("C15.install", FnName(root), root.Pos(), "the command may end without enabling the server")
			}
		}
		r.Absorb(x, FnName(root))
	}
}

// routeRule: each documented address of the api leads to a handler which does
// what it is for.
func (r *Report) routeRule() {
	reach := map[string]map[string]bool{}
	x := eng.NewExec(r.P, eng.Hooks{})
	x.Lim, x.FactLim = 1, 1
	r.handlersOf(x, registers, func(t *eng.Thread) *M {
		p := patternOf(t)
		if reach[p] != nil {
			r.ViolateFn("C15.route", FnName(t.Call.Fn), t.Call.Fn.Pos(), "the address %s may have two handlers", p)
		}
		set := map[string]bool{}
		for g := range r.P.Reach(t.Call.Fn) {
			if g.Signature.Recv() != nil && r.isNamed(g.Signature.Recv().Type(), "searcher", "Searcher") {
				set[g.Name()] = true
			}
		}
		reach[p] = set
		return newM()
	}, nil, nil)
	all := map[string]bool{}
	for _, n := range apiPatterns {
		all[n] = true
	}
	for p, need := range apiPatterns {
		set, ok := reach[p]
		if !ok {
			r.ViolateFn("C15.route", "api", 0, "the address %s has no handler", p)
			continue
		}
		r.SeenAt("address of the api", p)
		if need != "" && !set[need] {
			r.ViolateFn("C15.route", "api", 0, "the handler of %s may not do what it is for", p)
		}
		for n := range set {
			if all[n] && n != need {
				r.ViolateFn("C15.route", "api", 0, "the handler of %s may do what it is not for", p)
			}
		}
	}
}
