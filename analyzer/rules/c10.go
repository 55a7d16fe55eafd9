package rules

import (
	"go/token"
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C10", "A shutdown request ends the server cleanly",
		"typestate along every path of the command and of the updating goroutines: the signal is caught into a buffered channel before indexing begins and a goroutine acting on it is started before the server runs; the process exits on it only after every searcher was told to stop and waited for; telling a searcher to stop neither blocks nor gets lost; an updating goroutine waits only where it also sees the request, does no update after it, and reports its end exactly once on every path",
		func(r *Report) {
			stop, wait := r.stopWait()
			if stop == nil || wait == nil {
				r.Undecided("methods Stop and Wait of a searcher not found")
				return
			}
			r.mainRule(stop, wait)
			r.updaterRule(stop, wait)
			r.beginRule()
			r.Need("shutdown signal caught", 1)
			r.Need("exit upon a shutdown request", 1)
			r.Need("searcher told to stop", 1)
			r.Need("searcher waited for", 1)
			r.Need("stop request sent", 1)
			r.Need("end of an updating goroutine", 1)
			r.Need("wait of an updating goroutine", 1)
			r.Need("polling begun", 1)
		})
	r.Assume = []string{"the operating system delivers the signal", "an update in progress ends (external commands are not bounded in time)"}
}

func (r *Report) searcherMethod(name string) *ssa.Function {
	for _, f := range r.P.Funcs {
		if f.Name() == name && f.Parent() == nil && f.Signature.Recv() != nil && f.Synthetic == "" && r.isNamed(f.Signature.Recv().Type(), "searcher", "Searcher") {
			return f
		}
	}
	return nil
}

func (r *Report) stopWait() (stop, wait *ssa.Function) {
	return r.searcherMethod("Stop"), r.searcherMethod("Wait")
}

// mainRule: what the command does about the signal.
func (r *Report) mainRule(stop, wait *ssa.Function) {
	startsSearchers := func(f *ssa.Function) bool {
		return f != nil && r.P.RelPkg(f) == "searcher" && f.Signature.Results().Len() > 0 && r.isSearcherMap(f.Signature.Results().At(0).Type())
	}
	for _, root := range r.P.Funcs {
		if root.Name() != "main" || root.Parent() != nil || root.Pkg == nil || root.Pkg.Pkg.Name() != "main" || root.Signature.Recv() != nil {
			continue
		}
		ok := false
		for g := range r.P.Reach(root) {
			ok = ok || startsSearchers(g)
		}
		if !ok {
			continue
		}
		var acting map[*eng.Val]bool // signal channels a goroutine acts upon
		acting = map[*eng.Val]bool{}
		type serve struct {
			at ssa.Instruction
			m  *M
		}
		var serves []serve
		var notified = map[*eng.Val]bool{}
		obliged := func(m *M, at ssa.Instruction) {
			if m.Flags["wstop"] == 1 {
				r.Violate("C10.stop", at, "a searcher may not be told to stop at a shutdown")
			}
			if m.Flags["wwait"] == 1 {
				r.Violate("C10.wait", at, "a searcher may not be waited for at a shutdown")
			}
			m.Flags["wstop"], m.Flags["wwait"] = 0, 0
		}
		is := func(m *M, v *eng.Val) bool { return m.has("el", v.Strip()) }
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				switch {
				case c.Name == "os/signal.Notify":
					r.Seen("shutdown signal caught", c.Instr)
					ch := c.Args[0].Strip()
					if m.Flags["made"] == 1 {
						r.Violate("C10.late", c.Instr, "a shutdown request during indexing may kill the server")
					}
					if !chanCap(r, s, ch) {
						r.Violate("C10.lost", c.Instr, "a shutdown request may get lost: the channel for it may not be buffered")
					}
					m.put("sig", ch, 1)
					notified[ch] = true
					m.Flags["notified"] = 1
				case startsSearchers(c.Fn):
					if m.Flags["notified"] == 0 {
						r.Violate("C10.late", c.Instr, "a shutdown request during indexing may kill the server")
					}
					m.Flags["made"] = 1
					return eng.Opaque
				case c.Fn == stop:
					r.Seen("searcher told to stop", c.Instr)
					if is(m, c.Args[0]) {
						m.Flags["wstop"] = 0
					}
					return eng.Opaque
				case c.Fn == wait:
					r.Seen("searcher waited for", c.Instr)
					if is(m, c.Args[0]) {
						m.Flags["wwait"] = 0
					}
					if m.Flags["stopped"] == 0 {
						r.Violate("C10.order", c.Instr, "a searcher may be waited for before all were told to stop")
					}
					return eng.Opaque
				case c.Name == "os.Exit" || strings.HasPrefix(c.Name, "log.Fatal") || strings.Contains(c.Name, "log.Logger).Fatal"):
					obliged(m, c.Instr)
					if m.Flags["asked"] == 1 {
						r.Seen("exit upon a shutdown request", c.Instr)
						if m.Flags["waited"] == 0 {
							r.Violate("C10.exit", c.Instr, "the server may exit before every searcher has ended")
						}
						return eng.Halt
					}
					if m.Flags["thread"] == 0 && m.Flags["made"] == 1 {
						r.Violate("C10.exit", c.Instr, "the server may exit without its searchers having ended")
					}
				case m.Flags["made"] == 1 && m.Flags["thread"] == 0 && serves_(r, c):
					serves = append(serves, serve{c.Instr, m.Clone().(*M)})
					return eng.Opaque
				}
				return eng.Default
			},
			OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
				m := mon(s)
				if m.Flags["thread"] == 1 && notified[ch.Strip()] {
					m.Flags["asked"] = 1
					acting[ch.Strip()] = true
				}
			},
			OnGo: func(s *eng.State, c *eng.Call) { mon(s).Flags["go"] = 1 },
			OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
				m := mon(s)
				if m.Flags["asked"] == 0 {
					return
				}
				obliged(m, at.Instr)
				m.clear("el")
				if cont.T == nil || !r.isSearcherMap(cont.T) || cont.Kind == eng.KAlloc {
					return
				}
				hs := loopCalls(at.Instr, func(f *ssa.Function) bool { return r.P.Reach(f)[stop] }, stop)
				hw := loopCalls(at.Instr, func(f *ssa.Function) bool { return r.P.Reach(f)[wait] }, wait)
				if more {
					if el != nil {
						m.put("el", el.Strip(), 1)
					}
					if hs {
						m.Flags["wstop"] = 1
					}
					if hw {
						m.Flags["wwait"] = 1
					}
					return
				}
				if hs {
					m.Flags["stopped"] = 1
				}
				if hw {
					m.Flags["waited"] = 1
				}
			},
			OnLookup: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
				m := mon(s)
				if m.Flags["asked"] == 1 && r.isSearcherMap(mp.T) {
					m.put("el", v.Strip(), 1)
				}
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			switch i := i.(type) {
			case *ssa.Go, *ssa.Select:
				return r.P.RelPkg(i.Parent()) != "searcher"
			case *ssa.UnOp:
				return i.Op == token.ARROW && r.P.RelPkg(i.Parent()) != "searcher"
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				f := ci.Common().StaticCallee()
				if f == stop || f == wait || startsSearchers(f) {
					return true
				}
			}
			return calleeIs(i, "os/signal.Notify", "os.Exit")
		})
		sl := x.OpaqueFn
		x.OpaqueFn = func(f *ssa.Function) bool {
			switch r.P.RelPkg(f) {
			case "searcher", "index", "vcs", "config", "api", "ui", "web":
				return true
			}
			return sl(f)
		}
		x.Lim, x.FactLim = 4, 8
		x.Run(root, newM())
		x.RunThreads(func(t *eng.Thread) eng.Monitor {
			m := newM()
			if t.Kind == "go" {
				m.Flags["thread"] = 1
				return m
			}
			return nil
		}, func(t *eng.Thread, exits []eng.Exit) {
			for _, e := range exits {
				if e.Kind == eng.ExRet && mon(e.S).Flags["asked"] == 1 {
					r.ViolateFn("C10.ignored", FnName(t.Call.Fn), t.Call.Fn.Pos(), "a shutdown request may be ignored")
				}
			}
		})
		for _, sv := range serves {
			r.Seen("server run", sv.at)
			ok := false
			for _, ch := range sv.m.members("sig") {
				ok = ok || acting[ch]
			}
			if !ok || sv.m.Flags["go"] == 0 {
				r.Violate("C10.unhandled", sv.at, "the server may run without anything acting on a shutdown request")
			}
		}
		r.Absorb(x, FnName(root))
	}
}

// serves_: a call which serves requests until the process ends.
func serves_(r *Report, c *eng.Call) bool {
	if c.Fn == nil || !r.P.InModule(c.Fn) {
		return strings.Contains(c.Name, "ListenAndServe") || c.Name == "net/http.Serve"
	}
	if r.P.RelPkg(c.Fn) != "web" {
		return false
	}
	for i := 0; i < c.Fn.Signature.Params().Len(); i++ {
		if r.isSearcherMap(c.Fn.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// chanCap: the channel is known to have a buffer.
func chanCap(r *Report, s *eng.State, ch *eng.Val) bool {
	c := s.Mem[r.P.In.Un("cap", ch.Strip(), intT)]
	if c == nil {
		return false
	}
	lo, _ := s.Interval(c)
	return lo >= 1
}

// callReach are the functions f calls itself, not in other goroutines.
func (r *Report) callReach(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] || !r.P.InModule(f) {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Call:
					visit(calledFn(&i.Call))
				case *ssa.Defer:
					visit(calledFn(&i.Call))
				}
			}
		}
	}
	visit(f)
	return out
}

func calledFn(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	return nil
}

// chanField is the field of a searcher ch was read from.
func chanField(ch *eng.Val) string {
	ch = ch.Strip()
	if ch.Kind == eng.KLoad && ch.Args[0].Kind == eng.KField {
		return ch.Args[0].Fld.Name()
	}
	return ""
}

func (r *Report) updaterRule(stop, wait *ssa.Function) {
	// how a searcher is told to stop, and how its end is awaited
	shut, done := map[string]string{}, ""
	sx := eng.NewExec(r.P, eng.Hooks{
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if f := chanField(ch); f != "" {
				r.Seen("stop request sent", at.Instr)
				if blocking {
					r.Violate("C10.blocks", at.Instr, "telling a searcher to stop may block")
				}
				shut[f] = "send"
				mon(s).Flags["told"] = 1
			}
		},
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if c.Name == "builtin:close" && len(c.Args) > 0 {
				if f := chanField(c.Args[0]); f != "" {
					r.Seen("stop request sent", c.Instr)
					if shut[f] == "" {
						shut[f] = "close"
					}
					mon(s).Flags["told"] = 1
				}
			}
			return eng.Default
		},
	})
	sx.OpaqueFn = func(f *ssa.Function) bool { return r.P.RelPkg(f) != "searcher" }
	sx.Run(stop, newM())
	// a select takes its default only if the request cannot be sent: then one
	// is pending (buffered channel) or nobody listens
	r.Absorb(sx, FnName(stop))
	wx := eng.NewExec(r.P, eng.Hooks{
		OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if f := chanField(ch); f != "" && blocking {
				done = f
				mon(s).Flags["awaited"] = 1
			}
		},
	})
	wx.OpaqueFn = sx.OpaqueFn
	for _, e := range wx.Run(wait, newM()) {
		if e.Kind == eng.ExRet && mon(e.S).Flags["awaited"] == 0 {
			r.ViolateFn("C10.nowait", FnName(wait), wait.Pos(), "waiting for a searcher may end before the searcher has ended")
		}
	}
	r.Absorb(wx, FnName(wait))
	if len(shut) == 0 {
		r.ViolateFn("C10.nostop", FnName(stop), stop.Pos(), "telling a searcher to stop has no effect")
		return
	}
	if done == "" {
		return
	}
	for _, root := range r.roots(func(f *ssa.Function) bool { return mentions(f, r.isHeavyInstr) }, "searcher") {
		fieldChan := func(s *eng.State, m *M, ch *eng.Val, f string) bool {
			ch = ch.Strip()
			if chanField(ch) == f {
				return true
			}
			return m.has("ch:"+f, ch)
		}
		isStop := func(s *eng.State, m *M, ch *eng.Val) bool {
			for f := range shut {
				if fieldChan(s, m, ch, f) {
					return true
				}
			}
			return false
		}
		end := func(s *eng.State, ch *eng.Val, at ssa.Instruction) {
			m := mon(s)
			if m.Flags["thread"] == 0 || !fieldChan(s, m, ch, done) {
				return
			}
			if m.Flags["ended"] == 1 {
				r.Violate("C10.twice", at, "an updating goroutine may report its end twice")
			}
			m.Flags["ended"] = 1
		}
		x := eng.NewExec(r.P, eng.Hooks{
			OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
				if addr.Kind != eng.KField || !r.isNamed(addr.Args[0].T, "searcher", "Searcher") {
					return
				}
				f := addr.Fld.Name()
				if how, ok := shut[f]; ok || f == done {
					m := mon(s)
					ch := v.Strip()
					r.Seen("channel of a searcher made", at.Instr)
					if s.Nilness(ch) != eng.False && ch.Op != "make" {
						r.Violate("C10.nil", at.Instr, "a searcher may get no channel for its %s", map[bool]string{true: "shutdown", false: "end"}[ok])
					} else if ok && how == "send" && !chanCap(r, s, ch) {
						r.Violate("C10.lost", at.Instr, "a request to stop may get lost: the channel for it may not be buffered")
					}
					m.put("ch:"+f, ch, 1)
					m.put("sf:"+f, addr.Args[0], 1)
				}
			},
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				if c.Name == "builtin:close" && len(c.Args) > 0 {
					end(s, c.Args[0], c.Instr)
				}
				if w := r.heavyCall(c); w != "" || r.pullCall(c) != nil {
					if m.Flags["thread"] == 1 {
						r.Seen("update by an updating goroutine", c.Instr)
						if m.Flags["ended"] == 1 {
							r.Violate("C10.after", c.Instr, "an updating goroutine may go on after it reported its end")
						}
						if m.Flags["stop"] == 1 {
							r.Violate("C10.update", c.Instr, "an updating goroutine may begin an update after it was told to stop")
						}
					}
					return eng.Opaque
				}
				if m.Flags["thread"] == 1 && (c.Name == "time.Sleep" || c.Name == "(*sync.WaitGroup).Wait" || c.Name == "(*sync.Cond).Wait") {
					r.Violate("C10.deaf", c.Instr, "an updating goroutine may wait where it does not see a shutdown request")
				}
				return eng.Default
			},
			OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) { end(s, ch, at.Instr) },
			OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
				m := mon(s)
				if m.Flags["thread"] == 0 {
					return
				}
				if isStop(s, m, ch) {
					m.Flags["stop"] = 1
				}
				if !isWaitChan(ch) {
					return
				}
				if sel, ok := at.Instr.(*ssa.Select); ok {
					if !sel.Blocking {
						return
					}
					r.Seen("wait of an updating goroutine", at.Instr)
					has := false
					for _, st := range sel.States {
						if st.Dir == types.RecvOnly && !isTimeChan(st.Chan.Type()) {
							has = has || m.Flags["stop"] == 1 || selHas(st, shut)
						}
					}
					if !has {
						r.Violate("C10.deaf", at.Instr, "an updating goroutine may wait where it does not see a shutdown request")
					}
					m.Flags["loop"] = 1
					return
				}
				if isStop(s, m, ch) {
					m.Flags["loop"] = 1
					return
				}
				if m.Flags["loop"] == 1 || m.Flags["begun"] == 1 {
					r.Violate("C10.deaf", at.Instr, "an updating goroutine may wait where it does not see a shutdown request")
				}
				m.Flags["begun"] = 1
			},
			OnGo: func(s *eng.State, c *eng.Call) {
				if c.Fn != nil && r.P.RelPkg(c.Fn) == "searcher" {
					mon(s).Flags["go"] = 1
				}
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			switch i := i.(type) {
			case *ssa.Select, *ssa.Go:
				return true
			case *ssa.UnOp:
				return i.Op == token.ARROW
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
					return true
				}
			}
			if n, f := fieldOf(i); n != nil && r.isNamed(n, "searcher", "Searcher") && (shut[f.Name()] != "" || f.Name() == done) {
				return true
			}
			return r.isHeavyInstr(i)
		})
		sl := x.OpaqueFn
		x.OpaqueFn = func(f *ssa.Function) bool {
			return strings.HasSuffix(r.P.RelPkg(f), "index") || r.P.RelPkg(f) == "config" || r.P.RelPkg(f) == "vcs" || sl(f)
		}
		x.Lim, x.FactLim = 8, 16
		for _, e := range x.Run(root, newM()) {
			if e.Kind != eng.ExRet {
				continue
			}
			m := mon(e.S)
			for _, v := range e.Results {
				if v.T != nil && r.isSearcherPtr(v.T) && e.S.Nilness(v) == eng.False {
					if m.Flags["go"] == 0 {
						r.ViolateFn("C10.nogo", FnName(root), root.Pos(), "a searcher may be made without a goroutine which reports its end")
					}
					for _, f := range append(sortedOf(shut), done) {
						if !m.has("sf:"+f, v.Strip()) {
							r.ViolateFn("C10.nil", FnName(root), root.Pos(), "a searcher may get no channel %s", f)
						}
					}
				}
			}
		}
		x.RunThreads(func(t *eng.Thread) eng.Monitor {
			m := mon(t.S).Clone().(*M)
			m.Flags = map[string]int{}
			for g := range r.callReach(t.Call.Fn) {
				if mentions(g, func(i ssa.Instruction) bool {
					switch i := i.(type) {
					case *ssa.Send:
						return chanFieldIs(i.Chan, done)
					case *ssa.Select:
						for _, st := range i.States {
							if st.Dir == types.RecvOnly && isTimeChan(st.Chan.Type()) {
								return true
							}
						}
						return false
					case ssa.CallInstruction:
						b, ok := i.Common().Value.(*ssa.Builtin)
						return ok && b.Name() == "close" && chanFieldIs(i.Common().Args[0], done)
					}
					return false
				}) {
					m.Flags["thread"] = 1
				}
			}
			return m
		}, func(t *eng.Thread, exits []eng.Exit) {
			for _, e := range exits {
				m := mon(e.S)
				if e.Kind != eng.ExRet || m.Flags["thread"] == 0 {
					continue
				}
				r.SeenAt("end of an updating goroutine", FnName(t.Call.Fn))
				if m.Flags["ended"] == 0 {
					r.ViolateFn("C10.unreported", FnName(t.Call.Fn), t.Call.Fn.Pos(), "an updating goroutine may end without reporting it, so that a shutdown waits forever")
				}
			}
		})
		r.Absorb(x, FnName(root))
	}
}

func sortedOf(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// isWaitChan: receiving from ch means waiting for something to happen (and
// not, say, returning a permit).
func isWaitChan(ch *eng.Val) bool {
	if ch.T == nil {
		return false
	}
	c, ok := ch.T.Underlying().(*types.Chan)
	return ok && c.Elem().String() != "bool"
}

func chanFieldIs(v ssa.Value, name string) bool {
	for {
		switch u := v.(type) {
		case *ssa.ChangeType:
			v = u.X
			continue
		case *ssa.UnOp:
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				_, f := fieldOf(fa)
				return f != nil && f.Name() == name
			}
		}
		return false
	}
}

func selHas(st *ssa.SelectState, shut map[string]string) bool {
	for f := range shut {
		if chanFieldIs(st.Chan, f) {
			return true
		}
	}
	return false
}

// beginRule: every searcher in the table handed out was allowed to begin.
func (r *Report) beginRule() {
	sends := func(f *ssa.Function) bool {
		return f != nil && f.Signature.Recv() != nil && r.isSearcherPtr(f.Signature.Recv().Type()) && mentions(f, func(i ssa.Instruction) bool {
			sd, ok := i.(*ssa.Send)
			return ok && isTimeChan(sd.Chan.Type())
		})
	}
	for _, root := range r.P.Funcs {
		res := root.Signature.Results()
		if r.P.RelPkg(root) != "searcher" || root.Parent() != nil || res.Len() == 0 || !r.isSearcherMap(res.At(0).Type()) {
			continue
		}
		if root.Object() == nil || !root.Object().Exported() {
			continue
		}
		oblige := func(m *M, at ssa.Instruction) {
			if m.Flags["want"] == 1 {
				r.Violate("C10.begin", at, "a searcher may never be allowed to begin, so that a shutdown waits forever")
			}
			m.Flags["want"] = 0
		}
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				if sends(c.Fn) {
					r.Seen("polling begun", c.Instr)
					m := mon(s)
					if m.has("el", c.Args[0].Strip()) {
						m.Flags["want"] = 0
					}
					return eng.Opaque
				}
				return eng.Default
			},
			OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
				m := mon(s)
				oblige(m, at.Instr)
				m.clear("el")
				if cont.T == nil || !r.isSearcherMap(cont.T) || !loopCalls(at.Instr, func(f *ssa.Function) bool {
					for g := range r.P.Reach(f) {
						if sends(g) {
							return true
						}
					}
					return false
				}, nil) {
					return
				}
				if more {
					m.Flags["want"] = 1
					if el != nil {
						m.put("el", el.Strip(), 1)
					}
				} else {
					m.put("begun", cont.Strip(), 1)
				}
			},
			OnLookup: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
				if r.isSearcherMap(mp.T) {
					mon(s).put("el", v.Strip(), 1)
				}
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			if ci, ok := i.(ssa.CallInstruction); ok && sends(ci.Common().StaticCallee()) {
				return true
			}
			return false
		})
		x.Lim, x.FactLim = 4, 8
		for _, e := range x.Run(root, newM()) {
			if e.Kind != eng.ExRet || e.S.Nilness(e.Results[0]) == eng.True {
				continue
			}
			m := mon(e.S)
			if !m.has("begun", e.Results[0].Strip()) {
				r.ViolateFn("C10.begin", FnName(root), root.Pos(), "a searcher may never be allowed to begin, so that a shutdown waits forever")
			}
		}
		r.Absorb(x, FnName(root))
	}
}
