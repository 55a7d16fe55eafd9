package rules

import (
	"go/token"
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C17", "Repositories are updated only as configured",
		"guard dataflow on every path: an update is requested by an HTTP handler only for a POST request, queued only if push updates are known to be enabled for the repository, refused with status 403 otherwise; the poller updates only after a request or, if polling is known to be enabled, after the configured interval, and not at all if both are disabled",
		func(r *Report) {
			r.updateRequests()
			r.updateQueue()
			r.pollers()
			r.Need("update requested by a handler", 2)
			r.Need("refused update answered", 2)
			r.Need("update queued", 1)
			r.Need("timer of a poller", 1)
			r.Need("update by a poller", 1)
			r.Need("wait of a poller", 1)
			r.Need("end of a poller", 1)
		})
	r.Assume = []string{"the configuration of a repository does not change once it has been read, and a goroutine serves one repository", "the configured interval is the one in milliseconds; an interval which is not positive means no polling"}
}

func (r *Report) updateMethod() *ssa.Function {
	for _, f := range r.P.Funcs {
		if f.Name() == "Update" && f.Signature.Recv() != nil && r.isSearcherPtr(f.Signature.Recv().Type()) && len(f.Blocks) > 0 && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

// updateRequests: what handlers do about updates.
func (r *Report) updateRequests() {
	upd := r.updateMethod()
	if upd == nil {
		r.Undecided("no method Update of a searcher")
		return
	}
	isPost := func(s *eng.State, m *M) bool {
		for k, f := range s.Facts {
			if k.Kind != eng.KBin || k.Op != "==" || f.Bool <= 0 {
				continue
			}
			for i, a := range k.Args {
				if c, ok := strConst(a); ok && c == "POST" {
					o := k.Args[1-i].Strip()
					if o.Kind == eng.KLoad && o.Args[0].Kind == eng.KField && o.Args[0].Fld.Name() == "Method" && m.has("req", o.Args[0].Args[0]) {
						return true
					}
				}
			}
		}
		return false
	}
	resp := newResponder(r)
	resp.document = func(s *eng.State, m *M, errDoc bool, at ssa.Instruction) {
		if (m.Flags["todo"] == 1 || m.Flags["open"] == 1) && !errDoc {
			r.Violate("C17.skipped", at, "an update request may be acknowledged although a repository named was left out")
		}
		for _, v := range m.members("upd") {
			switch s.Decide(v) {
			case eng.False:
				r.SeenAt("refused update answered", resp.handler(m))
				if !errDoc || m.Flags["status"] != 403 {
					r.Violate("C17.refused", at, "a refused update request is answered with status %s", statusText(m.Flags["status"]))
				}
			case eng.Unknown:
				r.Violate("C17.ignored", at, "an update request may be acknowledged although it was refused")
			}
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if c.Fn == upd {
				r.Seen("update requested by a handler", c.Instr)
				if m.Flags["handler"] == 1 && !isPost(s, m) {
					r.Violate("C17.method", c.Instr, "an update may be requested by a request which is not a POST")
				}
				m.Flags["todo"] = 0
				return eng.Opaque
			}
			if act, ok := resp.onCall(s, c); ok {
				return act
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			resp.after(s, c, res)
			m := mon(s)
			if c.Fn == upd {
				for _, v := range m.members("upd") {
					if s.Decide(v) == eng.True {
						m.del("upd", v)
					}
				}
				m.put("upd", res, 1)
			}
			return nil
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			if !loopCalls(at.Instr, func(f *ssa.Function) bool { return r.P.Reach(f)[upd] }, upd) {
				return
			}
			m := mon(s)
			if m.Flags["todo"] == 1 {
				r.Violate("C17.skipped", at.Instr, "a repository named by an update request may be left out")
			}
			m.Flags["todo"], m.Flags["open"] = 0, 0
			if more {
				m.Flags["todo"], m.Flags["open"] = 1, 1
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			for _, v := range m.members("upd") {
				if s.Decide(v) == eng.True {
					m.del("upd", v)
				}
			}
		},
	})
	r.handlers(x, func(i ssa.Instruction) bool {
		if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == upd {
			return true
		}
		if n, f := fieldOf(i); n != nil && f.Name() == "Method" && n.Obj().Name() == "Request" {
			return true
		}
		return isRespInstr(i)
	}, func(t *eng.Thread) *M {
		m := newM()
		m.put("req", t.Call.Args[1], 1)
		resp.start(m, t)
		return m
	}, func(t *eng.Thread, exits []eng.Exit) {})
}

// enabled: the result of asking the configuration is recorded.
func (r *Report) enabledCall(c *eng.Call) string {
	if c.Fn == nil || c.Fn.Signature.Recv() == nil || !r.isRepo(c.Fn.Signature.Recv().Type()) {
		return ""
	}
	switch c.Fn.Name() {
	case "PollUpdatesEnabled":
		return "poll"
	case "PushUpdatesEnabled":
		return "push"
	}
	return ""
}

func anyIs(s *eng.State, m *M, set string, want eng.Tri) bool {
	for _, v := range m.members(set) {
		if s.Decide(v) == want {
			return true
		}
	}
	return false
}

func isField(v *eng.Val, name string) bool {
	v = v.Strip()
	return v.Kind == eng.KLoad && v.Args[0].Kind == eng.KField && v.Args[0].Fld.Name() == name
}

// isTimeChan: a channel on which update requests and timers arrive.
func isTimeChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && c.Elem().String() == "time.Time"
}

// updateQueue: Update queues an update only if enabled.
func (r *Report) updateQueue() {
	upd := r.updateMethod()
	if upd == nil {
		return
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if r.enabledCall(c) != "" {
				return eng.Opaque
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			if k := r.enabledCall(c); k != "" {
				mon(s).put(k, res, 1)
			}
			return nil
		},
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			r.Seen("update queued", at.Instr)
			if !anyIs(s, mon(s), "push", eng.True) {
				r.Violate("C17.queue", at.Instr, "an update may be queued although push updates are not enabled")
			}
			mon(s).Flags["queued"] = 1
		},
	})
	r.slice(x, func(i ssa.Instruction) bool {
		switch i.(type) {
		case *ssa.Select, *ssa.Send:
			return true
		}
		return false
	})
	for _, e := range x.Run(upd, newM()) {
		if e.Kind != eng.ExRet || len(e.Results) != 1 {
			continue
		}
		m := mon(e.S)
		ok := e.S.Decide(e.Results[0])
		if ok != eng.False && !anyIs(e.S, m, "push", eng.True) {
			r.ViolateFn("C17.answer", FnName(upd), upd.Pos(), "an update may be reported accepted although push updates are not enabled")
		}
		if ok != eng.True && !anyIs(e.S, m, "push", eng.False) {
			r.ViolateFn("C17.answer", FnName(upd), upd.Pos(), "an update may be refused although push updates are enabled")
		}
	}
	r.Absorb(x, FnName(upd))
}

// pollers: the goroutines which update repositories.
func (r *Report) pollers() {
	isMs := func(v *eng.Val) bool { return v.Any(func(x *eng.Val) bool { return isField(x, "MsBetweenPolls") }) }
	timer := func(c *eng.Call) bool {
		switch c.Name {
		case "time.After", "time.NewTimer", "time.Tick", "time.NewTicker", "time.AfterFunc":
			return true
		}
		return c.Name == "(*time.Timer).Reset" || c.Name == "(*time.Ticker).Reset"
	}
	for _, root := range r.roots(func(f *ssa.Function) bool { return mentions(f, r.isHeavyInstr) }, "searcher") {
		inThread := func(m *M) bool { return m.Flags["thread"] == 1 }
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				if r.enabledCall(c) != "" {
					return eng.Opaque
				}
				if timer(c) && inThread(m) {
					r.Seen("timer of a poller", c.Instr)
					if !anyIs(s, m, "poll", eng.True) {
						r.Violate("C17.timer", c.Instr, "a repository may be polled although polling is not enabled")
					}
					for _, d := range s.Args(c) {
						if d.T == nil || d.T.String() != "time.Duration" {
							continue
						}
						// known again after memory has been forgotten
						defer m.put("dur", d, 1)
						unit := d.Any(func(x *eng.Val) bool { n, ok := x.IntVal(); return ok && n == 1000000 })
						if (!isMs(d) || !unit) && !m.has("dur", d) {
							r.Violate("C17.interval", c.Instr, "a repository may be polled with another interval than the one configured")
						}
					}
					m.Flags["timer"] = 1
				}
				if r.pullCall(c) != nil {
					if inThread(m) && m.Flags["loop"] == 1 {
						r.Seen("update by a poller", c.Instr)
						if m.Flags["go"] != 1 {
							r.Violate("C17.busy", c.Instr, "a repository may be updated without a request or an interval having passed")
						}
						if !anyIs(s, m, "poll", eng.True) && !anyIs(s, m, "push", eng.True) {
							r.Violate("C17.disabled", c.Instr, "a repository may be updated although all updates are disabled")
						}
						m.Flags["go"] = 0
					}
					return eng.Opaque
				}
				if r.heavyCall(c) != "" {
					return eng.Opaque
				}
				return eng.Default
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				m := mon(s)
				if k := r.enabledCall(c); k != "" && inThread(m) {
					m.put(k, res, 1)
					// the answer does not change
					if m.Flags[k+"is"] != 0 {
						s.Assume(res, m.Flags[k+"is"] == 1)
					}
				}
				return nil
			},
			OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
				m := mon(s)
				if !inThread(m) {
					return
				}
				if !isTimeChan(ch.T) {
					// told to stop
					m.Flags["stop"] = 1
					return
				}
				m.Flags["loop"] = 1
				if _, ok := at.Instr.(*ssa.Select); !ok {
					return
				}
				m.Flags["go"] = 1
				r.Seen("wait of a poller", at.Instr)
				off := false
				for _, v := range m.members("cand") {
					_, hi := s.Interval(v)
					off = off || hi <= 0
				}
				if anyIs(s, m, "poll", eng.True) && m.Flags["timer"] != 1 && !off {
					r.Violate("C17.nopoll", at.Instr, "a repository for which polling is enabled may be updated on request only")
				}
				m.Flags["timer"] = 0
			},
			OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
				m := mon(s)
				if !inThread(m) {
					return
				}
				cond.Any(func(v *eng.Val) bool {
					if isField(v, "MsBetweenPolls") || v.Kind == eng.KBin && v.T != nil && v.T.String() == "time.Duration" && isMs(v) {
						m.put("cand", v, 1)
					}
					return false
				})
				// keeps what follows from either answer apart
				for _, k := range []string{"poll", "push"} {
					if anyIs(s, m, k, eng.True) {
						m.Flags[k+"is"] = 1
					} else if anyIs(s, m, k, eng.False) {
						m.Flags[k+"is"] = 2
					}
				}
			},
		})
		r.slice(x, func(i ssa.Instruction) bool {
			switch i := i.(type) {
			case *ssa.Select, *ssa.Go:
				return true
			case *ssa.UnOp:
				return i.Op == token.ARROW
			}
			return r.isHeavyInstr(i) || calleeIs(i, "time.After", "time.NewTimer", "time.Tick", "time.NewTicker", "time.AfterFunc")
		})
		sl := x.OpaqueFn
		x.OpaqueFn = func(f *ssa.Function) bool {
			return strings.HasSuffix(r.P.RelPkg(f), "index") || r.P.RelPkg(f) == "config" || sl(f)
		}
		x.Run(root, newM())
		x.RunThreads(func(t *eng.Thread) eng.Monitor {
			m := newM()
			m.Flags["thread"] = 1
			return m
		}, func(t *eng.Thread, exits []eng.Exit) {
			for _, e := range exits {
				m := mon(e.S)
				if e.Kind != eng.ExRet || m.Flags["loop"] != 1 {
					continue
				}
				r.SeenAt("end of a poller", FnName(root))
				if m.Flags["stop"] == 1 {
					continue
				}
				for _, k := range []string{"poll", "push"} {
					if m.Flags[k+"is"] != 2 && !anyIs(e.S, m, k, eng.False) {
						r.ViolateFn("C17.ended", FnName(root), root.Pos(), "the poller of a repository may end although %s updates may be enabled and it has not been told to stop", k)
					}
				}
			}
		})
		r.Absorb(x, FnName(root))
	}
}
