package rules

import (
	"fmt"
	"go/token"
	"go/types"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C33", "Goroutines started to share out work end with it",
		"path-sensitive execution of every function which makes a channel and starts goroutines, and of the goroutines: how often each sends to, or receives from, the channel; whether, on every path on which the function returns, the room of the channel and the messages it has received cover all they send, and what they receive from has been closed",
		func(r *Report) {
			r.goroutinesEnd()
			r.Need("goroutine which hands in its result over a channel", 3)
		})
	r.Assume = []string{"what a goroutine does before it hands in its result comes to an end (C09, C11)", "channels kept in fields or handed to other packages are not followed"}
}

type threadUse struct{ sends, recvs int }

func (r *Report) goroutinesEnd() {
	for _, f := range r.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		mk := mentions(f, func(i ssa.Instruction) bool { _, ok := i.(*ssa.MakeChan); return ok })
		if !mk {
			continue
		}
		roots := []*ssa.Function{f}
		res := f.Signature.Results()
		for n := 0; n < res.Len(); n++ {
			if _, ok := res.At(n).Type().Underlying().(*types.Chan); ok {
				roots = append(roots, r.P.CallersOf()[f]...)
				break
			}
		}
		for _, g := range roots {
			spawns := false
			for h := range r.callReach(g) {
				spawns = spawns || mentions(h, func(i ssa.Instruction) bool { _, ok := i.(*ssa.Go); return ok })
			}
			if spawns {
				r.goroutinesOf(g)
			}
		}
	}
}

// loopHas: the site in context ctx is repeated by the loop branch at b.
func loopHas(b eng.Site, at eng.Site) bool {
	f := b.Instr.Parent()
	i, c := at.Instr, at.Ctx
	for c != nil {
		if c == b.Ctx && i.Parent() == f {
			return sameCycle(i.Block(), b.Instr.Block())
		}
		i, c = c.Site, c.Parent
		if i == nil {
			return false
		}
	}
	return false
}

func repeated(at eng.Site) bool {
	i, c := at.Instr, at.Ctx
	for {
		if inCycle(i.Block()) {
			return true
		}
		if c == nil || c.Site == nil {
			return false
		}
		i, c = c.Site, c.Parent
	}
}

func isMadeChan(v *eng.Val) bool {
	if v == nil {
		return false
	}
	v = v.Strip()
	if v.Kind != eng.KUn || v.Op != "make" || v.T == nil {
		return false
	}
	_, ok := v.T.Underlying().(*types.Chan)
	return ok
}

// sameCount: both are the number of the same things.
func sameCount(a, b *eng.Val) bool {
	norm := func(v *eng.Val) *eng.Val {
		v = v.Strip()
		if v.Kind == eng.KUn && v.Op == "len" {
			v = v.Args[0].Strip()
		}
		for v.Kind == eng.KStale && len(v.Args) > 0 {
			v = v.Args[0].Strip()
		}
		return v
	}
	a, b = norm(a), norm(b)
	if a == b {
		return true
	}
	if a.Kind == eng.KLoad && b.Kind == eng.KLoad && len(a.Args) > 0 && len(b.Args) > 0 {
		return a.Args[0] == b.Args[0]
	}
	return false
}

// covers: a capacity is at least the count.
func covers(s *eng.State, c, n *eng.Val, depth int) bool {
	if sameCount(c, n) {
		return true
	}
	c = c.Strip()
	if depth > 3 || c.Kind != eng.KBin || len(c.Args) != 2 {
		return false
	}
	for k := 0; k < 2; k++ {
		lo, _ := s.Interval(c.Args[1-k])
		if c.Op == "+" && lo >= 0 && covers(s, c.Args[k], n, depth+1) {
			return true
		}
		if c.Op == "*" && lo >= 1 && covers(s, c.Args[k], n, depth+1) {
			return true
		}
	}
	return false
}

func (r *Report) goroutinesOf(root *ssa.Function) {
	uses := map[ssa.Instruction]map[*eng.Val]threadUse{}
	event := func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Go, *ssa.MakeChan, *ssa.Send, *ssa.Select:
			return true
		case *ssa.UnOp:
			return i.Op == token.ARROW
		}
		return calleeIs(i, "builtin:close")
	}
	escape := func(s *eng.State, v *eng.Val) {
		if isMadeChan(v) {
			mon(s).put("out", v.Strip(), 1)
		}
	}
	// first: what the goroutines do
	th := func(t *eng.Thread, exits []eng.Exit) {
		at, _ := t.Call.Instr.(ssa.Instruction)
		u := uses[at]
		if u == nil {
			u = map[*eng.Val]threadUse{}
			uses[at] = u
		}
		for _, e := range exits {
			if e.Kind != eng.ExRet {
				continue
			}
			m := mon(e.S)
			for _, ch := range append(m.members("send"), m.members("recv")...) {
				n := m.get("send", ch)
				k := m.get("recv", ch)
				o := u[ch]
				if d := n - k; d > o.sends {
					o.sends = d
				}
				if d := k - n; d > o.recvs {
					o.recvs = d
				}
				u[ch] = o
			}
		}
	}
	count := func(m *M, set string, ch *eng.Val, d int) {
		if n := m.get(set, ch) + d; n > 2 {
			m.put(set, ch, 3)
		} else {
			m.put(set, ch, n)
		}
	}
	alone := func(at eng.Site) bool {
		sel, ok := at.Instr.(*ssa.Select)
		return !ok || sel.Blocking && len(sel.States) == 1
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if isMadeChan(ch) && alone(at) {
				count(mon(s), "send", ch.Strip(), 1)
			}
		},
		OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if isMadeChan(ch) && alone(at) {
				count(mon(s), "recv", ch.Strip(), 1)
			}
		},
	})
	r.slice(x, event)
	x.Run(root, newM())
	x.RunThreads(func(t *eng.Thread) eng.Monitor {
		if t.Kind != "go" {
			return nil
		}
		return newM()
	}, th)
	r.Absorb(x, FnName(root))

	// then: whether the starter takes up what they send
	place := map[string]eng.Site{}
	loops := map[*eng.Val][]eng.Site{} // loop branches by what is counted
	in := r.P.In
	x = eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			m := mon(s)
			if c.Name == "builtin:close" && len(c.Args) > 0 {
				m.put("closed", c.Args[0].Strip(), 1)
			}
			if c.Fn == nil || !r.P.InModule(c.Fn) {
				if c.Name != "builtin:close" && c.Name != "builtin:len" && c.Name != "builtin:cap" {
					for _, a := range c.Args {
						escape(s, a)
					}
				}
			}
			return eng.Default
		},
		OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
			if addr.Kind != eng.KAlloc {
				escape(s, v)
			}
		},
		OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
			if v != nil {
				escape(s, v)
			}
		},
		OnGo: func(s *eng.State, c *eng.Call) {
			m := mon(s)
			at, _ := c.Instr.(ssa.Instruction)
			site := eng.Site{Ctx: c.Ctx, Instr: at}
			for ch, u := range uses[at] {
				if u.sends > 0 {
					r.Seen("goroutine which hands in its result over a channel", at)
				}
				if u.sends == 0 && u.recvs == 0 {
					continue
				}
				if u.recvs > 0 {
					m.put("fed", ch, 1)
					continue
				}
				if !repeated(site) {
					count(m, "one", ch, u.sends)
					continue
				}
				var by *eng.Val
				for cont, sites := range loops {
					for _, l := range sites {
						if loopHas(l, site) && m.has("iter", cont) {
							by = cont
						}
					}
				}
				if by == nil || u.sends > 1 {
					m.put("many", ch, 1)
					continue
				}
				m.rel("each", ch, by)
				place[fmt.Sprint(ch.ID)] = site
			}
		},
		OnIter: func(s *eng.State, cont *eng.Val, more bool, k, el *eng.Val, at eng.Site) {
			m := mon(s)
			cont = cont.Strip()
			known := false
			for _, l := range loops[cont] {
				known = known || l == at
			}
			if !known {
				loops[cont] = append(loops[cont], at)
			}
			if more {
				m.put("iter", cont, 1)
			}
			for _, ch := range append(m.members("many"), append(m.members("one"), relFirst(m, "each")...)...) {
				if p, ok := place[fmt.Sprint(ch.ID)]; ok && loopHas(at, p) {
					continue // the loop which starts them
				}
				if more {
					if m.has("due", ch) {
						m.put("short", ch, 1)
					}
					m.put("due", ch, 1)
					continue
				}
				if !m.has("due", ch) && !m.has("short", ch) {
					m.unrel("each", func(a, b *eng.Val) bool { return a == ch && sameCount(b, cont) })
					if lo, hi := s.Interval(cont); lo == hi && lo > 0 && m.has("one", ch) {
						if n := m.get("one", ch) - int(lo); n > 0 {
							m.put("one", ch, n)
						} else {
							m.del("one", ch)
						}
					}
				}
				m.del("due", ch)
				m.del("short", ch)
			}
		},
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) { escape(s, v) },
		OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			m := mon(s)
			if !isMadeChan(ch) {
				return
			}
			ch = ch.Strip()
			delete(m.Sets, "last")
			m.put("last", ch, 1)
			m.del("due", ch)
			if n := m.get("one", ch); n > 1 && n < 3 {
				if !repeated(at) {
					m.put("one", ch, n-1)
				}
			} else if n == 1 && !repeated(at) {
				m.del("one", ch)
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			// no more messages: the channel has been closed and is empty
			m := mon(s)
			iff, ok := at.Instr.(*ssa.If)
			if !ok || taken {
				return
			}
			if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 1 {
				if u, ok := ex.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW {
					for _, ch := range m.members("last") {
						m.del("one", ch)
						m.del("many", ch)
						m.unrel("each", func(a, b *eng.Val) bool { return a == ch })
					}
				}
			}
		},
	})
	r.slice(x, event)
	capOf := func(s *eng.State, ch *eng.Val) *eng.Val {
		return s.Mem[in.Un("cap", ch, types.Typ[types.Int])]
	}
	for _, e := range x.Run(root, newM()) {
		if e.Kind != eng.ExRet {
			continue
		}
		m := mon(e.S)
		for _, v := range e.Results {
			escape(e.S, v)
		}
		bad := func(ch *eng.Val, what string) {
			if m.has("out", ch) {
				return
			}
			at := root.Blocks[0].Instrs[0]
			for i, u := range uses {
				if w := u[ch]; w.sends > 0 || w.recvs > 0 {
					at = i
				}
			}
			r.Violate("C33.left", at, "%s", what)
		}
		for k := range m.Rel["each"] {
			c := capOf(e.S, k[0])
			if c == nil || !covers(e.S, c, k[1], 0) {
				bad(k[0], FnName(root)+" may return without taking up the result of every goroutine it has started, which then waits for ever")
			}
		}
		for _, ch := range m.members("many") {
			bad(ch, FnName(root)+" may return without taking up all which the goroutines it has started send, which then wait for ever")
		}
		for _, ch := range m.members("one") {
			lo := int64(0)
			if c := capOf(e.S, ch); c != nil {
				lo, _ = e.S.Interval(c)
			}
			if int64(m.get("one", ch)) > lo {
				bad(ch, FnName(root)+" may return without taking up the result of a goroutine it has started, which then waits for ever")
			}
		}
		for _, ch := range m.members("fed") {
			if !m.has("closed", ch) {
				bad(ch, FnName(root)+" may return without closing the channel the goroutines it has started receive from, which then wait for ever")
			}
		}
	}
	r.Absorb(x, FnName(root))
}

func relFirst(m *M, n string) []*eng.Val {
	seen := map[*eng.Val]bool{}
	var out []*eng.Val
	for k := range m.Rel[n] {
		if !seen[k[0]] {
			seen[k[0]] = true
			out = append(out, k[0])
		}
	}
	return out
}
