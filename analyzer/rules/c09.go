package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// tokMon: channels on which this goroutine has deposited a token.
type tokMon struct {
	held map[*eng.Val]int
}

func (m *tokMon) Key() string {
	var s []string
	for v, n := range m.held {
		s = append(s, fmt.Sprintf("%d:%d", v.ID, n))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}
func (m *tokMon) Clone() eng.Monitor {
	n := &tokMon{map[*eng.Val]int{}}
	for k, v := range m.held {
		n.held[k] = v
	}
	return n
}
func (m *tokMon) Map(f func(*eng.Val) *eng.Val) {
	n := map[*eng.Val]int{}
	for k, v := range m.held {
		n[f(k)] += v
	}
	m.held = n
}

// heavy: operations that run the version control system's network update or
// build an index.
func (r *Report) heavyCall(c *eng.Call) string {
	if c.Invoke != nil && c.Invoke.FullName() == "("+r.P.Module+"/vcs.Driver).Pull" {
		return "vcs pull"
	}
	if c.Invoke != nil && c.Invoke.FullName() == "("+r.P.Module+"/vcs.Driver).Clone" {
		return "vcs clone"
	}
	if c.Fn != nil && c.Fn == r.P.Func("index", "Build") {
		return "index build"
	}
	return ""
}

func (r *Report) isHeavyInstr(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	com := ci.Common()
	if com.IsInvoke() {
		n := com.Method.FullName()
		return n == "("+r.P.Module+"/vcs.Driver).Pull" || n == "("+r.P.Module+"/vcs.Driver).Clone"
	}
	f := com.StaticCallee()
	return f != nil && f == r.P.Func("index", "Build")
}

func init() {
	register("C09", "Concurrent indexing is limited",
		"typestate over the indexing token (buffered channel) from every entry point through all goroutines: a vcs update or index build only while holding a token of the one shared limiter whose capacity is the configured maximum; every acquired token released on every exit, not acquired twice, not held while waiting",
		func(r *Report) {
			cfg := r.P.Type("config", "Config")
			if cfg == nil {
				r.Undecided("configuration type not found")
				return
			}
			roots := r.roots(func(f *ssa.Function) bool { return mentions(f, r.isHeavyInstr) }, "searcher")
			for _, root := range roots {
				reads := false
				for f := range r.P.Reach(root) {
					if r.mentionsField(f, "config", "Config", "MaxConcurrentIndexers") {
						reads = true
					}
				}
				if reads {
					r.limiterRoot(root)
				}
			}
			r.Need("heavy operation under the limiter", 3)
			r.Need("token release", 1)
			r.Need("entry point", 1)
		})
}

func (r *Report) limiterRoot(root *ssa.Function) {
	r.SeenAt("entry point", FnName(root))
	// A channel is a limiter if some update or build runs while this goroutine
	// has an element of its own in it. Other events on channels are judged
	// once that is known.
	type pend struct {
		ch   *eng.Val
		rule string
		at   ssa.Instruction
		msg  string
	}
	limiters := map[ssa.Value]bool{}
	var later []pend
	isMake := func(ch *eng.Val) bool { return ch.Kind == eng.KUn && ch.Op == "make" }
	good := func(s *eng.State, ch *eng.Val, at ssa.Instruction) {
		limiters[ch.Args[0].Instr] = true
		if c := s.Mem[r.P.In.Un("cap", ch, intT)]; c == nil {
			r.Violate("C09.capacity", at, "the capacity of the limiter held here is unknown")
		} else {
			b := c.Strip()
			if !(b.Kind == eng.KLoad && b.Args[0].Kind == eng.KField && b.Args[0].Fld.Name() == "MaxConcurrentIndexers") {
				r.Violate("C09.capacity", at, "the limiter held here has capacity %v, not the configured maximum of concurrent indexers", c)
			}
		}
		mk := ch.Args[0]
		if mk.Kind == eng.KStale || !onceInRoot(mk.Ctx, mk.Instr.(ssa.Instruction)) {
			r.Violate("C09.shared", at, "the limiter held here is not one shared by all repositories")
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			what := r.heavyCall(c)
			if what == "" {
				return eng.Default
			}
			r.Seen("heavy operation under the limiter", c.Instr)
			ok := false
			for ch, n := range s.Mon.(*tokMon).held {
				if n > 0 {
					good(s, ch, c.Instr)
					ok = true
				}
			}
			if !ok {
				r.Violate("C09.token", c.Instr, "%s without holding an indexing token", what)
			}
			return eng.Opaque
		},
		OnSend: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			if !isMake(ch) {
				return
			}
			m := s.Mon.(*tokMon)
			if m.held[ch] > 0 {
				later = append(later, pend{ch, "C09.twice", at.Instr, "a second indexing token is acquired while one is held"})
				return
			}
			r.Seen("possible token acquisition", at.Instr)
			m.held[ch] = 1
		},
		OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
			m := s.Mon.(*tokMon)
			if m.held[ch] > 0 {
				r.Seen("token release", at.Instr)
				delete(m.held, ch)
				return
			}
			if isMake(ch) {
				later = append(later, pend{ch, "C09.release", at.Instr, "an indexing token is released that is not held"})
			}
			if blocking {
				for h := range m.held {
					later = append(later, pend{h, "C09.wait", at.Instr, "an indexing token is held while waiting for an event"})
				}
			}
		},
	})
	r.slice(x, func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.Go:
			return true
		case *ssa.UnOp:
			return i.Op == token.ARROW
		}
		return r.isHeavyInstr(i)
	})
	end := func(fn *ssa.Function, exits []eng.Exit) {
		for _, e := range exits {
			if e.Kind == eng.ExHalt {
				continue
			}
			for ch := range e.S.Mon.(*tokMon).held {
				later = append(later, pend{ch, "C09.leak", fn.Blocks[0].Instrs[0], "an indexing token is still held when the goroutine or entry point " + FnName(fn) + " ends"})
			}
		}
	}
	end(root, x.Run(root, &tokMon{map[*eng.Val]int{}}))
	x.RunThreads(func(t *eng.Thread) eng.Monitor { return &tokMon{map[*eng.Val]int{}} },
		func(t *eng.Thread, exits []eng.Exit) { end(t.Call.Fn, exits) })
	for _, p := range later {
		if limiters[p.ch.Args[0].Instr] {
			r.Violate(p.rule, p.at, "%s", p.msg)
		}
	}
	r.Absorb(x, FnName(root))
}
