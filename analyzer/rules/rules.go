// Package rules holds one static rule per property.
package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// Violation is one construct that breaks a property.
type Violation struct {
	Key    string // stable: rule | function | construct
	Pos    string
	Msg    string
	Target string // GOOS
}

// Report collects what a rule found and what it looked at.
type Report struct {
	tt       *taint
	server   map[*ssa.Function]bool
	P        *eng.Prog
	Prop     string
	Thorough bool
	Viols    map[string]*Violation
	Counts   map[string]int // instances examined per kind
	Sites    map[string]map[string]bool
	Funcs    map[*ssa.Function]bool
	States   int
	Merged   int
	Undec    []string
}

func NewReport(p *eng.Prog, prop string, thorough bool) *Report {
	return &Report{P: p, Prop: prop, Thorough: thorough, Viols: map[string]*Violation{}, Counts: map[string]int{},
		Sites: map[string]map[string]bool{}, Funcs: map[*ssa.Function]bool{}}
}

// Violate records a violation at an instruction.
func (r *Report) Violate(rule string, at ssa.Instruction, format string, args ...interface{}) {
	fn := "?"
	pos := token.NoPos
	if at != nil {
		pos = at.Pos()
		if at.Parent() != nil {
			fn = FnName(at.Parent())
			if !pos.IsValid() {
				pos = nearPos(at)
			}
		}
	}
	r.add(rule, fn, r.P.Pos(pos), fmt.Sprintf(format, args...))
}

func nearPos(at ssa.Instruction) token.Pos {
	b := at.Block()
	if b == nil {
		return at.Parent().Pos()
	}
	found := false
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i] == at {
			found = true
		}
		if found && b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return at.Parent().Pos()
}

// ViolateFn records a violation concerning a whole function or package.
func (r *Report) ViolateFn(rule, fn string, pos token.Pos, format string, args ...interface{}) {
	r.add(rule, fn, r.P.Pos(pos), fmt.Sprintf(format, args...))
}

func (r *Report) add(rule, fn, pos, msg string) {
	k := rule + "|" + fn + "|" + msg
	if r.Viols[k] == nil {
		r.Viols[k] = &Violation{Key: k, Pos: pos, Msg: msg, Target: r.P.GOOS}
	}
}

// Undecided records that the rule could not reach a verdict; it counts as a
// violation, because silence would not mean that the property holds.
func (r *Report) Undecided(format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	r.add("undecided", "-", "-", m)
}

// Seen counts an examined instance of a kind, once per site.
func (r *Report) Seen(kind string, at ssa.Instruction) {
	pos := "?"
	if at != nil {
		p := at.Pos()
		if !p.IsValid() {
			p = nearPos(at)
		}
		pos = r.P.Pos(p)
		if at.Parent() != nil {
			pos += " (" + FnName(at.Parent()) + ")"
		}
	}
	r.SeenAt(kind, pos)
}

func (r *Report) SeenAt(kind, what string) {
	m := r.Sites[kind]
	if m == nil {
		m = map[string]bool{}
		r.Sites[kind] = m
	}
	m[what] = true
}

// Need fails the check if fewer than n instances of kind were examined: the
// rule would otherwise be vacuous.
func (r *Report) Need(kind string, n int) {
	if len(r.Sites[kind]) < n {
		r.Undecided("vacuous: examined %d instances of %q, expected at least %d", len(r.Sites[kind]), kind, n)
	}
}

// Absorb records what an execution covered.
func (r *Report) Absorb(x *eng.Exec, root string) {
	for f := range x.Funcs {
		r.Funcs[f] = true
	}
	r.States += x.NStates
	r.Merged += x.Merged
	if x.Over {
		r.Undecided("state budget exhausted analysing %s", root)
	}
}

// FnName is a readable, position-free function name.
func FnName(f *ssa.Function) string {
	n := f.RelString(nil)
	return strings.ReplaceAll(n, "github.com/hound-search/hound/", "")
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Rule decides one property.
type Rule struct {
	ID    string
	Title string
	Run   func(r *Report)
	Doc   string // rule applied, for the evidence
	// Assume: what the rule takes for granted
	Assume []string
}

var All []*Rule

func register(id, title, doc string, run func(*Report)) *Rule {
	r := &Rule{ID: id, Title: title, Doc: doc, Run: run}
	All = append(All, r)
	return r
}

// Find returns the rule with the given property id.
func Find(id string) *Rule {
	for _, r := range All {
		if r.ID == id {
			return r
		}
	}
	return nil
}

// ---- shared helpers ----

// inLoop reports whether the instruction can execute more than once per
// activation of its function.
func inLoop(i ssa.Instruction) bool {
	b := i.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(*ssa.BasicBlock) bool
	walk = func(c *ssa.BasicBlock) bool {
		for _, s := range c.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// onceInRoot reports that a value created at (ctx, instr) is created at most
// once per execution of the root: neither it nor any call leading to it is in
// a loop, and it is not created by another goroutine.
func onceInRoot(c *eng.Ctx, i ssa.Instruction) bool {
	if inLoop(i) {
		return false
	}
	for ; c != nil && c.Site != nil; c = c.Parent {
		if _, ok := c.Site.(*ssa.Go); ok {
			return false
		}
		if inLoop(c.Site) {
			return false
		}
	}
	return true
}

// roots lists the functions a rule should start from: every function that can
// reach a target and is exported, main or init.
func (r *Report) roots(target func(*ssa.Function) bool, pkgs ...string) []*ssa.Function {
	p := r.P
	callers := p.CallersOf()
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		if len(pkgs) > 0 {
			ok := false
			for _, q := range pkgs {
				if p.RelPkg(f) == q {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		exported := f.Object() != nil && f.Object().Exported()
		if recv := f.Signature.Recv(); recv != nil && !exported {
			exported = false
		}
		if !exported && (len(callers[f]) > 0 || f.Name() != "main" && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#")) {
			continue // called from elsewhere, or never
		}
		hit := false
		for g := range p.Reach(f) {
			if target(g) {
				hit = true
				break
			}
		}
		if hit {
			out = append(out, f)
		}
	}
	return out
}

// mentions reports whether fn contains an instruction satisfying pred.
func mentions(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if pred(i) {
				return true
			}
		}
	}
	return false
}

// calleeIs matches a call instruction against canonical callee names.
func calleeIs(i ssa.Instruction, names ...string) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := eng.CalleeName(ci.Common())
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

// opaquePkgs makes whole module packages opaque.
func (r *Report) opaquePkgs(rels ...string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		q := r.P.RelPkg(f)
		for _, x := range rels {
			if q == x {
				return true
			}
		}
		return false
	}
}

// slice makes the execution look only into functions which
// matter to the rule: those from which an event of interest is reachable,
// and small loop-free helpers and constructors, whose results may matter.
func (r *Report) slice(x *eng.Exec, event func(ssa.Instruction) bool) {
	memo := map[*ssa.Function]bool{}
	x.OpaqueDyn = func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		rel := false
		for g := range r.P.Reach(f) {
			if mentions(g, event) {
				rel = true
				break
			}
		}
		memo[f] = !rel
		return !rel
	}
	x.OpaqueFn = func(f *ssa.Function) bool {
		if !x.OpaqueDyn(f) {
			return false
		}
		n := 0
		for g := range r.P.Reach(f) {
			for _, b := range g.Blocks {
				n += len(b.Instrs)
			}
		}
		return n > 80 || !simpleFn(f)
	}
}

// simpleFn: a small helper without loops or dynamic dispatch.
func simpleFn(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 6 {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
				return false
			}
		}
	}
	return true
}
