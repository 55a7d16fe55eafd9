package rules

import (
	"fmt"
	"sort"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// M is a general property state: named sets of values with small integers,
// named relations between values, and named counters.
type M struct {
	Sets  map[string]map[*eng.Val]int
	Rel   map[string]map[[2]*eng.Val]bool
	Flags map[string]int
}

func newM() *M {
	return &M{map[string]map[*eng.Val]int{}, map[string]map[[2]*eng.Val]bool{}, map[string]int{}}
}

func mon(s *eng.State) *M { return s.Mon.(*M) }

func (m *M) Key() string {
	var p []string
	for n, s := range m.Sets {
		for v, i := range s {
			p = append(p, fmt.Sprintf("%s:%d=%d", n, v.ID, i))
		}
	}
	for n, s := range m.Rel {
		for v := range s {
			p = append(p, fmt.Sprintf("%s:%d~%d", n, v[0].ID, v[1].ID))
		}
	}
	for n, i := range m.Flags {
		if i != 0 {
			p = append(p, fmt.Sprintf("%s=%d", n, i))
		}
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func (m *M) Clone() eng.Monitor {
	n := newM()
	for k, s := range m.Sets {
		t := make(map[*eng.Val]int, len(s))
		for v, i := range s {
			t[v] = i
		}
		n.Sets[k] = t
	}
	for k, s := range m.Rel {
		t := make(map[[2]*eng.Val]bool, len(s))
		for v, i := range s {
			t[v] = i
		}
		n.Rel[k] = t
	}
	for k, i := range m.Flags {
		n.Flags[k] = i
	}
	return n
}

func (m *M) Map(f func(*eng.Val) *eng.Val) {
	for k, s := range m.Sets {
		t := make(map[*eng.Val]int, len(s))
		for v, i := range s {
			w := f(v)
			if o, ok := t[w]; !ok || i > o {
				t[w] = i
			}
		}
		m.Sets[k] = t
	}
	for k, s := range m.Rel {
		t := make(map[[2]*eng.Val]bool, len(s))
		for v, i := range s {
			t[[2]*eng.Val{f(v[0]), f(v[1])}] = i
		}
		m.Rel[k] = t
	}
}

func (m *M) get(set string, v *eng.Val) int { return m.Sets[set][v] }
func (m *M) has(set string, v *eng.Val) bool {
	_, ok := m.Sets[set][v]
	return ok
}
func (m *M) put(set string, v *eng.Val, i int) {
	s := m.Sets[set]
	if s == nil {
		s = map[*eng.Val]int{}
		m.Sets[set] = s
	}
	s[v] = i
}
func (m *M) del(set string, v *eng.Val) {
	delete(m.Sets[set], v)
	if len(m.Sets[set]) == 0 {
		delete(m.Sets, set)
	}
}
func (m *M) rel(n string, a, b *eng.Val) {
	s := m.Rel[n]
	if s == nil {
		s = map[[2]*eng.Val]bool{}
		m.Rel[n] = s
	}
	s[[2]*eng.Val{a, b}] = true
}
func (m *M) unrel(n string, p func(a, b *eng.Val) bool) {
	for k := range m.Rel[n] {
		if p(k[0], k[1]) {
			delete(m.Rel[n], k)
		}
	}
	if len(m.Rel[n]) == 0 {
		delete(m.Rel, n)
	}
}

// members of a set in a fixed order.
func (m *M) members(set string) []*eng.Val {
	var r []*eng.Val
	for v := range m.Sets[set] {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// ---- locks ----

type lockKind int

const (
	lkNone lockKind = iota
	lkLock
	lkRLock
	lkUnlock
	lkRUnlock
)

func lockName(n string) lockKind {
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return lkLock
	case "(*sync.RWMutex).RLock":
		return lkRLock
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return lkUnlock
	case "(*sync.RWMutex).RUnlock":
		return lkRUnlock
	}
	return lkNone
}

func lockOp(c *eng.Call) (lockKind, *eng.Val) {
	k := lockName(c.Name)
	if k == lkNone {
		return lkNone, nil
	}
	if len(c.Args) == 0 {
		return lkNone, nil
	}
	return k, c.Args[0].Strip()
}

func isLockInstr(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	return ok && lockName(eng.CalleeName(ci.Common())) != lkNone
}

// trackLocks maintains the set "lock" (address -> 1 read, 2 write).
func trackLocks(m *M, c *eng.Call) (lockKind, *eng.Val) {
	k, a := lockOp(c)
	switch k {
	case lkLock:
		m.put("lock", a, 2)
	case lkRLock:
		if m.get("lock", a) < 1 {
			m.put("lock", a, 1)
		}
	case lkUnlock, lkRUnlock:
		m.del("lock", a)
	}
	return k, a
}

// lockBase splits a lock address into the object it belongs to and a name.
func lockBase(a *eng.Val) (*eng.Val, string) {
	n := ""
	for {
		switch a.Kind {
		case eng.KField:
			n = "." + a.Fld.Name() + n
			a = a.Args[0]
			return a, n
		case eng.KLoad:
			a = a.Args[0]
			continue
		case eng.KGlobal:
			return nil, "global " + a.G.Name()
		}
		return nil, a.String()
	}
}

// variadic lists the known elements of a slice built for a variadic call, or
// v itself.
func variadic(s *eng.State, v *eng.Val) []*eng.Val {
	b := v
	if b.Kind == eng.KUn && strings.HasPrefix(b.Op, "slice") {
		b = b.Args[0]
	}
	if b.Kind != eng.KAlloc {
		return []*eng.Val{v}
	}
	r := []*eng.Val{v}
	type e struct {
		i int64
		v *eng.Val
	}
	var es []e
	for a, c := range s.Mem {
		if a.Kind == eng.KIndex && a.Args[0] == b {
			i, _ := a.Args[1].IntVal()
			es = append(es, e{i, c})
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].i < es[j].i })
	for _, x := range es {
		r = append(r, x.v)
	}
	return r
}

// callArgs lists the arguments of a call with variadic slices expanded.
func callArgs(s *eng.State, c *eng.Call) []*eng.Val {
	var r []*eng.Val
	for i, a := range c.Args {
		if i == len(c.Args)-1 {
			r = append(r, variadic(s, a)...)
		} else {
			r = append(r, a)
		}
	}
	return r
}
