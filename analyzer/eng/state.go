package eng

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Monitor is the property state carried along with the abstract state.
// Implementations must be value-like: Clone before modification is done by
// the engine whenever states are split.
type Monitor interface {
	Key() string
	Clone() Monitor
	// Map rewrites every abstract value held by the monitor.
	Map(f func(*Val) *Val)
}

// Fact is what is known about a value that is not itself a term.
type Fact struct {
	Nil    int8 // +1 nil, -1 non-nil
	Bool   int8 // +1 true, -1 false
	Lo, Hi int64
	HasIv  bool
	NE     int64 // known different from this constant
	HasNE  bool
}

func (f Fact) key() string {
	return fmt.Sprintf("%d,%d,%v,%d,%d,%v,%d", f.Nil, f.Bool, f.HasIv, f.Lo, f.Hi, f.HasNE, f.NE)
}

type State struct {
	x     *Exec
	Mem   map[*Val]*Val
	Facts map[*Val]Fact
	Mon   Monitor
	// atoms retired since the environment of the current frame was brought up
	// to date, and since that of its callers was
	pend, olog map[*Val]bool
}

func cloneSet(m map[*Val]bool) map[*Val]bool {
	if len(m) == 0 {
		return nil
	}
	r := make(map[*Val]bool, len(m))
	for k := range m {
		r[k] = true
	}
	return r
}

func setKey(m map[*Val]bool) string {
	if len(m) == 0 {
		return ""
	}
	var r []int
	for k := range m {
		r = append(r, k.ID)
	}
	sort.Ints(r)
	return fmt.Sprint(r)
}

// retire makes way for a new incarnation of atom a; environments follow
// through pend.
func (s *State) retire(a *Val) {
	if s.mentionsAtom(a) {
		s.rename(a)
	}
	if s.pend == nil {
		s.pend = map[*Val]bool{}
	}
	s.pend[a] = true
}

func (s *State) Clone() *State {
	n := &State{x: s.x, Mem: make(map[*Val]*Val, len(s.Mem)), Facts: make(map[*Val]Fact, len(s.Facts))}
	for k, v := range s.Mem {
		n.Mem[k] = v
	}
	for k, v := range s.Facts {
		n.Facts[k] = v
	}
	if s.Mon != nil {
		n.Mon = s.Mon.Clone()
	}
	n.pend, n.olog = cloneSet(s.pend), cloneSet(s.olog)
	return n
}

func (s *State) key() string { return s.memKey() + "#" + s.factKey() }

func (s *State) memKey() string {
	parts := make([]string, 0, len(s.Mem))
	for k, v := range s.Mem {
		parts = append(parts, fmt.Sprintf("m%d=%d", k.ID, v.ID))
	}
	sort.Strings(parts)
	k := strings.Join(parts, ";")
	if s.Mon != nil {
		k += "|" + s.Mon.Key()
	}
	if len(s.pend)+len(s.olog) > 0 {
		k += "|" + setKey(s.pend) + setKey(s.olog)
	}
	return k
}

func (s *State) factKey() string {
	parts := make([]string, 0, len(s.Facts))
	for k, f := range s.Facts {
		parts = append(parts, fmt.Sprintf("f%d:%s", k.ID, f.key()))
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

// Dump prints the state, for debugging.
func (s *State) Dump() string {
	var parts []string
	for k, v := range s.Mem {
		parts = append(parts, fmt.Sprintf("  %s = %s", k, v))
	}
	for k, f := range s.Facts {
		parts = append(parts, fmt.Sprintf("  fact %s: %s", k, f.key()))
	}
	sort.Strings(parts)
	k := strings.Join(parts, "\n")
	if s.Mon != nil {
		k += "\n  mon " + s.Mon.Key()
	}
	return k
}

// ---- facts ----

// Tri is a three-valued truth value.
type Tri int8

const (
	Unknown Tri = 0
	True    Tri = 1
	False   Tri = -1
)

func (t Tri) Not() Tri { return -t }

// Nilness: True = definitely nil, False = definitely not nil.
func (s *State) Nilness(v *Val) Tri {
	switch v.Kind {
	case KConst:
		if v.C == nil {
			return True
		}
		return False
	case KAlloc, KFunc, KClosure, KGlobal, KField, KIndex, KIface, KZero:
		return False
	case KUn:
		if v.Op == "conv" || v.Op == "assert" {
			return s.Nilness(v.Args[0])
		}
		if v.Op == "make" {
			return False
		}
	case KStale:
		if _, ok := v.T.Underlying().(*types.Pointer); ok && v.Op == "alloc" {
			return False
		}
	}
	if f, ok := s.Facts[v]; ok {
		return Tri(f.Nil)
	}
	return Unknown
}

func (s *State) iv(v *Val) (lo, hi int64, ok bool) {
	if i, isC := v.IntVal(); isC {
		return i, i, true
	}
	lo, hi = math.MinInt64, math.MaxInt64
	if v.Kind == KUn && v.Op == "len" {
		lo = 0
	}
	if b, isB := v.T.(*types.Basic); isB && b.Info()&types.IsUnsigned != 0 {
		lo = 0
	}
	if v.Kind == KBin && v.Op == "+" {
		if c, isC := v.Args[1].IntVal(); isC {
			l, h, _ := s.iv(v.Args[0])
			if l > math.MinInt64+1000000 && c < 1000000 && c > -1000000 {
				lo = l + c
			}
			if h < math.MaxInt64-1000000 && c < 1000000 && c > -1000000 {
				hi = h + c
			}
		}
	}
	if f, has := s.Facts[v]; has && f.HasIv {
		if f.Lo > lo {
			lo = f.Lo
		}
		if f.Hi < hi {
			hi = f.Hi
		}
	}
	return lo, hi, true
}

// Interval returns the known bounds of v.
func (s *State) Interval(v *Val) (int64, int64) { lo, hi, _ := s.iv(v); return lo, hi }

// Decide evaluates a boolean value.
func (s *State) Decide(v *Val) Tri {
	if v.Kind == KConst && v.C != nil && v.C.Kind() == constant.Bool {
		if constant.BoolVal(v.C) {
			return True
		}
		return False
	}
	if v.Kind == KUn && v.Op == "!" {
		return s.Decide(v.Args[0]).Not()
	}
	if v.Kind == KBin && v.Op == "==" {
		x, y := v.Args[0], v.Args[1]
		if x == y && x.Kind != KStale && x.Kind != KOut {
			return True
		}
		if x.IsNil() || y.IsNil() {
			if x.IsNil() {
				x = y
			}
			if n := s.Nilness(x); n != Unknown {
				return n
			}
			return Unknown
		}
		if isIntT(x.T) || isIntT(y.T) {
			if c, ok := y.IntVal(); ok {
				if f, has := s.Facts[x]; has && f.HasNE && f.NE == c {
					return False
				}
			}
			if c, ok := x.IntVal(); ok {
				if f, has := s.Facts[y]; has && f.HasNE && f.NE == c {
					return False
				}
			}
			xl, xh, _ := s.iv(x)
			yl, yh, _ := s.iv(y)
			if xh < yl || yh < xl {
				return False
			}
			if xl == xh && yl == yh && xl == yl {
				return True
			}
		}
		// nil vs non-nil
		nx, ny := s.Nilness(x), s.Nilness(y)
		if isNilable(x.T) && isNilable(y.T) && nx != Unknown && ny != Unknown && nx != ny {
			return False
		}
		// distinct addresses of distinct cells
		if x.Kind == KAlloc && y.Kind == KAlloc && x != y {
			return False
		}
	}
	if v.Kind == KBin && v.Op == "<" {
		x, y := v.Args[0], v.Args[1]
		if x == y {
			return False
		}
		xl, xh, _ := s.iv(x)
		yl, yh, _ := s.iv(y)
		if xh < yl {
			return True
		}
		if xl >= yh {
			return False
		}
	}
	if f, ok := s.Facts[v]; ok && f.Bool != 0 {
		return Tri(f.Bool)
	}
	return Unknown
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// AssumeNil records that v is nil (or not). It reports false if that
// contradicts what is known.
func (s *State) AssumeNil(v *Val, isNil bool) bool {
	want := False
	if isNil {
		want = True
	}
	if n := s.Nilness(v); n != Unknown {
		return n == want
	}
	if v.Kind == KUn && (v.Op == "conv" || v.Op == "assert") {
		return s.AssumeNil(v.Args[0], isNil)
	}
	f := s.Facts[v]
	f.Nil = int8(want)
	s.Facts[v] = f
	return true
}

// Assume records a branch outcome; false means infeasible.
func (s *State) Assume(v *Val, b bool) bool {
	want := False
	if b {
		want = True
	}
	if d := s.Decide(v); d != Unknown {
		return d == want
	}
	if v.Kind == KUn && v.Op == "!" {
		return s.Assume(v.Args[0], !b)
	}
	if v.Kind == KBin && v.Op == "==" {
		x, y := v.Args[0], v.Args[1]
		if x.IsNil() {
			return s.AssumeNil(y, b)
		}
		if y.IsNil() {
			return s.AssumeNil(x, b)
		}
		if isIntT(x.T) || isIntT(y.T) {
			if x.Kind == KConst {
				x, y = y, x
			}
			if c, ok := y.IntVal(); ok {
				f := s.Facts[x]
				lo, hi, _ := s.iv(x)
				if b {
					f.HasIv, f.Lo, f.Hi = true, c, c
				} else {
					if c == lo {
						f.HasIv, f.Lo, f.Hi = true, lo+1, hi
					} else if c == hi {
						f.HasIv, f.Lo, f.Hi = true, lo, hi-1
					} else {
						f.HasNE, f.NE = true, c
					}
				}
				s.Facts[x] = f
				return true
			}
		}
		if b && isNilable(x.T) {
			if n := s.Nilness(x); n != Unknown {
				s.AssumeNil(y, n == True)
			} else if n := s.Nilness(y); n != Unknown {
				s.AssumeNil(x, n == True)
			}
		}
	}
	if v.Kind == KBin && v.Op == "<" {
		x, y := v.Args[0], v.Args[1]
		if c, ok := y.IntVal(); ok {
			lo, hi, _ := s.iv(x)
			f := s.Facts[x]
			f.HasIv = true
			if b {
				f.Lo, f.Hi = lo, min(hi, c-1)
			} else {
				f.Lo, f.Hi = max(lo, c), hi
			}
			s.Facts[x] = f
			return true
		}
		if c, ok := x.IntVal(); ok {
			lo, hi, _ := s.iv(y)
			f := s.Facts[y]
			f.HasIv = true
			if b {
				f.Lo, f.Hi = max(lo, c+1), hi
			} else {
				f.Lo, f.Hi = lo, min(hi, c)
			}
			s.Facts[y] = f
			return true
		}
	}
	f := s.Facts[v]
	f.Bool = int8(want)
	s.Facts[v] = f
	return true
}

// ---- memory ----

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Read returns the content of addr (type t).
func (s *State) Read(addr *Val, t types.Type) *Val {
	if v, ok := s.Mem[addr]; ok {
		return v
	}
	in := s.x.In
	switch addr.Kind {
	case KField:
		base := addr.Args[0]
		if s.hasContent(base) {
			bv := s.Read(base, deref(base.T))
			return s.FieldOf(bv, addr.Idx, addr.Fld)
		}
	case KIndex:
		base := addr.Args[0]
		if v, ok := s.Mem[base]; ok && v.Kind == KZero {
			return in.Zero(t)
		}
	}
	return in.Load(addr, t)
}

func (s *State) hasContent(addr *Val) bool {
	if _, ok := s.Mem[addr]; ok {
		return true
	}
	if addr.Kind == KField {
		return s.hasContent(addr.Args[0])
	}
	return false
}

// FieldOf selects field i of struct value v.
func (s *State) FieldOf(v *Val, i int, fld *types.Var) *Val {
	in := s.x.In
	if v.Kind == KZero {
		return in.Zero(fld.Type())
	}
	if v.Kind == KLoad {
		return s.Read(in.Field(v.Args[0], i, fld), fld.Type())
	}
	fv := in.FieldV(v, i, fld)
	if c, ok := s.Mem[fv]; ok {
		return c
	}
	return fv
}

func under(addr, base *Val) bool {
	for addr != nil {
		if addr == base {
			return true
		}
		switch addr.Kind {
		case KField, KIndex:
			addr = addr.Args[0]
		default:
			return false
		}
	}
	return false
}

// Write stores v at addr with weak invalidation of possible aliases.
func (s *State) Write(addr, v *Val, site siteT) {
	in := s.x.In
	var lost []*Val
	for a := range s.Mem {
		if a == addr {
			continue
		}
		if under(a, addr) {
			delete(s.Mem, a)
			continue
		}
		if s.mayAlias(a, addr) {
			lost = append(lost, a)
		}
	}
	for f := range s.Facts {
		if f.Kind == KLoad && f.Args[0] != addr && s.mayAlias(f.Args[0], addr) {
			if _, ok := s.Mem[f.Args[0]]; !ok {
				lost = append(lost, f.Args[0])
			}
		}
	}
	for _, j := range s.forget(lost, site, "alias") {
		addr, v = in.Subst(addr, j, in.Stale(j)), in.Subst(v, j, in.Stale(j))
	}
	s.Mem[addr] = v
	if st, ok := deref(addr.T).Underlying().(*types.Struct); ok {
		if v.Kind != KZero {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if c, ok := s.Mem[in.FieldV(v, i, f)]; ok {
					s.Mem[in.Field(addr, i, f)] = c
				}
			}
		}
	}
}

func (s *State) mayAlias(a, b *Val) bool {
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case KField:
		if a.Fld != b.Fld {
			return false
		}
		return !s.distinct(a.Args[0], b.Args[0])
	case KIndex:
		if a.Args[0] != b.Args[0] {
			if !types.Identical(a.T, b.T) {
				return false
			}
			if s.distinct(a.Args[0], b.Args[0]) {
				return false
			}
			return true
		}
		return s.Decide(s.x.In.Bin(tokEQL, a.Args[1], b.Args[1], types.Typ[types.Bool])) != False
	case KElem:
		if a.Args[0] != b.Args[0] {
			return types.Identical(a.T, b.T) && !s.distinct(a.Args[0], b.Args[0])
		}
		return s.Decide(s.x.In.Bin(tokEQL, a.Args[1], b.Args[1], types.Typ[types.Bool])) != False
	}
	return false
}

// distinct reports that two object addresses certainly differ.
func (s *State) distinct(a, b *Val) bool {
	if a == b {
		return false
	}
	ra, rb := a, b
	for ra.Kind == KField {
		ra = ra.Args[0]
	}
	for rb.Kind == KField {
		rb = rb.Args[0]
	}
	fresh := func(v *Val) bool { return v.Kind == KAlloc || (v.Kind == KUn && v.Op == "make") }
	if fresh(ra) && fresh(rb) && ra != rb {
		return true
	}
	old := func(v *Val) bool { return v.Kind == KParam || v.Kind == KGlobal }
	if fresh(ra) && old(rb) || fresh(rb) && old(ra) {
		return true
	}
	if ra.Kind == KGlobal && rb.Kind == KGlobal && ra != rb {
		return true
	}
	return false
}

// Havoc forgets the content at and below addr.
func (s *State) Havoc(addr *Val, site siteT, tag string) {
	for a := range s.Mem {
		if a != addr && under(a, addr) {
			delete(s.Mem, a)
		}
	}
	s.forget([]*Val{addr}, site, tag)
}

// forget gives the cells new unknown contents. It returns the atoms of which
// earlier incarnations were in use.
func (s *State) forget(cells []*Val, site siteT, tag string) []*Val {
	in := s.x.In
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	var js, old []*Val
	for _, a := range cells {
		delete(s.Mem, a)
		js = append(js, in.Out(site.ctx, site.instr, fmt.Sprintf("%s%d", tag, a.ID), deref(a.T)))
	}
	for _, j := range js {
		old = append(old, j)
		s.retire(j)
		for i, a := range cells {
			cells[i] = in.Subst(a, j, in.Stale(j))
		}
	}
	for i, a := range cells {
		s.Mem[a] = js[i]
	}
	return old
}

// rename replaces atom v by its stale incarnation everywhere.
func (s *State) rename(v *Val) {
	in := s.x.In
	st := in.Stale(v)
	sub := func(x *Val) *Val { return in.Subst(x, v, st) }
	hadStale := false
	mem := make(map[*Val]*Val, len(s.Mem))
	for a := range s.Mem {
		if a.hasAtom(st) {
			hadStale = true
		}
	}
	for a, c := range s.Mem {
		na, nc := sub(a), sub(c)
		if na != a && hadStale {
			continue // conflated with an older incarnation
		}
		if hadStale && na.hasAtom(st) && a == na {
			continue
		}
		mem[na] = nc
	}
	s.Mem = mem
	facts := make(map[*Val]Fact, len(s.Facts))
	for k, f := range s.Facts {
		nk := sub(k)
		if nk != k {
			if _, ok := s.Facts[nk]; ok {
				continue
			}
		}
		facts[nk] = f
	}
	s.Facts = facts
	if s.Mon != nil {
		s.Mon.Map(sub)
	}
}

func (s *State) mentionsAtom(v *Val) bool {
	for a, c := range s.Mem {
		if a.hasAtom(v) || c.hasAtom(v) {
			return true
		}
	}
	for k := range s.Facts {
		if k.hasAtom(v) {
			return true
		}
	}
	if s.Mon != nil {
		found := false
		s.Mon.Map(func(x *Val) *Val {
			if x != nil && x.hasAtom(v) {
				found = true
			}
			return x
		})
		return found
	}
	return false
}

// gc drops facts and cells that nothing live refers to.
func (s *State) gc(roots []*Val) {
	marked := map[*Val]bool{}
	var work []*Val
	mark := func(v *Val) {
		if v == nil {
			return
		}
		for _, a := range v.atoms {
			if !marked[a] {
				marked[a] = true
				work = append(work, a)
			}
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for a := range s.olog {
		mark(s.x.In.Stale(a))
	}
	for a := range s.pend {
		mark(s.x.In.Stale(a))
	}
	if s.Mon != nil {
		s.Mon.Map(func(x *Val) *Val { mark(x); return x })
	}
	all := func(v *Val) bool {
		for _, a := range v.atoms {
			if !marked[a] {
				return false
			}
		}
		return true
	}
	done := map[*Val]bool{}
	for {
		changed := false
		for a, c := range s.Mem {
			if !done[a] && all(a) {
				done[a] = true
				mark(c)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	for a := range s.Mem {
		if !done[a] {
			delete(s.Mem, a)
		}
	}
	for k := range s.Facts {
		if !all(k) {
			delete(s.Facts, k)
		}
	}
}

// Companion is the last component (the error) of the opaque tuple v is a
// component of.
func (s *State) Companion(v *Val) *Val {
	if v.Kind != KExtract {
		return nil
	}
	t := v.Args[0]
	var tt *types.Tuple
	if t.Instr != nil {
		tt, _ = t.Instr.Type().(*types.Tuple)
	}
	if tt == nil {
		if q, ok := t.T.(*types.Tuple); ok {
			tt = q
		}
	}
	if tt == nil || tt.Len() < 2 {
		return nil
	}
	i := tt.Len() - 1
	return s.x.In.Extract(t, i, tt.At(i).Type())
}
