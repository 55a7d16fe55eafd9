package eng

// A bucket holds the abstract states at one program point that agree on
// everything but the facts. Fact sets are joined only when the join is exact
// (one weaker than the other, or complementary in a single fact), so no
// precision is lost; independent conditions do not multiply states.
type bucket struct {
	ps   *pstate
	done []map[*Val]Fact // already explored
	todo []map[*Val]Fact
	lim  int // fact sets kept apart
}

type pending struct {
	buckets map[string]*bucket
	order   []*bucket
	tops    map[string]*pstate // joins, by group
	isTop   map[*bucket]bool
}

const maxFactSets = 64

// add records a fact set; it reports whether there is something new to do.
func (b *bucket) add(fs map[*Val]Fact) bool {
	for _, d := range b.done {
		if weaker(d, fs) {
			return len(b.todo) > 0
		}
	}
	cp := make(map[*Val]Fact, len(fs))
	for k, v := range fs {
		if v != (Fact{}) {
			cp[k] = v
		}
	}
	b.insert(cp)
	lim := b.lim
	if lim == 0 {
		lim = maxFactSets
	}
	if len(b.todo)+len(b.done) > lim {
		j := map[*Val]Fact{}
		for k, v := range b.todo[0] {
			same := true
			for _, o := range b.todo[1:] {
				if o[k] != v {
					same = false
					break
				}
			}
			if same {
				j[k] = v
			}
		}
		b.todo = nil
		for _, d := range b.done {
			if weaker(d, j) {
				return false
			}
		}
		b.todo = []map[*Val]Fact{j}
	}
	return true
}

func (b *bucket) insert(cp map[*Val]Fact) {
again:
	for i, t := range b.todo {
		if weaker(t, cp) {
			return
		}
		if weaker(cp, t) {
			b.todo = append(b.todo[:i:i], b.todo[i+1:]...)
			goto again
		}
		if j, ok := joinFacts(t, cp); ok {
			b.todo = append(b.todo[:i:i], b.todo[i+1:]...)
			cp = j
			goto again
		}
	}
	b.todo = append(b.todo, cp)
}

func (b *bucket) take() []map[*Val]Fact {
	t := b.todo
	b.todo = nil
	b.done = append(b.done, t...)
	return t
}

// weaker: every state satisfying b satisfies a.
func weaker(a, b map[*Val]Fact) bool {
	for k, f := range a {
		if !f.implied(b[k]) {
			return false
		}
	}
	return true
}

// implied: g implies f.
func (f Fact) implied(g Fact) bool {
	if f == g {
		return true
	}
	if f.Nil != 0 && f.Nil != g.Nil || f.Bool != 0 && f.Bool != g.Bool {
		return false
	}
	if f.HasIv {
		if !g.HasIv || g.Lo < f.Lo || g.Hi > f.Hi {
			return false
		}
	}
	if f.HasNE {
		if g.HasNE && g.NE == f.NE {
			return true
		}
		return g.HasIv && (g.Hi < f.NE || g.Lo > f.NE)
	}
	return true
}

// joinFacts joins two fact sets when the result is exactly their union.
func joinFacts(a, b map[*Val]Fact) (map[*Val]Fact, bool) {
	var diff *Val
	for k, f := range a {
		g, ok := b[k]
		if ok && f == g {
			continue
		}
		if !ok || diff != nil {
			return nil, false
		}
		diff = k
	}
	if diff == nil || len(a) != len(b) {
		return nil, false
	}
	f, g := a[diff], b[diff]
	var j Fact
	if f.HasIv || g.HasIv || f.HasNE || g.HasNE {
		if f.Nil != g.Nil || f.Bool != g.Bool || f.HasNE || g.HasNE || !f.HasIv || !g.HasIv {
			return nil, false
		}
		j = f
		if f.Lo > g.Lo {
			f, g = g, f
		}
		if g.Lo > f.Hi && g.Lo-1 != f.Hi {
			return nil, false
		}
		j.Lo, j.Hi = f.Lo, max(f.Hi, g.Hi)
	} else {
		n := 0
		if f.Nil != g.Nil {
			n++
		} else {
			j.Nil = f.Nil
		}
		if f.Bool != g.Bool {
			n++
		} else {
			j.Bool = f.Bool
		}
		if n != 1 {
			return nil, false
		}
	}
	r := make(map[*Val]Fact, len(a))
	for k, v := range a {
		if k != diff {
			r[k] = v
		}
	}
	if j != (Fact{}) {
		r[diff] = j
	}
	return r, true
}
