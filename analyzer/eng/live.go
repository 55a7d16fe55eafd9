package eng

import "golang.org/x/tools/go/ssa"

// liveness of SSA values at block entry (phi operands are live on the edge).
type liveInfo struct {
	in  []map[ssa.Value]bool // after phis
	out []map[ssa.Value]bool
	rpo []int // processing order of blocks
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func computeLive(fn *ssa.Function) *liveInfo {
	n := len(fn.Blocks)
	li := &liveInfo{in: make([]map[ssa.Value]bool, n), out: make([]map[ssa.Value]bool, n), rpo: blockOrder(fn)}
	for i := range li.in {
		li.in[i] = map[ssa.Value]bool{}
		li.out[i] = map[ssa.Value]bool{}
	}
	// named results that deferred closures may modify are Allocs: always live via defers
	if fn.Recover != nil && defersRecover(fn) {
		// control may pass to the block of recovery from anywhere
		for _, ins := range fn.Recover.Instrs {
			var buf [16]*ssa.Value
			for _, op := range ins.Operands(buf[:0]) {
				if a, ok := (*op).(*ssa.Alloc); ok {
					for i := range li.out {
						li.out[i][a] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := li.out[bi]
			for _, s := range b.Succs {
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for v := range li.in[s.Index] {
					isPhi := false
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						isPhi = true
					}
					if !isPhi && !out[v] {
						out[v] = true
						changed = true
					}
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// duplicate edges: include all matching
					for i, pr := range s.Preds {
						if pr == b {
							if e := p.Edges[i]; isLocal(e) && !out[e] {
								out[e] = true
								changed = true
							}
						}
					}
				}
				_ = pi
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				var buf [16]*ssa.Value
				for _, op := range ins.Operands(buf[:0]) {
					if op != nil && *op != nil && isLocal(*op) {
						in[*op] = true
					}
				}
				if _, n, _ := countdownOf(ins); isLocal(n) {
					in[n] = true
				}
			}
			for v := range in {
				if !li.in[bi][v] {
					li.in[bi][v] = true
					changed = true
				}
			}
		}
	}
	return li
}

func defersRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				g := d.Call.StaticCallee()
				if g != nil && recovers(g) {
					return true
				}
			}
		}
	}
	return false
}

// liveAt returns the values live just before instruction idx of block b.
func (li *liveInfo) liveAt(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	in := map[ssa.Value]bool{}
	for v := range li.out[b.Index] {
		in[v] = true
	}
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		ins := b.Instrs[i]
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if v, ok := ins.(ssa.Value); ok {
			delete(in, v)
		}
		var buf [16]*ssa.Value
		for _, op := range ins.Operands(buf[:0]) {
			if op != nil && *op != nil && isLocal(*op) {
				in[*op] = true
			}
		}
		if _, n, _ := countdownOf(ins); isLocal(n) {
			in[n] = true
		}
	}
	return in
}

// blockOrder numbers blocks so that a block comes after its forward
// predecessors and after the bodies of loops it is an exit of.
func blockOrder(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	reach := make([][]bool, n) // reach[i][j]: j reachable from i
	for i, b := range fn.Blocks {
		reach[i] = make([]bool, n)
		st := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(st) > 0 {
			c := st[len(st)-1]
			st = st[:len(st)-1]
			if reach[i][c.Index] {
				continue
			}
			reach[i][c.Index] = true
			st = append(st, c.Succs...)
		}
	}
	var post []int
	seen := make([]bool, n)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		// successors that leave a loop first, so that they end up later
		for pass := 0; pass < 2; pass++ {
			for _, s := range b.Succs {
				back := reach[s.Index][b.Index]
				if back == (pass == 1) && !seen[s.Index] {
					dfs(s)
				}
			}
		}
		post = append(post, b.Index)
	}
	if n > 0 {
		dfs(fn.Blocks[0])
	}
	if fn.Recover != nil && !seen[fn.Recover.Index] {
		dfs(fn.Recover)
	}
	r := make([]int, n)
	for i, b := range post {
		r[b] = len(post) - i
	}
	return r
}
