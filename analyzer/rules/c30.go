package rules

import (
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C30", "The command line client asks what it is told to and reports failures",
		"path-sensitive dataflow over the client: provenance of every parameter, header and part of the address of each request; typestate of each request on every path to a result (sent, status, decoded, error of the server), across the goroutines and channels that carry the outcomes",
		func(r *Report) {
			n := 0
			for _, f := range r.P.Funcs {
				if r.P.RelPkg(f) == "client" && f.Parent() == nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil && errResult(f.Signature) && r.sendsRequest(f) {
					r.clientRule(f)
					n++
				}
			}
			if n == 0 {
				r.Undecided("no function of package client sends a request")
			}
			r.presentRule()
			r.clientCommand()
			r.Need("request sent", 2)
			r.Need("parameter of a search", 6)
			r.Need("search without error", 1)
			r.Need("outcome of a request", 2)
			r.Need("presentation", 1)
			r.Need("search of the command", 1)
		})
	r.Assume = []string{"encoding/json reports what it cannot decode"}
}

func isSendInstr(i ssa.Instruction) bool {
	return calleeIs(i, "(*net/http.Client).Do", "net/http.Get", "(*net/http.Client).Get", "(net/http.RoundTripper).RoundTrip")
}

func (r *Report) sendsRequest(f *ssa.Function) bool {
	for g := range r.P.Reach(f) {
		if r.P.RelPkg(g) == "client" && mentions(g, isSendInstr) {
			return true
		}
	}
	return false
}

// plainOf: v is p written out in the usual way.
func plainOf(v, p *eng.Val) bool {
	v = v.Strip()
	if v == p {
		return true
	}
	switch {
	case v.Kind == eng.KIface || v.Kind == eng.KUn && v.Op == "conv":
		return plainOf(v.Args[0], p)
	case v.Kind == eng.KUn && strings.HasPrefix(v.Op, "pure:") && v.Args[0].Kind == eng.KTuple:
		a := v.Args[0].Args
		switch v.Op[5:] {
		case "fmt.Sprintf":
			if f, ok := strConst(a[0]); ok && (f == "%d" || f == "%t" || f == "%s" || f == "%v") && len(a) == 2 {
				return plainOf(a[1], p)
			}
		case "fmt.Sprint":
			return len(a) == 1 && plainOf(a[0], p)
		case "strconv.Itoa", "strconv.FormatBool":
			return plainOf(a[0], p)
		case "strconv.FormatInt":
			n, ok := a[1].Strip().IntVal()
			return ok && n == 10 && plainOf(a[0], p)
		}
	}
	return false
}

// searchParams are the parameters of a function which says what to search.
func (r *Report) searchParams(f *ssa.Function) map[string]*eng.Val {
	var ss, is, bs []*eng.Val
	for i, p := range f.Params {
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok {
			continue
		}
		v := r.P.In.Param(f, p.Name(), i, p.Type())
		switch {
		case b.Info()&types.IsString != 0:
			ss = append(ss, v)
		case b.Info()&types.IsInteger != 0:
			is = append(is, v)
		case b.Info()&types.IsBoolean != 0:
			bs = append(bs, v)
		}
	}
	if len(ss) < 3 || len(is) < 1 || len(bs) < 2 {
		return nil
	}
	return map[string]*eng.Val{"q": ss[0], "repos": ss[1], "files": ss[2], "ctx": is[0], "i": bs[0], "stats": bs[1]}
}

func (r *Report) isClientResp(t types.Type) bool { return r.isNamed(t, "client", "Response") }

func (r *Report) clientRule(root *ssa.Function) {
	in := r.P.In
	params := r.searchParams(root)
	var cfg *eng.Val
	for i, p := range root.Params {
		if r.isNamed(p.Type(), "client", "Config") {
			cfg = in.Param(root, p.Name(), i, p.Type())
		}
	}
	if cfg == nil {
		r.Undecided("%s has no configuration", FnName(root))
		return
	}
	// requestOK: reporting v as the outcome is right: every request sent got
	// an answer which says it went well and could be decoded.
	outcome := func(s *eng.State, v *eng.Val, at ssa.Instruction, name string) {
		m := mon(s)
		if s.Nilness(v) == eng.False {
			return
		}
		bad := func(msg string) {
			if at != nil {
				r.Violate("C30.outcome", at, "%s", msg)
			} else {
				r.ViolateFn("C30.outcome", name, root.Pos(), "%s", msg)
			}
		}
		for _, e := range m.members("senderr") {
			r.SeenAt("outcome of a request", name)
			if v == e {
				continue
			}
			if s.Nilness(e) != eng.True {
				bad("a request may be taken to have succeeded although it could not be sent")
			}
		}
		for _, res := range m.members("resp") {
			if !r.statusIs200(s, res) {
				bad("a request may be taken to have succeeded although its status is not 200")
			}
			dec := false
			for _, e := range m.members("decerr") {
				dec = true
				if e != v && s.Nilness(e) != eng.True {
					bad("a request may be taken to have succeeded although the response could not be decoded")
				}
			}
			if !dec {
				bad("a request may be taken to have succeeded although the response was not decoded")
			}
		}
		for _, e := range m.members("builderr") {
			if e != v && s.Nilness(e) != eng.True {
				bad("a request may be taken to have succeeded although it could not be made")
			}
		}
		for _, t := range m.members("target") {
			c := r.fieldContent(s, t, "Error")
			if c != nil && emptyStr(s, c) != eng.True {
				bad("a search may be taken to have succeeded although the server reports an error")
			}
		}
	}
	isHostCmp := func(m *M, c *eng.Val) bool {
		has := func(v *eng.Val) bool { return v.Any(func(x *eng.Val) bool { return m.has("hkey", x) }) }
		lit := func(v *eng.Val) bool { k, _ := strConst(v); return k == "host" || k == "Host" }
		switch {
		case c.Kind == eng.KBin && c.Op == "==":
			// names of headers are the same without regard to case
			for i, a := range c.Args {
				k, _ := strConst(c.Args[1-i])
				if folded := foldsTo[a.Op]; a.Kind == eng.KUn && folded != "" && has(a) && k == folded {
					return true
				}
			}
			return false
		case c.Kind == eng.KUn && c.Op == "pure:strings.EqualFold":
			a := c.Args[0].Args
			return has(a[0]) && lit(a[1]) || has(a[1]) && lit(a[0])
		}
		return false
	}
	checkURL := func(s *eng.State, u *eng.Val, at ssa.Instruction) {
		m := mon(s)
		host := r.fieldContent(s, cfg, "Host")
		if host == nil || !u.Any(func(x *eng.Val) bool { return x == host.Strip() }) {
			r.Violate("C30.host", at, "a request may be sent to another host than the one configured")
		}
		has := func(p string) bool {
			return u.Any(func(x *eng.Val) bool {
				k, ok := strConst(x)
				if !ok {
					return false
				}
				_, rest, ok := strings.Cut(k, p)
				return ok && (rest == "" || strings.HasPrefix(rest, "?"))
			})
		}
		if u.Any(func(x *eng.Val) bool { k, ok := strConst(x); return ok && strings.HasPrefix(k, "https:") }) {
			r.Violate("C30.address", at, "a request may be sent by another protocol than the server speaks")
		}
		if has("/api/v1/repos") == has("/api/v1/search") {
			r.Violate("C30.address", at, "a request may be sent to an address the server does not know")
		}
		if !has("/api/v1/search") {
			r.SeenAt("request sent", "/api/v1/repos")
			return
		}
		r.SeenAt("request sent", "/api/v1/search")
		if params == nil {
			r.Undecided("%s searches but does not say what for", FnName(root))
			return
		}
		var vals *eng.Val
		u.Any(func(x *eng.Val) bool {
			if x.Kind == eng.KUn && x.Op == "pure:(net/url.Values).Encode" {
				vals = x.Args[0].Args[0].Strip()
			}
			for _, e := range m.members("enc") {
				if x == e {
					for _, a := range m.Rel2("encof", e) {
						vals = a
					}
				}
			}
			return vals != nil
		})
		if vals == nil {
			r.Violate("C30.params", at, "a search may be sent without its parameters, or without escaping them")
			return
		}
		for k, want := range params {
			set := m.Sets["p:"+k]
			n := 0
			for v := range set {
				n++
				if b, ok := strConst(v); ok && (b == "true" && s.Decide(want) == eng.True || b == "false" && s.Decide(want) == eng.False) {
					continue
				}
				if !plainOf(v, want) {
					r.Violate("C30.params", at, "the parameter %s of a search may not be what is asked for", k)
				}
			}
			if n == 0 {
				r.Violate("C30.params", at, "a search may be sent without its parameter %s", k)
			}
			r.SeenAt("parameter of a search", k)
		}
	}
	setParam := func(s *eng.State, k, v *eng.Val, at ssa.Instruction) {
		m := mon(s)
		name, ok := strConst(k)
		if !ok || params[name] == nil {
			return
		}
		m.clear("p:" + name)
		m.put("p:"+name, v.Strip(), 1)
	}
	mk := func() (*eng.Exec, *map[*eng.Val]bool) {
		cells := map[*eng.Val]bool{}
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				switch c.Name {
				case "net/http.NewRequest", "net/http.NewRequestWithContext":
					a := c.Args[len(c.Args)-3:]
					checkURL(s, a[1].Strip(), c.Instr)
					if g, _ := strConst(a[0]); g != "GET" && g != "" {
						r.Violate("C30.address", c.Instr, "a request may use another method than GET")
					}
				case "net/http.Get", "(*net/http.Client).Get":
					checkURL(s, c.Args[len(c.Args)-1].Strip(), c.Instr)
					r.Violate("C30.headers", c.Instr, "a request may be sent without the headers configured")
				case "(*net/http.Client).Do", "(net/http.RoundTripper).RoundTrip":
					if m.Flags["headers"] == 0 {
						r.Violate("C30.headers", c.Instr, "a request may be sent without the headers configured")
					}
					if !m.has("req", c.Args[1].Strip()) {
						r.Violate("C30.address", c.Instr, "another request may be sent than the one made")
					}
				case "(net/http.Header).Set", "(net/http.Header).Add":
					if k := c.Args[1].Strip(); k.Any(func(x *eng.Val) bool { return m.has("hkey", x) }) {
						if m.Flags["hostcmp"] != 2 {
							r.Violate("C30.headers", c.Instr, "the Host configured may be lost")
						}
						if m.has("hval", c.Args[2].Strip()) {
							m.Flags["hdone"] = 1
						} else {
							r.Violate("C30.headers", c.Instr, "a header may be sent with another value than the one configured")
						}
					}
				case "(net/url.Values).Set", "(net/url.Values).Add":
					setParam(s, c.Args[1], c.Args[2], c.Instr)
				}
				return eng.Default
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				m := mon(s)
				switch c.Name {
				case "net/http.NewRequest", "net/http.NewRequestWithContext":
					m.put("req", in.Extract(res, 0, resultAt(c, 0)), 1)
					m.put("builderr", in.Extract(res, 1, resultAt(c, 1)), 1)
				case "net/http.Get", "(*net/http.Client).Get", "(*net/http.Client).Do", "(net/http.RoundTripper).RoundTrip":
					m.put("resp", in.Extract(res, 0, resultAt(c, 0)), 1)
					m.put("senderr", in.Extract(res, 1, resultAt(c, 1)), 1)
				case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
					m.put("decerr", res, 1)
					t := c.Args[1].Strip()
					if t.Kind == eng.KIface {
						t = t.Args[0].Strip()
					}
					if r.isClientResp(t.T) || t.T != nil && isPtrTo(t.T, r.isClientResp) {
						m.put("target", t, 1)
					}
				case "(net/url.Values).Encode":
					m.put("enc", res, 1)
					m.rel("encof", res, c.Args[0].Strip())
				}
				return nil
			},
			OnUpdate: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
				if v == nil {
					return
				}
				if es := r.sliceArgs(s, v, 0); len(es) == 1 {
					setParam(s, k, es[0], at.Instr)
				} else if name, ok := strConst(k); ok && params[name] != nil && strings.HasSuffix(mp.T.String(), "url.Values") {
					r.Violate("C30.params", at.Instr, "the parameter %s of a search may not be what is asked for", name)
				}
			},
			OnIter: func(s *eng.State, cont *eng.Val, more bool, key, el *eng.Val, at eng.Site) {
				m := mon(s)
				h := r.fieldContent(s, cfg, "HttpHeaders")
				if h == nil || cont.Strip() != h.Strip() {
					return
				}
				if len(m.members("hkey")) > 0 && m.Flags["hdone"] == 0 {
					r.Violate("C30.headers", at.Instr, "a header configured may not be sent")
				}
				m.clear("hkey")
				m.clear("hval")
				m.Flags["hostcmp"], m.Flags["hdone"], m.Flags["headers"] = 0, 0, 0
				if !more {
					m.Flags["headers"] = 1
					return
				}
				if key != nil {
					m.put("hkey", key.Strip(), 1)
				}
				if el != nil {
					m.put("hval", el.Strip(), 1)
				}
			},
			OnLoad: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
				if m := mon(s); m.Flags["thread"] == 0 && addr.T != nil && isPtrTo(addr.T, isErrorT) {
					if addr = addr.Strip(); addr.Kind == eng.KAlloc {
						m.put("cellv", v, 1)
						m.rel("cell", addr, v)
					}
				}
			},
			OnLookup: func(s *eng.State, mp, k, v *eng.Val, at eng.Site) {
				m := mon(s)
				if h := r.fieldContent(s, cfg, "HttpHeaders"); h != nil && mp.Strip() == h.Strip() && m.has("hkey", k.Strip()) {
					m.put("hval", v.Strip(), 1)
				}
			},
			OnStore: func(s *eng.State, addr, v *eng.Val, at eng.Site) {
				m := mon(s)
				if addr.Kind == eng.KField && addr.Fld.Name() == "Host" && m.has("req", addr.Args[0].Strip()) && m.has("hval", v.Strip()) {
					if m.Flags["hostcmp"] != 1 {
						r.Violate("C30.headers", at.Instr, "the Host of a request may be something else than configured")
					}
					m.Flags["hdone"] = 1
				}
				if m.Flags["thread"] == 1 && addr.T != nil && isPtrTo(addr.T, isErrorT) && m.has("shared", addr.Strip()) {
					outcome(s, v, at.Instr, FnName(root))
					cells[addr.Strip()] = true
					m.Flags["told"] = 1
				}
			},
			OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
				for cond.Kind == eng.KUn && cond.Op == "!" {
					cond, taken = cond.Args[0], !taken
				}
				if m := mon(s); isHostCmp(m, cond) {
					m.Flags["hostcmp"] = 2
					if taken {
						m.Flags["hostcmp"] = 1
					}
				}
			},
			OnRecv: func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
				if m := mon(s); isErrChan(ch.T) {
					for _, o := range m.members("recv") {
						if s.Nilness(o) == eng.True {
							m.del("recv", o)
						}
					}
					m.put("recv", v, 1)
					n := m.get("from", ch.Strip()) + 1
					if inCycle(at.Instr.Block()) || n > 9 {
						n = 9
					}
					m.put("from", ch.Strip(), n)
				}
			},
		})
		x.OpaqueFn = func(g *ssa.Function) bool { return r.P.RelPkg(g) != "client" }
		return x, &cells
	}
	x, cells := mk()
	sends := map[*eng.Val]int{}    // channel: outcomes sent on it
	untold := false                // some outcome reaches nobody
	targets := map[*eng.Val]bool{} // what threads decode into
	x.H.OnSend = func(s *eng.State, ch, v *eng.Val, blocking bool, at eng.Site) {
		m := mon(s)
		if isErrChan(ch.T) {
			outcome(s, v, at.Instr, FnName(root))
			m.Flags["told"] = 1
			m.put("sent", ch.Strip(), m.get("sent", ch.Strip())+1)
		}
	}
	exits := x.Run(root, newM())
	nth := 0
	x.RunThreads(func(t *eng.Thread) eng.Monitor {
		if t.Kind != "go" {
			return nil
		}
		m := newM()
		m.Flags["thread"] = 1
		for _, b := range t.Call.Binds {
			m.put("shared", b.Strip(), 1)
		}
		for _, b := range t.Call.Args {
			m.put("shared", b.Strip(), 1)
		}
		return m
	}, func(t *eng.Thread, es []eng.Exit) {
		sent := map[*eng.Val]int{}
		asked := false
		for _, e := range es {
			m := mon(e.S)
			if e.Kind != eng.ExRet || len(m.members("builderr"))+len(m.members("senderr")) == 0 {
				continue
			}
			asked = true
			if m.Flags["told"] == 0 {
				untold = true
			}
			for _, ch := range m.members("sent") {
				if n := m.get("sent", ch); n > sent[ch] {
					sent[ch] = n
				}
			}
			for _, v := range m.members("target") {
				targets[v] = true
			}
		}
		if asked {
			nth++
		}
		for ch, n := range sent {
			sends[ch] += n
		}
	})
	if untold {
		r.ViolateFn("C30.outcome", FnName(root), root.Pos(), "the outcome of a request may not be reported")
	}
	for _, e := range exits {
		if e.Kind != eng.ExRet {
			continue
		}
		res := e.Results[len(e.Results)-1]
		if e.S.Nilness(res) == eng.False {
			continue
		}
		m := mon(e.S)
		if params != nil {
			r.SeenAt("search without error", FnName(root))
		}
		outcome(e.S, res, nil, FnName(root))
		if nth == 0 && len(m.members("senderr")) == 0 {
			r.ViolateFn("C30.outcome", FnName(root), root.Pos(), "a request may be taken to have succeeded although it was not sent")
		}
		for ch, n := range sends {
			if m.get("from", ch) < n {
				r.ViolateFn("C30.outcome", FnName(root), root.Pos(), "the outcome of a request may not be waited for")
			}
		}
		for _, v := range m.members("recv") {
			if v != res && e.S.Nilness(v) != eng.True {
				r.ViolateFn("C30.outcome", FnName(root), root.Pos(), "a request may be taken to have succeeded although it failed")
			}
		}
		for c := range *cells {
			ok := true
			vs := m.Rel2("cell", c)
			for _, v := range vs {
				ok = ok && (v == res || e.S.Nilness(v) == eng.True)
			}
			if len(vs) == 0 || !ok {
				r.ViolateFn("C30.outcome", FnName(root), root.Pos(), "a request may be taken to have succeeded although it failed")
			}
		}
		for _, v := range e.Results[:len(e.Results)-1] {
			if v.T == nil || !isPtrTo(v.T, r.isClientResp) {
				continue
			}
			all := map[*eng.Val]bool{}
			for t := range targets {
				all[t] = true
			}
			for _, t := range m.members("target") {
				all[t] = true
			}
			if !all[v.Strip()] {
				r.ViolateFn("C30.outcome", FnName(root), root.Pos(), "another response may be returned than the one of the server")
			}
		}
	}
	r.Absorb(x, FnName(root))
}

// foldsTo is what the functions which make the name of a header comparable make
// of Host.
var foldsTo = map[string]string{
	"pure:strings.ToLower": "host", "pure:strings.ToUpper": "HOST",
	"pure:net/http.CanonicalHeaderKey": "Host", "pure:net/textproto.CanonicalMIMEHeaderKey": "Host",
}

func isErrChan(t types.Type) bool {
	if t == nil {
		return false
	}
	c, ok := t.Underlying().(*types.Chan)
	return ok && isErrorT(c.Elem())
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isPtrTo(t types.Type, pred func(types.Type) bool) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && pred(p.Elem())
}

// statusIs200: the status of the response is known to be 200.
func (r *Report) statusIs200(s *eng.State, res *eng.Val) bool {
	c := r.fieldContent(s, res, "StatusCode")
	if c == nil {
		return false
	}
	lo, hi := s.Interval(c.Strip())
	return lo == 200 && hi == 200
}

// presentRule: a failure to print is reported.
func (r *Report) presentRule() {
	for _, f := range r.P.Funcs {
		if r.P.RelPkg(f) != "client" || f.Signature.Recv() == nil || f.Synthetic != "" || !errResult(f.Signature) {
			continue
		}
		ok := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			ok = ok || isPtrTo(f.Signature.Params().At(i).Type(), r.isClientResp)
		}
		if !ok {
			continue
		}
		r.SeenAt("presentation", FnName(f))
		r.errorsKept(f, "C30.print", "printing the results", func(g *ssa.Function) bool { return r.P.RelPkg(g) == "client" }, nil)
	}
}

var clientFlags = []string{"repos", "files", "context", "ignore-case", "show-stats"}

// clientCommand: the command searches for what its command line says, on the
// host it says, and ends with an error when that fails.
func (r *Report) clientCommand() {
	in := r.P.In
	searches := func(f *ssa.Function) bool {
		if f == nil || r.P.RelPkg(f) != "client" || !errResult(f.Signature) {
			return false
		}
		return r.searchParams(f) != nil
	}
	presents := func(c *eng.Call) bool {
		if c.Invoke != nil {
			return c.Invoke.Name() == "Present"
		}
		return c.Fn != nil && c.Fn.Name() == "Present" && r.P.RelPkg(c.Fn) == "client"
	}
	for _, root := range r.P.Funcs {
		if root.Name() != "main" || root.Parent() != nil || root.Pkg == nil || root.Pkg.Pkg.Name() != "main" || root.Signature.Recv() != nil {
			continue
		}
		ok := false
		for g := range r.P.Reach(root) {
			ok = ok || searches(g)
		}
		if !ok {
			continue
		}
		x := eng.NewExec(r.P, eng.Hooks{
			OnCall: func(s *eng.State, c *eng.Call) eng.Action {
				m := mon(s)
				if searches(c.Fn) {
					r.Seen("search of the command", c.Instr)
					for _, e := range m.members("err") {
						if s.Nilness(e) != eng.True {
							r.Violate("C30.command", c.Instr, "the command may search although %s failed", "loading the configuration or compiling the pattern")
						}
					}
					var ss []*eng.Val
					for i := 0; i < c.Fn.Signature.Params().Len(); i++ {
						if _, ok := c.Fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); ok {
							ss = append(ss, c.Args[i].Strip())
						}
					}
					ord := map[types.BasicKind]int{}
					names := map[types.BasicKind][]string{types.String: {"", "repos", "files"}, types.Int: {"context"}, types.Bool: {"ignore-case", "show-stats"}}
					for _, a := range ss {
						b, ok := a.T.Underlying().(*types.Basic)
						if !ok {
							continue
						}
						k := b.Kind()
						if k == types.UntypedBool {
							k = types.Bool
						}
						n := ord[k]
						ord[k]++
						if n >= len(names[k]) {
							continue
						}
						want := names[k][n]
						if want == "" {
							if !m.has("pat", a) {
								r.Violate("C30.command", c.Instr, "the command may search for another pattern than the one given")
							}
							continue
						}
						ok = false
						for _, p := range m.members("flag:" + want) {
							ok = ok || s.Read(p, derefT(p.T)).Strip() == a
						}
						if !ok {
							r.Violate("C30.command", c.Instr, "the command may search with something else than its flag %s", want)
						}
					}
					if m.Flags["parsed"] == 0 {
						r.Violate("C30.command", c.Instr, "the command may search without reading its command line")
					}
					return eng.Opaque
				}
				if presents(c) {
					m.Flags["presented"] = 1
					for _, e := range m.members("serr") {
						if s.Nilness(e) != eng.True {
							r.Violate("C30.command", c.Instr, "the command may print results although the search failed")
						}
					}
					for _, a := range c.Args {
						if a.T != nil && isPtrTo(a.T, r.isClientResp) && !m.has("res", a.Strip()) {
							r.Violate("C30.command", c.Instr, "the command may print other results than those of its search")
						}
					}
				}
				if c.Name == "flag.Parse" {
					m.Flags["parsed"] = 1
				}
				return eng.Default
			},
			AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
				m := mon(s)
				switch {
				case searches(c.Fn):
					n := resultCount(c)
					m.put("serr", in.Extract(res, n-1, resultAt(c, n-1)), 1)
					for i := 0; i < n-1; i++ {
						m.put("res", in.Extract(res, i, resultAt(c, i)), 1)
					}
				case presents(c):
					m.put("perr", res, 1)
				case c.Name == "flag.String" || c.Name == "flag.Bool" || c.Name == "flag.Int":
					if n, ok := strConst(c.Args[0]); ok {
						m.put("flag:"+n, res.Strip(), 1)
					}
				case c.Name == "flag.StringVar" || c.Name == "flag.BoolVar" || c.Name == "flag.IntVar":
					if n, ok := strConst(c.Args[1]); ok {
						m.put("flag:"+n, c.Args[0].Strip(), 1)
					}
				case c.Name == "flag.Arg":
					if n, ok := c.Args[0].Strip().IntVal(); ok && n == 0 {
						m.put("pat", res.Strip(), 1)
					}
				case c.Name == "regexp.Compile":
					m.put("err", in.Extract(res, 1, resultAt(c, 1)), 1)
				case c.Fn != nil && r.P.RelPkg(c.Fn) == "cmds/hound" && errResult(c.Fn.Signature) && resultCount(c) == 1:
					m.put("err", res, 1)
				}
				return nil
			},
		})
		x.OpaqueFn = func(g *ssa.Function) bool {
			if r.P.RelPkg(g) != "cmds/hound" {
				return true
			}
			for h := range r.P.Reach(g) {
				if searches(h) || mentions(h, func(i ssa.Instruction) bool { return calleeIs(i, "flag.Arg", "flag.String", "flag.Bool", "flag.Int") }) {
					return false
				}
			}
			return true
		}
		for _, e := range x.Run(root, newM()) {
			if e.Kind != eng.ExRet {
				continue
			}
			m := mon(e.S)
			for _, k := range []string{"serr", "perr", "err"} {
				for _, v := range m.members(k) {
					if e.S.Nilness(v) != eng.True {
						r.ViolateFn("C30.command", FnName(root), root.Pos(), "the command may end as if it had succeeded although it failed")
					}
				}
			}
			if len(m.members("serr")) > 0 && m.Flags["presented"] == 0 {
				r.ViolateFn("C30.command", FnName(root), root.Pos(), "the command may not print the results of its search")
			}
		}
		r.Absorb(x, FnName(root))
	}
}
