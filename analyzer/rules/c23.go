package rules

import (
	"go/types"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	r := register("C23", "Each API request gets exactly one JSON answer",
		"typestate of the response along every path of every request handler of the api: the content type and access control headers set before the response begins, the status written at most once and before the body, exactly one document by the time the handler returns; after a failure the document is an error message, with an error status unless it is a failed search",
		func(r *Report) {
			r.responses()
			r.Need("request handler", 5)
			r.Need("end of a handler", 5)
			r.Need("document written", 5)
			r.Need("answer after a failure", 2)
		})
	r.Assume = []string{"net/http delivers what is written to the ResponseWriter", "a document which cannot be encoded or sent ends the handler with a panic, which net/http turns into an aborted response"}
}

func (r *Report) responses() {
	resp := newResponder(r)
	bad := map[string]bool{}
	resp.bad = func(at ssa.Instruction, msg string) {
		bad[msg] = true
		r.Violate("C23.order", at, "%s", msg)
	}
	resp.document = func(s *eng.State, m *M, errDoc bool, at ssa.Instruction) {
		r.SeenAt("document written", resp.handler(m)+" "+r.P.Pos(at.Pos()))
		st := m.Flags["status"]
		failed := false
		for _, e := range m.members("err") {
			failed = failed || s.Nilness(e) == eng.False
		}
		if failed {
			r.SeenAt("answer after a failure", resp.handler(m))
			if !errDoc {
				r.Violate("C23.error", at, "a request that failed may be answered with something else than an error message")
			}
		}
		if errDoc && st != 0 && st < 400 && !strings.HasSuffix(resp.handler(m), "/search") {
			r.Violate("C23.status", at, "an error message of %s is sent with status %s", resp.handler(m), statusText(st))
		}
		if !errDoc && st >= 400 {
			r.Violate("C23.status", at, "an answer of %s which is no error message is sent with status %s", resp.handler(m), statusText(st))
		}
	}
	resp.raw = func(s *eng.State, m *M, args []*eng.Val, at ssa.Instruction) {
		for _, a := range args {
			if t, ok := strConst(a); ok && strings.ContainsAny(t, "{[\"0123456789") {
				return // part of it is constant
			}
		}
		for _, a := range args {
			if a.Strip() == nil || a.T == nil {
				continue
			}
			b := a.Strip()
			if !isText(b.T) || m.Flags["docs"] > 0 {
				continue
			}
			r.SeenAt("text sent as a document", resp.handler(m)+" "+r.P.Pos(at.Pos()))
			if emptyStr(s, b) != eng.False && !notEmptyTerm(b) && !b.Any(func(t *eng.Val) bool { return r.succeeded(s, t) }) {
				r.Violate("C23.empty", at, "an empty text may be sent as the answer to %s", resp.handler(m))
			}
		}
	}
	x := eng.NewExec(r.P, eng.Hooks{
		OnCall: func(s *eng.State, c *eng.Call) eng.Action {
			if act, ok := resp.onCall(s, c); ok {
				return act
			}
			return eng.Default
		},
		AfterCall: func(s *eng.State, c *eng.Call, res *eng.Val) []*eng.State {
			resp.after(s, c, res)
			m := mon(s)
			if m.Flags["docs"] > 0 || c.Defer || c.Instr == nil || m.Flags["handler"] != 1 {
				return nil
			}
			if call, ok := c.Instr.(*ssa.Call); ok && errResult(call.Call.Signature()) && failsRequest(r, c) {
				v := res
				if n := call.Call.Signature().Results().Len(); n > 1 {
					v = r.P.In.Extract(res, n-1, call.Call.Signature().Results().At(n-1).Type())
				}
				m.put("err", v, 1)
			}
			return nil
		},
		Returned: func(s *eng.State, c *eng.Call, res []*eng.Val) {
			m := mon(s)
			if n := len(res); n > 0 && m.Flags["handler"] == 1 && m.Flags["docs"] == 0 && c.Fn != nil && errResult(c.Fn.Signature) {
				m.put("err", res[n-1], 1)
			}
		},
		OnBranch: func(s *eng.State, cond *eng.Val, taken bool, at eng.Site) {
			m := mon(s)
			for _, e := range m.members("err") {
				if s.Nilness(e) == eng.True {
					m.del("err", e)
				}
			}
		},
	})
	r.handlers(x, func(i ssa.Instruction) bool {
		if call, ok := i.(*ssa.Call); ok && r.P.RelPkg(i.Parent()) == "api" && call.Call.IsInvoke() && call.Call.Method.Name() == "Error" {
			return true
		}
		return isRespInstr(i)
	}, func(t *eng.Thread) *M {
		m := newM()
		resp.start(m, t)
		return m
	}, func(t *eng.Thread, exits []eng.Exit) {
		if t.Kind != "async" {
			return
		}
		for _, e := range exits {
			if e.Kind != eng.ExRet {
				continue
			}
			m := mon(e.S)
			r.SeenAt("end of a handler", resp.handler(m))
			if m.Flags["docs"] == 0 && m.Flags["raw"] == 0 {
				r.ViolateFn("C23.none", FnName(t.Call.Fn), t.Call.Fn.Pos(), "a request to %s may be left without an answer", resp.handler(m))
			}
		}
	})
}

// failsRequest: the failure of the call is the failure of the request.
func failsRequest(r *Report, c *eng.Call) bool {
	if c.Fn != nil && r.P.InModule(c.Fn) {
		return true
	}
	return strings.HasSuffix(c.Name, "json.Decoder).Decode") || c.Name == "encoding/json.Unmarshal" || c.Name == "io.ReadAll" || c.Name == "io/ioutil.ReadAll" || strings.HasPrefix(c.Name, "(*net/http.Request).Parse")
}

func isText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// succeeded: a result of a call which is known not to have failed.
func (r *Report) succeeded(s *eng.State, v *eng.Val) bool {
	if v.Kind != eng.KExtract || v.Args[0].Instr == nil {
		return false
	}
	ci, ok := v.Args[0].Instr.(ssa.CallInstruction)
	if !ok || !errResult(ci.Common().Signature()) {
		return false
	}
	n := ci.Common().Signature().Results().Len()
	e := r.P.In.Extract(v.Args[0], n-1, ci.Common().Signature().Results().At(n-1).Type())
	return s.Nilness(e) == eng.True
}
