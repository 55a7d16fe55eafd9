package rules

import (
	"net/textproto"
	"strings"

	"houndverif/eng"

	"golang.org/x/tools/go/ssa"
)

// A responder follows the response of a request handler.
//
// Flags: ct, cors 1 header set; status code written; begun 1 status or body
// written; docs number of documents written (2: more than one), raw 1 when
// something else than a JSON document was written, failed.
type responder struct {
	r *Report
	// document is called when a JSON document is written; errDoc tells whether
	// it is an error message.
	document func(s *eng.State, m *M, errDoc bool, at ssa.Instruction)
	// raw is called when something else is written.
	raw func(s *eng.State, m *M, args []*eng.Val, at ssa.Instruction)
	// bad is called for a misplaced part of a response.
	bad func(at ssa.Instruction, msg string)

	names []string
}

func newResponder(r *Report) *responder { return &responder{r: r} }

func (p *responder) start(m *M, t *eng.Thread) {
	m.put("w", t.Call.Args[0], 1)
	p.names = append(p.names, patternOf(t))
	m.Flags["h"] = len(p.names)
}

// handler names the handler whose state m is.
func (p *responder) handler(m *M) string {
	if i := m.Flags["h"]; i > 0 {
		return p.names[i-1]
	}
	return "?"
}

func isRespInstr(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := eng.CalleeName(ci.Common())
	if strings.HasPrefix(n, "(net/http.ResponseWriter).") || strings.HasPrefix(n, "(net/http.Header).") || strings.HasSuffix(n, "json.Encoder).Encode") {
		return true
	}
	for _, a := range ci.Common().Args {
		t := a.Type().String()
		if t == "net/http.ResponseWriter" {
			return true
		}
		if ct, ok := a.(*ssa.ChangeInterface); ok && ct.X.Type().String() == "net/http.ResponseWriter" {
			return true
		}
	}
	return false
}

func (p *responder) note(at ssa.Instruction, msg string) {
	if p.bad != nil {
		p.bad(at, msg)
	}
}

func (p *responder) header(m *M, k, v *eng.Val) {
	ks, ok := strConst(k)
	if !ok {
		return
	}
	vs, _ := strConst(v)
	switch textproto.CanonicalMIMEHeaderKey(ks) {
	case "Content-Type":
		m.Flags["ct"] = 1
		if !strings.HasPrefix(strings.ToLower(vs), "application/json") {
			m.Flags["ct"] = 2
		}
	case "Access-Control-Allow-Origin":
		m.Flags["cors"] = 1
		if vs != "*" {
			m.Flags["cors"] = 2
		}
	}
}

func (p *responder) begin(m *M, at ssa.Instruction) {
	if m.Flags["ct"] != 1 {
		p.note(at, "a response may begin before its content type was set to JSON")
	}
	if m.Flags["cors"] != 1 {
		p.note(at, "a response may begin before the access control header was set")
	}
	m.Flags["begun"] = 1
}

func (p *responder) body(m *M, doc bool, at ssa.Instruction) {
	if m.Flags["begun"] != 1 {
		p.begin(m, at)
	}
	if doc {
		if m.Flags["docs"] > 0 || m.Flags["raw"] > 0 {
			p.note(at, "a request may get more than one document in response")
		}
		m.Flags["docs"] = 1
		return
	}
	if m.Flags["docs"] > 0 {
		p.note(at, "a request may get more than one document in response")
	}
	m.Flags["raw"] = 1
}

// onCall handles calls which concern the response.
func (p *responder) onCall(s *eng.State, c *eng.Call) (eng.Action, bool) {
	m := mon(s)
	args := s.Args(c)
	isW := func(v *eng.Val) bool { return m.has("w", v.Strip()) }
	switch c.Name {
	case "(net/http.ResponseWriter).WriteHeader":
		if len(args) > 1 && isW(args[0]) {
			if m.Flags["begun"] == 1 {
				p.note(c.Instr, "the status of a response may be written after it began")
			} else {
				p.begin(m, c.Instr)
			}
			n, ok := args[1].Strip().IntVal()
			if !ok {
				n = -1
			}
			m.Flags["status"] = int(n)
			return eng.Default, true
		}
	case "(net/http.Header).Set", "(net/http.Header).Add":
		if len(args) > 2 && m.has("hdr", args[0].Strip()) {
			if m.Flags["begun"] == 1 {
				p.note(c.Instr, "a header may be set after the response began")
			}
			p.header(m, args[1], args[2])
			return eng.Default, true
		}
	case "(net/http.ResponseWriter).Header", "encoding/json.NewEncoder", "bufio.NewWriter":
		return eng.Default, true
	case "(*encoding/json.Encoder).Encode":
		if len(args) > 1 && m.has("enc", args[0].Strip()) {
			d := args[1].Strip()
			err := p.errorDoc(s, d)
			if p.document != nil {
				p.document(s, m, err, c.Instr)
			}
			p.body(m, true, c.Instr)
			return eng.Default, true
		}
	}
	if c.Fn != nil && p.r.P.InModule(c.Fn) {
		return eng.Default, false
	}
	for _, a := range args {
		if isW(a) && m.Flags["handler"] == 1 {
			if c.Name == "net/http.Error" {
				p.note(c.Instr, "a request is answered with something else than a JSON document")
				if len(args) > 2 {
					n, _ := args[2].Strip().IntVal()
					m.Flags["status"] = int(n)
				}
				m.Flags["begun"] = 1
			}
			if p.raw != nil {
				p.raw(s, m, args, c.Instr)
			}
			p.body(m, false, c.Instr)
			return eng.Default, true
		}
	}
	return eng.Default, false
}

// after remembers what belongs to the response.
func (p *responder) after(s *eng.State, c *eng.Call, res *eng.Val) {
	m := mon(s)
	switch c.Name {
	case "(net/http.ResponseWriter).Header":
		if m.has("w", c.Args[0].Strip()) {
			m.clear("hdr")
			m.put("hdr", res, 1)
		}
	case "encoding/json.NewEncoder":
		if m.has("w", c.Args[0].Strip()) {
			m.clear("enc")
			m.put("enc", res, 1)
		}
	}
}

// errorDoc: the document is an error message.
func (p *responder) errorDoc(s *eng.State, d *eng.Val) bool {
	for a := range s.Mem {
		if a.Kind == eng.KElem && a.Args[0] == d {
			if k, ok := strConst(a.Args[1]); ok && k == "Error" {
				return true
			}
		}
	}
	return p.r.fieldContent(s, d, "Error") != nil
}
