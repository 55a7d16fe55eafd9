package eng

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Externals that end the process.
var haltFns = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
	"syscall.Exit": true, "runtime.Goexit": true,
}
var panicFns = map[string]bool{
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Panicln": true,
}

// Externals that call function arguments from another goroutine later.
var asyncFns = map[string]bool{
	"(*net/http.ServeMux).HandleFunc": true, "net/http.HandleFunc": true,
	"(*net/http.ServeMux).Handle": true, "net/http.Handle": true,
	"time.AfterFunc": true, "net/http.HandlerFunc": true,
	"net/http.ListenAndServe": true, "(*net/http.Server).ListenAndServe": true,
	"net/http.ListenAndServeTLS": true, "net/http.Serve": true,
}

// IsAsync reports that the named external runs its callbacks asynchronously.
func IsAsync(name string) bool { return asyncFns[name] }

// Packages whose functions do not write through their pointer arguments.
var purePkgs = map[string]bool{
	"fmt": true, "log": true, "errors": true, "strings": true, "time": true, "path/filepath": true,
	"strconv": true, "sync": true, "os": true, "net/http": true, "path": true, "math/rand": true,
	"html/template": true, "text/template": true, "os/exec": true, "runtime": true, "sync/atomic": false,
	"regexp": true, "regexp/syntax": true, "unicode": true, "unicode/utf8": true, "net/url": true,
	"io/ioutil": true, "crypto/sha1": true, "encoding/hex": true, "os/signal": true,
}

func pkgOf(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// external performs an opaque call.
func (f *frame) external(s *State, c *Call, keep0 []*Val) []Exit {
	exits := f.external0(s, c, keep0)
	if h := f.x.H.MayPanic; h != nil {
		for _, e := range exits {
			if e.Kind == ExRet {
				if n := h(e.S, c); n != nil {
					exits = append(exits, Exit{ExPanic, n, nil})
				}
			}
		}
	}
	return exits
}

func (f *frame) external0(s *State, c *Call, keep0 []*Val) []Exit {
	x := f.x
	in := x.In
	if haltFns[c.Name] {
		return []Exit{{ExHalt, s, nil}}
	}
	if panicFns[c.Name] {
		return []Exit{{ExPanic, s, nil}}
	}
	var results []*types.Var
	if sig := callSig(c); sig != nil {
		for i := 0; i < sig.Results().Len(); i++ {
			results = append(results, sig.Results().At(i))
		}
	}
	var res *Val
	if cv, ok := c.Instr.(*ssa.Call); ok {
		if isPure(c) {
			as := s.Args(c)
			switch {
			case c.Name == "(time.Duration).Nanoseconds" && len(as) == 1:
				res = as[0] // the number itself
			case strings.HasPrefix(c.Name, "(time.Duration).") && len(as) == 1 && isZeroInt(as[0]) && isNumber(cv.Type()):
				res = in.Zero(cv.Type())
			default:
				res = in.Un("pure:"+c.Name, in.Tuple(as), cv.Type())
			}
		} else {
			res = in.Instr(f.ctx, cv)
		}
	} else {
		res = in.Out(f.ctx, c.Instr, "deferred", nil)
	}
	// side effects on memory
	if c.Fn != nil && x.P.InModule(c.Fn) || c.Invoke != nil && x.P.isModuleIface(c.Invoke) {
		mods := x.P.ModSet(c)
		var lost []*Val
		for a := range s.Mem {
			if mods.has(a) {
				lost = append(lost, a)
			}
		}
		seen := map[*Val]bool{}
		for k := range s.Facts {
			if k.Kind == KLoad && mods.has(k.Args[0]) {
				if _, ok := s.Mem[k.Args[0]]; !ok && !seen[k.Args[0]] {
					seen[k.Args[0]] = true
					lost = append(lost, k.Args[0])
				}
			}
		}
		s.forget(lost, siteT{f.ctx, c.Instr}, "mod")
		// pointers to local cells passed in
		for _, a := range c.Args {
			if a.Kind == KAlloc && x.P.InModule(c.Fn) {
				if mods.mayWrite(deref(a.T)) {
					f.havocUnder(s, c, a)
				}
			}
		}
	} else {
		pkg := pkgOf(c.Fn)
		if c.Invoke != nil && c.Invoke.Pkg() != nil {
			pkg = c.Invoke.Pkg().Path()
		}
		if !purePkgs[pkg] {
			for _, a := range c.Args {
				b := a.Strip()
				if b.Kind == KUn && strings.HasPrefix(b.Op, "slice") {
					b = b.Args[0]
				}
				switch b.Kind {
				case KAlloc, KField, KIndex:
					f.havocUnder(s, c, b)
				case KParam, KLoad, KInstr, KExtract:
					if _, ok := b.T.Underlying().(*types.Pointer); ok {
						f.havocUnder(s, c, b)
					}
				}
			}
		}
	}
	outs := []Exit{}
	finish := func(s *State) {
		after := []*State{s}
		if x.H.AfterCall != nil {
			if r := x.H.AfterCall(s, c, res); r != nil {
				after = r
			}
		}
		for _, a := range after {
			outs = append(outs, Exit{ExRet, a, []*Val{res}})
		}
	}
	switch c.Name {
	case "errors.New", "fmt.Errorf", "net/http.NewServeMux", "os/exec.Command", "time.After",
		"net/http.StatusText", "log.New", "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader",
		"encoding/json.NewDecoder", "encoding/json.NewEncoder", "encoding/gob.NewEncoder",
		"encoding/gob.NewDecoder", "compress/gzip.NewWriter", "bufio.NewWriter", "bufio.NewReader", "html/template.New",
		"text/template.New", "io.TeeReader", "(*net/http.Request).Context", "time.NewTimer":
		s.AssumeNil(res, false)
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.Is":
		// true implies the error is non-nil
		if s.Nilness(c.Args[0]) == True {
			s.Assume(res, false)
		} else if s.Nilness(c.Args[0]) == Unknown {
			a := s.Clone()
			a.AssumeNil(c.Args[0], true)
			a.Assume(res, false)
			finish(a)
			s.AssumeNil(c.Args[0], false)
		}
	}
	// callbacks
	var cbs []*Val
	for _, a := range c.Args {
		b := a.Strip()
		if (b.Kind == KClosure || b.Kind == KFunc) && b.Fn != nil && len(b.Fn.Blocks) > 0 && x.P.InModule(b.Fn) {
			cbs = append(cbs, b)
		}
	}
	if len(cbs) > 0 {
		if asyncFns[c.Name] {
			for _, cb := range cbs {
				x.Threads = append(x.Threads, &Thread{Call: &Call{Instr: c.Instr, Ctx: f.ctx, Fn: cb.Fn, Binds: cb.Args, Name: cb.Fn.RelString(nil), FnVal: cb,
					Args: f.cbArgs(c, cb.Fn, "async")}, S: s.Clone(), Kind: "async", Reg: s.Args(c)})
			}
			finish(s)
			return outs
		}
		walk := c.Name == "path/filepath.Walk" || c.Name == "path/filepath.WalkDir" || c.Name == "io/fs.WalkDir"
		once := strings.HasSuffix(c.Name, "sync.Once).Do")
		seen := map[string]bool{}
		work := []*State{s}
		first := true
		for len(work) > 0 && !x.Over {
			st := work[0]
			work = work[1:]
			if !(walk && first) {
				// may stop here
				fs := st.Clone()
				if walk {
					fs.AssumeNil(res, true)
				}
				finish(fs)
			}
			for _, cb := range cbs {
				ns := st.Clone()
				args := f.cbArgs(c, cb.Fn, "cb")
				for _, a := range args {
					ns.retire(a)
				}
				if walk && len(args) == 3 {
					// success: info known; failure: err known
					bad := ns.Clone()
					bad.AssumeNil(args[2], false)
					ns.AssumeNil(args[2], true)
					ns.AssumeNil(args[1], false)
					work = append(work, f.iterate(bad, c, cb, args, res, walk, seen, &outs, finish, keep0)...)
				}
				work = append(work, f.iterate(ns, c, cb, args, res, walk, seen, &outs, finish, keep0)...)
			}
			first = false
			if once {
				for _, w := range work {
					finish(w)
				}
				break
			}
		}
		return outs
	}
	finish(s)
	return outs
}

func (f *frame) iterate(ns *State, c *Call, cb *Val, args []*Val, res *Val, walk bool, seen map[string]bool, outs *[]Exit, finish func(*State), keep0 []*Val) []*State {
	x := f.x
	cc := &Call{Instr: c.Instr, Ctx: f.ctx, Fn: cb.Fn, Binds: cb.Args, Name: cb.Fn.RelString(nil), Args: args, FnVal: cb}
	keep := append([]*Val{res}, c.Args...)
	var next []*State
	var ex []Exit
	before := make(map[*Val]*Val, len(ns.Mem))
	for a, v := range ns.Mem {
		before[a] = v
	}
	if x.H.OnCall != nil {
		x.H.OnCall(ns, cc)
	}
	ex = f.inline(ns, cc, append(append([]*Val(nil), keep...), keep0...))
	for _, e := range ex {
		if e.Kind != ExRet {
			*outs = append(*outs, e)
			continue
		}
		cont := []*State{e.S}
		if walk && len(e.Results) == 1 {
			cont = nil
			r := e.Results[0]
			skip := r.Kind == KLoad && r.Args[0].Kind == KGlobal && strings.HasPrefix(r.Args[0].G.Name(), "Skip")
			if skip {
				cont = []*State{e.S}
			} else {
				n := e.S.Nilness(r)
				if n != False {
					a := e.S.Clone()
					a.AssumeNil(r, true)
					cont = append(cont, a)
				}
				if n != True {
					b := e.S
					b.AssumeNil(r, false)
					b.AssumeNil(res, false)
					finish(b)
				}
			}
		}
		for _, st := range cont {
			// counters grow without bound over the iterations
			for a, v := range st.Mem {
				o, had := before[a]
				if !had || o == v {
					continue
				}
				if b, ok := v.T.(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 {
					continue
				}
				lo, _ := st.Interval(v)
				olo, _ := st.Interval(o)
				j := x.In.Out(f.ctx, c.Instr, fmt.Sprintf("iter%d", a.ID), v.T)
				up := incr(v) && lo >= 0 && olo >= 0
				st.retire(j)
				st.Mem[a] = j
				if up {
					st.Facts[j] = Fact{HasIv: true, Lo: 0, Hi: 1 << 62}
				}
			}
			st.gc(append(append(append([]*Val(nil), keep...), cb), keep0...))
			k := st.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			next = append(next, st)
		}
	}
	return next
}

func (f *frame) cbArgs(c *Call, fn *ssa.Function, tag string) []*Val {
	var args []*Val
	for i, p := range fn.Params {
		args = append(args, f.x.In.Out(f.ctx, c.Instr, fmt.Sprintf("%s:%s:%d", tag, p.Name(), i), p.Type()))
	}
	return args
}

func (f *frame) havocUnder(s *State, c *Call, b *Val) {
	if encoders[c.Name] {
		return
	}
	keep := map[*Val]*Val{}
	if decoders[c.Name] {
		if st, ok := deref(b.T).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if fl := st.Field(i); !fl.Exported() {
					a := f.x.In.Field(b, i, fl)
					keep[a] = s.Read(a, fl.Type())
				}
			}
		}
	}
	s.Havoc(b, siteT{f.ctx, c.Instr}, "w")
	for a, v := range keep {
		s.Mem[a] = v
	}
}

// Encoders read what they are given; decoders set exported fields only.
var encoders = map[string]bool{
	"(*encoding/gob.Encoder).Encode": true, "(*encoding/json.Encoder).Encode": true, "encoding/json.Marshal": true,
	"encoding/json.MarshalIndent": true,
}
var decoders = map[string]bool{
	"(*encoding/gob.Decoder).Decode": true, "(*encoding/json.Decoder).Decode": true, "encoding/json.Unmarshal": true,
}

func callSig(c *Call) *types.Signature {
	if c.Fn != nil {
		return c.Fn.Signature
	}
	if c.Invoke != nil {
		return c.Invoke.Type().(*types.Signature)
	}
	if c.Instr != nil {
		if s, ok := c.Instr.Common().Value.Type().Underlying().(*types.Signature); ok {
			return s
		}
	}
	return nil
}

// Functions whose result depends on their arguments only; their results are
// terms, equal for equal arguments.
var pureFns = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`path/filepath.Join path/filepath.Base path/filepath.Dir path/filepath.Clean path/filepath.Ext
		path/filepath.Rel path/filepath.Split path/filepath.ToSlash path/filepath.FromSlash path/filepath.IsAbs path.Join path.Base path.Dir path.Ext path.Clean
		strings.HasPrefix strings.HasSuffix strings.Contains strings.ToLower strings.ToUpper strings.TrimSpace
		strings.TrimPrefix strings.TrimSuffix strings.Trim strings.TrimLeft strings.TrimRight strings.Replace strings.ReplaceAll
		strings.Index strings.LastIndex strings.IndexByte strings.EqualFold strings.Split strings.SplitN strings.Fields strings.Join strings.Repeat
		fmt.Sprintf fmt.Sprint strconv.Itoa strconv.Atoi strconv.ParseInt strconv.ParseUint strconv.ParseBool strconv.Quote strconv.FormatBool strconv.FormatInt strconv.FormatUint
		strings.Cut strings.Count strings.ContainsRune strings.IndexRune strings.ContainsAny net/url.QueryEscape net/url.PathEscape
		(io/fs.FileInfo).IsDir (io/fs.FileInfo).Mode (io/fs.FileInfo).Name (io/fs.FileInfo).Size (io/fs.FileInfo).ModTime
		(io/fs.DirEntry).IsDir (io/fs.DirEntry).Name (io/fs.DirEntry).Type
		(io/fs.FileMode).IsDir (io/fs.FileMode).IsRegular (io/fs.FileMode).Type (io/fs.FileMode).Perm
		(time.Duration).Nanoseconds (time.Duration).Seconds (time.Duration).Milliseconds
		(*net/http.Request).FormValue html.EscapeString html/template.HTMLEscapeString regexp.QuoteMeta`) {
		pureFns[n] = true
	}
}

func isPure(c *Call) bool {
	if c.Invoke != nil {
		return pureFns[c.Invoke.FullName()]
	}
	return pureFns[c.Name]
}

// Args lists the arguments of a call; a slice built for a variadic parameter
// is replaced by its elements when they are known.
func (s *State) Args(c *Call) []*Val {
	sig := callSig(c)
	if sig == nil || !sig.Variadic() || len(c.Args) == 0 {
		return c.Args
	}
	last := c.Args[len(c.Args)-1]
	b := last
	if b.Kind == KUn && strings.HasPrefix(b.Op, "slice") {
		b = b.Args[0]
	}
	if b.Kind != KAlloc {
		return c.Args
	}
	at, ok := deref(b.T).Underlying().(*types.Array)
	if !ok {
		return c.Args
	}
	r := append([]*Val(nil), c.Args[:len(c.Args)-1]...)
	for i := int64(0); i < at.Len(); i++ {
		found := false
		for a, v := range s.Mem {
			if a.Kind == KIndex && a.Args[0] == b {
				if k, ok := a.Args[1].IntVal(); ok && k == i {
					r = append(r, v)
					found = true
					break
				}
			}
		}
		if !found {
			return c.Args
		}
	}
	return r
}

func isZeroInt(v *Val) bool {
	n, ok := v.IntVal()
	return ok && n == 0
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
