package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "Requests cannot name files, commands or addresses",
		"taint analysis over all functions: nothing derived from a request (its path, parameters, headers, body or host) reaches the name of a file which is opened, written, listed or removed, a command or its arguments or directory, the text of a template, a network address or a format string; files of the bundled assets excepted",
		func(r *Report) {
			t := r.outsideTaint(false)
			for _, f := range r.P.Funcs {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						r.named(t, i)
					}
				}
			}
			r.Need("use of a name of a file", 20)
			r.Need("command run", 8)
			r.Need("request data", 5)
		}).Assume = []string{"the file server of the development mode keeps to its directory, as documented for http.Dir", "which values lead to which branch, or to which entry of a table, is not followed"}
}

// sinkArgs are the arguments of a call which name a file, command, address or
// template; -1 for all.
func sinkArgs(name string) (what string, args []int) {
	switch name {
	case "os.Open", "os.OpenFile", "os.Create", "os.ReadFile", "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Mkdir", "os.MkdirAll",
		"os.Stat", "os.Lstat", "os.Readlink", "os.ReadDir", "os.Chdir", "os.Chmod", "os.Truncate", "os.MkdirTemp", "os.CreateTemp",
		"io/ioutil.ReadFile", "io/ioutil.WriteFile", "io/ioutil.ReadDir", "io/ioutil.TempFile", "io/ioutil.TempDir", "os.DirFS",
		"path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob", "path/filepath.EvalSymlinks":
		return "the name of a file", []int{-1}
	case "os.Rename", "os.Symlink", "os.Link":
		return "the name of a file", []int{0, 1}
	case "net/http.ServeFile":
		return "the name of a file", []int{2}
	case "os/exec.Command", "os/exec.CommandContext", "os.StartProcess", "syscall.Exec":
		return "a command", []int{-1}
	case "net/http.Get", "net/http.Head", "net/http.Post", "net/http.PostForm", "net/http.NewRequest", "net.Dial", "net.Listen", "(*net/http.Client).Get", "(*net/http.Client).Post":
		return "an address", []int{-1}
	}
	if strings.Contains(name, "template.") && strings.Contains(name, "Parse") {
		return "a template", []int{-1}
	}
	return "", nil
}

func (r *Report) named(t *taint, i ssa.Instruction) {
	if fa, ok := i.(*ssa.Store); ok {
		a, ok := fa.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		n, fv := fieldOf(a)
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "os/exec" {
			return
		}
		if kinds(t.get(fa.Val)) != 0 {
			r.Violate("C32.named", i, "a request may determine the %s of a command", fv.Name())
		}
		return
	}
	if v, ok := i.(ssa.Value); ok && kinds(t.get(v)) != 0 {
		r.Seen("request data", i)
	}
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return
	}
	c := ci.Common()
	name := calleeName(c)
	if what, as := sinkArgs(name); what != "" {
		if what == "a command" {
			r.Seen("command run", i)
		} else if what == "the name of a file" {
			r.Seen("use of a name of a file", i)
		}
		for n, a := range c.Args {
			hit := false
			for _, w := range as {
				hit = hit || w == -1 || w == n
			}
			if hit && kinds(t.get(a)) != 0 {
				r.Violate("C32.named", i, "a request may determine %s", what)
			}
		}
		return
	}
	// format strings
	n := -1
	switch {
	case strings.HasPrefix(name, "fmt.") && strings.HasSuffix(name, "f"):
		n = 0
		if strings.HasPrefix(name, "fmt.F") || strings.HasPrefix(name, "fmt.Append") {
			n = 1
		}
		if name == "fmt.Sscanf" || name == "fmt.Fscanf" {
			n = 1
		}
	case strings.HasPrefix(name, "log.") && strings.HasSuffix(name, "f"):
		n = 0
	case strings.HasPrefix(name, "(*log.Logger)") && strings.HasSuffix(name, "f"):
		n = 1
	}
	if n >= 0 && n < len(c.Args) && kinds(t.get(c.Args[n])) != 0 {
		r.Violate("C32.format", i, "a request may determine a format string")
	}
}
