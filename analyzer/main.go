// Command houndverif decides semantic properties of hound from its source.
// It never runs the analysed program.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"houndverif/eng"
	"houndverif/rules"
)

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	prop := flag.String("prop", "", "property id (empty: all, for development)")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "", "directory of the known findings and the evidence (empty: print only)")
	knownFile := flag.String("known", "", "file of the known findings, without evidence (development aid)")
	verbose := flag.Bool("v", false, "print what was examined")
	overlay := flag.String("overlay", "", "JSON object of replaced files (development aid)")
	flag.Parse()
	if *overlay != "" {
		b, err := os.ReadFile(*overlay)
		m := map[string]string{}
		if err == nil {
			err = json.Unmarshal(b, &m)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		eng.Overlay = map[string][]byte{}
		for k, v := range m {
			eng.Overlay[k] = []byte(v)
		}
	}
	start := time.Now()
	if *prop == "" {
		p, err := eng.Load(*repo, "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fmt.Println("load", time.Since(start))
		for _, ru := range rules.All {
			t := time.Now()
			r := run(p, ru, false)
			fmt.Printf("%s %.1fs states %d joins %d violations %d\n", ru.ID, time.Since(t).Seconds(), r.States, r.Merged, len(r.Viols))
			show(r, *verbose)
		}
		eng.Prof()
		return
	}
	ru := rules.Find(*prop)
	if ru == nil {
		fmt.Printf("no rule for %s\n", *prop)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, "none")
		os.Exit(1)
	}
	thorough := *tier == "thorough"
	targets := []string{"linux"}
	if thorough {
		targets = []string{"linux", "darwin", "windows", "freebsd"}
	}
	viols := map[string]*rules.Violation{}
	sites := map[string][]string{}
	funcs := map[string]bool{}
	states, joins := 0, 0
	var done []string
	for _, goos := range targets {
		p, err := eng.Load(*repo, goos)
		if err != nil {
			if goos != "linux" {
				// a target the tree does not support is not analysed
				done = append(done, goos+" (not supported by the tree)")
				continue
			}
			viols["load"] = &rules.Violation{Key: "load", Pos: "-", Msg: err.Error(), Target: goos}
			continue
		}
		done = append(done, goos)
		r := run(p, ru, thorough)
		if *verbose {
			eng.Prof()
			show(r, true)
		}
		for k, v := range r.Viols {
			if viols[k] == nil {
				viols[k] = v
			}
		}
		for k, m := range r.Sites {
			if len(m) > len(sites[k]) {
				sites[k] = keys(m)
			}
		}
		for f := range r.Funcs {
			funcs[rules.FnName(f)] = true
		}
		states += r.States
		joins += r.Merged
	}
	known := map[string]string{}
	if *verif != "" {
		known = readKnown(filepath.Join(*verif, "known_findings.txt"), ru.ID)
	}
	if *knownFile != "" {
		known = readKnown(*knownFile, ru.ID)
	}
	var bad []*rules.Violation
	var findings []string
	for _, k := range keysV(viols) {
		v := viols[k]
		if w, ok := known[v.Key]; ok {
			findings = append(findings, w)
			continue
		}
		bad = append(bad, v)
	}
	for _, f := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ru.ID, f)
	}
	replay := "none"
	if *verif != "" {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		dir := filepath.Join(*verif, "evidence")
		os.MkdirAll(dir, 0o755)
		counts := map[string]int{}
		for k, s := range sites {
			counts[k] = len(s)
			if len(s) > 40 {
				sites[k] = append(s[:40:40], fmt.Sprintf("… and %d more", len(s)-40))
			}
		}
		cov := map[string]interface{}{
			"explanation":        "Static analysis of the source. Rule: " + ru.Doc,
			"targets":            done,
			"instances":          counts,
			"sites":              sites,
			"functions_analysed": len(funcs),
			"abstract_states":    states,
			"joins":              joins,
			"known_findings":     len(findings),
		}
		if fl := keys(funcs); len(fl) <= 120 {
			cov["functions"] = fl
		} else {
			cov["functions"] = append(fl[:120:120], fmt.Sprintf("… and %d more", len(fl)-120))
		}
		ev := map[string]interface{}{
			"property": ru.ID, "tier": *tier, "seed": seed, "level": "other", "coverage": cov,
			"assumptions": ru.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		}
		if ru.Assume == nil {
			ev["assumptions"] = []string{}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, ru.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println(err)
		}
		if len(bad) > 0 {
			replay = filepath.Join(dir, ru.ID+".violations.txt")
			var sb strings.Builder
			for _, v := range bad {
				fmt.Fprintf(&sb, "%s: %s [%s] (%s)\n", v.Pos, v.Msg, v.Key, v.Target)
			}
			os.WriteFile(replay, []byte(sb.String()), 0o644)
		} else {
			os.Remove(filepath.Join(dir, ru.ID+".violations.txt"))
		}
	}
	for _, v := range bad {
		fmt.Printf("%s: %s [%s]\n", v.Pos, v.Msg, v.Key)
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", ru.ID, replay)
		os.Exit(1)
	}
	n := 0
	for _, s := range sites {
		n += len(s)
	}
	fmt.Printf("%s: holds on %d examined sites in %d functions, %d abstract states (%s)\n", ru.ID, n, len(funcs), states, strings.Join(done, ", "))
}

// run applies a rule; a crash of the rule is a failure to decide.
func run(p *eng.Prog, ru *rules.Rule, thorough bool) (r *rules.Report) {
	r = rules.NewReport(p, ru.ID, thorough)
	defer func() {
		if e := recover(); e != nil {
			r.Undecided("the analysis failed: %v", e)
			if os.Getenv("HVDEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	ru.Run(r)
	return r
}

func show(r *rules.Report, sites bool) {
	for _, k := range keysV(r.Viols) {
		fmt.Println("  V", r.Viols[k].Pos, r.Viols[k].Key)
	}
	if !sites {
		return
	}
	for k, s := range r.Sites {
		fmt.Println("  ", k, len(s))
		for _, q := range keys(s) {
			fmt.Println("       ", q)
		}
	}
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func keysV(m map[string]*rules.Violation) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// readKnown reads "finding: property=<id> key=<key> ## <what fails>" lines.
func readKnown(file, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := "finding: property=" + prop + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		kv := strings.SplitN(l[len(pre):], " ## ", 2)
		if len(kv) == 2 {
			m[strings.TrimSpace(kv[0])] = kv[1]
		}
	}
	return m
}
