// symgo symbolically executes the harnesses of one property over the SSA of the current source of the repository and
// decides every branch and assertion with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessFile struct {
	path  string
	dir   string
	funcs []string
}

func scanHarness(path string) (*harnessFile, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	m := reDir.FindSubmatch(src)
	if m == nil {
		return nil, fmt.Errorf("%s: no package-dir line", path)
	}
	h := &harnessFile{path: path, dir: string(m[1])}
	if h.dir == "." {
		h.dir = ""
	}
	f, err := parser.ParseFile(token.NewFileSet(), path, src, 0)
	if err != nil {
		return nil, err
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "Harness_") {
			h.funcs = append(h.funcs, fd.Name.Name)
		}
	}
	return h, nil
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tierS := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "regexp of harness names")
	workers := flag.Int("workers", runtime.NumCPU(), "parallel workers")
	limit := flag.Duration("time", 0, "exploration time limit")
	evOut := flag.String("evidence", "", "evidence file")
	all := flag.Bool("all", false, "keep going after a confirmed violation")
	verbose := flag.Bool("v", false, "per-harness summary")
	solver := flag.String("solver", "z3-new", "solver binary")
	flag.Parse()
	start := time.Now()
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	} else {
		*tierS = "quick"
	}
	if *limit == 0 {
		*limit = 150 * time.Second
		if tier == 1 {
			*limit = 700 * time.Second
		}
	}
	if *evOut == "" {
		*evOut = filepath.Join(*verif, "evidence", *prop+".json")
	}
	lp := strings.ToLower(*prop)
	hdir := filepath.Join(*verif, "harness")
	ents, err := os.ReadDir(hdir)
	if err != nil {
		fatal("%v", err)
	}
	var files []*harnessFile
	var libs []*harnessFile
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		isProp := n == lp+".go" || strings.HasPrefix(n, lp+"_")
		isLib := strings.HasPrefix(n, "lib_")
		if !isProp && !isLib {
			continue
		}
		h, err := scanHarness(filepath.Join(hdir, n))
		if err != nil {
			fatal("%v", err)
		}
		if isLib {
			libs = append(libs, h)
		} else {
			files = append(files, h)
		}
	}
	if len(files) == 0 {
		fatal("no harness for %s", *prop)
	}
	dirs := map[string]bool{}
	for _, f := range files {
		dirs[f.dir] = true
	}
	for _, l := range libs {
		if dirs[l.dir] {
			files = append(files, l)
		}
	}
	work, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(work)

	var notes []string
	var ld *Loaded
	var b *Build
	var tLoad time.Duration
	for {
		var paths []string
		var dl []string
		seen := map[string]bool{}
		for _, f := range files {
			paths = append(paths, f.path)
			if !seen[f.dir] {
				seen[f.dir] = true
				dl = append(dl, f.dir)
			}
		}
		b, err = PrepareBuild(*repo, *verif, paths)
		if err != nil {
			notes = append(notes, "source not readable: "+err.Error())
			break
		}
		var errs []string
		ld, errs, err = LoadSSA(b, dl)
		tLoad = time.Since(start)
		if err == nil {
			break
		}
		for i, e := range errs {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
		}
		// drop harness files that no longer type-check
		dropped := false
		for i := 0; i < len(files); i++ {
			base := "zz_verif_" + filepath.Base(files[i].path)
			for _, e := range errs {
				if strings.Contains(e, base) {
					notes = append(notes, "harness file "+filepath.Base(files[i].path)+" does not fit the current source: "+firstLine(e))
					files = append(files[:i], files[i+1:]...)
					i--
					dropped = true
					break
				}
			}
		}
		ld = nil
		if !dropped || len(files) == 0 {
			notes = append(notes, "the source could not be loaded: "+strings.Join(errs, "; "))
			break
		}
	}
	run := &Run{prop: *prop, tier: tier, ld: ld, st: &Stats{}, solver: *solver, tmo: 20000, violQ: make(chan *Violation, 4096)}
	run.known = readKnown(filepath.Join(*verif, "known_findings.txt"))
	if ld != nil {
		re := regexp.MustCompile(*only)
		native := map[string][]string{}
		for _, f := range files {
			if !strings.HasPrefix(filepath.Base(f.path), lp) {
				continue
			}
			pkg := modPath
			if f.dir != "" {
				pkg += "/" + f.dir
			}
			for _, fn := range f.funcs {
				if !re.MatchString(fn) {
					continue
				}
				sf := ld.Pkgs[pkg].Func(fn)
				d := &Driver{run: run, name: fn, dir: f.dir, fn: sf, tier: tier, concLimit: 300, forkLimit: 20000,
					incon: map[string]int{}, reach: map[string]int{}, expect: map[string]bool{}, bounds: map[string]bool{},
					funcs: map[*ssa.Function]int{}, viol: map[string]*Violation{}}
				run.drivers = append(run.drivers, d)
				native[f.dir] = append(native[f.dir], fn)
			}
		}
		nt := NewNative(b, work, native)
		run.deadline = start.Add(*limit)
		run.hard = run.deadline.Add(60 * time.Second)
		var vw sync.WaitGroup
		for i := 0; i < 2; i++ {
			vw.Add(1)
			go func() {
				defer vw.Done()
				for v := range run.violQ {
					if !run.stopAll.Load() {
						run.confirm(nt, v)
						if v.status == "confirmed" && v.known == "" {
							run.mu.Lock()
							run.confirmed = append(run.confirmed, v)
							run.mu.Unlock()
							if !*all {
								run.stopAll.Store(true)
							} else {
								fmt.Fprintf(os.Stderr, "CONFIRMED %s: %s\n   inputs %s\n   native %s\n", v.d.name, v.msg, clip(string(v.inputs), 1500), clip(v.detail, 800))
							}
							run.mu.Lock()
							run.cond.Broadcast()
							run.mu.Unlock()
						}
					}
					run.violWG.Done()
				}
			}()
		}
		run.explore(*workers)
		if !run.stopAll.Load() {
			for _, d := range run.drivers {
				d.neverCheck()
			}
		}
		run.violWG.Wait()
		close(run.violQ)
		vw.Wait()
		tExp := time.Since(start)
		okW, badW := 0, 0
		var wd []string
		if !run.stopAll.Load() {
			okW, badW, wd = run.validate(nt)
		}
		if *verbose {
			fmt.Fprintf(os.Stderr, "load %.1fs explore until %.1fs total %.1fs\n", tLoad.Seconds(), tExp.Seconds(), time.Since(start).Seconds())
		}
		code := run.report(*verif, *evOut, *tierS, start, okW, badW, wd, notes, *verbose)
		os.RemoveAll(work)
		os.Exit(code)
	}
	code := run.report(*verif, *evOut, *tierS, start, 0, 0, nil, notes, *verbose)
	os.RemoveAll(work)
	os.Exit(code)
}

func readKnown(path string) []KnownFinding {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(data), "\n") {
		// known: property=ID match="prefix of the assertion message" what fails
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "match=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		m, err := strconv.Unquote(q)
		if err != nil || m == "" {
			continue
		}
		out = append(out, KnownFinding{Property: id, Match: m, What: strings.TrimSpace(rest[len(q):])})
	}
	return out
}

func (r *Run) report(verif, evOut, tier string, start time.Time, okW, badW int, wd, notes []string, verbose bool) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var paths, trans, asserts, steps, pruned int64
	funcs := map[string]bool{}
	incon := map[string]int{}
	bounds := map[string]bool{}
	var samples []any
	var hs []any
	exhaustive := len(r.drivers) > 0 && len(notes) == 0
	var knownSeen []string
	var unconf []string
	for _, d := range r.drivers {
		paths += d.paths.Load()
		trans += d.branches.Load()
		asserts += d.assertions.Load()
		steps += d.steps.Load()
		pruned += d.pruned.Load()
		for f := range d.funcs {
			if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/verifv") || strings.HasPrefix(f.Name(), "Harness_") {
				continue
			}
			pos := r.ld.Prog.Fset.Position(f.Pos())
			if strings.Contains(pos.Filename, "zz_verif_") || strings.Contains(pos.Filename, "/verifv/") || f.Synthetic != "" {
				continue
			}
			funcs[strings.ReplaceAll(f.String(), modPath, "bpass")] = true
		}
		for k, n := range d.incon {
			incon[k] += n
		}
		for k := range d.bounds {
			bounds[k] = true
		}
		var missing []string
		for l := range d.expect {
			if d.reach[l] == 0 {
				missing = append(missing, l)
			}
		}
		sort.Strings(missing)
		if d.unexplored > 0 || len(d.incon) > 0 || r.stopAll.Load() {
			exhaustive = false
		}
		for k, v := range d.viol {
			if v.known != "" && v.status == "confirmed" {
				knownSeen = append(knownSeen, v.known)
			} else if v.status != "confirmed" {
				unconf = append(unconf, d.name+": "+k+" ("+v.detail+") "+fmt.Sprint(v.inputs))
			}
		}
		if len(missing) > 0 && !r.stopAll.Load() {
			notes = append(notes, fmt.Sprintf("%s never reached %v", d.name, missing))
		}
		h := map[string]any{"harness": d.name, "paths": d.paths.Load(), "pruned": d.pruned.Load(), "branches": d.branches.Load(),
			"assertions": d.assertions.Load(), "steps": d.steps.Load(), "max_decisions": d.maxDepth, "cpu_s": float64(d.cpuNS.Load()) / 1e9,
			"unexplored": d.unexplored, "inconclusive": d.incon, "reached": d.reach, "bounds": sortedKeys(d.bounds)}
		hs = append(hs, h)
		if verbose {
			fmt.Fprintf(os.Stderr, "%-40s paths=%d ok=%d pruned=%d branches=%d asserts=%d steps=%d cpu=%.1fs unexplored=%d missing=%v incon=%v\n", d.name, d.paths.Load(), d.nOK, d.pruned.Load(),
				d.branches.Load(), d.assertions.Load(), d.steps.Load(), float64(d.cpuNS.Load())/1e9, d.unexplored, missing, d.incon)
		}
		if len(d.wit) > 0 && len(samples) < 6 {
			samples = append(samples, map[string]any{"harness": d.name, "inputs": d.wit[0].inputs, "observed": d.wit[0].obs})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	sort.Strings(unconf)
	if verbose {
		for _, u := range unconf {
			fmt.Fprintln(os.Stderr, "UNCONFIRMED", u)
		}
		for _, u := range wd {
			fmt.Fprintln(os.Stderr, "WITNESS MISMATCH", u)
		}
		for _, u := range notes {
			fmt.Fprintln(os.Stderr, "NOTE", u)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states": paths, "transitions": trans, "traces_validated_against_impl": okW, "samples": samples,
		"exhaustive": exhaustive, "functions_encoded": fl, "bounds": sortedKeys(bounds),
		"queries": map[string]any{"solver": r.solver, "discharged": r.st.Queries.Load(), "sat": r.st.SatN.Load(), "unsat": r.st.UnsatN.Load(),
			"unknown": r.st.UnknownN.Load(), "cached": r.st.CacheHits.Load(), "solver_s": float64(r.st.SolverNS.Load()) / 1e9, "injectivity_lemmas": r.st.InjLemmas.Load()},
		"assertions_checked": asserts, "ssa_instructions_executed": steps, "infeasible_paths": pruned,
		"inconclusive": incon, "unconfirmed_candidates": unconf, "trace_mismatches": wd, "notes": notes, "harnesses": hs,
		"rule": "states are feasible path classes of the harness (each covers every input satisfying its path condition); transitions are branch decisions settled by the solver",
	}
	nv := len(r.confirmed)
	ev := map[string]any{"property": r.prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"ciphers are uninterpreted permutations per key; hashes and scrypt are uninterpreted injective functions",
			"the engine's model of the Go semantics of the executed SSA, of encoding/json, fmt, sort and time values is right (witness paths are compared with native runs)",
			"inputs outside the stated bounds are not covered",
		}, "wall_s": time.Since(start).Seconds(), "violations": nv}
	os.MkdirAll(filepath.Dir(evOut), 0755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evOut, data, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	sort.Strings(knownSeen)
	last := ""
	for _, k := range knownSeen {
		if k != last {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k)
		}
		last = k
	}
	if nv > 0 {
		rd := filepath.Join(verif, "work", "replays")
		os.MkdirAll(rd, 0755)
		for i, v := range r.confirmed {
			fn := filepath.Join(rd, fmt.Sprintf("%s-%d.json", r.prop, i))
			js, _ := json.MarshalIndent(map[string]any{"property": r.prop, "harness": v.d.name, "kind": v.kind, "message": v.msg, "native": v.detail, "input": v.inputs}, "", " ")
			os.WriteFile(fn, js, 0644)
			fmt.Printf("%s: %s\n", v.d.name, v.msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, fn)
		}
		return 1
	}
	fmt.Printf("property %s: held on %d paths (%d branch decisions, %d assertions), exhaustive=%v, %d witness traces agree with native runs\n", r.prop, paths, trans, asserts, exhaustive, okW)
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
