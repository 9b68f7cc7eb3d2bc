package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// CheckDef describes how one property is decided (checks.json).
type CheckDef struct {
	Pkg         string            `json:"pkg"`
	Entries     []EntryDef        `json:"entries"`
	Opt         []string          `json:"opt"`
	Bounds      map[string]string `json:"bounds"`
	Outside     string            `json:"outside"`
	Assumptions []string          `json:"assumptions"`
}

type EntryDef struct {
	Name     string   `json:"name"`
	Pkg      string   `json:"pkg"`
	Covers   []string `json:"covers"`
	Thorough bool     `json:"thorough_only"`
	Sched    bool     `json:"sched"`
	NoNative bool     `json:"no_native"`
	Opt      []string `json:"opt"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check ID | run PKG ENTRY")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet("verif", flag.ExitOnError)
	verbose := fs.Bool("v", false, "verbose")
	debug := fs.Bool("debug", false, "debug engine panics")
	nomerge := fs.Bool("nomerge", false, "do not merge branches")
	workers := fs.Int("j", 8, "workers")
	maxPaths := fs.Int("paths", 0, "path limit")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verif directory")
	budget := fs.Int("budget", 0, "seconds per entry")
	optS := fs.String("opt", "", "overlay options")
	smtlog := fs.String("smtlog", "", "log solver input")
	prof := fs.String("prof", "", "cpu profile")
	solverMs := fs.Int("solverms", 0, "solver timeout")
	maxV := fs.Int("maxviol", 1, "violations to collect")
	var pos []string
	args := os.Args[2:]
	for len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		pos = append(pos, args[0])
		args = args[1:]
	}
	fs.Parse(args)
	pos = append(pos, fs.Args()...)
	verifDir = *verif
	if *tier == "" {
		*tier = "quick"
	}
	if *smtlog != "" {
		solverLog, _ = os.Create(*smtlog)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *solverMs == 0 {
		*solverMs = 60000
		if *tier == "thorough" {
			*solverMs = 300000
		}
	}
	cfg := &RunConfig{SolverMs: *solverMs, MaxDecisions: 4000, MaxSteps: 20_000_000, Verbose: *verbose, Debug: *debug, NoMerge: *nomerge, Tier: *tier}
	b := *budget
	if b == 0 {
		b = 780
		if *tier == "thorough" {
			b = 3600
		}
	}
	switch cmd {
	case "check":
		os.Exit(runCheck(*repo, *verif, pos[0], *tier, cfg, *workers, time.Duration(b)*time.Second))
	case "run":
		code := debugRun(*repo, *verif, pos[0], pos[1:], *optS, cfg, *workers, *maxPaths, time.Duration(b)*time.Second, *maxV)
		if *prof != "" {
			pprof.StopCPUProfile()
		}
		os.Exit(code)
	case "replay":
		os.Exit(replayFile(*repo, *verif, pos[0]))
	}
	os.Exit(2)
}

func optMap(l []string) map[string]bool {
	m := map[string]bool{}
	for _, o := range l {
		if o != "" {
			m[o] = true
		}
	}
	return m
}

func debugRun(repo, verif, pkg string, entries []string, opts string, cfg *RunConfig, workers, maxPaths int, budget time.Duration, maxV int) int {
	if err := ensureMod(repo); err != nil {
		fmt.Println(err)
		return 2
	}
	t0 := time.Now()
	ov, err := buildOverlay(repo, verif, optMap(strings.Split(opts, ",")))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	p, err := loadProgram(repo, ov, []string{modPath + "/internal/verifh/" + pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	nat := buildNative(repo, ov, pkg, entries)
	defer nat.Close()
	if nat.err != nil {
		fmt.Println(nat.err)
	}
	code := 0
	for _, e := range entries {
		fn := p.function(modPath+"/internal/verifh/"+pkg, e)
		if fn == nil {
			fmt.Println("no entry", e)
			return 2
		}
		r, err := explore(p, fn, cfg, workers, maxPaths, time.Now().Add(budget), maxV, 12)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		printResult(r)
		for vi, v := range r.Violations {
			if vi >= maxV {
				break
			}
			end, obs, err := nat.run(v, e, cfg.Tier, "")
			fmt.Printf("VIOL %s\n%s\n", v.Msg, v.Where)
			fmt.Printf("  native: %s %v\n", end, err)
			for _, in := range v.Inputs {
				fmt.Printf("    %s %s %d %v\n", in.Name, in.Kind, in.N, in.Vals)
			}
			for _, a := range v.Apps {
				fmt.Printf("    app %s(%s) = %s\n", a.Name, a.Arg, a.Out)
			}
			fmt.Printf("  sym obs:\n%s\n  nat obs:\n%s\n", v.Trace, strings.Join(obs, "\n"))
			code = 1
		}
		ok := 0
		for _, s := range r.Samples {
			end, obs, err := nat.run(s, e, cfg.Tier, "")
			if end != "done" || strings.Join(obs, "\n") != s.Trace {
				fmt.Printf("SAMPLE MISMATCH: native %s %v\n sym:\n%s\n nat:\n%s\n", end, err, s.Trace, strings.Join(obs, "\n"))
			} else {
				ok++
			}
		}
		fmt.Printf("  samples validated natively: %d of %d\n", ok, len(r.Samples))
	}
	return code
}

func printResult(r *EntryResult) {
	s := r.Stats
	fmt.Printf("%s: paths=%d infeasible=%d steps=%d forks=%d merges=%d aborts=%d asserts=%d queries=%d (sat %d unsat %d unknown %d) solver=%v wall=%v viol=%d %s\n",
		r.Entry, s.Paths, s.Infeasible, s.Steps, s.Forks, s.Merges, s.MergeAborts, s.Asserts, r.Queries, r.NSat, r.NUnsat, r.NUnknown,
		r.SolverTime.Round(time.Millisecond), r.Wall.Round(time.Millisecond), len(r.Violations), r.Truncated)
	var cs []string
	for k, v := range s.Covers {
		cs = append(cs, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(cs)
	fmt.Println("  covers:", strings.Join(cs, " "))
	for e, n := range s.Errors {
		fmt.Printf("  ERROR x%d %s\n%s", n, e, s.ErrAt[e])
	}
}

func loadChecks(verif string) (map[string]*CheckDef, error) {
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		return nil, err
	}
	m := map[string]*CheckDef{}
	return m, json.Unmarshal(b, &m)
}

type knownFinding struct {
	prop, entry, msg, note string
}

// loadKnown reads known_findings.txt: property<TAB>entry<TAB>message<TAB>note
func loadKnown(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") || strings.TrimSpace(l) == "" {
			continue
		}
		f := strings.Split(l, "\t")
		if len(f) >= 4 {
			out = append(out, knownFinding{f[0], f[1], f[2], f[3]})
		}
	}
	return out
}

func runCheck(repo, verif, id, tier string, cfg *RunConfig, workers int, budget time.Duration) int {
	t0 := time.Now()
	checks, err := loadChecks(verif)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	def := checks[id]
	if def == nil {
		fmt.Println("ERROR no check", id)
		return 2
	}
	if err := ensureMod(repo); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	deadline := t0.Add(budget)
	type group struct {
		pkg, opt string
		entries  []EntryDef
	}
	var groups []*group
	for _, e := range def.Entries {
		if e.Thorough && tier != "thorough" {
			continue
		}
		pkg := e.Pkg
		if pkg == "" {
			pkg = def.Pkg
		}
		opt := strings.Join(append(append([]string(nil), def.Opt...), e.Opt...), ",")
		var g *group
		for _, x := range groups {
			if x.pkg == pkg && x.opt == opt {
				g = x
			}
		}
		if g == nil {
			g = &group{pkg: pkg, opt: opt}
			groups = append(groups, g)
		}
		g.entries = append(g.entries, e)
	}
	var problems []string
	total := &Stats{Covers: map[string]int{}, Funcs: map[string]bool{}, Errors: map[string]int{}, ErrAt: map[string]string{}}
	var solverTime time.Duration
	queries, unsat, sat, validated := 0, 0, 0, 0
	var samples []interface{}
	var perEntry []interface{}
	violations := 0
	known := loadKnown(verif)
	var subst []string
	for _, g := range groups {
		ov, err := buildOverlay(repo, verif, optMap(strings.Split(g.opt, ",")))
		if err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
		subst = append(subst, ov.Sites...)
		var names []string
		for _, e := range g.entries {
			names = append(names, e.Name)
		}
		natCh := make(chan *NatRun, 1)
		go func() { natCh <- buildNative(repo, ov, g.pkg, names) }()
		p, err := loadProgram(repo, ov, []string{modPath + "/internal/verifh/" + g.pkg})
		nat := <-natCh
		defer nat.Close()
		if err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
		if nat.err != nil {
			fmt.Println("ERROR", nat.err)
			return 2
		}
		for _, e := range g.entries {
			fn := p.function(modPath+"/internal/verifh/"+g.pkg, e.Name)
			if fn == nil {
				fmt.Println("ERROR no entry", e.Name)
				return 2
			}
			r, err := explore(p, fn, cfg, workers, 0, deadline, 1, 6)
			if err != nil {
				fmt.Println("ERROR", err)
				return 2
			}
			printResult(r)
			mergeStats(total, r.Stats)
			solverTime += r.SolverTime
			queries += r.Queries
			unsat += r.NUnsat
			sat += r.NSat
			pe := map[string]interface{}{"entry": g.pkg + "." + e.Name, "paths": r.Stats.Paths, "queries": r.Queries,
				"solver_s": r.SolverTime.Seconds(), "wall_s": r.Wall.Seconds(), "assertions": r.Stats.Asserts, "covers": r.Stats.Covers, "merged_branches": r.Stats.Merges}
			perEntry = append(perEntry, pe)
			for _, v := range r.Violations {
				dir := filepath.Join(verif, "replays")
				os.MkdirAll(dir, 0755)
				path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", id, e.Name))
				end, _, err := nat.run(v, e.Name, tier, path)
				if err != nil {
					problems = append(problems, fmt.Sprintf("%s: replay failed: %v", e.Name, err))
					continue
				}
				conf := confirms(v.Msg, end)
				if !conf && e.Sched {
					// the interleaving is part of the counterexample: it is
					// reproduced by executing the same decisions again
					conf = reexecutes(p, fn, cfg, v)
					end = "reproduced by deterministic re-execution of the schedule"
				}
				annotate(path, map[string]interface{}{"Property": id, "Pkg": g.pkg, "Opt": g.opt, "Message": v.Msg, "Where": v.Where, "Native": end, "Log": v.Log})
				if !conf {
					problems = append(problems, fmt.Sprintf("%s: counterexample %q not confirmed by the native run (%s), see %s", e.Name, v.Msg, end, path))
					continue
				}
				isKnown := false
				for _, k := range known {
					if k.prop == id && k.entry == e.Name && k.msg == v.Msg {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.note)
						isKnown = true
					}
				}
				if isKnown {
					continue
				}
				fmt.Printf("counterexample in %s: %s\n%s", e.Name, v.Msg, v.Where)
				fmt.Printf("native run: %s\n", end)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				violations++
			}
			if len(r.Violations) == 0 {
				if r.Truncated != "" {
					problems = append(problems, fmt.Sprintf("%s: exploration cut short: %s", e.Name, r.Truncated))
				}
				for _, c := range e.Covers {
					if r.Stats.Covers[c] == 0 {
						problems = append(problems, fmt.Sprintf("%s: situation %q not reached", e.Name, c))
					}
				}
				for i, s := range r.Samples {
					if e.NoNative {
						break
					}
					end, obs, err := nat.run(s, e.Name, tier, "")
					if err != nil || end != "done" || strings.Join(obs, "\n") != s.Trace {
						problems = append(problems, fmt.Sprintf("%s: native run of a sampled path differs: %s %v\n--- symbolic\n%s\n--- native\n%s", e.Name, end, err, s.Trace, strings.Join(obs, "\n")))
						continue
					}
					validated++
					if i < 2 && len(samples) < 12 {
						samples = append(samples, map[string]interface{}{"entry": e.Name, "inputs": short(s.Inputs), "observed": clip(s.Trace, 600)})
					}
				}
			}
			for k, n := range r.Stats.Errors {
				problems = append(problems, fmt.Sprintf("%s: x%d %s\n%s", e.Name, n, k, r.Stats.ErrAt[k]))
			}
			if violations > 0 {
				break
			}
		}
		if violations > 0 {
			break
		}
		runtime.GC()
	}
	fns := sortedKeys(total.Funcs)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": total.Paths, "transitions": total.Steps, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": len(problems) == 0 && violations == 0,
			"explanation":            "states: feasible symbolic paths, each standing for all input values satisfying its path condition; transitions: SSA instructions executed symbolically; traces_validated: sampled paths whose solver-produced inputs were run on the compiled code with equal observations",
			"functions_encoded":      fns,
			"functions_encoded_n":    len(fns),
			"bounds":                 def.Bounds[tier],
			"outside_bounds":         def.Outside,
			"solver_queries":         queries,
			"solver_unsat":           unsat,
			"solver_sat":             sat,
			"solver_seconds":         solverTime.Seconds(),
			"assertions_discharged":  total.Asserts,
			"branches_merged":        total.Merges,
			"infeasible_paths":       total.Infeasible,
			"situations_reached":     total.Covers,
			"entries":                perEntry,
			"modelled_function_body": subst,
		},
		"assumptions": def.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if violations > 0 {
		return 1
	}
	if len(problems) > 0 {
		for _, p := range problems {
			fmt.Println("PROBLEM", p)
		}
		return 2
	}
	fmt.Printf("OK property=%s tier=%s paths=%d queries=%d solver=%.1fs wall=%.1fs validated=%d\n", id, tier, total.Paths, queries, solverTime.Seconds(), time.Since(t0).Seconds(), validated)
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func short(in []ReplayInput) []string {
	var out []string
	for i, x := range in {
		if i >= 24 {
			out = append(out, "...")
			break
		}
		if x.Kind == "choose" {
			out = append(out, fmt.Sprintf("%s=%d", x.Name, x.N))
		} else {
			out = append(out, fmt.Sprintf("%s=%s", x.Name, clip(strings.Join(x.Vals, ","), 80)))
		}
	}
	return out
}

func annotate(path string, extra map[string]interface{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	m := map[string]interface{}{}
	if json.Unmarshal(b, &m) != nil {
		return
	}
	for k, v := range extra {
		m[k] = v
	}
	b, _ = json.MarshalIndent(m, "", " ")
	os.WriteFile(path, b, 0644)
}

// replayFile runs a recorded counterexample on the compiled code.
func replayFile(repo, verif, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f struct {
		modelFile
		Pkg, Opt, Message string
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	ensureMod(repo)
	ov, err := buildOverlay(repo, verif, optMap(strings.Split(f.Opt, ",")))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nat := buildNative(repo, ov, f.Pkg, []string{f.Entry})
	defer nat.Close()
	if nat.err != nil {
		fmt.Println(nat.err)
		return 2
	}
	end, obs, err := nat.run(&Violation{Inputs: f.Inputs, Apps: f.Apps}, f.Entry, f.Tier, "")
	fmt.Println(strings.Join(obs, "\n"))
	fmt.Println("END", end, err)
	if confirms(f.Message, end) {
		return 1
	}
	return 0
}
