package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type known struct {
	Property string
	Harness  string
	Match    string // substring of the violation message
	Note     string
}

func readKnown(path string) []known {
	var out []known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		// KNOWN property=<id> harness=<name> match="<text>" <note>
		var k known
		rest := strings.TrimPrefix(l, "KNOWN ")
		for {
			rest = strings.TrimSpace(rest)
			key, r2, ok := strings.Cut(rest, "=")
			if !ok || strings.Contains(key, " ") {
				break
			}
			var val string
			if strings.HasPrefix(r2, "\"") {
				e := strings.Index(r2[1:], "\"")
				if e < 0 {
					break
				}
				val = r2[1 : e+1]
				rest = r2[e+2:]
			} else {
				val, rest, _ = strings.Cut(r2, " ")
			}
			switch key {
			case "property":
				k.Property = val
			case "harness":
				k.Harness = val
			case "match":
				k.Match = val
			}
		}
		k.Note = rest
		out = append(out, k)
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("harness", "", "run one harness only")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	verbose := flag.Bool("v", false, "")
	noNative := flag.Bool("nonative", false, "")
	scale := flag.Float64("scale", 1, "budget scale")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	if _, err := exec.LookPath(solverBin); err != nil {
		solverBin = "z3"
	}
	work := filepath.Join(*verif, ".work", fmt.Sprintf("%s-%d", *prop, os.Getpid()))
	defer os.RemoveAll(work)
	if err := useModCopy(*repo, work); err != nil {
		fmt.Println("gosym:", err)
		os.Exit(2)
	}
	ld, err := loadProp(*repo, filepath.Join(*verif, "harness"), *prop, *tier, *only)
	if err != nil {
		fmt.Println("gosym:", err)
		os.Exit(2)
	}
	loadT := time.Since(start)
	for _, p := range ld.problems {
		fmt.Println("NOTE:", p)
	}
	var nat *Native
	if len(ld.hs) > 0 {
		nat, err = newNative(*repo, work, ld)
		if err != nil {
			fmt.Println("gosym:", err)
			os.Exit(2)
		}
	}
	// build the native replay binaries while exploring
	type bres struct {
		dir string
		err error
	}
	bch := make(chan bres, 16)
	nb := 0
	if nat != nil && !*noNative {
		dirs := sortedKeys(nat.dirs)
		nb = len(dirs)
		go func() {
			for _, d := range dirs {
				_, err := nat.build(d, false, kindPlain)
				bch <- bres{d, err}
			}
		}()
	}
	var ws []*worker
	for i := 0; i < *nw; i++ {
		ws = append(ws, newWorker())
	}
	ex := &Explorer{p: ld.p, rnd: rand.New(rand.NewSource(int64(seed) + 7)), maxSamples: 24}
	if *tier == "thorough" {
		ex.maxSamples = 80
	}
	results := map[*Harness]*HStats{}
	for _, h := range ld.hs {
		if ld.p != nil {
			ld.p.replace = h.replace
		}
		h.Budget = time.Duration(float64(h.Budget) * *scale)
		st := ex.Run(h, ws)
		results[h] = st
		fmt.Printf("%-44s paths=%d done=%d infeasible=%d unsupported=%d steplimit=%d internal=%d viol=%d asserts=%d solved=%d queries=%d unknown=%d solver=%.1fs maxq=%.2fs wall=%.1fs exhausted=%v cert=%s %d clauses %.1fs\n", h.Name, st.Paths, st.Done, st.Infeasible, st.Unsup, st.StepLim, st.Internal,
			len(st.Violations), st.Asserts, st.Solved, st.Queries, st.Unknown, st.SolverTime.Seconds(), st.MaxQuery.Seconds(), st.Wall.Seconds(), st.Exhausted, st.Cert.Status, st.Cert.Clauses, st.Cert.Time.Seconds())
		for _, k := range sortedKeys(st.UnsupAt) {
			if *verbose || st.UnsupAt[k] > 0 {
				kk := k
				if len(kk) > 600 && !*verbose {
					kk = kk[:600]
				}
				fmt.Printf("   incomplete x%d: %s\n", st.UnsupAt[k], kk)
			}
		}
		for _, k := range sortedKeys(st.UnknownAt) {
			fmt.Printf("   unknown x%d: %s\n", st.UnknownAt[k], k)
		}
		if *verbose {
			for _, v := range st.Violations {
				fmt.Printf("   violation: %s\n      at %s\n", v.Msg, v.Loc)
				for _, k := range v.Order {
					fmt.Printf("      %s = %s\n", k, clip(v.Inputs[k], 200))
				}
				for _, s := range v.Sched {
					fmt.Printf("      sched %s\n", s)
				}
			}
		}
	}
	for _, w := range ws {
		w.s.Close()
	}
	buildErr := map[string]error{}
	for i := 0; i < nb; i++ {
		b := <-bch
		buildErr[b.dir] = b.err
		if b.err != nil {
			fmt.Println("NOTE:", b.err)
		}
	}
	exit := report(ld, nat, results, *prop, *tier, seed, *verif, *repo, start, loadT, *noNative, buildErr)
	if profOn {
		profPrint()
	}
	if os.Getenv("GOSYM_KEEP") == "" {
		os.RemoveAll(work)
	}
	os.Exit(exit)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func report(ld *Loaded, nat *Native, results map[*Harness]*HStats, prop, tier string, seed int, verif, repo string, start time.Time, loadT time.Duration, noNative bool, buildErr map[string]error) int {
	validated, mismatches := 0, 0
	var mismNotes []string
	var viols []*Violation
	exit := 0
	if nat != nil && !noNative {
		for _, dir := range sortedKeys(nat.dirs) {
			if buildErr[dir] != nil {
				continue
			}
			// 1. validate the encoding: sampled path models must behave natively as the engine predicted
			var cases []natCase
			var exp []Sample
			var hs []*Harness
			for _, h := range ld.hs {
				if h.Pkg != dir || h.NoNative || h.Faults {
					continue
				}
				for _, s := range results[h].Samples {
					cases = append(cases, natCase{Harness: h.Name, Inputs: s.Inputs})
					exp = append(exp, s)
					hs = append(hs, h)
				}
			}
			if len(cases) > 0 {
				res, out, err := nat.run(dir, cases, false, kindPlain, 150*time.Second)
				if err != nil {
					mismNotes = append(mismNotes, err.Error())
				}
				if len(res) < len(cases) {
					mismNotes = append(mismNotes, fmt.Sprintf("%s: native run answered %d of %d cases: %s", dir, len(res), len(cases), clip(out, 800)))
					if len(res) < len(cases) && err == nil {
						// the process died in case len(res): a crash of the real code
						i := len(res)
						viols = append(viols, &Violation{H: hs[i], Msg: "the native run of a path model crashed the process", Inputs: exp[i].Inputs, Order: sortedKeys(exp[i].Inputs)})
					}
				}
				for _, r := range res {
					e := exp[r.Index]
					if r.Status == "ok" && !e.Panic && strings.Join(r.Obs, ";") == strings.Join(e.Obs, ";") || e.Panic && r.Status == "panic" {
						validated++
						continue
					}
					mismatches++
					if r.Status == "fail" || r.Status == "panic" || r.Status == "timeout" {
						viols = append(viols, &Violation{H: hs[r.Index], Msg: r.Status + ": " + firstLine(r.Msg) + " (found while validating a path model natively)", Inputs: e.Inputs, Order: sortedKeys(e.Inputs)})
					}
					if len(mismNotes) < 10 {
						mismNotes = append(mismNotes, fmt.Sprintf("%s: native status=%s %s obs=%v expected=%v inputs=%v", r.Harness, r.Status, clip(r.Msg, 300), r.Obs, e.Obs, clip(fmt.Sprint(e.Inputs), 600)))
					}
				}
			}
		}
	}
	for _, h := range ld.hs {
		viols = append(viols, results[h].Violations...)
	}
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	knownHit := map[int]bool{}
	reported := map[string]bool{}
	tries := map[string]int{}
	nviol := 0
	// those whose native runs take long come last
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].H.Timeout < viols[j].H.Timeout })
	var unconf []string
	replayStart := time.Now()
	for _, v := range viols {
		key := v.H.Name + "|" + v.Msg
		if reported[key] {
			continue
		}
		ki := -1
		for i, k := range kn {
			if k.Property == prop && (k.Harness == "" || k.Harness == v.H.Name) && strings.Contains(v.Msg, k.Match) {
				ki = i
			}
		}
		confirmed, note := false, "not replayed"
		tries[key]++
		if tries[key] > 2 && len(v.Sched) > 0 || nviol >= 3 || nviol >= 1 && time.Since(replayStart) > 60*time.Second || time.Since(replayStart) > 300*time.Second {
			note = "not replayed: enough of it"
		} else if nat != nil && !noNative && buildErr[v.H.Pkg] == nil {
			confirmed, note = replay(nat, v)
		}
		v.Confirmed, v.Native = confirmed, note
		if !confirmed {
			unconf = append(unconf, fmt.Sprintf("%s: %s (native: %s) inputs=%s", v.H.Name, v.Msg, clip(note, 300), clip(fmt.Sprint(v.Inputs), 400)))
			continue
		}
		reported[key] = true
		if ki >= 0 {
			if !knownHit[ki] {
				knownHit[ki] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, strings.TrimSpace(kn[ki].Note))
			}
			continue
		}
		nviol++
		if nviol <= 5 {
			p := writeReplay(verif, prop, nviol, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			fmt.Printf("   %s: %s\n   at %s\n   native: %s\n", v.H.Name, v.Msg, v.Loc, clip(note, 600))
			for _, k := range v.Order {
				fmt.Printf("      %s = %s\n", k, clip(v.Inputs[k], 160))
			}
			for _, s := range v.Sched {
				fmt.Printf("      sched %s\n", s)
			}
		}
		exit = 1
	}
	for _, u := range unconf {
		fmt.Println("NOTE: counterexample not reproduced natively, not reported:", u)
	}
	for _, m := range mismNotes {
		fmt.Println("NOTE: validation:", m)
	}
	// evidence
	cov := map[string]any{}
	var paths, trans, solved, asserts, queries, unk, incomplete int
	var sat, unsat int
	var stime float64
	fns := map[string]bool{}
	var hv []any
	var samples []any
	for _, h := range ld.hs {
		st := results[h]
		paths += st.Done + st.Infeasible + len(st.Violations)
		trans += int(st.Decisions)
		solved += st.Solved
		asserts += st.Asserts
		queries += st.Queries
		sat += st.Sat
		unsat += st.Unsat
		unk += st.Unknown
		incomplete += st.Unsup + st.StepLim + st.Dead + st.Internal
		stime += st.SolverTime.Seconds() + st.Cert.Time.Seconds()
		queries += st.Cert.Queries
		if st.Cert.Status == "unsat" {
			unsat += st.Cert.Queries
		}
		var fl []string
		for f := range st.Fns {
			if strings.Contains(f, "solarisdb/solaris") && !strings.Contains(f, "verifsym") && !strings.Contains(f, h.Name) {
				f = strings.ReplaceAll(f, "github.com/solarisdb/solaris/", "")
				fns[f] = true
				fl = append(fl, f)
			}
		}
		sort.Strings(fl)
		missing := []string{}
		for _, r := range h.Reach {
			if r != "" && !st.Reached[r] {
				missing = append(missing, r)
			}
		}
		if len(missing) > 0 {
			fmt.Printf("NOTE: %s: reachability witnesses not reached: %v\n", h.Name, missing)
		}
		hv = append(hv, map[string]any{
			"harness": h.Name, "package": h.Pkg, "bounds": strings.TrimSpace(h.Desc), "paths": st.Paths, "completed": st.Done, "infeasible": st.Infeasible,
			"unsupported_paths": st.Unsup, "step_limit_paths": st.StepLim, "deadline_paths": st.Dead, "internal_errors": st.Internal,
			"all_paths_explored": st.Exhausted, "assertions_evaluated": st.Asserts, "assertions_discharged_by_solver": st.Solved, "assertions_trivially_true": st.Trivial,
			"solver_queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown, "solver_s": round(st.SolverTime.Seconds()), "max_query_s": round(st.MaxQuery.Seconds()),
			"wall_s": round(st.Wall.Seconds()), "symbolic_decisions": st.Decisions, "max_path_depth": st.MaxDepth, "ssa_instructions": st.Instr, "incomplete": st.Incomplete,
			"exploration_certificate": map[string]any{"status": st.Cert.Status, "queries": st.Cert.Queries, "clauses": st.Cert.Clauses, "s": round(st.Cert.Time.Seconds())},
			"reached":                 sortedKeys(st.Reached), "reach_missing": missing, "repo_functions": fl, "violations": len(st.Violations), "incomplete_at": st.UnsupAt,
		})
		for i, s := range st.Samples {
			if i >= 2 {
				break
			}
			c := map[string]string{}
			for k, v := range s.Inputs {
				c[k] = clip(v, 80)
			}
			samples = append(samples, map[string]any{"harness": h.Name, "path_model": c})
		}
	}
	cov["states"] = paths
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	if samples == nil {
		samples = []any{}
	}
	cov["samples"] = samples
	cov["meaning"] = "states: symbolic execution paths decided (each stands for every input value satisfying its path condition); transitions: symbolic decisions taken; traces_validated_against_impl: path models replayed through the natively compiled code with equal observations"
	cov["exploration_certificate"] = "the solver is asked for values of the choices of the harness, of the scheduler, of the faults and of the branches which no decided path has; unsat: there are none"
	cov["functions_encoded"] = sortedKeys(fns)
	cov["harnesses"] = hv
	cov["queries"] = queries
	cov["queries_sat"] = sat
	cov["queries_unsat"] = unsat
	cov["queries_unknown"] = unk
	cov["solver_s"] = round(stime)
	cov["assertions_discharged_by_solver"] = solved
	cov["incomplete_paths"] = incomplete
	cov["validation_mismatches"] = mismatches
	cov["validation_notes"] = mismNotes
	cov["unconfirmed_counterexamples"] = unconf
	cov["problems"] = ld.problems
	cov["solver"] = solverBin
	cov["load_s"] = round(loadT.Seconds())
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{"bounds as listed per harness; nothing is claimed outside them", "stubs: logging and formatting have no side effects, time and ULID generation follow their documented contracts, sync primitives follow the Go memory model at their call boundaries", "file system and memory mapping are the harness models where a harness says so"},
		"wall_s":      round(time.Since(start).Seconds()), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644); err != nil {
		fmt.Println("evidence:", err)
	}
	fmt.Printf("%s: tier=%s harnesses=%d paths=%d solved=%d queries=%d validated=%d mismatches=%d incomplete=%d unknown=%d violations=%d wall=%.1fs (load %.1fs)\n", prop, tier, len(ld.hs), paths, solved, queries, validated, mismatches, incomplete, unk, nviol, time.Since(start).Seconds(), loadT.Seconds())
	return exit
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// replay runs the counterexample against the natively compiled code.
func replay(nat *Native, v *Violation) (bool, string) {
	if v.H.NoNative {
		return false, "harness has no native replay"
	}
	if v.H.Faults {
		return replayFaults(nat, v)
	}
	ok, note := replayOnce(nat, v, kindPlain)
	if !ok && len(v.Sched) > 0 {
		// a schedule which is rare natively: again with short random sleeps between the statements of the code
		if ok2, note2 := replayOnce(nat, v, kindPerturb); ok2 {
			return true, "with random delays between statements: " + note2
		} else {
			note += "; with random delays: " + note2
		}
	}
	return ok, note
}

// replayFaults runs the history of the counterexample with every one of the native calls failing: the calls of the model
// and those of the system need not have the same numbers.
func replayFaults(nat *Native, v *Violation) (bool, string) {
	var cases []natCase
	for i := 1; i <= 120; i++ {
		cases = append(cases, natCase{Harness: v.H.Name, Inputs: v.Inputs, FailAt: i})
	}
	res, out, err := nat.run(v.H.Pkg, cases, false, kindFaults, 100*time.Second)
	if err != nil {
		return false, err.Error()
	}
	for i, r := range res {
		switch r.Status {
		case "fail", "panic", "timeout":
			return true, fmt.Sprintf("with the call %d failing: %s: %s", i+1, r.Status, clip(r.Msg, 500))
		}
	}
	if len(res) < len(cases) && (strings.Contains(out, "SIGSEGV") || strings.Contains(out, "fatal error") || strings.Contains(out, "SIGBUS")) {
		return true, fmt.Sprintf("process crashed with the call %d failing: %s", len(res)+1, clip(out, 600))
	}
	return false, "no failing call shows it"
}

func replayOnce(nat *Native, v *Violation, kind string) (bool, string) {
	isRace := strings.HasPrefix(v.Msg, "data race")
	rep := v.H.Repeat
	if rep == 0 {
		rep = 1
	}
	if (isRace || len(v.Sched) > 0) && rep < 2000 {
		rep = 2000
	}
	tmo := 60 * time.Second
	if v.H.Timeout > 0 {
		// one run takes long
		rep, tmo = 1, v.H.Timeout+10*time.Second
	}
	res, out, err := nat.run(v.H.Pkg, []natCase{{Harness: v.H.Name, Inputs: v.Inputs, Repeat: rep, Timeout: int(v.H.Timeout.Milliseconds())}}, isRace, kind, tmo)
	if err != nil {
		return false, err.Error()
	}
	if isRace && strings.Contains(out, "DATA RACE") {
		return true, "race detector: " + clip(out, 800)
	}
	if len(res) == 0 {
		if strings.Contains(out, "SIGSEGV") || strings.Contains(out, "fatal error") || strings.Contains(out, "SIGBUS") || strings.Contains(out, "panic:") {
			return true, "process crashed: " + clip(out, 600)
		}
		return false, "no result: " + clip(out, 300)
	}
	r := res[0]
	switch r.Status {
	case "fail", "panic", "timeout":
		return true, r.Status + ": " + clip(r.Msg, 500)
	}
	return false, r.Status + " " + r.Msg
}

func writeReplay(verif, prop string, n int, v *Violation) string {
	d := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, fmt.Sprintf("%s-%d.json", prop, n))
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.H.Name, "package": v.H.Pkg, "harness_file": v.H.File, "message": v.Msg, "location": v.Loc, "inputs": v.Inputs, "schedule": v.Sched, "native": v.Native}, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}
