package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Report struct {
	id       string
	sf       *SpecFile
	ex       *Exec
	start    time.Time
	verified []string
}

type knownFinding struct {
	property string
	match    string // text the obligation name has to contain
	what     string
}

// readKnown reads lines "finding: property=<id> match=<text> :: <what fails>".
func readKnown(file, id string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" ")
		if !strings.HasPrefix(rest, "match=") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(rest, "match="), " :: ", 2)
		k := knownFinding{property: id, match: strings.TrimSpace(parts[0])}
		if len(parts) > 1 {
			k.what = parts[1]
		}
		out = append(out, k)
	}
	return out
}

func (r *Report) finish(all []*Obl, failures []Failure) int {
	id := r.id
	evDir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(evDir, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	// known findings
	known := readKnown(filepath.Join(*flagVerif, "known-findings.txt"), id)
	var open []Failure
	hit := map[int]bool{}
	for _, f := range failures {
		k := -1
		for i, kf := range known {
			if strings.Contains(f.Obligation, kf.match) {
				k = i
			}
		}
		if k >= 0 {
			hit[k] = true
			continue
		}
		open = append(open, f)
	}
	for i, kf := range known {
		if hit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf.what)
		}
	}

	counted, discharged := 0, 0
	byKind := map[string]int{}
	bySolver := map[string]int{}
	candTotal, candKept := 0, 0
	for _, o := range all {
		if o.cand != "" {
			candTotal++
			if o.res.Status == "unsat" {
				candKept++
				counted++
				discharged++
				byKind["invariant"]++
				bySolver[o.res.Solver]++
			}
			continue
		}
		if o.kind == "vacuity" {
			byKind["vacuity (precondition satisfiable)"]++
			continue
		}
		counted++
		byKind[strings.SplitN(o.kind, " of ", 2)[0]]++
		if o.res.Status == "unsat" {
			discharged++
			bySolver[o.res.Solver]++
		}
	}
	if counted == 0 && len(open) == 0 && *flagOnly == "" {
		open = append(open, Failure{Obligation: id, Status: "no obligation was generated"})
	}

	// Bounded cross-check of the assumptions (library contracts, slices as values, mathematical integers) by running the
	// real code; after a failed obligation it is the search for a failing input. It never counts as proved.
	boundedNote := ""
	boundedCases := 0
	found := ""
	if *flagOnly == "" && !*flagNoRep {
		var out string
		found, out = r.search(open)
		for _, l := range strings.Split(out, "\n") {
			if i := strings.Index(l, "CASES:"); i >= 0 {
				n, _ := strconv.Atoi(strings.TrimSpace(l[i+6:]))
				boundedCases += n
			}
		}
		if len(r.sf.bounded) > 0 {
			boundedNote = strings.Join(r.sf.bounded, "; ")
			if boundedCases == 0 && found == "" && len(open) == 0 {
				open = append(open, Failure{Obligation: id + ": bounded stand-in", Status: "the bounded check did not run:\n" + tail(out, 3000)})
			}
		}
		if found != "" && len(open) == 0 {
			open = append(open, Failure{Obligation: id + ": bounded cross-check of the assumptions", Status: "failing input found"})
		}
	}

	var trusted, assumptions []string
	var inl, dropped []string
	if r.ex != nil {
		trusted = sortedStrs(r.ex.trusted)
		assumptions = append(assumptions, sortedStrs(r.ex.notes)...)
		inl = sortedStrs(r.ex.inlined)
		for k := range r.ex.dropped {
			if !strings.Contains(k, "|auto:") && !strings.Contains(k, "|foreign") {
				dropped = append(dropped, k)
			}
		}
		sort.Strings(dropped)
	}
	assumptions = append(assumptions,
		"machine integers are treated as mathematical integers, floats as reals",
		"slices are treated as values (element writes reach the variable the slice came from, appended slices do not share elements)",
		"strings are sequences of bytes; partial correctness (termination is not proved)",
		"go/ssa translates the Go source faithfully; the SMT solvers z3 and cvc5 are sound; gvc itself")
	assumptions = append(assumptions, r.sf.notes...)
	if r.ex != nil {
		for k, f := range r.sf.funcs {
			if f.trusted && r.ex.underC[k] {
				trusted = append(trusted, "contract of "+k+" (module function, not verified here: "+f.note+")")
			}
		}
	}
	cov := map[string]interface{}{
		"obligations":              counted,
		"discharged":               discharged,
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", id, *flagTier),
		"trusted_base":             append([]string{}, trusted...),
		"functions_under_contract": r.verified,
		"functions_inlined":        inl,
		"obligations_by_kind":      byKind,
		"discharged_by_backend":    bySolver,
		"solver_seconds":           round2(solverTime),
		"solver_calls":             solverCalls,
		"invariant_candidates":     map[string]int{"tried": candTotal, "proved": candKept},
		"invariants_dropped":       append([]string{}, dropped...),
	}
	if boundedNote != "" {
		cov["bounded_standin"] = boundedNote
	}
	if boundedCases > 0 {
		cov["bounded_crosscheck"] = "additionally the property was checked on this many generated inputs against the real code (not counted as proved)"
		cov["bounded_crosscheck_cases"] = boundedCases
	}
	ev := map[string]interface{}{
		"property": id, "tier": *flagTier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": assumptions, "wall_s": round2(time.Since(r.start).Seconds()), "violations": len(open),
	}
	if *flagOnly == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evDir, id+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions under contract, %.1fs (solver %.1fs)\n", id, counted, discharged, len(r.verified), time.Since(r.start).Seconds(), solverTime)
	if len(open) == 0 {
		return 0
	}
	rp := filepath.Join(evDir, id+".replay.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", id)
	if found != "" {
		fmt.Fprintf(&b, "failing input (replayed against the real code):\n%s\n\n", found)
	}
	for _, f := range open {
		fmt.Fprintf(&b, "failed obligation: %s\n  result: %s %s\n", f.Obligation, f.Status, f.Solver)
		if f.Model != "" {
			fmt.Fprintf(&b, "  counterexample of the verifier:\n%s\n", tail(f.Model, 4000))
		}
		if f.Script != "" {
			fmt.Fprintf(&b, "  query:\n%s\n", tail(f.Script, 6000))
		}
		fmt.Printf("failed obligation: %s (%s)\n", f.Obligation, firstLine(f.Status))
	}
	os.WriteFile(rp, []byte(b.String()), 0o644)
	if found != "" {
		fmt.Printf("%s\n", firstLine(found))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	return 1
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

// search runs the replay harness of the property against the real code (go test with an overlay).
func (r *Report) search(open []Failure) (string, string) {
	dir := filepath.Join(*flagVerif, "replay", r.id)
	repl := map[string]string{}
	pk := map[string]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(dir, p)
			repl[filepath.Join(*flagRepo, "src", rel)] = p
			pk["./"+filepath.Dir(rel)] = true
		}
		return nil
	})
	if len(repl) == 0 {
		return "", ""
	}
	// the helpers every harness uses, once per package
	if tmpl, err := os.ReadFile(filepath.Join(*flagVerif, "replay", "helper.txt")); err == nil {
		for p := range pk {
			src := ""
			for dst, from := range repl {
				if filepath.Dir(dst) == filepath.Join(*flagRepo, "src", p) {
					src = from
				}
			}
			name := ""
			b, _ := os.ReadFile(src)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					name = strings.TrimSpace(l[len("package "):])
					break
				}
			}
			h := filepath.Join(tmpDir, "helper_"+name+".go")
			os.WriteFile(h, []byte(strings.Replace(string(tmpl), "package PKG", "package "+name, 1)), 0o644)
			repl[filepath.Join(*flagRepo, "src", p, "verif_helper_test.go")] = h
			files, _ := filepath.Glob(filepath.Join(*flagVerif, "replay", "common", p, "*_test.go"))
			for _, f := range files {
				repl[filepath.Join(*flagRepo, "src", p, filepath.Base(f))] = f
			}
		}
	}
	of := filepath.Join(tmpDir, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(of, b, 0o644)
	scratch := filepath.Join(tmpDir, "scratch")
	os.MkdirAll(scratch, 0o777)
	limit := "15s"
	if len(open) > 0 {
		limit = "60s"
	}
	if *flagTier == "thorough" {
		limit = "300s"
	}
	var pkgs []string
	for p := range pk {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	args := append([]string{"test", "-overlay", of, "-count=1", "-timeout", "400s", "-v", "-run", "TestVerif" + r.id}, pkgs...)
	ctx, cancel := context.WithTimeout(context.Background(), 420*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = filepath.Join(*flagRepo, "src")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "VERIF_SCRATCH="+scratch, "VERIF_LIMIT="+limit)
	if len(open) > 0 {
		cmd.Env = append(cmd.Env, "VERIF_SEARCH=1")
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, tail(s, 3000))
	}
	var found []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "FAILING-INPUT:"); i >= 0 {
			found = append(found, l[i:])
		}
	}
	// the code under test ended the process
	files, _ := filepath.Glob(filepath.Join(scratch, "running-*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		found = append(found, "FAILING-INPUT: the program ends (or does not end in time) on "+string(b))
	}
	return strings.Join(found, "\n"), s
}
