package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagRepo    = flag.String("repo", "/repo", "repository")
	flagVerif   = flag.String("verif", "/verif", "verification directory")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagV       = flag.Bool("v", false, "list all obligations")
	flagOnly    = flag.String("only", "", "verify only this function (development)")
	flagDump    = flag.String("dump", "", "write the query of the obligation whose name contains this text to /tmp/gvc-dump.smt2")
	flagSearch  = flag.Bool("search", false, "only search for failing inputs (development)")
	flagNoRep   = flag.Bool("noreplay", false, "do not search for failing inputs")
	flagBudget  = flag.Int("budget", 0, "seconds after which obligations get only a short time")
	flagLocals  = flag.Bool("locals", false, "record the local variables of all functions")
	flagTimeout = flag.Int("timeout", 0, "solver timeout override")
	flagSafety  = flag.Bool("safety", false, "force safety (development)")
)

func loadProgram(repo string) (*ssa.Program, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  filepath.Join(repo, "src"),
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, fmt.Errorf("%s", e)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	return prog, pkgs, nil
}

func newExec(prog *ssa.Program, sf *SpecFile) *Exec {
	ex := &Exec{prog: prog, fset: prog.Fset, spec: sf, fns: map[string]*ssa.Function{}, keySort: map[string]Sort{}, heapType: map[string]types.Type{},
		ghostSort: map[string]Sort{}, ghostType: map[string]types.Type{}, globConst: map[*ssa.Global]*Term{}, globStores: map[*ssa.Global][]*ssa.Store{},
		globAddr: map[*ssa.Global]bool{}, closures: map[*Term]*Closure{}, dropped: map[string]bool{}, notes: map[string]bool{}, trusted: map[string]bool{},
		underC: map[string]bool{}, inlined: map[string]bool{}, factSeen: map[*Term]bool{}, escMemo: map[ssa.Value]bool{}, constPlaces: map[string]*Term{}, tmpOrigins: map[string]tmpOrigin{}, replacers: map[*Term][]*Term{},
		lemmas: map[string]*lemmaInfo{}, builderCells: map[string]bool{}}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" && fn.Origin() == nil && !strings.HasPrefix(fn.Synthetic, "package init") {
			continue
		}
		if !isModuleFn(fn) {
			continue
		}
		k := fnKey(fn)
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			if ex.fns[k] == nil {
				ex.fns[k] = fn
			}
			continue
		}
		if old, ok := ex.fns[k]; ok && (old.TypeParams().Len() == 0 || len(old.TypeArgs()) > 0) && old.String() < fn.String() {
			// several instances of a generic function: keep the first one by name
		} else {
			ex.fns[k] = fn
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g {
							ex.globStores[g] = append(ex.globStores[g], x)
							continue
						}
						ex.globAddr[g] = true
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						ex.globAddr[g] = true
					}
				}
			}
		}
	}
	return ex
}

var (
	memo   = map[string]SolveResult{}
	memoMu sync.Mutex
)

func solveObl(o *Obl, timeout int) {
	if o.solved {
		return
	}
	facts := append(append([]*Term{}, o.facts...), conjuncts(o.pc)...)
	o.res = Solve(facts, o.goal, timeout, false, o.rules)
	o.solved = true
}

func solveAll(obls []*Obl, timeout func(o *Obl) int) {
	var wg sync.WaitGroup
	ch := make(chan *Obl)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				solveObl(o, timeout(o))
			}
		}()
	}
	for _, o := range obls {
		ch <- o
	}
	close(ch)
	wg.Wait()
}

type Failure struct {
	Obligation string
	Status     string
	Solver     string
	Model      string
	Script     string
}

func main() {
	flag.Parse()
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "gvc: internal error: %v\n%s", r, debug.Stack())
			os.Exit(2)
		}
	}()
	start := time.Now()
	var err error
	tmpDir, err = os.MkdirTemp("", "gvc")
	if err != nil {
		panic(err)
	}
	code := realMain(start)
	os.RemoveAll(tmpDir)
	os.Exit(code)
}

func realMain(start time.Time) int {
	id := *flagProp
	var failures []Failure
	fail := func(name, status string) {
		failures = append(failures, Failure{Obligation: name, Status: status})
	}
	sf := LoadSpec(filepath.Join(*flagVerif, "contracts"), id)
	prog, _, err := loadProgram(*flagRepo)
	rep := &Report{id: id, sf: sf, start: start}
	if *flagSearch {
		found, out := rep.search([]Failure{{}})
		fmt.Println(tail(out, 6000))
		fmt.Println("FOUND:", found)
		return 0
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "the program cannot be loaded: %v\n", err)
		fail("program", "cannot be loaded: "+err.Error())
		return rep.finish(nil, failures)
	}
	ex := newExec(prog, sf)
	if *flagLocals {
		return ex.recordLocals(filepath.Join(*flagVerif, "contracts", "locals.json"))
	}
	ex.loadLocals(filepath.Join(*flagVerif, "contracts", "locals.json"))
	rep.ex = ex
	tmo, auto := 16, 2
	if *flagBudget == 0 {
		*flagBudget = 420
		if *flagTier == "thorough" {
			*flagBudget = 1800
		}
	}
	if *flagTier == "thorough" {
		tmo, auto = 120, 5
	}
	if sf.timeout > tmo {
		tmo = sf.timeout
	}
	if *flagTimeout > 0 {
		tmo = *flagTimeout
	}
	deadline := time.Now().Add(time.Duration(*flagBudget) * time.Second)
	timeout := func(o *Obl) int {
		if time.Now().After(deadline) {
			return 2
		}
		if o.auto {
			return auto
		}
		if o.foreign {
			return min(tmo, 6)
		}
		if o.kind == "vacuity" {
			return 5
		}
		return tmo
	}
	if err := ex.setupSpecs(); err != nil {
		fail("contracts", err.Error())
	}
	if err := ex.buildRules(); err != nil {
		fail("lemmas", err.Error())
	}
	lemObls := ex.obls
	var all []*Obl
	if *flagOnly == "" || *flagOnly == "lemmas" {
		solveAll(lemObls, timeout)
		all = append(all, lemObls...)
	}
	done := map[string]bool{}
	queue := append([]VerifyItem{}, sf.verify...)
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		if done[it.key] {
			continue
		}
		done[it.key] = true
		if *flagOnly != "" && *flagOnly != it.key {
			continue
		}
		t0 := time.Now()
		obls, verr := verifyOne(ex, it, timeout)
		if verr != nil {
			fail(it.key, verr.Error())
			if *flagV {
				fmt.Printf("%-60s %v\n", it.key, verr)
			}
		}
		all = append(all, obls...)
		if *flagV {
			fmt.Printf("== %s: %d obligations, %.1fs\n", it.key, len(obls), time.Since(t0).Seconds())
		}
		rep.verified = append(rep.verified, it.key)
		// contracts that were relied on have to be proved as well
		for _, k := range sortedStrs(ex.underC) {
			if fs := sf.funcs[k]; fs != nil && !fs.trusted && !done[k] {
				queue = append(queue, VerifyItem{key: k, safety: false})
			}
		}
	}
	for _, o := range all {
		if o.cand != "" {
			continue
		}
		ok := o.res.Status == "unsat"
		if o.kind == "vacuity" {
			ok = o.res.Status != "unsat"
			if !ok {
				fail(o.name(), "the preconditions contradict each other")
			}
		} else if !ok {
			failures = append(failures, Failure{Obligation: o.name(), Status: o.res.Status, Solver: o.res.Solver, Script: o.res.Script, Model: o.res.Model})
		}
		if *flagV {
			m := "ok  "
			if !ok {
				m = "FAIL"
			}
			fmt.Printf("%s %-7s %6.2fs %-10s %s\n", m, o.res.Status, o.res.Time, o.res.Solver, o.name())
		}
	}
	if *flagDump != "" {
		for _, o := range all {
			if strings.Contains(o.name(), *flagDump) {
				facts := append(append([]*Term{}, o.facts...), conjuncts(o.pc)...)
				os.WriteFile("/tmp/gvc-dump.smt2", []byte(queryScript(facts, o.goal, o.rules)), 0o644)
				break
			}
		}
	}
	return rep.finish(all, failures)
}

func verifyOne(ex *Exec, it VerifyItem, timeout func(o *Obl) int) ([]*Obl, error) {
	for round := 0; ; round++ {
		ex.obls = nil
		safety := it.safety || *flagSafety
		err := ex.verifyFunc(it.key, safety)
		obls := ex.obls
		if err != nil {
			return nil, err
		}
		if ex.again {
			continue
		}
		var cands, rest []*Obl
		for _, o := range obls {
			if o.cand != "" {
				cands = append(cands, o)
			} else {
				rest = append(rest, o)
			}
		}
		solveAll(cands, timeout)
		dropped := false
		for _, o := range cands {
			if o.res.Status != "unsat" && !ex.dropped[o.cand] {
				ex.dropped[o.cand] = true
				dropped = true
				if !o.auto {
					ex.note("invariant not provable: %s", o.name())
					if *flagV {
						fmt.Printf("DROP %s (%s, %.1fs)\n", o.name(), o.res.Status, o.res.Time)
					}
					if *flagDump != "" && strings.Contains(o.name(), *flagDump) {
						os.WriteFile("/tmp/gvc-dump.smt2", []byte(o.res.Script), 0o644)
					}
				}
			}
		}
		if dropped {
			continue
		}
		solveAll(rest, timeout)
		return append(cands, rest...), nil
	}
}

func sortedStrs(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func queryScript(facts []*Term, goal *Term, rs []*Rule) string {
	ng := Not(goal)
	fs := relevant(facts, ng)
	fs = append(fs, groundAxioms(fs, ng, rs)...)
	return Script(fs, ng, false)
}

var _ = json.Marshal
