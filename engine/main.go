package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

// directives of a harness: //v:key=value ... in its doc comment.
type directives struct {
	preempt   int
	timeSec   int
	tTimeSec  int
	maxPaths  int64
	tMaxPaths int64
	maxSteps  int64
	reach     []string
	bounds    string
	thorough  bool // only in the thorough tier
	race      bool
	fields    bool // shared variables are preemption points
	tries     int
	samples   int
}

func parseDirectives(fn *ssa.Function) directives {
	d := directives{timeSec: 60, tTimeSec: 600, maxSteps: 4000000, tries: 1, samples: 6}
	fd, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || fd.Doc == nil {
		return d
	}
	var free []string
	for _, c := range fd.Doc.List {
		t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
		if !strings.HasPrefix(t, "v:") {
			free = append(free, t)
			continue
		}
		for _, f := range strings.Fields(t[2:]) {
			k, val, _ := strings.Cut(f, "=")
			n, _ := strconv.Atoi(val)
			switch k {
			case "preempt":
				d.preempt = n
			case "time":
				d.timeSec = n
			case "ttime":
				d.tTimeSec = n
			case "paths":
				d.maxPaths = int64(n)
			case "tpaths":
				d.tMaxPaths = int64(n)
			case "steps":
				d.maxSteps = int64(n)
			case "reach":
				d.reach = strings.Split(val, ",")
			case "thorough":
				d.thorough = true
			case "fields":
				d.fields = true
			case "race":
				d.race = true
			case "tries":
				d.tries = n
			case "samples":
				d.samples = n
			default:
				fmt.Fprintln(os.Stderr, "unknown directive", k)
				os.Exit(2)
			}
		}
	}
	d.bounds = strings.Join(free, " ")
	return d
}

type known struct {
	Property, Status, Harness, Msg, What string
}

// loadKnown reads KNOWN_FINDINGS.txt:
//
//	known: property=ID harness=NAME msg="exact message" WHAT FAILS
//	fixed: property=ID COMMIT WHAT FAILED      (suppresses nothing)
func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []known
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) msg=("(?:[^"\\]|\\.)*") (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil {
			if strings.HasPrefix(l, "known:") {
				fmt.Fprintln(os.Stderr, "KNOWN_FINDINGS.txt: bad line: "+l)
				os.Exit(2)
			}
			continue
		}
		msg, _ := strconv.Unquote(m[3])
		out = append(out, known{Property: m[1], Status: "known", Harness: m[2], Msg: msg, What: m[4]})
	}
	return out
}

type harnessReport struct {
	Harness     string           `json:"harness"`
	Bounds      string           `json:"bounds"`
	Paths       int64            `json:"paths"`
	Completed   int64            `json:"completed"`
	Infeasible  int64            `json:"infeasible"`
	Decisions   int64            `json:"decisions"`
	Steps       int64            `json:"ssa_steps"`
	Asserts     int64            `json:"assertions_decided"`
	Queries     int64            `json:"solver_queries"`
	Unknown     int64            `json:"solver_unknown"`
	SolverS     float64          `json:"solver_s"`
	WallS       float64          `json:"wall_s"`
	Incomplete  map[string]int64 `json:"outside_bounds,omitempty"`
	Reached     map[string]int64 `json:"reached,omitempty"`
	NotReached  []string         `json:"not_reached,omitempty"`
	Exhaustive  bool             `json:"all_paths_within_bounds_explored"`
	Violations  int              `json:"violations"`
	Unrepro     []string         `json:"unreproduced,omitempty"`
	Mismatch    []string         `json:"model_mismatch,omitempty"`
	Validated   int              `json:"traces_validated"`
	Shared      []string         `json:"shared_variables,omitempty"`
	ThoroughRun bool             `json:"-"`
}

type runner struct {
	id      string
	bin     map[string]string
	dirs    []string // packages whose sources the schedule replay instruments
	tmp     string
	mu      sync.Mutex
	err     error
}

// build makes the native binary: "plain", "race" or "sched" (instrumented).
func (r *runner) build(kind string) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b := r.bin[kind]; b != "" {
		return b, nil
	}
	pkg := strings.ToLower(r.id)
	main := filepath.Join(r.tmp, "main.go")
	src := fmt.Sprintf("package main\n\nimport (\n\t\"%s/v\"\n\t_ \"%s/%s\"\n)\n\nfunc main() { v.Main() }\n", harnessModule, harnessModule, pkg)
	if err := os.WriteFile(main, []byte(src), 0644); err != nil {
		return "", err
	}
	ov := filepath.Join(r.tmp, "overlay-"+kind+".json")
	virt := filepath.Join(verifDir, "harness", "cmd", "run", "main.go")
	repl := map[string]string{virt: main}
	if kind == "sched" {
		for k, f := range instrumentDirs(r.tmp, r.dirs) {
			repl[k] = f
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, b, 0644)
	out := filepath.Join(r.tmp, "replay-"+kind)
	args := []string{"build", "-buildvcs=false", "-overlay", ov, "-o", out}
	if kind == "race" {
		args = append(args, "-race")
	}
	args = append(args, "./cmd/run")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = os.Environ()
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the native replay: %v\n%s", err, o)
	}
	r.bin[kind] = out
	return out, nil
}

type nativeOut struct {
	asserts []string
	obs     []string
	done    bool
	assume  bool
	panicTx string
	hang    bool
	text    string
}

func (r *runner) run(harness, file, kind string, timeout time.Duration, extra ...string) (*nativeOut, error) {
	bin, err := r.build(kind)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, harness, file)
	cmd.Dir = r.tmp
	cmd.Env = append(os.Environ(), "VERIF_TIER="+runTier)
	cmd.Env = append(cmd.Env, extra...)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	cmd.WaitDelay = 2 * time.Second
	rerr := cmd.Run()
	res := &nativeOut{text: ob.String()}
	if ctx.Err() != nil {
		res.hang = true
	}
	for _, l := range strings.Split(res.text, "\n") {
		switch {
		case strings.HasPrefix(l, "@@ ASSERT "):
			s, _ := strconv.Unquote(strings.TrimPrefix(l, "@@ ASSERT "))
			res.asserts = append(res.asserts, s)
		case strings.HasPrefix(l, "@@ OBS "):
			res.obs = append(res.obs, strings.TrimPrefix(l, "@@ OBS "))
		case l == "@@ DONE":
			res.done = true
		case l == "@@ ASSUME-FAILED":
			res.assume = true
		case strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "WARNING: DATA RACE"):
			if res.panicTx == "" {
				res.panicTx = l
			}
		}
	}
	if rerr != nil && !res.done && !res.assume && !res.hang && res.panicTx == "" {
		res.panicTx = "exit: " + rerr.Error()
	}
	if strings.Contains(res.panicTx, "all goroutines are asleep") {
		res.hang = true
	}
	return res, nil
}

func (o *nativeOut) bad() string {
	switch {
	case len(o.asserts) > 0:
		return "assertion failed: " + o.asserts[0]
	case o.assume:
		return ""
	case o.hang:
		return "hang"
	case o.panicTx != "":
		return o.panicTx
	}
	return ""
}

func main() {
	var (
		prop    = flag.String("p", "", "property id")
		tier    = flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
		only    = flag.String("only", "", "run only harnesses whose name contains this")
		workers = flag.Int("workers", runtime.NumCPU(), "parallel workers")
		dbg     = flag.Bool("debug", false, "verbose")
		noev    = flag.Bool("noev", false, "do not write evidence")
		budget  = flag.Int("budget", 0, "seconds per harness (overrides)")
		solver  = flag.String("solver", "z3-new -in", "solver command")
		prof    = flag.String("prof", "", "cpu profile")
		vd      = flag.String("verif", verifDir, "verif directory")
		preempt = flag.Int("preempt", -1, "override the number of scheduling deviations")
	)
	replay := flag.String("replay", "", "run the real code on a recorded counterexample")
	gen := flag.Bool("gen", false, "make the importable copies of programs of all harnesses")
	flag.Parse()
	verifDir = *vd
	if *gen {
		os.Exit(genAll())
	}
	if *replay != "" {
		os.Exit(replayFile(*replay))
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	runTier = *tier
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	os.Exit(check(*prop, *only, *workers, *dbg, *noev, *budget, strings.Fields(*solver), *preempt))
}

// replayFile runs the real code on a recorded counterexample.
func replayFile(file string) int {
	var d struct {
		Harness, Build, Tier string
		Dirs                 []string
		Try                  int
	}
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &d)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	if d.Build == "" {
		d.Build = "plain"
	}
	runTier = d.Tier
	id := strings.ToUpper(strings.SplitN(d.Harness, ".", 2)[0])
	if err := genPrograms(id); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &runner{id: id, tmp: tmp, bin: map[string]string{}, dirs: d.Dirs}
	o, err := r.run(d.Harness, file, d.Build, 60*time.Second, fmt.Sprintf("VERIF_TRY=%d", d.Try))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Print(o.text)
	if bad := o.bad(); bad != "" {
		fmt.Println("the real code fails: " + bad)
		return 1
	}
	fmt.Println("the real code does not fail on this input")
	return 0
}

func check(id, only string, workers int, dbg, noev bool, budget int, solver []string, preempt int) int {
	start := time.Now()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	pkgPath := harnessModule + "/" + strings.ToLower(id)
	if err := genPrograms(id); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	prog, err := LoadProgram(filepath.Join(verifDir, "harness"), nil, pkgPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadS := time.Since(start).Seconds()
	pkg := prog.byPath[pkgPath]
	if pkg == nil {
		fmt.Fprintln(os.Stderr, "no package "+pkgPath)
		return 2
	}
	var names []string
	for n, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Check") && len(f.Params) == 0 {
			if only == "" || strings.Contains(n, only) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	rn := &runner{id: id, tmp: tmp, bin: map[string]string{}, dirs: prog.sourceDirs(pkgPath)}
	go rn.build("plain") // overlap with the exploration
	knowns := loadKnown()
	var reports []*harnessReport
	fns := map[string]bool{}
	var vios []string
	var reproTime time.Duration // spent on replays
	knownHit := map[string]bool{}
	var samples []interface{}
	replayDir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(replayDir, 0755)
	old, _ := filepath.Glob(filepath.Join(replayDir, id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for _, n := range names {
		fn := pkg.Func(n)
		d := parseDirectives(fn)
		if d.thorough && runTier != "thorough" {
			continue
		}
		t0 := time.Now()
		secs := d.timeSec
		mp := d.maxPaths
		if runTier == "thorough" {
			secs = d.tTimeSec
			mp = d.tMaxPaths
		}
		if budget > 0 {
			secs = budget
		}
		hname := strings.ToLower(id) + "." + n
		deadline := time.Now().Add(time.Duration(secs) * time.Second)
		mk := func(hot map[string]bool) *Explorer {
			ex := &Explorer{prog: prog, fn: fn, name: hname, workers: workers, maxSteps: d.maxSteps, maxPaths: mp,
				deadline: deadline, solverCmd: solver, solverTO: 20000,
				debug: dbg, preempt: 0, nsamples: d.samples, npartial: 8, raceTries: d.tries, fields: d.fields, hot: hot}
			if d.tries <= 1 {
				ex.npartial = 24
			}
			if preempt >= 0 {
				ex.preempt = preempt
			} else if !d.fields { // with fields, v.Preempt says from where on
				ex.preempt = d.preempt
			}
			return ex
		}
		// find the shared variables first, then explore with accesses to them
		// as preemption points, until no further one turns up
		hot := map[string]bool{}
		rounds := 0
		if d.fields {
			e0 := mk(hot)
			e0.noPreempt = true
			e0.nsamples, e0.npartial = 0, 0
			e0.Run()
			for k := range e0.hotNew {
				hot[k] = true
			}
			rounds++
		}
		ex := mk(hot)
		ex.Run()
		for rounds++; len(ex.hotNew) > 0 && len(ex.violations) == 0 && rounds < 6; rounds++ {
			h2 := map[string]bool{}
			for k := range hot {
				h2[k] = true
			}
			for k := range ex.hotNew {
				h2[k] = true
			}
			hot = h2
			ex = mk(hot)
			ex.Run()
		}
		if dbg && d.fields {
			fmt.Println("  shared variables:", sortedKeys(hot))
		}
		rep := &harnessReport{Harness: hname, Bounds: d.bounds, Paths: ex.paths, Completed: ex.completed, Infeasible: ex.infeasible,
			Decisions: ex.decisions, Steps: ex.steps, Asserts: ex.asserts, Queries: ex.queries, Unknown: ex.unknowns,
			SolverS: float64(ex.solverTime) / 1e9, Incomplete: ex.incomplete, Reached: ex.reached}
		rep.Exhaustive = len(ex.incomplete) == 0
		if d.fields {
			rep.Shared = sortedKeys(hot)
			if len(ex.hotNew) > 0 {
				rep.Exhaustive = false
			}
		}
		for _, l := range d.reach {
			if ex.reached[l] == 0 {
				rep.NotReached = append(rep.NotReached, l)
			}
		}
		for f := range ex.fns {
			fns[f] = true
		}
		if dbg {
			ks := sortedKeys(ex.forkSites)
			sort.SliceStable(ks, func(i, j int) bool { return ex.forkSites[ks[i]] > ex.forkSites[ks[j]] })
			for i, k := range ks {
				if i < 12 {
					fmt.Printf("  fork %7d %s\n", ex.forkSites[k], k)
				}
			}
		}
		// ---- replay
		seen := map[string]int{}
		repro := map[string]bool{}
		k := 0
		for _, vio := range ex.violations {
			key := vio.Kind + ":" + vio.Msg
			if repro[key] || seen[key] >= 6 {
				continue
			}
			if (len(vios) > 0 && reproTime > 40*time.Second) || reproTime > 300*time.Second {
				rep.Unrepro = append(rep.Unrepro, vio.Kind+": "+vio.Msg+" (not replayed: out of time)")
				continue
			}
			seen[key]++
			k++
			file := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", id, n, k))
			writeReplay(file, vio, "")
			t0 := time.Now()
			left := 300*time.Second - reproTime
			if len(vios) > 0 {
				left = 40*time.Second - reproTime
			}
			txt, how, err := rn.reproduce(hname, file, vio, d, t0.Add(left))
			reproTime += time.Since(t0)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if kn := matchKnown(knowns, id, hname, vio); kn != nil && how == "" {
				knownHit[kn.What] = true
				repro[key] = true
				os.Remove(file)
				continue
			}
			if how == "" {
				rep.Unrepro = append(rep.Unrepro, vio.Kind+": "+vio.Msg)
				if dbg {
					fmt.Printf("UNREPRODUCED %s %s\n%s\n--- native:\n%s\n", hname, key, vio.Stack, txt)
				}
				if !dbg {
					os.Remove(file)
				}
				continue
			}
			repro[key] = true
			rep.Violations++
			writeReplay(file, vio, how+"\n"+txt)
			if kn := matchKnown(knowns, id, hname, vio); kn != nil {
				knownHit[kn.What] = true
				continue
			}
			vios = append(vios, fmt.Sprintf("VIOLATION property=%s replay=%s", id, file))
			fmt.Printf("%s: %s: %s\n  native: %s\n", hname, vio.Kind, vio.Msg, how)
			for _, in := range vio.Inputs {
				fmt.Printf("  %s = %s\n", in.Name, clip(in.Val))
			}
			if dbg {
				fmt.Println(vio.Stack)
			}
		}
		// ---- validate sample paths against the implementation
		sm := append(append([]*Sample{}, ex.samples...), ex.partial...)
		type sres struct {
			i   int
			s   *Sample
			o   *nativeOut
			err error
		}
		ch := make(chan sres, len(sm))
		sem := make(chan bool, 4)
		for i, s := range sm {
			file := filepath.Join(tmp, fmt.Sprintf("s%s-%d.json", n, i))
			writeSample(file, s)
			go func(i int, s *Sample) {
				sem <- true
				defer func() { <-sem }()
				o, err := rn.run(hname, file, "plain", 30*time.Second)
				ch <- sres{i, s, o, err}
			}(i, s)
		}
		for range sm {
			r := <-ch
			if r.err != nil {
				fmt.Fprintln(os.Stderr, r.err)
				return 2
			}
			if b := r.o.bad(); b != "" && !(r.o.hang && !r.o.done && r.s.Partial) {
				// the real code fails on this concrete input
				msg := b
				vio := &Violation{Harness: hname, Kind: "native", Msg: msg, Inputs: r.s.Inputs, Sched: r.s.Sched}
				if len(r.o.asserts) > 0 {
					vio.Kind, vio.Msg = "assert", r.o.asserts[0]
				} else if d.tries > 1 {
					rep.Mismatch = append(rep.Mismatch, "concurrent sample: "+b)
					continue
				}
				key := vio.Kind + ":" + vio.Msg
				if repro[key] {
					continue
				}
				repro[key] = true
				if kn := matchKnown(knowns, id, hname, vio); kn != nil {
					knownHit[kn.What] = true
					continue
				}
				rep.Violations++
				file := filepath.Join(replayDir, fmt.Sprintf("%s-%s-s%d.json", id, n, r.i))
				writeReplay(file, vio, b+"\n"+r.o.text)
				vios = append(vios, fmt.Sprintf("VIOLATION property=%s replay=%s", id, file))
				fmt.Printf("%s: %s (native run of an explored path)\n", hname, b)
				for _, in := range vio.Inputs {
					fmt.Printf("  %s = %s\n", in.Name, clip(in.Val))
				}
				if dbg {
					fmt.Println(r.o.text)
				}
				continue
			}
			if r.s.Partial {
				continue
			}
			if r.o.assume {
				rep.Mismatch = append(rep.Mismatch, "native run rejected the assumption")
				continue
			}
			if mm := obsMismatch(r.s.Observe, r.o.obs); mm != "" {
				rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("%s for %v", mm, r.s.Inputs))
				if dbg {
					fmt.Printf("MISMATCH %s %s\n%v\n", hname, mm, r.s.Inputs)
				}
			} else {
				rep.Validated++
			}
		}
		for _, s := range ex.samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"harness": hname, "inputs": inputsMap(s.Inputs), "observed": s.Observe})
			}
		}
		rep.WallS = time.Since(t0).Seconds()
		reports = append(reports, rep)
		if dbg || only != "" {
			j, _ := json.MarshalIndent(rep, "", " ")
			fmt.Println(string(j))
		}
	}
	// ---- evidence
	var states, trans, valid, queries, unk, asserts int64
	var solverS float64
	exh := true
	var unrep, mism int
	for _, r := range reports {
		states += r.Paths
		trans += r.Decisions
		valid += int64(r.Validated)
		queries += r.Queries
		unk += r.Unknown
		asserts += r.Asserts
		solverS += r.SolverS
		exh = exh && r.Exhaustive
		unrep += len(r.Unrepro)
		mism += len(r.Mismatch)
	}
	var repoFns []string
	for f := range fns {
		if strings.Contains(f, "github.com/superisaac/jlib") || strings.Contains(f, genPrefix) {
			repoFns = append(repoFns, f)
		}
	}
	sort.Strings(repoFns)
	if len(samples) == 0 {
		samples = append(samples, "none: no completed path")
	}
	ev := map[string]interface{}{
		"property": id, "tier": runTier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid,
			"samples": samples, "assertions_decided": asserts, "solver_queries": queries,
			"solver_unknown": unk, "solver_s": round(solverS), "solver": strings.Join(solver, " "),
			"functions_encoded": repoFns, "functions_encoded_count": len(repoFns), "library_functions_executed": len(fns) - len(repoFns),
			"encoding":          "Go SSA of /repo's working tree, rebuilt on this run",
			"source_digest":     digest(repoDir),
			"harnesses":         reports,
			"all_paths_within_bounds_explored": exh,
			"counterexamples_not_reproduced": unrep, "model_mismatches": mism,
			"load_s":            round(loadS),
			"explanation":       "states = symbolic paths explored; transitions = symbolic decisions taken on them",
		},
		"assumptions": assumptions,
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  len(vios),
	}
	if !noev {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
		os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions, %d queries, solver %.1fs, wall %.1fs, unknown %d, validated %d, mismatches %d, unreproduced %d, exhaustive-in-bounds %v\n",
		id, runTier, len(reports), states, asserts, queries, solverS, time.Since(start).Seconds(), unk, valid, mism, unrep, exh)
	for _, r := range reports {
		inc := ""
		for _, k := range sortedKeys(r.Incomplete) {
			inc += fmt.Sprintf("\n      outside: %s x%d", k, r.Incomplete[k])
		}
		if len(r.NotReached) > 0 {
			inc += "\n      NOT REACHED: " + strings.Join(r.NotReached, ",")
		}
		for _, u := range r.Unrepro {
			inc += "\n      unreproduced: " + u
		}
		for _, u := range r.Mismatch {
			inc += "\n      mismatch: " + u
		}
		fmt.Printf("  %-28s paths %6d done %6d asserts %6d %.1fs%s\n", r.Harness, r.Paths, r.Completed, r.Asserts, r.WallS, inc)
	}
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	for _, l := range vios {
		fmt.Println(l)
	}
	if len(vios) > 0 {
		return 1
	}
	return 0
}

var assumptions = []string{
	"The symbolic executor's semantics of Go SSA and its models of encoding/json, reflect, fmt, sync, time and the network libraries are trusted; sampled paths are re-run natively and compared (traces_validated_against_impl), and every reported violation is reproduced by the real code.",
	"Integers are exact 64-bit, floats IEEE-754 double; JSON strings are ASCII.",
	"Anything listed under outside_bounds was not explored.",
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func inputsMap(in []Input) map[string]string {
	m := map[string]string{}
	for _, i := range in {
		m[i.Name] = i.Val
	}
	return m
}

func writeReplay(file string, v *Violation, native string) {
	b, _ := json.MarshalIndent(map[string]interface{}{
		"harness": v.Harness, "kind": v.Kind, "message": v.Msg, "inputs": v.Inputs, "schedule": v.Sched, "delays": delaySites(v.Delays), "try": v.Try, "build": v.Build, "dirs": v.Dirs, "tier": runTier,
		"stack": strings.Split(v.Stack, "\n"), "native": strings.Split(native, "\n"),
		"how": "cd /verif && ./replay.sh " + file + " (compiles the harness natively against /repo and runs it on these inputs)",
	}, "", " ")
	os.WriteFile(file, append(b, '\n'), 0644)
}

func delaySites(ds []Delay) []string {
	out := []string{}
	for _, d := range ds {
		out = append(out, stmtSite(d.Site))
	}
	return out
}

func writeSample(file string, s *Sample) {
	b, _ := json.Marshal(map[string]interface{}{"harness": s.Harness, "inputs": s.Inputs, "schedule": s.Sched})
	os.WriteFile(file, b, 0644)
}

func obsMismatch(want, got []string) string {
	if len(want) != len(got) {
		return fmt.Sprintf("observed %d values natively, %d predicted: %v vs %v", len(got), len(want), got, want)
	}
	for i := range want {
		if strings.HasSuffix(want[i], "=?") || strings.HasSuffix(got[i], "=?") {
			continue
		}
		if want[i] != got[i] {
			return fmt.Sprintf("predicted %s, native %s", want[i], got[i])
		}
	}
	return ""
}

func matchKnown(ks []known, id, harness string, v *Violation) *known {
	for i := range ks {
		k := &ks[i]
		if k.Status != "known" || k.Property != id {
			continue
		}
		if k.Harness == harness && k.Msg == v.Msg {
			return k
		}
	}
	return nil
}

// reproduce runs the real code on the counterexample.
func (r *runner) reproduce(harness, file string, vio *Violation, d directives, deadline time.Time) (text, how string, err error) {
	tries := d.tries
	if tries < 1 {
		tries = 1
	}
	if len(vio.Delays) > 0 && tries < 24 {
		tries = 24
	}
	tmo := 25 * time.Second
	var last *nativeOut
	kind := "plain"
	if vio.Kind == "race" {
		kind = "race"
	} else if d.fields || d.preempt > 0 || len(vio.Delays) > 0 {
		kind = "sched"
	}
	// the first try alone, further ones in batches
	for i, n := 0, 1; i < tries && (i == 0 || time.Now().Before(deadline)); i, n = i+n, 4 {
		if n > tries-i {
			n = tries - i
		}
		outs, errs := make([]*nativeOut, n), make([]error, n)
		var wg sync.WaitGroup
		for j := 0; j < n; j++ {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[j], errs[j] = r.run(harness, file, kind, tmo, fmt.Sprintf("VERIF_TRY=%d", i+j))
			}()
		}
		wg.Wait()
		for j, o := range outs {
			if errs[j] != nil {
				return "", "", errs[j]
			}
			last = o
			bad := o.bad()
			if bad == "" || vio.Kind == "assert" && len(o.asserts) == 0 && tries > 1 && o.hang {
				continue
			}
			vio.Try, vio.Build, vio.Dirs = i+j, kind, r.dirs
			return o.text, bad, nil
		}
	}
	if last != nil {
		return last.text, "", nil
	}
	return "", "", nil
}

func digest(dir string) string {
	h := sha256.New()
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && fi.Name() == ".git" {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			b, _ := os.ReadFile(p)
			fmt.Fprintln(h, p, len(b))
			h.Write(b)
		}
		return nil
	})
	return hex.EncodeToString(h.Sum(nil))[:16]
}
