package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagOnly    = flag.String("only", "", "run only harnesses whose name contains this")
	flagRepo    = flag.String("repo", "/repo", "")
	flagVerif   = flag.String("verif", "/verif", "")
	flagWorkers = flag.Int("j", 0, "")
	flagBudget  = flag.Int("budget", 0, "seconds")
	flagNoRep   = flag.Bool("noreplay", false, "")
	flagFuzz    = flag.Bool("fuzz", false, "development aid: run the harnesses natively on random inputs and report failures")
	flagSeed    = flag.Int("seed", 1, "")
	flagReplay  = flag.String("replay", "", "run the counterexample in this file again on the natively compiled code")
)

type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func main() {
	flag.BoolVar(&dumpForks, "forks", false, "print decisions")
	flag.BoolVar(&dumpAsserts, "asserts", false, "print assertions")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		rc := run()
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	os.Exit(run())
}

func run() int {
	t0 := time.Now()
	prop := *flagProp
	if *flagReplay != "" {
		return replayFile(*flagReplay)
	}
	ev := &Evidence{Property: prop, Tier: *flagTier, Seed: *flagSeed, Level: "model_checking", Coverage: map[string]any{}}
	evPath := filepath.Join(*flagVerif, "evidence", prop+".json")
	writeEv := func() {
		ev.WallS = time.Since(t0).Seconds()
		os.MkdirAll(filepath.Dir(evPath), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(evPath, append(b, '\n'), 0o644)
	}
	prog, err := Load(*flagRepo, filepath.Join(*flagVerif, "harness"))
	if err != nil {
		// the tree does not compile against the harness: no verdict
		fmt.Printf("NOTE property=%s not decided: %v\n", prop, err)
		ev.Coverage["explanation"] = "not decided: the tree could not be loaded together with the harness: " + err.Error()
		ev.Level = "other"
		writeEv()
		return 0
	}
	tLoad := time.Since(t0).Seconds()
	hp := prog.pkgs[hPath]
	var names []string
	for n, mem := range hp.Members {
		if f, ok := mem.(*ssa.Function); ok && f.Signature.Params().Len() == 0 && f.Signature.Recv() == nil {
			if strings.HasPrefix(n, prop+"_") && strings.Contains(n, *flagOnly) {
				if strings.HasSuffix(n, "_Thorough") && *flagTier != "thorough" {
					continue
				}
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	nw := *flagWorkers
	if nw == 0 {
		nw = min(8, runtime.NumCPU())
	}
	total := 240
	if *flagTier == "thorough" {
		total = 3000
	}
	if *flagBudget > 0 {
		total = *flagBudget
	}
	end := time.Now().Add(time.Duration(total) * time.Second)
	x := NewExplorer(prog)
	x.thorough = *flagTier == "thorough"
	ms := make([]*Machine, nw)
	for i := range ms {
		ms[i] = NewMachine(x)
	}
	x.noTraces = *flagNoRep
	rp := newReplayer(prop)
	defer rp.close()
	known := loadKnown(prop)
	var results []*HarnessResult
	violations := 0
	var vmu sync.Mutex
	knownHit := map[string]bool{}
	if *flagFuzz {
		for _, n := range names {
			res := &HarnessResult{Name: n, Hard: [][]InputVal{nil}}
			bad, in := rp.hard(res)
			fmt.Println("fuzz", n, res.HardRuns, bad, in)
		}
		return 0
	}
	for i, n := range names {
		fn := hp.Func(n)
		left := time.Until(end)
		share := left / time.Duration(len(names)-i)
		if *flagTier == "quick" {
			// harnesses rarely use up their share; one slow one must not be cut short for that reason
			share = max(share, left*35/100)
		}
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		x.onCand = func(c *Candidate) bool {
			if *flagNoRep {
				fmt.Printf("candidate in %s: %s: %s %s\n  inputs: %v\n", n, c.Kind, c.Msg, c.Pos, c.Inputs)
				return false
			}
			vmu.Lock()
			defer vmu.Unlock()
			if x.stop.Load() {
				return false
			}
			ok, detail := rp.try(n, c)
			if os.Getenv("VERIF_VERBOSE") != "" {
				fmt.Printf("candidate in %s: %s: %s %s\n  inputs: %v\n  reproduced=%v %s\n", n, c.Kind, c.Msg, c.Pos, c.Inputs, ok, detail)
			}
			if !ok {
				x.mu.Lock()
				x.res.Bounds["suspected violation not reproduced on the real code (not reported): "+c.Msg]++
				x.mu.Unlock()
				return false
			}
			for _, k := range known {
				if k.Harness == n && strings.Contains(c.Msg, k.Match) {
					if !knownHit[k.Text] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
						knownHit[k.Text] = true
					}
					return false
				}
			}
			path := rp.save(n, c, detail)
			fmt.Printf("%s: %s: %s\n%s\n", n, c.Kind, c.Msg, detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			violations++
			return true
		}
		r := x.Run(n, fn, ms, share)
		results = append(results, r)
		if os.Getenv("VERIF_VERBOSE") != "" {
			printResult(r)
		}
		if violations > 0 {
			break
		}
		if !*flagNoRep && time.Now().Before(end.Add(60*time.Second)) {
			bad, in := rp.validate(r)
			if bad == "" {
				bad, in = rp.hard(r)
			}
			if bad != "" {
				c := &Candidate{Kind: "native", Msg: "native run of an explored path fails: " + firstLine(bad), Inputs: in}
				skip := false
				for _, k := range known {
					if k.Harness == n && strings.Contains(bad, k.Match) {
						skip = true
					}
				}
				if !skip {
					path := rp.save(n, c, bad)
					fmt.Printf("%s: %s\n%s\n", n, c.Msg, bad)
					fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
					violations++
					break
				}
			}
			x.replays += r.Validated
		}
	}
	for _, m := range ms {
		m.sol.Close()
	}
	fill(ev, x, results, tLoad, nw)
	ev.Violations = violations
	writeEv()
	for _, r := range results {
		for _, u := range sortedCounts(r.Unsupported) {
			fmt.Printf("NOTE property=%s %s not encoded: %s\n", prop, r.Name, u)
		}
		for _, u := range sortedCounts(r.Bounds) {
			fmt.Printf("NOTE property=%s %s bound: %s\n", prop, r.Name, u)
		}
		if r.Remaining > 0 {
			fmt.Printf("NOTE property=%s %s: %d branches left unexplored at the time limit\n", prop, r.Name, r.Remaining)
		}
	}
	if violations > 0 {
		return 1
	}
	fmt.Printf("OK property=%s %d harnesses, %.1fs\n", prop, len(results), time.Since(t0).Seconds())
	return 0
}

// harnessDocs gives, for each harness, what it covers and its bounds: the comment on its function.
func harnessDocs() map[string]string {
	docs := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(*flagVerif, "harness", "h", "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if l, ok := strings.CutPrefix(l, "// C"); ok {
				if n, d, ok := strings.Cut(l, ": "); ok {
					docs["C"+n] = d
				}
			}
		}
	}
	return docs
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func printResult(r *HarnessResult) {
	fmt.Printf("%-34s paths=%d pruned=%d asserts=%d obligations=%d discharged=%d undecided=%d left=%d cands=%d steps<=%d wall=%.1fs reached=%v\n", r.Name, r.Paths, r.Pruned, r.Asserts, r.Obligations, r.Discharged, r.Undecided, r.Remaining, len(r.Cands), r.MaxSteps, r.Wall, sortedKeys(r.Reached))
}

func fill(ev *Evidence, x *Explorer, rs []*HarnessResult, tLoad float64, nw int) {
	enc := map[string]bool{}
	notes := map[string]bool{}
	var paths, oblig, disch, asserts, undec int64
	var hs []map[string]any
	docs := harnessDocs()
	exhaustive := true
	var samples []any
	for _, r := range rs {
		for f := range r.Encoded {
			enc[f] = true
		}
		for n := range r.Notes {
			notes[n] = true
		}
		paths += r.Paths
		oblig += r.Obligations
		disch += r.Discharged
		asserts += r.Asserts
		undec += r.Undecided
		complete := r.Remaining == 0 && len(r.Unsupported) == 0 && r.Undecided == 0
		exhaustive = exhaustive && complete
		hs = append(hs, map[string]any{"harness": r.Name, "bounds": docs[r.Name], "paths": r.Paths, "infeasible_or_excluded": r.Pruned, "assertions_evaluated": r.Asserts,
			"assertion_queries": r.Obligations, "discharged": r.Discharged, "undecided": r.Undecided, "reached": sortedKeys(r.Reached),
			"bounds_hit": sortedCounts(r.Bounds), "not_encoded": sortedCounts(r.Unsupported), "unexplored_branches": r.Remaining, "max_steps": r.MaxSteps,
			"native_runs_agreeing": r.Validated, "native_runs_of_unencoded_paths": r.HardRuns, "native_runs_excluded_by_assumptions": r.Excluded,
			"wall_s": r.Wall, "complete": complete, "candidates": len(r.Cands)})
		for _, s := range r.Sample {
			samples = append(samples, r.Name+": "+s)
		}
	}
	ev.Coverage = map[string]any{
		"states":                        paths,
		"transitions":                   x.stats.Queries,
		"traces_validated_against_impl": x.replays,
		"samples":                       samples,
		"explanation":                   "states = symbolic execution paths of the compiled code explored to the end; transitions = solver queries (branch feasibility and assertions); each path stands for all inputs satisfying its condition",
		"exhaustive":                    exhaustive,
		"obligations":                   oblig,
		"discharged":                    disch,
		"assertions_evaluated":          asserts,
		"assertions_settled_on_path":    asserts - oblig,
		"undecided":                     undec,
		"functions_encoded":             sortedKeys(enc),
		"harnesses":                     hs,
		"solver_queries":                x.stats.Queries,
		"solver_seconds":                x.stats.Seconds(),
		"load_seconds":                  tLoad,
		"workers":                       nw,
	}
	ev.Assumptions = append([]string{
		"Argon2, SHA-1/2, HMAC, AES, Ed25519, Curve25519, CRC-32 and math/rand are uninterpreted functions of their exact inputs (computed natively on concrete inputs); a suspected violation is reported only after it is reproduced on the natively compiled code",
		"the Go compiler, go/ssa, the engine's semantics of SSA instructions and the modelled library calls, z3 and cvc5 are trusted",
	}, sortedKeys(notes)...)
}
