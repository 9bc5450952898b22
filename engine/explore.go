package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessResult struct {
	Name        string
	Paths       int64
	Pruned      int64
	Asserts     int64 // assertion instances decided (symbolically or constant)
	Obligations int64 // assertion queries sent to the solver
	Discharged  int64
	Undecided   int64
	Bounds      map[string]int
	Unsupported map[string]int
	Reached     map[string]bool
	Notes       map[string]bool
	Remaining   int
	Cands       []*Candidate
	Confirmed   *Candidate
	ReplayFile  string
	Forks       int64
	Wall        float64
	Encoded     map[string]bool
	Stubs       map[string]bool
	MaxSteps    int64
	Sample      []string
	Hard        [][]InputVal // inputs leading to code that could not be encoded
	HardRuns    int64
	Traces      [][]InputVal // concrete inputs of some explored paths, replayed natively
	Validated   int64
	Excluded    int64 // traces whose model does not meet the assumptions natively
}

type Explorer struct {
	prog       *Prog
	stats      SolverStats
	maxConc    int
	maxSteps   int64
	maxPreempt int
	thorough   bool

	mu       sync.Mutex
	cond     *sync.Cond
	work     [][]Dec
	active   int
	stop     atomic.Bool
	dead     time.Time
	fn       *ssa.Function
	res      *HarnessResult
	seen     map[string]int
	possible map[string]bool
	onCand   func(*Candidate) bool // returns true when confirmed
	replays  int64
	noTraces bool

	initNotes map[string]map[string]bool
}

func NewExplorer(p *Prog) *Explorer {
	x := &Explorer{prog: p, maxConc: 300, maxSteps: 120_000_000, maxPreempt: 2, initNotes: map[string]map[string]bool{}}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) noteInit(pkg, why string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.initNotes[pkg] == nil {
		x.initNotes[pkg] = map[string]bool{}
	}
	x.initNotes[pkg][why] = true
}

// bound records that part of the space was cut off.
func (x *Explorer) bound(why string) {
	x.mu.Lock()
	x.res.Bounds[why]++
	x.mu.Unlock()
}

func (x *Explorer) push(d []Dec) {
	x.mu.Lock()
	x.work = append(x.work, d)
	x.res.Forks++
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *Explorer) checkStop() {
	if x.stop.Load() || time.Now().After(x.dead) {
		panic(pathEnd{"stopped", ""})
	}
}

// Run explores one harness with the given machines.
func (x *Explorer) Run(name string, fn *ssa.Function, ms []*Machine, budget time.Duration) *HarnessResult {
	t0 := time.Now()
	x.fn = fn
	x.stop.Store(false)
	x.dead = t0.Add(budget)
	x.seen = map[string]int{}
	x.possible = map[string]bool{}
	x.res = &HarnessResult{Name: name, Bounds: map[string]int{}, Unsupported: map[string]int{}, Reached: map[string]bool{}, Notes: map[string]bool{}, Encoded: map[string]bool{}, Stubs: map[string]bool{}}
	x.work = [][]Dec{nil}
	x.active = 0
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			x.worker(m)
		}(m)
	}
	wg.Wait()
	x.res.Remaining = len(x.work)
	if x.res.Remaining == 0 && len(x.res.Unsupported) == 0 && !x.stop.Load() {
		for msg, ok := range x.possible {
			if !ok {
				c := &Candidate{Msg: "impossible: " + msg, Kind: "never", Never: msg}
				x.res.Cands = append(x.res.Cands, c)
				if x.onCand != nil && x.onCand(c) {
					x.res.Confirmed = c
					break
				}
			}
		}
	}
	x.res.Wall = time.Since(t0).Seconds()
	for _, m := range ms {
		for f := range m.encoded {
			x.res.Encoded[f.String()] = true
		}
		m.encoded = map[*ssa.Function]bool{}
	}
	return x.res
}

func (x *Explorer) worker(m *Machine) {
	m.x = x
	for {
		x.mu.Lock()
		for len(x.work) == 0 && x.active > 0 && !x.stop.Load() {
			x.cond.Wait()
		}
		if len(x.work) == 0 || x.stop.Load() || time.Now().After(x.dead) {
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		d := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.active++
		x.mu.Unlock()

		if len(m.c.tab) > maxTerms {
			m.renew()
		}
		stopped := m.runPath(d)

		x.mu.Lock()
		if stopped {
			x.work = append(x.work, d) // unexplored
			x.active--
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		x.active--
		x.cond.Broadcast()
		x.mu.Unlock()
	}
}

// maxTerms bounds the memory of one worker.
const maxTerms = 1_200_000

// renew starts over with an empty term table.
func (m *Machine) renew() {
	enc := m.encoded
	m.sol.Close()
	*m = *NewMachine(m.x)
	m.encoded = enc
}

func newPath(d []Dec) *Path {
	return &Path{prefix: d, known: map[*Term]bool{}, labelN: map[string]int{}, appSeen: map[*Term]bool{}, reached: map[string]bool{}, notes: map[string]bool{}, env: newEnv(), natives: map[string][]nativeEval{}}
}

func (m *Machine) runPath(d []Dec) (stopped bool) {
	x := m.x
	m.path = newPath(d)
	main := &gor{main: true, wake: make(chan bool)}
	m.gors = []*gor{main}
	m.cur = main
	kind, msg := "done", ""
	var tp *targetPanic
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case pathEnd:
				kind, msg = e.kind, e.msg
			case targetPanic:
				kind, msg = "panic", m.panicText(e)
				tp = &e
			case killed:
				kind = "stopped"
			default:
				kind, msg = "unsupported", fmt.Sprintf("engine error: %v%s", r, m.where())
				if os.Getenv("VERIF_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n", r, debug.Stack())
				}
			}
		}()
		m.call(nil, x.fn, nil, nil)
	}()
	where := ""
	if kind == "panic" || kind == "budget" || kind == "deadlock" {
		where = m.where()
	}
	m.cur = main
	m.killGors()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(pathEnd); ok {
					kind, msg = e.kind, e.msg
					return
				}
				panic(r)
			}
		}()
		switch kind {
		case "panic":
			m.candidate("panic", "uncaught panic: "+msg+where, where, nil)
		case "budget":
			m.candidate("hang", "does not terminate within the step bound", msg, nil)
		case "deadlock":
			m.candidate("deadlock", msg, where, nil)
		}
	}()
	_ = tp
	if kind == "done" && !x.noTraces {
		m.trace(&x.res.Traces, maxTraces)
	}
	if (kind == "unsupported" || kind == "bound" || m.path.partial) && !x.noTraces {
		// leave no hole: the part of the path that could be encoded selects inputs for native runs
		m.trace(&x.res.Hard, maxHard)
	}
	x.mu.Lock()
	r := x.res
	switch kind {
	case "stopped":
		stopped = true
	case "assume":
		r.Pruned++
	case "unsupported":
		r.Paths++
		r.Unsupported[msg]++
	case "bound":
		r.Paths++
		r.Bounds[msg]++
	default:
		r.Paths++
		if len(r.Sample) < 3 {
			r.Sample = append(r.Sample, m.samplePath(kind, msg))
		}
	}
	for k := range m.path.reached {
		r.Reached[k] = true
	}
	for k := range m.path.notes {
		r.Notes[k] = true
	}
	if m.path.steps > r.MaxSteps {
		r.MaxSteps = m.path.steps
	}
	x.mu.Unlock()
	m.rollback()
	m.path = nil
	return
}

const (
	maxTraces = 8
	maxHard   = 12
)

// trace keeps concrete inputs that follow the path just explored.
func (m *Machine) trace(dst *[][]InputVal, max int) {
	x := m.x
	x.mu.Lock()
	n := len(*dst)
	x.mu.Unlock()
	if n >= max || x.stop.Load() || time.Now().After(x.dead) {
		return
	}
	var vals []*Term
	for _, nd := range m.path.nondets {
		vals = append(vals, nd.Terms...)
	}
	r, mv := m.sol.Check(m.path.pc, nil, vals)
	if r != IsSat {
		return
	}
	in := m.inputVals(mv)
	x.mu.Lock()
	*dst = append(*dst, in)
	x.mu.Unlock()
}

// inputVals turns the model values of the nondeterministic inputs into replayable form.
func (m *Machine) inputVals(mv []*big.Int) []InputVal {
	var out []InputVal
	k := 0
	for _, nd := range m.path.nondets {
		v := new(big.Int)
		var hex strings.Builder
		for _, t := range nd.Terms {
			val := mv[k]
			if t.isConst() {
				val = t.bigVal()
			}
			k++
			if len(nd.Terms) > 1 || nd.Kind == "bytes" {
				fmt.Fprintf(&hex, "%02x", val)
			} else {
				v = val
			}
		}
		h := hex.String()
		if nd.Kind != "bytes" {
			h = v.Text(16)
		}
		out = append(out, InputVal{nd.Label, nd.Kind, h})
	}
	return out
}

func (m *Machine) samplePath(kind, msg string) string {
	s := fmt.Sprintf("%s: %d decisions, %d path constraints, %d steps, %d symbolic inputs", kind, len(m.path.trace), len(m.path.pc), m.path.steps, len(m.path.nondets))
	if msg != "" {
		s += " (" + msg + ")"
	}
	return s
}

// assume restricts the path.
func (m *Machine) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	p := m.path
	if v, ok := p.known[t]; ok {
		if v {
			return
		}
		panic(pathEnd{"assume", ""})
	}
	if p.pos < len(p.prefix) {
		p.trace = append(p.trace, p.prefix[p.pos])
		p.pos++
	} else {
		m.x.checkStop()
		if m.check(t) == IsUnsat {
			panic(pathEnd{"assume", ""})
		}
		m.record(Dec{taken: true})
	}
	m.addPC(t)
	m.learn(t, true)
}

func (m *Machine) assert(t *Term, msg string) {
	p := m.path
	x := m.x
	atomic.AddInt64(&x.res.Asserts, 1)
	if t.isTrue() {
		return
	}
	if v, ok := p.known[t]; ok && v {
		return
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.trace = append(p.trace, d)
		p.pos++
		if !d.forced {
			m.addPC(t)
		}
		m.learn(t, true)
		return
	}
	x.checkStop()
	atomic.AddInt64(&x.res.Obligations, 1)
	if dumpAsserts {
		fmt.Fprintf(os.Stderr, "ASSERT %s: %s\n", msg, m.termString(t, 6))
	}
	neg := m.c.BNot(t)
	r := m.check(neg)
	if r == IsUnsat {
		atomic.AddInt64(&x.res.Discharged, 1)
		m.record(Dec{taken: true, forced: true})
		m.learn(t, true)
		return
	}
	if r == Unknown {
		atomic.AddInt64(&x.res.Undecided, 1)
		x.mu.Lock()
		x.res.Bounds["assertion not decided by the solvers: "+msg]++
		x.mu.Unlock()
		p.partial = true
		m.record(Dec{taken: true})
		m.addPC(t)
		m.learn(t, true)
		return
	}
	m.candidate("assert", msg, m.where(), neg)
	// continue under the assumption that it holds
	if t.isFalse() || m.check(t) == IsUnsat {
		panic(pathEnd{"assume", "assertion fails on the whole path"})
	}
	m.record(Dec{taken: true})
	m.addPC(t)
	m.learn(t, true)
}

// candidate extracts a model of the path (plus extra) and hands it to the replayer.
func (m *Machine) candidate(kind, msg, pos string, extra *Term) {
	x := m.x
	key := kind + "|" + msg
	x.mu.Lock()
	x.seen[key]++
	n := x.seen[key]
	x.mu.Unlock()
	if n > 3 {
		return
	}
	var ex []*Term
	if extra != nil {
		ex = []*Term{extra}
	}
	// preferences for a natural-looking model are tried first
	var vals []*Term
	for _, nd := range m.path.nondets {
		vals = append(vals, nd.Terms...)
	}
	nIn := len(vals)
	apps := m.path.apps
	if len(apps) > 400 {
		apps = apps[:400]
	}
	for _, a := range apps {
		vals = append(vals, a.args...)
		vals = append(vals, a)
	}
	r, mv := m.sol.Check(m.path.pc, ex, vals)
	if r == IsUnsat {
		// the path itself turned out to be infeasible (a late fact about a hash, say)
		panic(pathEnd{"assume", "infeasible path"})
	}
	if r != IsSat {
		x.mu.Lock()
		x.res.Bounds["no model for a suspected violation: "+msg]++
		x.mu.Unlock()
		return
	}
	c := &Candidate{Msg: msg, Kind: kind, Pos: pos, Prefix: append([]Dec(nil), m.path.trace...)}
	c.Inputs = m.inputVals(mv)
	k := nIn
	hexw := func(t *Term, v *big.Int) string {
		return fmt.Sprintf("%0*x", (t.w+3)/4, v)
	}
	for _, a := range apps {
		u := UFVal{Name: a.name}
		for _, g := range a.args {
			u.Args = append(u.Args, hexw(g, mv[k]))
			k++
		}
		u.Out = hexw(a, mv[k])
		k++
		c.UF = append(c.UF, u)
	}
	x.mu.Lock()
	x.res.Cands = append(x.res.Cands, c)
	x.mu.Unlock()
	if x.onCand != nil && x.onCand(c) {
		x.mu.Lock()
		if x.res.Confirmed == nil {
			x.res.Confirmed = c
		}
		x.mu.Unlock()
		x.stop.Store(true)
		x.mu.Lock()
		x.cond.Broadcast()
		x.mu.Unlock()
		panic(pathEnd{"stopped", ""})
	}
}

func sortedCounts(m map[string]int) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(out)
	return out
}
