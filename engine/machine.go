package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var dumpForks bool
var dumpAsserts bool

// ---------- control-flow panics of the engine ----------

type pathEnd struct {
	kind string // "assume", "unsupported", "budget", "bound", "exit", "done", "deadlock"
	msg  string
}

type targetPanic struct {
	v Value // interface value passed to panic
	// runtime errors carry their text
	text string
}

type killed struct{}

// ---------- decisions ----------

type Dec struct {
	taken  bool
	forced bool
	guess  *big.Int
}

type Nondet struct {
	Label string
	Kind  string
	Terms []*Term
	// for concrete choices
}

type Candidate struct {
	Never  string
	Msg    string
	Pos    string
	Kind   string // assert, panic, hang, deadlock
	Inputs []InputVal
	UF     []UFVal
	Prefix []Dec
}

type InputVal struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	Hex   string `json:"hex"`
}

type UFVal struct {
	Name string   `json:"name"`
	Args []string `json:"args"`
	Out  string   `json:"out"`
}

type Path struct {
	prefix  []Dec
	pos     int
	trace   []Dec
	pc      []*Term
	known   map[*Term]bool
	steps   int64
	nondets []Nondet
	labelN  map[string]int
	apps    []*Term
	appSeen map[*Term]bool
	reached map[string]bool
	asserts int
	fresh   int
	env     *Env
	notes   map[string]bool
	hists   []string
	natives map[string][]nativeEval
	wit     *Witness
	witN    int  // literals the witness is known to satisfy
	noWit   bool // no witness can be had
	partial bool // some value was fixed, or some assertion left undecided
}

type Machine struct {
	c       *Ctx
	sol     *Solver
	prog    *Prog
	x       *Explorer
	byteT   [256]*Term
	strTabs map[string]*StrTab
	tabMaps map[tabMapKey]*StrTab
	globals map[*ssa.Global]*Value
	pkgInit map[*ssa.Package]int
	funcs   map[*ssa.Function]*cfunc
	consts  map[*ssa.Const]Value
	side    map[any]any // side tables keyed by cell pointers
	methods map[methKey]*ssa.Function

	journal []undo
	polls   uint
	inBase  bool
	path    *Path

	cur     *gor
	gors    []*gor
	gorID   int
	encoded map[*ssa.Function]bool
	frozen  map[*Value]bool // modelled library globals
}

type methKey struct {
	t types.Type
	s string
}

type undo struct {
	p   *Value
	old Value
	f   func()
}

func NewMachine(x *Explorer) *Machine {
	c := NewCtx()
	m := &Machine{c: c, prog: x.prog, x: x, strTabs: map[string]*StrTab{}, tabMaps: map[tabMapKey]*StrTab{},
		globals: map[*ssa.Global]*Value{}, pkgInit: map[*ssa.Package]int{}, funcs: map[*ssa.Function]*cfunc{},
		consts: map[*ssa.Const]Value{}, side: map[any]any{}, methods: map[methKey]*ssa.Function{}, encoded: map[*ssa.Function]bool{}, frozen: map[*Value]bool{}}
	m.sol = NewSolver(c, &x.stats)
	for i := range m.byteT {
		m.byteT[i] = c.Const(8, uint64(i))
	}
	return m
}

func (m *Machine) unsupported(f string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...) + m.where()})
}

func (m *Machine) where() string {
	if m.cur == nil || m.cur.top == nil {
		return ""
	}
	var out []string
	for fr, i := m.cur.top, 0; fr != nil && i < 6; fr, i = fr.caller, i+1 {
		out = append(out, fr.cf.fn.String())
	}
	return " [in " + strings.Join(out, " < ") + "]"
}

func (m *Machine) set(p *Value, v Value) {
	if !m.inBase {
		m.journal = append(m.journal, undo{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) onUndo(f func()) {
	if !m.inBase {
		m.journal = append(m.journal, undo{f: f})
	}
}

func (m *Machine) rollback() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		u := m.journal[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	m.journal = m.journal[:0]
}

func (m *Machine) load(p *Value) Value {
	v := *p
	switch v.(type) {
	case Struct, Array:
		return copyVal(v)
	}
	return v
}

func (m *Machine) store(p *Value, v Value) {
	if m.inBase && m.frozen[p] {
		return
	}
	switch rhs := v.(type) {
	case Struct:
		if lhs, ok := (*p).(Struct); ok && len(lhs) == len(rhs) {
			for i := range rhs {
				m.store(&lhs[i], rhs[i])
			}
			return
		}
		m.set(p, copyVal(rhs))
		return
	case Array:
		if lhs, ok := (*p).(Array); ok && len(lhs) == len(rhs) {
			for i := range rhs {
				m.store(&lhs[i], rhs[i])
			}
			return
		}
		m.set(p, copyVal(rhs))
		return
	}
	m.set(p, v)
}

// ---------- path condition ----------

func (m *Machine) learn(cond *Term, v bool) {
	m.path.known[cond] = v
	m.path.known[m.c.BNot(cond)] = !v
	if v && cond.op == OpBAnd {
		for _, a := range cond.args {
			m.learn(a, true)
		}
	}
	if !v && cond.op == OpBOr {
		for _, a := range cond.args {
			m.learn(a, false)
		}
	}
}

func (m *Machine) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	m.path.pc = append(m.path.pc, t)
}

func (m *Machine) lit(cond *Term, v bool) *Term {
	if v {
		return cond
	}
	return m.c.BNot(cond)
}

// fact adds a globally valid fact (axiom instance or declared range).
func (m *Machine) fact(t *Term) {
	if t.isTrue() || m.inBase {
		return
	}
	m.addPC(t)
	m.learn(t, true)
}

func (m *Machine) decide(cond *Term) bool {
	if cond.isConst() {
		return cond.u == 1
	}
	p := m.path
	if m.inBase || p == nil {
		m.unsupported("symbolic decision in package initialisation")
	}
	if v, ok := p.known[cond]; ok {
		return v
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		if !d.forced {
			m.addPC(m.lit(cond, d.taken))
		}
		m.learn(cond, d.taken)
		return d.taken
	}
	m.x.checkStop()
	if w := m.witness(); w != nil {
		v := w.holds(cond)
		if !w.bad {
			if m.check(m.lit(cond, !v)) == IsUnsat {
				m.record(Dec{taken: v, forced: true})
				m.learn(cond, v)
				return v
			}
			if dumpForks {
				fmt.Fprintf(os.Stderr, "FORK %s at %s\n", m.termString(cond, 4), m.where())
			}
			m.x.push(append(append([]Dec(nil), p.trace...), Dec{taken: !v}))
			m.record(Dec{taken: v})
			m.addPC(m.lit(cond, v))
			m.learn(cond, v)
			return v
		}
	}
	rt := m.check(cond)
	if rt == IsUnsat {
		m.record(Dec{taken: false, forced: true})
		m.learn(cond, false)
		return false
	}
	rf := m.check(m.c.BNot(cond))
	if rf == IsUnsat {
		m.record(Dec{taken: true, forced: true})
		m.learn(cond, true)
		return true
	}
	if dumpForks {
		fmt.Fprintf(os.Stderr, "FORK %s at %s\n", m.termString(cond, 4), m.where())
	}
	m.x.push(append(append([]Dec(nil), p.trace...), Dec{taken: false}))
	m.record(Dec{taken: true})
	m.addPC(cond)
	m.learn(cond, true)
	return true
}

func (m *Machine) record(d Dec) {
	p := m.path
	p.trace = append(p.trace, d)
	p.pos = len(p.trace)
	p.prefix = p.trace
}

func (m *Machine) check(extra ...*Term) Sat {
	r, _ := m.sol.Check(m.path.pc, extra, nil)
	return r
}

// concretize forks over all feasible values of t.
func (m *Machine) concretize(t *Term) *big.Int {
	if t.isConst() {
		if t.w == 0 {
			return big.NewInt(int64(t.u))
		}
		return t.bigVal()
	}
	if t.w == 0 {
		if m.decide(t) {
			return big1
		}
		return big0
	}
	p := m.path
	if m.inBase || p == nil {
		m.unsupported("symbolic value in package initialisation")
	}
	for n := 0; ; n++ {
		if n > m.x.maxConc {
			panic(pathEnd{"bound", fmt.Sprintf("more than %d values to split on%s", m.x.maxConc, m.where())})
		}
		var d Dec
		if p.pos < len(p.prefix) {
			d = p.prefix[p.pos]
			p.pos++
			p.trace = append(p.trace, d)
			if d.guess == nil {
				m.unsupported("decision replay mismatch")
			}
		} else {
			m.x.checkStop()
			var g *big.Int
			if w := m.witness(); w != nil {
				if v := w.eval(t); !w.bad {
					g = v.big()
				}
			}
			if g == nil {
				r, mv := m.sol.Check(p.pc, nil, []*Term{t})
				if r != IsSat {
					panic(pathEnd{"unsupported", "no model to split on (solver gave up)" + m.where()})
				}
				g = mv[0]
			}
			eq := m.c.Eq(t, m.c.BigConst(t.w, g))
			if m.check(m.c.BNot(eq)) == IsUnsat {
				d = Dec{taken: true, forced: true, guess: g}
				m.record(d)
			} else {
				if dumpForks {
					fmt.Fprintf(os.Stderr, "SPLIT %s = %s at %s\n", m.termString(t, 3), g, m.where())
				}
				m.x.push(append(append([]Dec(nil), p.trace...), Dec{taken: false, guess: g}))
				d = Dec{taken: true, guess: g}
				m.record(d)
			}
		}
		eq := m.c.Eq(t, m.c.BigConst(t.w, d.guess))
		if !d.forced {
			m.addPC(m.lit(eq, d.taken))
		}
		m.learn(eq, d.taken)
		if d.taken {
			return d.guess
		}
	}
}

func (m *Machine) concInt(t *Term) int {
	v := m.concretize(t)
	return int(sext64(v.Uint64(), t.w))
}

// choose returns one of n alternatives nondeterministically (all are explored).
func (m *Machine) choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	k := m.freshName(label)
	t := m.c.RangeVar("choice:"+k, 8, 0, int64(n-1))
	m.fact(m.c.Ult(t, m.c.Const(8, uint64(n))))
	for i := 0; i < n-1; i++ {
		if m.decide(m.c.Eq(t, m.c.Const(8, uint64(i)))) {
			return i
		}
	}
	return n - 1
}

func (m *Machine) freshName(label string) string {
	k := m.path.labelN[label]
	m.path.labelN[label] = k + 1
	return fmt.Sprintf("%s#%d", label, k)
}

func (m *Machine) note(f string, a ...any) { m.path.notes[fmt.Sprintf(f, a...)] = true }

func (m *Machine) app(name string, w int, args ...*Term) *Term {
	t := m.c.App(name, w, args...)
	if t.op == OpApp && m.path != nil && !m.path.appSeen[t] {
		if o := m.sameApp(t); o != nil {
			return o
		}
		m.path.appSeen[t] = true
		m.path.apps = append(m.path.apps, t)
		for _, n := range m.path.natives[name] {
			m.tie(t, n)
		}
	}
	return t
}

// sameApp finds an earlier application of the same function whose arguments the path forces to be
// equal, so that everything computed from either is the same term.
func (m *Machine) sameApp(t *Term) *Term {
	if m.inBase {
		return nil
	}
	for _, o := range m.path.apps {
		if o.name != t.name || o.w != t.w || len(o.args) != len(t.args) {
			continue
		}
		same := m.c.True
		for i, a := range o.args {
			if a.w != t.args[i].w {
				same = m.c.False
				break
			}
			same = m.c.BAnd(same, m.c.Eq(a, t.args[i]))
		}
		if m.provable(same) {
			return o
		}
	}
	return nil
}

// provable reports whether cond holds on the whole path, asking the solver only when the current
// witness satisfies it. The answer is part of the trace, so that a replayed prefix agrees.
func (m *Machine) provable(cond *Term) bool {
	if cond.isConst() {
		return cond.u == 1
	}
	p := m.path
	if v, ok := p.known[cond]; ok {
		return v
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		if d.taken {
			m.learn(cond, true)
		}
		return d.taken
	}
	ok := false
	if w := m.witness(); w != nil {
		ok = w.holds(cond) && !w.bad && m.check(m.c.BNot(cond)) == IsUnsat
	}
	m.record(Dec{taken: ok, forced: true})
	if ok {
		m.learn(cond, true)
	}
	return ok
}

type nativeEval struct {
	args []*Term
	out  *Term
}

// native records a native evaluation of an otherwise uninterpreted function, so that symbolic
// applications to (possibly) the same arguments agree with it.
func (m *Machine) native(name string, out *Term, args ...*Term) {
	p := m.path
	if p == nil {
		return
	}
	n := nativeEval{args, out}
	for _, o := range p.natives[name] {
		if sameTerms(o.args, args) {
			return
		}
	}
	p.natives[name] = append(p.natives[name], n)
	for _, t := range p.apps {
		if t.name == name {
			m.tie(t, n)
		}
	}
}

func (m *Machine) tie(t *Term, n nativeEval) {
	if len(t.args) != len(n.args) || t.w != n.out.w {
		return
	}
	eqs := make([]*Term, len(t.args))
	for i := range eqs {
		eqs[i] = m.c.Eq(t.args[i], n.args[i])
	}
	m.fact(m.c.BOr(m.c.BNot(m.c.BAnd(eqs...)), m.c.Eq(t, n.out)))
}

// termString prints a term to limited depth (debugging, messages).
func (m *Machine) termString(t *Term, d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return constText(t)
		}
		return fmt.Sprintf("%s:%d", t.bigVal().Text(16), t.w)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d:%d", t.id, t.w)
	}
	n := opNames[t.op]
	switch t.op {
	case OpConcat:
		n = "++"
	case OpExtract:
		n = fmt.Sprintf("ext%d:%d", t.hi, t.lo)
	case OpLin:
		n = "lin"
	case OpApp:
		n = t.name
	case OpBitLen:
		n = "bitlen"
	case OpTable:
		n = fmt.Sprintf("tab%d", t.tab.id)
	case OpSExt:
		n = "sext"
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	for i, a := range t.args {
		if i > 6 {
			sb.WriteString(" ...")
			break
		}
		sb.WriteByte(' ')
		if t.op == OpLin {
			fmt.Fprintf(&sb, "%d*", sext64(t.coef[i], t.w))
		}
		sb.WriteString(m.termString(a, d-1))
	}
	if t.op == OpLin {
		fmt.Fprintf(&sb, " +%d", sext64(t.u, t.w))
	}
	sb.WriteString(")")
	return sb.String()
}

func (m *Machine) posString(pos token.Pos) string {
	p := m.prog.fset.Position(pos)
	if !p.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

func sortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
