package main

// SMT-LIB back end: one incremental z3 per worker, with a portfolio fallback in fresh processes.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unknown Sat = iota
	IsSat
	IsUnsat
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks int64
	Nanos                                      int64
}

var slowLog, _ = time.ParseDuration(os.Getenv("VERIF_SLOW"))
var slowDump = os.Getenv("VERIF_SLOW") != ""

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	tabDef  map[int]bool
	funDef  map[string]bool
	stack   []*Term // asserted, one push level each
	st      *SolverStats
	quickMS int
	curMS   int
	slowMS  int
	dead    bool
	wbuf    bytes.Buffer
}

func NewSolver(c *Ctx, st *SolverStats) *Solver {
	return &Solver{c: c, st: st, quickMS: 500, slowMS: 60000, dead: true}
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	s.defined, s.tabDef, s.funDef = map[int32]bool{}, map[int]bool{}, map[string]bool{}
	s.stack = nil
	s.dead = false
	s.wbuf.Reset()
	s.curMS = s.quickMS
	fmt.Fprintf(&s.wbuf, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_UFBV)\n(set-option :timeout %d)\n", s.quickMS)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	s.dead = true
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func sym(n string) string { return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(n) + "|" }

func constText(t *Term) string {
	if t.w == 0 {
		if t.u == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		if t.w <= 64 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.u)
		}
		return "#x" + fmt.Sprintf("%0*s", t.w/4, t.big.Text(16))
	}
	if t.w <= 64 {
		return fmt.Sprintf("#b%0*b", t.w, t.u)
	}
	return "#b" + fmt.Sprintf("%0*s", t.w, t.big.Text(2))
}

type emitter struct {
	c       *Ctx
	w       *bytes.Buffer
	defined map[int32]bool
	tabDef  map[int]bool
	funDef  map[string]bool
}

func ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constText(t)
	case OpVar:
		return sym(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (e *emitter) table(tb *ConstTab) {
	if e.tabDef[tb.id] {
		return
	}
	e.tabDef[tb.id] = true
	fmt.Fprintf(e.w, "(define-fun tab%d ((i %s)) %s ", tb.id, sortName(tb.idxW), sortName(tb.w))
	var rec func(lo int, bit int) string
	val := func(i int) *big.Int {
		if i < len(tb.vals) {
			return tb.vals[i]
		}
		return tb.vals[0]
	}
	lit := func(v *big.Int) string { return constText(e.c.BigConst1(tb.w, v)) }
	rec = func(lo int, bit int) string {
		if bit < 0 {
			return lit(val(lo))
		}
		a := rec(lo, bit-1)
		b := rec(lo|1<<uint(bit), bit-1)
		if a == b {
			return a
		}
		return fmt.Sprintf("(ite (= ((_ extract %d %d) i) #b1) %s %s)", bit, bit, b, a)
	}
	e.w.WriteString(rec(0, tb.idxW-1))
	e.w.WriteString(")\n")
}

// BigConst1 also handles width 0.
func (c *Ctx) BigConst1(w int, v *big.Int) *Term {
	if w == 0 {
		return c.Bool(v.Sign() != 0)
	}
	return c.BigConst(w, v)
}

func (e *emitter) define(root *Term) {
	if root.op == OpConst || e.defined[root.id] {
		return
	}
	stack := []*Term{root}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		if t.op == OpConst || e.defined[t.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range t.args {
			if a.op != OpConst && !e.defined[a.id] {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		e.defined[t.id] = true
		e.one(t)
	}
}

func (e *emitter) one(t *Term) {
	w := e.w
	if t.op == OpVar {
		if r, ok := e.c.ranges[t.name]; ok {
			// a ranged variable is defined from a free one, so that its range holds at every level
			raw, lo, hi := sym(t.name+"~"), constText(e.c.Const(t.w, uint64(r[0]))), constText(e.c.Const(t.w, uint64(r[1])))
			fmt.Fprintf(w, "(declare-const %s %s)\n(define-fun %s () %s (ite (and (bvsle %s %s) (bvsle %s %s)) %s %s))\n", raw, sortName(t.w), sym(t.name), sortName(t.w), lo, raw, raw, hi, raw, lo)
			return
		}
		fmt.Fprintf(w, "(declare-const %s %s)\n", sym(t.name), sortName(t.w))
		return
	}
	if t.op == OpTable {
		e.table(t.tab)
	}
	var body strings.Builder
	switch t.op {
	case OpApp:
		// one curried argument: all args concatenated keeps solvers happy, but we keep real arguments
		name := t.name
		if !e.funDef[name] {
			e.funDef[name] = true
			fmt.Fprintf(w, "(declare-fun %s (", sym(name))
			for i, a := range t.args {
				if i > 0 {
					w.WriteByte(' ')
				}
				w.WriteString(sortName(a.w))
			}
			fmt.Fprintf(w, ") %s)\n", sortName(t.w))
		}
		if len(t.args) == 0 {
			body.WriteString(sym(name))
		} else {
			body.WriteString("(" + sym(name))
			for _, a := range t.args {
				body.WriteString(" " + ref(a))
			}
			body.WriteString(")")
		}
	case OpExtract:
		fmt.Fprintf(&body, "((_ extract %d %d) %s)", t.hi, t.lo, ref(t.args[0]))
	case OpSExt:
		fmt.Fprintf(&body, "((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OpConcat:
		body.WriteString("(concat")
		for _, a := range t.args {
			body.WriteString(" " + ref(a))
		}
		body.WriteString(")")
	case OpLin:
		body.WriteString("(bvadd")
		n := 0
		for i, a := range t.args {
			if t.coef[i]&mask(t.w) == 1 {
				body.WriteString(" " + ref(a))
			} else if t.coef[i]&mask(t.w) == mask(t.w) {
				body.WriteString(" (bvneg " + ref(a) + ")")
			} else {
				fmt.Fprintf(&body, " (bvmul %s %s)", constText(e.c.Const(t.w, t.coef[i])), ref(a))
			}
			n++
		}
		if t.u != 0 || n < 2 {
			body.WriteString(" " + constText(e.c.Const(t.w, t.u)))
		}
		body.WriteString(")")
	case OpBitLen:
		x := t.args[0]
		r := constText(e.c.Const(64, 0))
		for i := 0; i < x.w; i++ {
			r = fmt.Sprintf("(ite (= ((_ extract %d %d) %s) #b1) %s %s)", i, i, ref(x), constText(e.c.Const(64, uint64(i+1))), r)
		}
		body.WriteString(r)
	case OpTable:
		fmt.Fprintf(&body, "(tab%d %s)", t.tab.id, ref(t.args[0]))
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic("smt: no encoding for op " + fmt.Sprint(t.op))
		}
		body.WriteString("(" + n)
		for _, a := range t.args {
			body.WriteString(" " + ref(a))
		}
		body.WriteString(")")
	}
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body.String())
}

func (s *Solver) emitter() *emitter {
	return &emitter{c: s.c, w: &s.wbuf, defined: s.defined, tabDef: s.tabDef, funDef: s.funDef}
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(&s.wbuf, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	em := s.emitter()
	for _, t := range pc[k:] {
		em.define(t)
		fmt.Fprintf(&s.wbuf, "(push 1)\n(assert %s)\n", ref(t))
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) flush() error {
	_, err := s.in.Write(s.wbuf.Bytes())
	s.wbuf.Reset()
	return err
}

// readSexp reads one s-expression or atom line from the solver.
func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if !started && (b == ' ' || b == '\n' || b == '\r' || b == '\t') {
			continue
		}
		if b == '|' {
			inBar = !inBar
		}
		if !inBar {
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
			}
		}
		if started && depth == 0 && !inBar && (b == '\n' || b == ' ') {
			return sb.String(), nil
		}
		started = true
		sb.WriteByte(b)
		if depth == 0 && b == ')' && !inBar {
			return sb.String(), nil
		}
	}
}

// Check decides pc ∧ extra; with wantModel it returns values for the terms in vals.
func (s *Solver) Check(pc []*Term, extra []*Term, vals []*Term) (Sat, []*big.Int) {
	for _, t := range extra {
		if t.isFalse() {
			return IsUnsat, nil
		}
	}
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.st.Nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.st.Queries, 1)
	res, mv := s.checkInc(pc, extra, vals)
	// the incremental solver gets less time while it keeps failing
	want := s.quickMS
	if res == Unknown {
		want = max(20, s.curMS/2)
	}
	if !s.dead && want != s.curMS {
		s.curMS = want
		fmt.Fprintf(&s.wbuf, "(set-option :timeout %d)\n", want)
	}
	if slowLog > 0 && time.Since(t0) > slowLog {
		fmt.Printf("SLOW %v %v pc=%d extra=%v\n", time.Since(t0), res, len(pc), len(extra))
		if slowDump {
			slowDump = false
			os.WriteFile("/tmp/slow.smt2", s.script(pc, extra, vals), 0o644)
		}
	}
	if res == Unknown {
		atomic.AddInt64(&s.st.Fallbacks, 1)
		t1 := time.Now()
		res, mv = s.checkFresh(pc, extra, vals)
		if slowLog > 0 && time.Since(t1) > slowLog {
			fmt.Printf("SLOWFRESH %v %v pc=%d extra=%v\n", time.Since(t1), res, len(pc), len(extra))
		}
	}
	switch res {
	case IsSat:
		atomic.AddInt64(&s.st.SatN, 1)
	case IsUnsat:
		atomic.AddInt64(&s.st.UnsatN, 1)
	default:
		atomic.AddInt64(&s.st.UnknownN, 1)
	}
	return res, mv
}

func (s *Solver) checkInc(pc, extra, vals []*Term) (Sat, []*big.Int) {
	if s.dead {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.sync(pc)
	em := s.emitter()
	for _, t := range extra {
		em.define(t)
	}
	for _, v := range vals {
		em.define(v)
	}
	fmt.Fprintf(&s.wbuf, "(push 1)\n")
	for _, t := range extra {
		fmt.Fprintf(&s.wbuf, "(assert %s)\n", ref(t))
	}
	fmt.Fprintf(&s.wbuf, "(check-sat)\n")
	if s.flush() != nil {
		s.Close()
		return Unknown, nil
	}
	line, err := s.readTimed(time.Duration(s.quickMS)*time.Millisecond*3 + 5*time.Second)
	if err != nil || strings.HasPrefix(line, "(error") {
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	switch strings.TrimSpace(line) {
	case "sat":
		res = IsSat
	case "unsat":
		res = IsUnsat
	}
	var mv []*big.Int
	if res == IsSat && len(vals) > 0 {
		mv, err = s.getValues(vals)
		if err != nil {
			s.Close()
			return Unknown, nil
		}
	}
	fmt.Fprintf(&s.wbuf, "(pop 1)\n")
	return res, mv
}

func (s *Solver) readTimed(d time.Duration) (string, error) {
	type r struct {
		l string
		e error
	}
	ch := make(chan r, 1)
	out := s.out
	go func() {
		l, e := readSexp(out)
		ch <- r{l, e}
	}()
	select {
	case x := <-ch:
		return x.l, x.e
	case <-time.After(d):
		return "", fmt.Errorf("timeout")
	}
}

func (s *Solver) getValues(vals []*Term) ([]*big.Int, error) {
	fmt.Fprintf(&s.wbuf, "(get-value (")
	for _, v := range vals {
		s.wbuf.WriteString(ref(v) + " ")
	}
	s.wbuf.WriteString("))\n")
	if err := s.flush(); err != nil {
		return nil, err
	}
	line, err := s.readTimed(30 * time.Second)
	if err != nil {
		return nil, err
	}
	return parseValues(line, vals)
}

func parseValues(line string, vals []*Term) ([]*big.Int, error) {
	// ((ref value) (ref value) ...)
	toks := tokenize(line)
	var out []*big.Int
	i := 0
	if i >= len(toks) || toks[i] != "(" {
		return nil, fmt.Errorf("bad model: %.200s", line)
	}
	i++
	for range vals {
		if i >= len(toks) || toks[i] != "(" {
			return nil, fmt.Errorf("bad model: %.200s", line)
		}
		i++
		// skip the reference (may be a const literal or symbol)
		i++
		v := toks[i]
		i++
		switch {
		case v == "true":
			out = append(out, big.NewInt(1))
		case v == "false":
			out = append(out, big.NewInt(0))
		case strings.HasPrefix(v, "#x"):
			b, _ := new(big.Int).SetString(v[2:], 16)
			out = append(out, b)
		case strings.HasPrefix(v, "#b"):
			b, _ := new(big.Int).SetString(v[2:], 2)
			out = append(out, b)
		case v == "(": // (_ bvN w)
			b, ok := new(big.Int).SetString(strings.TrimPrefix(toks[i+1], "bv"), 10)
			if !ok {
				return nil, fmt.Errorf("bad model value")
			}
			out = append(out, b)
			i += 4
		default:
			return nil, fmt.Errorf("bad model value %q", v)
		}
		if i >= len(toks) || toks[i] != ")" {
			return nil, fmt.Errorf("bad model tail: %.200s", line)
		}
		i++
	}
	return out, nil
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// script renders a complete SMT-LIB script for pc ∧ extra.
func (s *Solver) script(pc, extra, vals []*Term) []byte {
	var buf bytes.Buffer
	em := &emitter{c: s.c, w: &buf, defined: map[int32]bool{}, tabDef: map[int]bool{}, funDef: map[string]bool{}}
	buf.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	for _, l := range [][]*Term{pc, extra} {
		for _, t := range l {
			em.define(t)
			fmt.Fprintf(&buf, "(assert %s)\n", ref(t))
		}
	}
	for _, v := range vals {
		em.define(v)
	}
	buf.WriteString("(check-sat)\n")
	if len(vals) > 0 {
		buf.WriteString("(get-value (")
		for _, v := range vals {
			buf.WriteString(ref(v) + " ")
		}
		buf.WriteString("))\n")
	}
	return buf.Bytes()
}

func (s *Solver) checkFresh(pc, extra, vals []*Term) (Sat, []*big.Int) {
	text := s.script(pc, extra, vals)
	sec := s.slowMS/1000 + 1
	cmds := [][]string{
		{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", sec)},
		{"cvc5", "--lang=smt2", "-q", fmt.Sprintf("--tlimit=%d", s.slowMS), "-"},
	}
	type ans struct {
		r  Sat
		mv []*big.Int
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan ans, len(cmds))
	for _, a := range cmds {
		go func(a []string) {
			cmd := exec.CommandContext(ctx, a[0], a[1:]...)
			cmd.Stdin = bytes.NewReader(text)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(o, "unsat"):
				ch <- ans{IsUnsat, nil}
			case strings.HasPrefix(o, "sat"):
				if len(vals) == 0 {
					ch <- ans{IsSat, nil}
					return
				}
				mv, err := parseValues(strings.TrimPrefix(o, "sat"), vals)
				if err != nil {
					ch <- ans{Unknown, nil}
					return
				}
				ch <- ans{IsSat, mv}
			default:
				ch <- ans{Unknown, nil}
			}
		}(a)
	}
	for range cmds {
		if r := <-ch; r.r != Unknown {
			return r.r, r.mv
		}
	}
	return Unknown, nil
}

func (s *SolverStats) Seconds() float64 { return float64(atomic.LoadInt64(&s.Nanos)) / 1e9 }
