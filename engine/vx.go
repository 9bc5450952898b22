package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync/atomic"
)

// Intrinsics of the harness interface (package vx).

func init() {
	v := func(n string) string { return vxPath + "." + n }
	lab := func(m *Machine, x Value) string { return m.mustString(x) }
	for _, b := range []struct {
		n string
		w int
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I64", 64}, {"Bool", 0}} {
		reg(func(m *Machine, a []Value) Value { return m.nondet(lab(m, a[0]), b.w) }, v(b.n))
	}
	reg(func(m *Machine, a []Value) Value {
		return m.c.ZExt(m.asTerm(m.nondet(lab(m, a[0]), 31)), 32)
	}, v("U31"))
	reg(func(m *Machine, a []Value) Value {
		lo, hi := m.asTerm(a[1]), m.asTerm(a[2])
		return m.nondetRange(lab(m, a[0]), 64, lo.sval(), hi.sval())
	}, v("Range"))
	reg(func(m *Machine, a []Value) Value {
		n := m.concInt(m.asTerm(a[1]))
		t := m.nondetRange(lab(m, a[0]), 64, 0, int64(n-1))
		return m.c.BigConst(64, m.concretize(t))
	}, v("Choice"))
	reg(func(m *Machine, a []Value) Value {
		return termsToSlice(m.nondetBytes(lab(m, a[0]), m.concInt(m.asTerm(a[1]))))
	}, v("Bytes"))
	reg(func(m *Machine, a []Value) Value {
		return mkSymStr(m.c, m.nondetBytes(lab(m, a[0]), m.concInt(m.asTerm(a[1]))))
	}, v("Str"))
	reg(func(m *Machine, a []Value) Value {
		w := m.concInt(m.asTerm(a[1]))
		if w == 0 {
			return m.bigNew(m.bigConst(new(big.Int)))
		}
		n := m.freshName(lab(m, a[0]))
		t := m.c.Var("in:"+n, w)
		m.path.nondets = append(m.path.nondets, Nondet{Label: n, Kind: "big", Terms: []*Term{t}})
		return m.bigNew(m.bigOf(m.c.False, t))
	}, v("Big"))
	reg(func(m *Machine, a []Value) Value {
		// one symbolic element of a list of strings
		vals := m.slc(a[1])
		ss := make([]string, len(vals))
		for i := range vals {
			ss[i] = m.mustString(vals[i])
		}
		t := m.nondetRange(lab(m, a[0]), 64, 0, int64(len(ss)-1))
		return m.mkTabStr(m.strTab(ss), t)
	}, v("OneOf"))
	reg(func(m *Machine, a []Value) Value {
		sec, nsec := m.asTerm(a[0]), m.asTerm(a[1])
		return m.mkTime(sec, nsec, nil)
	}, v("Time"))
	reg(func(m *Machine, a []Value) Value { m.assume(m.asTerm(a[0])); return nil }, v("Assume"))
	reg(func(m *Machine, a []Value) Value { m.assert(m.asTerm(a[0]), m.mustString(a[1])); return nil }, v("Assert"))
	reg(func(m *Machine, a []Value) Value { m.path.reached[m.mustString(a[0])] = true; return nil }, v("Reached"))
	reg(func(m *Machine, a []Value) Value { return m.c.Bool(m.x.thorough) }, v("Thorough"))
	reg(func(m *Machine, a []Value) Value { m.path.env.generic = m.asTerm(a[0]).isTrue(); return nil }, v("Generic"))
	reg(func(m *Machine, a []Value) Value { m.path.env.longRand = m.asTerm(a[0]).isTrue(); return nil }, v("LongRand"))
	reg(func(m *Machine, a []Value) Value {
		m.path.env.shortAt = m.concInt(m.asTerm(a[0]))
		m.path.env.shortTwo = m.asTerm(a[1]).isTrue()
		return nil
	}, v("ShortAt"))
	reg(func(m *Machine, a []Value) Value { return m.c.BAnd(m.asTerm(a[0]), m.asTerm(a[1])) }, v("And"))
	reg(func(m *Machine, a []Value) Value { return m.c.BOr(m.asTerm(a[0]), m.asTerm(a[1])) }, v("Or"))
	reg(func(m *Machine, a []Value) Value { return m.boolEq(m.asTerm(a[0]), m.asTerm(a[1])) }, v("Iff"))
	reg(func(m *Machine, a []Value) Value {
		x, y := m.sliceStr(a[0]), m.sliceStr(a[1])
		return m.strEq(x, y)
	}, v("EqBytes"))
	reg(func(m *Machine, a []Value) Value { return m.c.True }, v("Symbolic"))
	reg(func(m *Machine, a []Value) Value {
		fmt.Println("vx.Debug:", describe(a[0]))
		return nil
	}, v("Debug"))
	reg(func(m *Machine, a []Value) Value {
		// Try runs f and reports whether it panicked
		top := m.cur.top
		res := m.c.False
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); ok {
						m.cur.top = top
						res = m.c.True
						return
					}
					panic(r)
				}
			}()
			m.callback(a[0])
		}()
		return res
	}, v("Try"))
	reg(func(m *Machine, a []Value) Value {
		var out Slice
		for _, f := range m.fields(m.stripANSI(a[0])) {
			out = append(out, f)
		}
		return out
	}, v("Tokens"))
	reg(func(m *Machine, a []Value) Value {
		ws := func(t *Term) bool {
			if t.isConst() {
				return t.u == ' ' || t.u >= 9 && t.u <= 13
			}
			c := m.c
			return m.decide(c.BOr(c.Eq(t, c.Const(8, ' ')), c.BAnd(c.Ule(c.Const(8, 9), t), c.Ule(t, c.Const(8, 13)))))
		}
		p := append([]Value(nil), m.parts(a[0])...)
		for len(p) > 0 {
			s, isS := p[0].(string)
			if y, ok := p[0].(*SymStr); ok {
				b := y.b
				for len(b) > 0 && ws(b[0]) {
					b = b[1:]
				}
				p[0] = mkSymStr(m.c, b)
				s, isS = p[0].(string)
			}
			if !isS {
				break
			}
			if p[0] = strings.TrimLeft(s, " \t\n\v\f\r"); p[0] != "" {
				break
			}
			p = p[1:]
		}
		for len(p) > 0 {
			k := len(p) - 1
			s, isS := p[k].(string)
			if y, ok := p[k].(*SymStr); ok {
				b := y.b
				for len(b) > 0 && ws(b[len(b)-1]) {
					b = b[:len(b)-1]
				}
				p[k] = mkSymStr(m.c, b)
				s, isS = p[k].(string)
			}
			if !isS {
				break
			}
			if p[k] = strings.TrimRight(s, " \t\n\v\f\r"); p[k] != "" {
				break
			}
			p = p[:k]
		}
		var out Value = ""
		for _, x := range p {
			out = m.strConcat(out, x)
		}
		return out
	}, v("Trim"))
	reg(func(m *Machine, a []Value) Value {
		out := Slice{}
		for _, n := range m.path.nondets {
			if strings.HasPrefix(n.Label, "rand#") && n.Kind == "bytes" {
				for _, t := range n.Terms {
					out = append(out, t)
				}
			}
		}
		return out
	}, v("Drawn"))
	reg(func(m *Machine, a []Value) Value {
		m.possible(m.asTerm(a[0]), m.mustString(a[1]))
		return nil
	}, v("Possible"))
	reg(func(m *Machine, a []Value) Value {
		sa, sb := map[*Term]bool{}, map[*Term]bool{}
		na, nb := 0, 0
		for _, e := range m.slc(a[0]) {
			randSupport(m.asTerm(e), sa, map[*Term]bool{})
			na++
		}
		for _, e := range m.slc(a[1]) {
			randSupport(m.asTerm(e), sb, map[*Term]bool{})
			nb++
		}
		for t := range sa {
			if !sb[t] {
				na--
			}
		}
		for t := range sb {
			if !sa[t] {
				nb--
			}
		}
		return m.c.Bool(na <= 0 && nb <= 0)
	}, v("Fresh"))
	reg(func(m *Machine, a []Value) Value {
		x, err := m.x.steps(m), 0
		_ = err
		return m.c.Const(64, uint64(x))
	}, v("Steps"))
}

func (x *Explorer) steps(m *Machine) int64 { return m.path.steps }

// stripANSI removes terminal colour codes from the concrete pieces.
func (m *Machine) stripANSI(v Value) Value {
	var out Value = ""
	for _, p := range m.parts(v) {
		if s, ok := p.(string); ok {
			var b []byte
			for i := 0; i < len(s); i++ {
				if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
					j := i + 2
					for j < len(s) && (s[j] < '@' || s[j] > '~') {
						j++
					}
					i = j
					continue
				}
				b = append(b, s[i])
			}
			p = string(b)
		}
		if y, ok := p.(*SymStr); ok {
			var b []*Term
			is := func(t *Term, f func(byte) bool) bool {
				if t.isConst() {
					return f(byte(t.u))
				}
				c := m.c.False
				for v := 0; v < 256; v++ {
					if f(byte(v)) {
						c = m.c.BOr(c, m.c.Eq(t, m.c.Const(8, uint64(v))))
					}
				}
				return m.decide(c)
			}
			for i := 0; i < len(y.b); i++ {
				if is(y.b[i], func(x byte) bool { return x == 0x1b }) && i+1 < len(y.b) && is(y.b[i+1], func(x byte) bool { return x == '[' }) {
					j := i + 2
					for j < len(y.b) && !is(y.b[j], func(x byte) bool { return x >= '@' && x <= '~' }) {
						j++
					}
					i = j
					continue
				}
				b = append(b, y.b[i])
			}
			p = mkSymStr(m.c, b)
		}
		out = m.strConcat(out, p)
	}
	return out
}

var _ = types.Typ

// randSupport collects the random-source variables a term depends on.
func randSupport(t *Term, out, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar && strings.HasPrefix(t.name, "in:rand#") {
		out[t] = true
	}
	for _, a := range t.args {
		randSupport(a, out, seen)
	}
}

// possible records an existential obligation: the condition must be satisfiable on some path.
func (m *Machine) possible(t *Term, msg string) {
	x := m.x
	x.mu.Lock()
	done := x.possible[msg]
	if !done {
		x.possible[msg] = false
	}
	x.mu.Unlock()
	if done {
		return
	}
	atomic.AddInt64(&x.res.Asserts, 1)
	if t.isFalse() {
		return
	}
	atomic.AddInt64(&x.res.Obligations, 1)
	if m.check(t) != IsUnsat { // an undecided query is given the benefit of the doubt
		atomic.AddInt64(&x.res.Discharged, 1)
		x.mu.Lock()
		x.possible[msg] = true
		x.mu.Unlock()
	}
}
