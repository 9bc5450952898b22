package main

// Concrete witnesses of a path condition. A witness assigns a value to every variable and an
// interpretation to every uninterpreted function; when it satisfies the path condition it shows, without
// a query, that one side of a branch is feasible. The other side, and every assertion, is still decided
// by the solver.

import (
	"encoding/binary"
	"hash/fnv"
	"math/big"
	"math/bits"
	"strings"
)

type wval struct {
	u uint64
	b *big.Int // for widths above 64
}

type Witness struct {
	c    *Ctx
	salt uint64
	vars map[*Term]wval
	not  map[*Term][]uint64 // values a variable must avoid
	appT map[*Term]wval     // values fixed for particular applications
	apps map[string]wval
	memo map[*Term]wval
	bad  bool
}

func newWitness(c *Ctx, salt uint64) *Witness {
	return &Witness{c: c, salt: salt, vars: map[*Term]wval{}, not: map[*Term][]uint64{}, appT: map[*Term]wval{}, apps: map[string]wval{}, memo: map[*Term]wval{}}
}

func toWval(w int, v *big.Int) wval {
	if w <= 64 {
		return wval{u: v.Uint64() & mask1(w)}
	}
	return wval{b: v}
}

func mask1(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (v wval) big() *big.Int {
	if v.b != nil {
		return v.b
	}
	return new(big.Int).SetUint64(v.u)
}

func (v wval) eq(o wval) bool {
	if v.b != nil || o.b != nil {
		return v.big().Cmp(o.big()) == 0
	}
	return v.u == o.u
}

func (wt *Witness) random(w int, key string) wval {
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64() ^ wt.salt*0x9e3779b97f4a7c15
	next := func() uint64 {
		s += 0x9e3779b97f4a7c15
		z := s
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31
	}
	if w <= 64 {
		return wval{u: next() & mask1(w)}
	}
	buf := make([]byte, (w+7)/8+8)
	for i := 0; i+8 <= len(buf); i += 8 {
		binary.BigEndian.PutUint64(buf[i:], next())
	}
	v := new(big.Int).SetBytes(buf[:(w+7)/8])
	if r := uint(w % 8); r != 0 {
		v.Rsh(v, 8-r)
	}
	return wval{b: v}
}

// hint makes the witness satisfy a simple literal.
func (wt *Witness) hint(t *Term, val bool) {
	switch t.op {
	case OpBNot:
		wt.hint(t.args[0], !val)
	case OpBAnd:
		if val {
			for _, a := range t.args {
				wt.hint(a, true)
			}
		}
	case OpBOr:
		if !val {
			for _, a := range t.args {
				wt.hint(a, false)
			}
		}
	case OpEq:
		a, b := t.args[0], t.args[1]
		if a.isConst() {
			a, b = b, a
		}
		if !b.isConst() || b.w == 0 {
			return
		}
		if val {
			wt.set(a, b.bigVal())
		} else if a.op == OpVar && a.w <= 64 {
			wt.not[a] = append(wt.not[a], b.u)
		}
	case OpVar:
		if t.w == 0 {
			wt.vars[t] = wval{u: b2u(val)}
		}
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (wt *Witness) set(t *Term, v *big.Int) {
	switch t.op {
	case OpVar:
		wt.vars[t] = toWval(t.w, v)
	case OpApp:
		wt.appT[t] = toWval(t.w, v)
	case OpConcat:
		sh := t.w
		for _, a := range t.args {
			sh -= a.w
			x := new(big.Int).Rsh(v, uint(sh))
			x.And(x, maskBig(a.w))
			wt.set(a, x)
		}
	case OpExtract:
		a := t.args[0]
		var m map[*Term]wval
		switch a.op {
		case OpVar:
			m = wt.vars
		case OpApp:
			m = wt.appT
		default:
			return
		}
		old, ok := m[a]
		if !ok {
			old = wt.random(a.w, a.name)
		}
		n := new(big.Int).Set(old.big())
		mk := new(big.Int).Lsh(maskBig(t.w), uint(t.lo))
		n.AndNot(n, mk)
		n.Or(n, new(big.Int).Lsh(v, uint(t.lo)))
		m[a] = toWval(a.w, n)
	}
}

func maskBig(w int) *big.Int {
	m := new(big.Int).Lsh(big1, uint(w))
	return m.Sub(m, big1)
}

func (wt *Witness) variable(t *Term) wval {
	if v, ok := wt.vars[t]; ok {
		return v
	}
	r, ranged := wt.c.ranges[t.name]
	avoid := wt.not[t]
	for k := uint64(0); ; k++ {
		v := wt.random(t.w, t.name+string(rune('a'+k%64)))
		if ranged && t.w <= 64 {
			n := uint64(r[1]-r[0]) + 1
			if n != 0 {
				v.u = uint64(r[0]+int64((v.u+k)%n)) & mask(t.w)
			}
		}
		ok := true
		for _, a := range avoid {
			ok = ok && v.u != a
		}
		if ok || k > 200 {
			return v
		}
	}
}

func (wt *Witness) eval(root *Term) wval {
	if v, ok := wt.memo[root]; ok {
		return v
	}
	stack := []*Term{root}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		if _, ok := wt.memo[t]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		n := len(stack)
		for _, a := range t.args {
			if _, ok := wt.memo[a]; !ok {
				stack = append(stack, a)
			}
		}
		if len(stack) > n {
			continue
		}
		wt.memo[t] = wt.one(t)
		stack = stack[:n-1]
	}
	return wt.memo[root]
}

func (wt *Witness) holds(t *Term) bool { return wt.eval(t).u == 1 }

func (wt *Witness) one(t *Term) wval {
	arg := func(i int) wval { return wt.memo[t.args[i]] }
	small := t.w <= 64
	fin := func(v *big.Int) wval {
		if small {
			return toWval(t.w, v)
		}
		if v.Sign() < 0 || v.BitLen() > t.w {
			v = new(big.Int).And(v, maskBig(t.w))
		}
		return wval{b: v}
	}
	boolv := func(b bool) wval { return wval{u: b2u(b)} }
	signed := func(i int) *big.Int {
		v, w := arg(i).big(), t.args[i].w
		if v.Bit(w-1) == 1 {
			return new(big.Int).Sub(v, new(big.Int).Lsh(big1, uint(w)))
		}
		return v
	}
	switch t.op {
	case OpConst:
		if small {
			return wval{u: t.u}
		}
		return wval{b: t.big}
	case OpVar:
		return wt.variable(t)
	case OpApp:
		var sb strings.Builder
		sb.WriteString(t.name)
		for i := range t.args {
			sb.WriteByte('|')
			v := arg(i)
			if v.b != nil {
				sb.Write(v.b.Bytes())
			} else {
				sb.Write(binary.BigEndian.AppendUint64(nil, v.u))
			}
		}
		key := sb.String()
		f, fixed := wt.appT[t]
		if v, ok := wt.apps[key]; ok {
			if fixed && !f.eq(v) {
				wt.bad = true
			}
			return v
		}
		if !fixed {
			f = wt.random(t.w, key)
		}
		wt.apps[key] = f
		return f
	case OpConcat:
		if small {
			var u uint64
			for i, a := range t.args {
				u = u<<uint(a.w) | arg(i).u
			}
			return wval{u: u}
		}
		v := new(big.Int)
		sh := t.w
		var acc []byte
		if t.w%8 == 0 {
			// whole bytes are the common case
			for i, a := range t.args {
				if a.w%8 != 0 {
					acc = nil
					break
				}
				n := a.w / 8
				k := len(acc)
				acc = append(acc, make([]byte, n)...)
				x := arg(i)
				if x.b != nil {
					x.b.FillBytes(acc[k:])
				} else {
					for j := 0; j < n; j++ {
						acc[k+j] = byte(x.u >> uint(8*(n-1-j)))
					}
				}
			}
			if acc != nil {
				return wval{b: v.SetBytes(acc)}
			}
		}
		for i, a := range t.args {
			sh -= a.w
			v.Or(v, new(big.Int).Lsh(arg(i).big(), uint(sh)))
		}
		return wval{b: v}
	case OpExtract:
		x := arg(0)
		if x.b == nil {
			return wval{u: x.u >> uint(t.lo) & mask1(t.w)}
		}
		if t.w <= 8 {
			var u uint64
			for i := int(t.hi); i >= int(t.lo); i-- {
				u = u<<1 | uint64(x.b.Bit(i))
			}
			return wval{u: u}
		}
		return fin(new(big.Int).And(new(big.Int).Rsh(x.b, uint(t.lo)), maskBig(t.w)))
	case OpNot:
		if small {
			return wval{u: ^arg(0).u & mask(t.w)}
		}
		return wval{b: new(big.Int).Xor(arg(0).big(), maskBig(t.w))}
	case OpAnd, OpOr, OpXor:
		if small {
			u := arg(0).u
			for i := 1; i < len(t.args); i++ {
				switch t.op {
				case OpAnd:
					u &= arg(i).u
				case OpOr:
					u |= arg(i).u
				default:
					u ^= arg(i).u
				}
			}
			return wval{u: u}
		}
		v := new(big.Int).Set(arg(0).big())
		for i := 1; i < len(t.args); i++ {
			switch t.op {
			case OpAnd:
				v.And(v, arg(i).big())
			case OpOr:
				v.Or(v, arg(i).big())
			default:
				v.Xor(v, arg(i).big())
			}
		}
		return wval{b: v}
	case OpLin:
		u := t.u
		for i := range t.args {
			u += t.coef[i] * arg(i).u
		}
		return wval{u: u & mask(t.w)}
	case OpAdd:
		v := new(big.Int)
		for i := range t.args {
			v.Add(v, arg(i).big())
		}
		return fin(v)
	case OpMul:
		v := big.NewInt(1)
		for i := range t.args {
			v.Mul(v, arg(i).big())
		}
		if v.BitLen() > t.w {
			v.And(v, maskBig(t.w))
		}
		return fin(v)
	case OpUDiv, OpURem:
		a, b := arg(0).big(), arg(1).big()
		if b.Sign() == 0 {
			if t.op == OpUDiv {
				return fin(maskBig(t.w))
			}
			return fin(a)
		}
		q, r := new(big.Int).QuoRem(a, b, new(big.Int))
		if t.op == OpUDiv {
			return fin(q)
		}
		return fin(r)
	case OpSDiv, OpSRem:
		a, b := signed(0), signed(1)
		var v *big.Int
		switch {
		case b.Sign() == 0 && t.op == OpSRem:
			v = a
		case b.Sign() == 0 && a.Sign() >= 0:
			v = big.NewInt(-1)
		case b.Sign() == 0:
			v = big.NewInt(1)
		default:
			q, r := new(big.Int).QuoRem(a, b, new(big.Int))
			if t.op == OpSDiv {
				v = q
			} else {
				v = r
			}
		}
		return fin(new(big.Int).And(v, maskBig(t.w)))
	case OpShl, OpLshr, OpAshr:
		x, s := arg(0), arg(1).big()
		n := uint(t.w)
		if s.IsUint64() && s.Uint64() < uint64(t.w) {
			n = uint(s.Uint64())
		}
		switch t.op {
		case OpShl:
			return fin(new(big.Int).And(new(big.Int).Lsh(x.big(), n), maskBig(t.w)))
		case OpLshr:
			return fin(new(big.Int).Rsh(x.big(), n))
		}
		return fin(new(big.Int).And(new(big.Int).Rsh(signed(0), n), maskBig(t.w)))
	case OpSExt:
		return fin(new(big.Int).And(signed(0), maskBig(t.w)))
	case OpIte:
		if arg(0).u == 1 {
			return arg(1)
		}
		return arg(2)
	case OpBNot:
		return wval{u: arg(0).u ^ 1}
	case OpBAnd:
		for i := range t.args {
			if arg(i).u == 0 {
				return wval{}
			}
		}
		return wval{u: 1}
	case OpBOr:
		for i := range t.args {
			if arg(i).u == 1 {
				return wval{u: 1}
			}
		}
		return wval{}
	case OpEq:
		return boolv(arg(0).eq(arg(1)))
	case OpUlt:
		if t.args[0].w <= 64 {
			return boolv(arg(0).u < arg(1).u)
		}
		return boolv(arg(0).big().Cmp(arg(1).big()) < 0)
	case OpSlt:
		if w := t.args[0].w; w <= 64 {
			return boolv(sext64(arg(0).u, w) < sext64(arg(1).u, w))
		}
		return boolv(signed(0).Cmp(signed(1)) < 0)
	case OpBitLen:
		x := arg(0)
		if x.b != nil {
			return wval{u: uint64(x.b.BitLen())}
		}
		return wval{u: uint64(bits.Len64(x.u))}
	case OpTable:
		i := arg(0).u
		tb := t.tab
		if i >= uint64(len(tb.vals)) {
			i = 0
		}
		return toWval(t.w, tb.vals[i])
	}
	wt.bad = true
	return wval{b: new(big.Int)}
}

// fits reports whether the witness satisfies the literals.
func (wt *Witness) fits(pc []*Term) bool {
	for _, t := range pc {
		if !wt.holds(t) || wt.bad {
			return false
		}
	}
	return !wt.bad
}

// leaves lists the variables and applications below the literals.
func leaves(pc []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	stack := append([]*Term(nil), pc...)
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OpVar || t.op == OpApp {
			out = append(out, t)
		}
		stack = append(stack, t.args...)
	}
	return out
}

// witness returns a witness of the current path condition, if one is at hand or easily found.
func (m *Machine) witness() *Witness {
	p := m.path
	if p.noWit {
		return nil
	}
	if p.wit != nil {
		if p.wit.fits(p.pc[p.witN:]) {
			p.witN = len(p.pc)
			return p.wit
		}
		p.wit = nil
	}
	for salt := uint64(1); salt <= 3; salt++ {
		w := newWitness(m.c, salt)
		for _, t := range p.pc {
			w.hint(t, true)
		}
		if w.fits(p.pc) {
			p.wit, p.witN = w, len(p.pc)
			return w
		}
	}
	vals := leaves(p.pc)
	if len(vals) > 600 {
		p.noWit = true
		return nil
	}
	r, mv := m.sol.Check(p.pc, nil, vals)
	if r != IsSat {
		p.noWit = true
		return nil
	}
	w := newWitness(m.c, 7)
	for i, t := range vals {
		if t.op == OpVar {
			w.vars[t] = toWval(t.w, mv[i])
		} else {
			w.appT[t] = toWval(t.w, mv[i])
		}
	}
	if !w.fits(p.pc) {
		if dumpForks {
			println("witness: the solver's model does not fit")
		}
		p.noWit = true
		return nil
	}
	p.wit, p.witN = w, len(p.pc)
	return w
}
