package main

import (
	"go/types"
	"math/big"
	"math/bits"
	"reflect"
)

func (m *Machine) bigZero() Value { return &BigVal{m.c.False, m.c.Const(1, 0)} }

// trim drops leading bits known to be zero.
func (m *Machine) trim(t *Term) *Term {
	c := m.c
	for {
		n := t.w
		switch {
		case t.isConst():
			n = t.bigVal().BitLen()
		case t.op == OpConcat && t.args[0].isConst():
			n = t.w - t.args[0].w + t.args[0].bigVal().BitLen()
			if !t.args[0].isZero() {
				if n == t.w {
					return t
				}
				return c.Extract(t, n-1, 0)
			}
		case t.w <= 64:
			n = bits.Len64(t.uhi)
		}
		if n < 1 {
			n = 1
		}
		if n >= t.w {
			return t
		}
		t = c.Extract(t, n-1, 0)
	}
}

func (m *Machine) bigOf(neg, mag *Term) *BigVal {
	mag = m.trim(mag)
	if mag.isZero() {
		neg = m.c.False
	}
	return &BigVal{neg, mag}
}

func (m *Machine) bigConst(v *big.Int) *BigVal {
	w := max(1, v.BitLen())
	return &BigVal{m.c.Bool(v.Sign() < 0), m.c.BigConst(w, new(big.Int).Abs(v))}
}

func (m *Machine) bigGet(v Value) *BigVal {
	p, ok := v.(*Value)
	if !ok {
		m.unsupported("big.Int operand %T", v)
	}
	if p == nil {
		m.targetRuntime("invalid memory address or nil pointer dereference")
	}
	b, ok := (*p).(*BigVal)
	if !ok {
		m.unsupported("big.Int cell holds %T", *p)
	}
	return b
}

func (m *Machine) bigSet(v Value, b *BigVal) Value {
	p, ok := v.(*Value)
	if !ok {
		m.unsupported("big.Int operand %T", v)
	}
	if p == nil {
		m.targetRuntime("invalid memory address or nil pointer dereference")
	}
	m.set(p, b)
	return v
}

func (m *Machine) bigNew(b *BigVal) Value {
	p := new(Value)
	*p = b
	return p
}

func (m *Machine) bigFromInt(x *Term) *BigVal {
	c := m.c
	if x.isConst() {
		return m.bigConst(big.NewInt(x.sval()))
	}
	if x.slo >= 0 {
		return m.bigOf(c.False, x)
	}
	neg := c.Slt(x, c.Const(x.w, 0))
	return m.bigOf(neg, c.Ite(neg, c.Neg(x), x))
}

func (m *Machine) bigConcrete(b *BigVal) (*big.Int, bool) {
	if !b.neg.isConst() || !b.mag.isConst() {
		return nil, false
	}
	v := new(big.Int).Set(b.mag.bigVal())
	if b.neg.u == 1 {
		v.Neg(v)
	}
	return v, true
}

func (m *Machine) common(a, b *Term, extra int) (*Term, *Term) {
	w := max(a.w, b.w) + extra
	return m.c.ZExt(a, w), m.c.ZExt(b, w)
}

func (m *Machine) bigAdd(x, y *BigVal) *BigVal {
	c := m.c
	if a, ok := m.bigConcrete(x); ok {
		if b, ok := m.bigConcrete(y); ok {
			return m.bigConst(new(big.Int).Add(a, b))
		}
	}
	xn, yn := m.decide(x.neg), m.decide(y.neg)
	if xn == yn {
		p, q := m.slim(x.mag, y.mag)
		if trailingZeros(p) >= q.w || trailingZeros(q) >= p.w {
			a, b := m.common(p, q, 0)
			return m.bigOf(c.Bool(xn), c.Or(a, b))
		}
		a, b := m.common(p, q, 1)
		return m.bigOf(c.Bool(xn), c.Add(a, b))
	}
	a, b := m.common(x.mag, y.mag, 0)
	lt := c.Ult(a, b)
	mag := c.Ite(lt, c.Sub(b, a), c.Sub(a, b))
	var neg *Term
	if xn { // -a + b
		neg = c.BNot(c.Ule(a, b))
	} else {
		neg = lt
	}
	return m.bigOf(neg, mag)
}

// trailingZeros counts trailing bits of t that are zero in every value of it.
func trailingZeros(t *Term) int {
	if t.isConst() {
		if t.isZero() {
			return t.w
		}
		return int(t.bigVal().TrailingZeroBits())
	}
	n := 0
	if t.op == OpConcat {
		for i := len(t.args) - 1; i >= 0; i-- {
			k := trailingZeros(t.args[i])
			n += k
			if k < t.args[i].w {
				break
			}
		}
	}
	return n
}

// slim drops bits of one operand that the path knows to be zero and that would reach past the
// trailing zeros of the other.
func (m *Machine) slim(a, b *Term) (*Term, *Term) {
	cut := func(t *Term, n int) *Term {
		if n < 1 || n >= t.w || t.isConst() {
			return t
		}
		z := m.c.Eq(m.c.Extract(t, t.w-1, n), m.c.Const(t.w-n, 0))
		if v, ok := m.known(z); ok && v {
			return m.c.Extract(t, n-1, 0)
		}
		return t
	}
	return cut(a, trailingZeros(b)), cut(b, trailingZeros(a))
}

// known is what the path has already settled about a condition.
func (m *Machine) known(cond *Term) (v, ok bool) {
	if cond.isConst() {
		return cond.u == 1, true
	}
	if m.path == nil {
		return false, false
	}
	v, ok = m.path.known[cond]
	return
}

// bitLen uses what the path knows about leading bytes.
func (m *Machine) bitLen(x *Term) *Term {
	c := m.c
	for x.w > 8 && !x.isConst() {
		top := c.Extract(x, x.w-1, x.w-8)
		z, ok := m.known(c.Eq(top, m.byteT[0]))
		if !ok {
			break
		}
		if !z {
			return c.Add(c.Const(64, uint64(x.w-8)), c.BitLen(top))
		}
		x = c.Extract(x, x.w-9, 0)
	}
	return c.BitLen(x)
}

func (m *Machine) bigNeg(x *BigVal) *BigVal {
	c := m.c
	z := c.Eq(x.mag, c.Const(x.mag.w, 0))
	return m.bigOf(c.BAnd(c.BNot(x.neg), c.BNot(z)), x.mag)
}

func (m *Machine) twos(x *BigVal, w int) *Term {
	t := m.c.ZExt(x.mag, w)
	if m.decide(x.neg) {
		return m.c.Neg(t)
	}
	return t
}

func (m *Machine) fromTwos(t *Term) *BigVal {
	c := m.c
	neg := c.Eq(c.Extract(t, t.w-1, t.w-1), c.Const(1, 1))
	return m.bigOf(neg, c.Ite(neg, c.Neg(t), t))
}

func (m *Machine) bigBit(op string, x, y *BigVal) *BigVal {
	c := m.c
	if m.decide(x.neg) || m.decide(y.neg) {
		w := max(x.mag.w, y.mag.w) + 1
		a, b := m.twos(x, w), m.twos(y, w)
		switch op {
		case "and":
			return m.fromTwos(c.And(a, b))
		case "or":
			return m.fromTwos(c.Or(a, b))
		case "xor":
			return m.fromTwos(c.Xor(a, b))
		}
		return m.fromTwos(c.And(a, c.Not(b)))
	}
	a, b := x.mag, y.mag
	if op == "or" || op == "xor" {
		a, b = m.slim(a, b)
	}
	a, b = m.common(a, b, 0)
	switch op {
	case "and":
		return m.bigOf(c.False, c.And(a, b))
	case "or":
		return m.bigOf(c.False, c.Or(a, b))
	case "xor":
		return m.bigOf(c.False, c.Xor(a, b))
	}
	return m.bigOf(c.False, c.And(a, c.Not(b)))
}

func (m *Machine) bigCmpAbs(x, y *BigVal) *Term {
	c := m.c
	a, b := m.common(x.mag, y.mag, 0)
	one := c.Const(64, 1)
	return c.Ite(c.Ult(a, b), c.Neg(one), c.Ite(c.Ult(b, a), one, c.Const(64, 0)))
}

func (m *Machine) bigCmp(x, y *BigVal) *Term {
	c := m.c
	one := c.Const(64, 1)
	if x.neg.isFalse() && y.neg.isFalse() {
		return m.bigCmpAbs(x, y)
	}
	xn, yn := m.decide(x.neg), m.decide(y.neg)
	switch {
	case xn && !yn:
		return c.Neg(one)
	case !xn && yn:
		return one
	case !xn:
		return m.bigCmpAbs(x, y)
	}
	return c.Neg(m.bigCmpAbs(x, y))
}

func (m *Machine) bigLow64(x *BigVal) *Term {
	t := m.c.ZExt(x.mag, max(64, x.mag.w))
	t = m.c.Extract(t, 63, 0)
	return m.c.Ite(x.neg, m.c.Neg(t), t)
}

// bigByteLen splits on the number of bytes of |x|.
func (m *Machine) bigByteLen(x *BigVal) int {
	c := m.c
	bl := m.bitLen(x.mag)
	if bl.isConst() {
		return int(bl.u+7) / 8
	}
	// longest first
	n := (x.mag.w + 7) / 8
	for n > 0 {
		if m.decide(c.Ult(c.Const(64, uint64(8*(n-1))), bl)) {
			break
		}
		n--
	}
	return n
}

func (m *Machine) bigBytes(x *BigVal, n int) []*Term {
	t := m.c.ZExt(x.mag, max(8*n, x.mag.w))
	out := make([]*Term, n)
	for i := range out {
		out[i] = m.c.Extract(t, 8*(n-i)-1, 8*(n-i-1))
	}
	return out
}

func init() {
	g := func(m *Machine, v Value) *BigVal { return m.bigGet(v) }
	reg(func(m *Machine, a []Value) Value { return m.bigNew(m.bigFromInt(m.asTerm(a[0]))) }, "math/big.NewInt")
	M := func(name string, f intrinsic) { reg(f, "(*math/big.Int)."+name) }
	M("Set", func(m *Machine, a []Value) Value { return m.bigSet(a[0], g(m, a[1])) })
	M("SetInt64", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigFromInt(m.asTerm(a[1]))) })
	M("SetUint64", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigOf(m.c.False, m.asTerm(a[1]))) })
	M("SetBytes", func(m *Machine, a []Value) Value {
		b := m.sliceBytes(m.slc(a[1]))
		if len(b) == 0 {
			return m.bigSet(a[0], m.bigZero().(*BigVal))
		}
		return m.bigSet(a[0], m.bigOf(m.c.False, m.c.Concat(b...)))
	})
	M("SetBit", func(m *Machine, a []Value) Value {
		x := g(m, a[1])
		i := m.concInt(m.asTerm(a[2]))
		b := m.asTerm(a[3])
		if m.decide(x.neg) {
			m.unsupported("SetBit of a negative number")
		}
		w := max(x.mag.w, i+1)
		t := m.c.ZExt(x.mag, w)
		parts := []*Term{}
		if i+1 < w {
			parts = append(parts, m.c.Extract(t, w-1, i+1))
		}
		parts = append(parts, m.c.Extract(b, 0, 0))
		if i > 0 {
			parts = append(parts, m.c.Extract(t, i-1, 0))
		}
		return m.bigSet(a[0], m.bigOf(m.c.False, m.c.Concat(parts...)))
	})
	M("Abs", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigOf(m.c.False, g(m, a[1]).mag)) })
	M("Neg", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigNeg(g(m, a[1]))) })
	M("Add", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigAdd(g(m, a[1]), g(m, a[2]))) })
	M("Sub", func(m *Machine, a []Value) Value {
		return m.bigSet(a[0], m.bigAdd(g(m, a[1]), m.bigNeg(g(m, a[2]))))
	})
	M("Mul", func(m *Machine, a []Value) Value {
		x, y := g(m, a[1]), g(m, a[2])
		w := x.mag.w + y.mag.w
		mag := m.c.Mul(m.c.ZExt(x.mag, w), m.c.ZExt(y.mag, w))
		if y.mag.isConst() || x.mag.isConst() {
			// a power of two is a shift
			k, o := y.mag, x.mag
			if x.mag.isConst() {
				k, o = x.mag, y.mag
			}
			kv := k.bigVal()
			if kv.Sign() > 0 && int(kv.TrailingZeroBits()) == kv.BitLen()-1 {
				mag = o
				if n := kv.BitLen() - 1; n > 0 {
					mag = m.c.Concat(o, m.c.Const(n, 0))
				}
			}
		}
		return m.bigSet(a[0], m.bigOf(m.c.BNot(m.boolEq(x.neg, y.neg)), mag))
	})
	divmod := func(euclid, wantQ bool) intrinsic {
		return func(m *Machine, a []Value) Value {
			x, y := g(m, a[1]), g(m, a[2])
			if xc, ok := m.bigConcrete(x); ok {
				if yc, ok := m.bigConcrete(y); ok && yc.Sign() != 0 {
					r := new(big.Int)
					switch {
					case euclid && wantQ:
						r.Div(xc, yc)
					case euclid:
						r.Mod(xc, yc)
					case wantQ:
						r.Quo(xc, yc)
					default:
						r.Rem(xc, yc)
					}
					return m.bigSet(a[0], m.bigConst(r))
				}
			}
			c := m.c
			if m.decide(c.Eq(y.mag, c.Const(y.mag.w, 0))) {
				panic(targetPanic{v: Iface{m.prog.runtimeErr, "division by zero"}, text: "division by zero"})
			}
			if m.decide(x.neg) || m.decide(y.neg) {
				m.unsupported("division of negative big integers")
			}
			yv := y.mag
			if yv.isConst() {
				k := yv.bigVal()
				if n := k.BitLen() - 1; int(k.TrailingZeroBits()) == n {
					if wantQ {
						if n >= x.mag.w {
							return m.bigSet(a[0], m.bigZero().(*BigVal))
						}
						return m.bigSet(a[0], m.bigOf(c.False, c.Extract(x.mag, x.mag.w-1, n)))
					}
					if n == 0 {
						return m.bigSet(a[0], m.bigZero().(*BigVal))
					}
					return m.bigSet(a[0], m.bigOf(c.False, c.Extract(c.ZExt(x.mag, max(n, x.mag.w)), n-1, 0)))
				}
			}
			p, q := m.common(x.mag, y.mag, 0)
			if wantQ {
				return m.bigSet(a[0], m.bigOf(c.False, c.UDiv(p, q)))
			}
			return m.bigSet(a[0], m.bigOf(c.False, c.URem(p, q)))
		}
	}
	M("Div", divmod(true, true))
	M("Mod", divmod(true, false))
	M("Quo", divmod(false, true))
	M("Rem", divmod(false, false))
	two := func(euclid bool) intrinsic {
		return func(m *Machine, a []Value) Value {
			// z.DivMod(x, y, m)
			x, y := m.bigNew(g(m, a[1])), m.bigNew(g(m, a[2]))
			divmod(euclid, true)(m, []Value{a[0], x, y})
			divmod(euclid, false)(m, []Value{a[3], x, y})
			return Tuple{a[0], a[3]}
		}
	}
	M("DivMod", two(true))
	M("QuoRem", two(false))
	M("And", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigBit("and", g(m, a[1]), g(m, a[2]))) })
	M("Or", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigBit("or", g(m, a[1]), g(m, a[2]))) })
	M("Xor", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigBit("xor", g(m, a[1]), g(m, a[2]))) })
	M("AndNot", func(m *Machine, a []Value) Value {
		return m.bigSet(a[0], m.bigBit("andnot", g(m, a[1]), g(m, a[2])))
	})
	M("Not", func(m *Machine, a []Value) Value {
		return m.bigSet(a[0], m.bigAdd(m.bigNeg(g(m, a[1])), m.bigConst(big.NewInt(-1))))
	})
	M("Lsh", func(m *Machine, a []Value) Value {
		x := g(m, a[1])
		n := m.concInt(m.asTerm(a[2]))
		if n < 0 || n > 1<<16 {
			m.unsupported("big shift by %d", n)
		}
		if n == 0 {
			return m.bigSet(a[0], x)
		}
		return m.bigSet(a[0], m.bigOf(x.neg, m.c.Concat(x.mag, m.c.Const(n, 0))))
	})
	M("Rsh", func(m *Machine, a []Value) Value {
		x := g(m, a[1])
		nt := m.asTerm(a[2])
		n := m.concInt(nt)
		if n < 0 || n > 1<<16 {
			n = 1 << 16
		}
		if m.decide(x.neg) {
			w := max(x.mag.w, n) + 2
			t := m.twos(x, w)
			r := m.c.SExt(m.c.Extract(t, w-1, n), w)
			return m.bigSet(a[0], m.fromTwos(r))
		}
		if n >= x.mag.w {
			return m.bigSet(a[0], m.bigZero().(*BigVal))
		}
		return m.bigSet(a[0], m.bigOf(m.c.False, m.c.Extract(x.mag, x.mag.w-1, n)))
	})
	M("BitLen", func(m *Machine, a []Value) Value { return m.bitLen(g(m, a[0]).mag) })
	M("Bit", func(m *Machine, a []Value) Value {
		x := g(m, a[0])
		i := m.concInt(m.asTerm(a[1]))
		if m.decide(x.neg) {
			m.unsupported("Bit of a negative number")
		}
		if i < 0 {
			m.targetRuntime("negative bit index")
		}
		if i >= x.mag.w {
			return m.c.Const(64, 0)
		}
		return m.c.ZExt(m.c.Extract(x.mag, i, i), 64)
	})
	M("Sign", func(m *Machine, a []Value) Value {
		x := g(m, a[0])
		c := m.c
		z := c.Eq(x.mag, c.Const(x.mag.w, 0))
		return c.Ite(z, c.Const(64, 0), c.Ite(x.neg, c.Neg(c.Const(64, 1)), c.Const(64, 1)))
	})
	M("Cmp", func(m *Machine, a []Value) Value { return m.bigCmp(g(m, a[0]), g(m, a[1])) })
	M("CmpAbs", func(m *Machine, a []Value) Value { return m.bigCmpAbs(g(m, a[0]), g(m, a[1])) })
	M("Uint64", func(m *Machine, a []Value) Value { return m.bigLow64(g(m, a[0])) })
	M("Int64", func(m *Machine, a []Value) Value { return m.bigLow64(g(m, a[0])) })
	M("IsUint64", func(m *Machine, a []Value) Value {
		x := g(m, a[0])
		return m.c.BAnd(m.c.BNot(x.neg), m.c.Ule(m.c.BitLen(x.mag), m.c.Const(64, 64)))
	})
	M("IsInt64", func(m *Machine, a []Value) Value {
		x := g(m, a[0])
		c := m.c
		min := c.BAnd(x.neg, c.Eq(c.ZExt(x.mag, max(64, x.mag.w)), c.BigConst(max(64, x.mag.w), new(big.Int).Lsh(big1, 63))))
		return c.BOr(c.Ule(c.BitLen(x.mag), c.Const(64, 63)), min)
	})
	M("Bytes", func(m *Machine, a []Value) Value {
		x := g(m, a[0])
		return termsToSlice(m.bigBytes(x, m.bigByteLen(x)))
	})
	M("FillBytes", func(m *Machine, a []Value) Value {
		x := g(m, a[0])
		buf := m.slc(a[1])
		if !m.decide(m.c.Ule(m.c.BitLen(x.mag), m.c.Const(64, uint64(8*len(buf))))) {
			panic(targetPanic{v: Iface{m.stringType(), "math/big: buffer too small to fit value"}, text: "math/big: buffer too small to fit value"})
		}
		for i, t := range m.bigBytes(x, len(buf)) {
			m.set(&buf[i], t)
		}
		return a[1]
	})
	M("TrailingZeroBits", func(m *Machine, a []Value) Value {
		x := g(m, a[0])
		if v, ok := m.bigConcrete(x); ok {
			return m.c.Const(64, uint64(v.TrailingZeroBits()))
		}
		for i := 0; i < x.mag.w; i++ {
			if m.decide(m.c.Eq(m.c.Extract(x.mag, i, i), m.c.Const(1, 1))) {
				return m.c.Const(64, uint64(i))
			}
		}
		return m.c.Const(64, 0)
	})
	text := func(m *Machine, a []Value) Value {
		p, ok := a[0].(*Value)
		if ok && p == nil {
			return "<nil>"
		}
		x := g(m, a[0])
		base := 10
		if len(a) > 1 {
			base = m.concInt(m.asTerm(a[1]))
		}
		if v, ok := m.bigConcrete(x); ok {
			return v.Text(base)
		}
		return &Opaque{what: "bigtext", args: []Value{x.neg, x.mag, m.c.Const(64, uint64(base))}}
	}
	M("String", text)
	M("Text", text)
	M("SetString", func(m *Machine, a []Value) Value {
		s := m.mustString(a[1])
		v, ok := new(big.Int).SetString(s, m.concInt(m.asTerm(a[2])))
		if !ok {
			return Tuple{(*Value)(nil), m.c.False}
		}
		return Tuple{m.bigSet(a[0], m.bigConst(v)), m.c.True}
	})
}

func (m *Machine) stringType() types.Type { return types.Typ[types.String] }

// bigNative: any other method on concrete operands.
func (m *Machine) bigNative(meth string, args []Value) Value {
	recv := new(big.Int)
	rv := reflect.ValueOf(recv).MethodByName(meth)
	if !rv.IsValid() {
		return notHandled{}
	}
	cells := map[*Value]*big.Int{}
	get := func(v Value) *big.Int {
		p := v.(*Value)
		if p == nil {
			return nil
		}
		if b, ok := cells[p]; ok {
			return b
		}
		b, ok := m.bigConcrete(m.bigGet(p))
		if !ok {
			m.unsupported("(*big.Int).%s on symbolic values", meth)
		}
		cells[p] = b
		return b
	}
	r := get(args[0])
	if r == nil {
		m.targetRuntime("invalid memory address or nil pointer dereference")
	}
	rv = reflect.ValueOf(r).MethodByName(meth)
	in := make([]reflect.Value, len(args)-1)
	bt := reflect.TypeOf(recv)
	for i := range in {
		t := rv.Type().In(i)
		if t == bt {
			in[i] = reflect.ValueOf(get(args[i+1]))
			continue
		}
		x, ok := m.toNative(args[i+1], t)
		if !ok {
			m.unsupported("(*big.Int).%s with argument %T", meth, args[i+1])
		}
		in[i] = x
	}
	outs := rv.Call(in)
	for p, b := range cells {
		m.set(p, m.bigConst(b))
	}
	conv := func(o reflect.Value) Value {
		if o.Type() == bt {
			ob := o.Interface().(*big.Int)
			if ob == nil {
				return (*Value)(nil)
			}
			for p, b := range cells {
				if b == ob {
					return p
				}
			}
			return m.bigNew(m.bigConst(ob))
		}
		return m.fromNative(o)
	}
	switch len(outs) {
	case 0:
		return nil
	case 1:
		return conv(outs[0])
	}
	t := make(Tuple, len(outs))
	for i := range outs {
		t[i] = conv(outs[i])
	}
	return t
}
