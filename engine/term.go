package main

// Hash-consed bit-vector / boolean terms with a normalising simplifier.
// Width 0 means Bool. Every Ctx is used by one worker only.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpConcat  // args msb first
	OpExtract // hi, lo
	OpNot     // bitwise
	OpAnd
	OpOr
	OpXor // n-ary
	OpLin // sum coef_i*arg_i + const (w<=64)
	OpAdd // wide (w>64)
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLshr
	OpAshr
	OpSExt
	OpIte
	OpBNot
	OpBAnd
	OpBOr
	OpEq
	OpUlt
	OpSlt
	OpApp    // uninterpreted function
	OpBitLen // bit length of unsigned arg, 64-bit result
	OpTable  // constant table lookup
)

var opNames = map[Op]string{OpNot: "bvnot", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpAdd: "bvadd", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpIte: "ite", OpBNot: "not", OpBAnd: "and", OpBOr: "or", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt"}

type Term struct {
	op     Op
	w      int
	id     int32
	hi, lo int32
	u      uint64   // const value (w<=64), Lin constant
	big    *big.Int // const value (w>64)
	args   []*Term
	coef   []uint64
	name   string
	tab    *ConstTab
	// bounds, valid for 0<w<=64
	ulo, uhi uint64
	slo, shi int64
}

type ConstTab struct {
	id   int
	idxW int
	w    int // 0 = bool
	vals []*big.Int
	key  string
}

type tkey struct {
	op      Op
	w       int32
	a, b, c int32
	hi, lo  int32
	u       uint64
	name    string
}

type Ctx struct {
	tab    map[tkey]*Term
	next   int32
	True   *Term
	False  *Term
	tabs   map[string]*ConstTab
	nTabs  int
	ranges map[string][2]int64 // var name -> declared range
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, tabs: map[string]*ConstTab{}, ranges: map[string][2]int64{}}
	c.True = c.intern(tkey{op: OpConst, u: 1}, func() *Term { return &Term{op: OpConst, u: 1} })
	c.False = c.intern(tkey{op: OpConst, u: 0}, func() *Term { return &Term{op: OpConst, u: 0} })
	return c
}

func (c *Ctx) intern(k tkey, mk func() *Term) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := mk()
	c.next++
	t.id = c.next
	c.bounds(t)
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext64(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.u == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.u == 0 }

func (t *Term) bigVal() *big.Int {
	if t.w > 64 {
		return t.big
	}
	return new(big.Int).SetUint64(t.u)
}
func (t *Term) sval() int64 { return sext64(t.u, t.w) }

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Const(w int, u uint64) *Term {
	if w == 0 {
		return c.Bool(u != 0)
	}
	if w > 64 {
		return c.BigConst(w, new(big.Int).SetUint64(u))
	}
	u &= mask(w)
	k := tkey{op: OpConst, w: int32(w), u: u}
	if t, ok := c.tab[k]; ok {
		return t
	}
	return c.intern(k, func() *Term { return &Term{op: OpConst, w: w, u: u} })
}

// BigConst makes a constant of any width; v may be negative (two's complement).
func (c *Ctx) BigConst(w int, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	if w <= 64 {
		return c.Const(w, v.Uint64())
	}
	return c.intern(tkey{op: OpConst, w: int32(w), name: string(v.Bytes())}, func() *Term { return &Term{op: OpConst, w: w, big: v} })
}

func (c *Ctx) Var(name string, w int) *Term {
	return c.intern(tkey{op: OpVar, w: int32(w), name: name}, func() *Term { return &Term{op: OpVar, w: w, name: name} })
}

// RangeVar declares a 64-bit variable whose signed value lies in [lo,hi]; the caller must also assert it.
func (c *Ctx) RangeVar(name string, w int, lo, hi int64) *Term {
	key := fmt.Sprintf("%s|%d|%d", name, lo, hi)
	c.ranges[key] = [2]int64{lo, hi}
	return c.intern(tkey{op: OpVar, w: int32(w), name: key}, func() *Term { return &Term{op: OpVar, w: w, name: key} })
}

func sortID(a []*Term) { sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id }) }

func (c *Ctx) mk(op Op, w int, args ...*Term) *Term {
	k := tkey{op: op, w: int32(w)}
	if len(args) <= 3 {
		ids := [3]int32{}
		for i, a := range args {
			ids[i] = a.id
		}
		k.a, k.b, k.c = ids[0], ids[1], ids[2]
	} else {
		var sb strings.Builder
		for _, a := range args {
			sb.WriteByte(byte(a.id))
			sb.WriteByte(byte(a.id >> 8))
			sb.WriteByte(byte(a.id >> 16))
			sb.WriteByte(byte(a.id >> 24))
		}
		k.name = sb.String()
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	return c.intern(k, func() *Term { return &Term{op: op, w: w, args: append([]*Term(nil), args...)} })
}

// ---------- bounds ----------

func (c *Ctx) bounds(t *Term) {
	if t.w <= 0 || t.w > 64 {
		return
	}
	m := mask(t.w)
	t.ulo, t.uhi = 0, m
	switch t.op {
	case OpConst:
		t.ulo, t.uhi = t.u, t.u
	case OpVar:
		if r, ok := c.ranges[t.name]; ok {
			if r[0] >= 0 {
				t.ulo, t.uhi = uint64(r[0]), uint64(r[1])
			}
			t.slo, t.shi = r[0], r[1]
			return
		}
	case OpConcat:
		var lo, hi uint64
		for _, a := range t.args {
			lo = lo<<uint(a.w) | a.ulo
			hi = hi<<uint(a.w) | a.uhi
		}
		t.ulo, t.uhi = lo, hi
	case OpExtract:
		a := t.args[0]
		if a.w <= 64 && a.uhi>>uint(t.lo) <= m && t.lo == 0 {
			t.ulo, t.uhi = a.ulo, a.uhi
		} else if a.w <= 64 && int(t.hi) == a.w-1 {
			t.ulo, t.uhi = a.ulo>>uint(t.lo), a.uhi>>uint(t.lo)
		}
	case OpAnd:
		hi := m
		for _, a := range t.args {
			if a.uhi < hi {
				hi = a.uhi
			}
		}
		t.uhi = hi
	case OpOr, OpXor:
		var o uint64
		for _, a := range t.args {
			o |= a.uhi
		}
		n := bits.Len64(o)
		t.uhi = mask(n)
		if t.op == OpOr {
			for _, a := range t.args {
				if a.ulo > t.ulo {
					t.ulo = a.ulo
				}
			}
		}
	case OpIte:
		a, b := t.args[1], t.args[2]
		t.ulo, t.uhi = min(a.ulo, b.ulo), max(a.uhi, b.uhi)
		t.slo, t.shi = min(a.slo, b.slo), max(a.shi, b.shi)
		return
	case OpUDiv:
		if d := t.args[1]; d.isConst() && d.u != 0 {
			t.ulo, t.uhi = t.args[0].ulo/d.u, t.args[0].uhi/d.u
		}
	case OpURem:
		if d := t.args[1]; d.isConst() && d.u != 0 {
			t.uhi = d.u - 1
			if t.args[0].uhi < t.uhi {
				t.uhi = t.args[0].uhi
			}
		}
	case OpSDiv:
		if d := t.args[1]; d.isConst() && d.sval() > 0 {
			a := t.args[0]
			dv := d.sval()
			t.slo, t.shi = a.slo/dv, a.shi/dv
			if t.slo >= 0 {
				t.ulo, t.uhi = uint64(t.slo), uint64(t.shi)
			}
			return
		}
	case OpSRem:
		if d := t.args[1]; d.isConst() && d.sval() > 0 {
			a := t.args[0]
			dv := d.sval()
			t.slo, t.shi = -(dv - 1), dv-1
			if a.slo >= 0 {
				t.slo = 0
				t.ulo, t.uhi = 0, uint64(dv-1)
				if uint64(a.shi) < t.uhi {
					t.uhi = uint64(a.shi)
					t.shi = a.shi
				}
			}
			return
		}
	case OpBitLen:
		t.ulo, t.uhi = 0, uint64(t.args[0].w)
	case OpTable:
		lo, hi := m, uint64(0)
		for _, v := range t.tab.vals {
			lo, hi = min(lo, v.Uint64()), max(hi, v.Uint64())
		}
		t.ulo, t.uhi = lo, hi
	case OpSExt:
		a := t.args[0]
		t.slo, t.shi = a.slo, a.shi
		if t.slo >= 0 {
			t.ulo, t.uhi = uint64(t.slo), uint64(t.shi)
		}
		return
	case OpLin:
		lo, hi := new(big.Int).SetInt64(sext64(t.u, t.w)), new(big.Int).SetInt64(sext64(t.u, t.w))
		for i, a := range t.args {
			k := big.NewInt(sext64(t.coef[i], t.w))
			x := new(big.Int).Mul(k, big.NewInt(a.slo))
			y := new(big.Int).Mul(k, big.NewInt(a.shi))
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
		}
		smin, smax := -(int64(1) << uint(t.w-1)), int64(1)<<uint(t.w-1)-1
		if t.w == 64 {
			smin, smax = -1<<63, 1<<63-1
		}
		if lo.IsInt64() && hi.IsInt64() && lo.Int64() >= smin && hi.Int64() <= smax {
			t.slo, t.shi = lo.Int64(), hi.Int64()
			if t.slo >= 0 {
				t.ulo, t.uhi = uint64(t.slo), uint64(t.shi)
			}
			return
		}
		// unsigned attempt with small positive coefficients
		ul, uh := new(big.Int).SetUint64(t.u), new(big.Int).SetUint64(t.u)
		for i, a := range t.args {
			k := new(big.Int).SetUint64(t.coef[i])
			ul.Add(ul, new(big.Int).Mul(k, new(big.Int).SetUint64(a.ulo)))
			uh.Add(uh, new(big.Int).Mul(k, new(big.Int).SetUint64(a.uhi)))
		}
		if uh.IsUint64() && uh.Uint64() <= m {
			t.ulo, t.uhi = ul.Uint64(), uh.Uint64()
		}
	case OpLshr:
		t.uhi = t.args[0].uhi
	}
	half := uint64(1) << uint(t.w-1)
	switch {
	case t.uhi < half:
		t.slo, t.shi = int64(t.ulo), int64(t.uhi)
	case t.ulo >= half:
		t.slo, t.shi = sext64(t.ulo, t.w), sext64(t.uhi, t.w)
	default:
		t.slo, t.shi = sext64(half, t.w), int64(half-1)
	}
}

// linOverflowFree reports whether the Lin term's exact integer value (signed) equals its machine value.
func linExact(t *Term) bool {
	if t.op != OpLin {
		return true
	}
	lo, hi := new(big.Int).SetInt64(sext64(t.u, t.w)), new(big.Int).SetInt64(sext64(t.u, t.w))
	for i, a := range t.args {
		k := big.NewInt(sext64(t.coef[i], t.w))
		x := new(big.Int).Mul(k, big.NewInt(a.slo))
		y := new(big.Int).Mul(k, big.NewInt(a.shi))
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo.IsInt64() && hi.IsInt64() && sext64(uint64(lo.Int64())&mask(t.w), t.w) == lo.Int64() && sext64(uint64(hi.Int64())&mask(t.w), t.w) == hi.Int64()
}

// ---------- structural ----------

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if hi < lo || lo < 0 || hi >= t.w {
		panic(fmt.Sprintf("extract %d:%d of width %d", hi, lo, t.w))
	}
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		if t.w <= 64 {
			return c.Const(w, t.u>>uint(lo))
		}
		return c.BigConst(w, new(big.Int).Rsh(t.big, uint(lo)))
	case OpExtract:
		return c.Extract(t.args[0], hi+int(t.lo), lo+int(t.lo))
	case OpConcat:
		var parts []*Term
		pos := t.w
		for _, a := range t.args {
			ahi, alo := pos-1, pos-a.w
			pos -= a.w
			h, l := min(hi, ahi), max(lo, alo)
			if h >= l {
				parts = append(parts, c.Extract(a, h-alo, l-alo))
			}
		}
		return c.Concat(parts...)
	case OpNot:
		return c.Not(c.Extract(t.args[0], hi, lo))
	case OpAnd, OpOr, OpXor:
		parts := make([]*Term, len(t.args))
		for i, a := range t.args {
			parts[i] = c.Extract(a, hi, lo)
		}
		switch t.op {
		case OpAnd:
			return c.And(parts[0], parts[1])
		case OpOr:
			return c.Or(parts[0], parts[1])
		}
		return c.Xor(parts...)
	case OpSExt:
		a := t.args[0]
		if hi < a.w {
			return c.Extract(a, hi, lo)
		}
		if lo >= a.w-1 {
			return c.SExt(c.Extract(a, a.w-1, a.w-1), w)
		}
		return c.SExt(c.Extract(a, a.w-1, lo), w)
	case OpIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case OpLin:
		if lo == 0 {
			r := c.Const(w, t.u)
			for i, a := range t.args {
				r = c.Add(r, c.MulC(c.Extract(a, hi, 0), t.coef[i]))
			}
			return r
		}
		// high bits known zero?
		if lo > 0 && t.uhi>>uint(lo) == 0 {
			return c.Const(w, 0)
		}
		// bits above hi play no part
		if lo > 0 && hi < t.w-1 {
			return c.Extract(c.Extract(t, hi, 0), hi, lo)
		}
	case OpTable:
		if lo == 0 || true {
			nv := make([]*big.Int, len(t.tab.vals))
			m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
			for i, v := range t.tab.vals {
				nv[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(lo)), m)
			}
			return c.Table(nv, w, t.args[0])
		}
	}
	if t.w <= 64 && lo > 0 && t.uhi>>uint(lo) == 0 {
		return c.Const(w, 0)
	}
	return c.intern(tkey{op: OpExtract, w: int32(w), a: t.id, hi: int32(hi), lo: int32(lo)}, func() *Term {
		return &Term{op: OpExtract, w: w, args: []*Term{t}, hi: int32(hi), lo: int32(lo)}
	})
}

func mergeConsts(ts []*Term) (*big.Int, int) {
	if len(ts) == 1 {
		return ts[0].bigVal(), ts[0].w
	}
	h := len(ts) / 2
	a, aw := mergeConsts(ts[:h])
	b, bw := mergeConsts(ts[h:])
	v := new(big.Int).Lsh(a, uint(bw))
	return v.Or(v, b), aw + bw
}

func (c *Ctx) Concat(parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		if p.op == OpConcat {
			fl = append(fl, p.args...)
		} else if p.w > 0 {
			fl = append(fl, p)
		}
	}
	var out []*Term
	for i := 0; i < len(fl); i++ {
		p := fl[i]
		if p.isConst() && i+1 < len(fl) && fl[i+1].isConst() {
			// a run of constants, merged pairwise so that long runs stay cheap
			j := i
			for j < len(fl) && fl[j].isConst() {
				j++
			}
			v, w := mergeConsts(fl[i:j])
			out = append(out, c.BigConst(w, v))
			i = j - 1
			continue
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			qb, qh, ql := asExtract(q)
			pb, ph, pl := asExtract(p)
			if qb == pb && ql == ph+1 {
				out[n-1] = c.Extract(qb, qh, pl)
				continue
			}
			// adjacent sign-extension copies of one bit
			if q.op == OpSExt && q.args[0].w == 1 {
				if p == q.args[0] || (p.op == OpSExt && p.args[0] == q.args[0]) {
					out[n-1] = c.SExt(q.args[0], q.w+p.w)
					continue
				}
			}
			if p.op == OpSExt && p.args[0].w == 1 && q == p.args[0] {
				out[n-1] = c.SExt(q, q.w+p.w)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w
	}
	return c.mk(OpConcat, w, out...)
}

func asExtract(t *Term) (*Term, int, int) {
	if t.op == OpExtract {
		return t.args[0], int(t.hi), int(t.lo)
	}
	return t, t.w - 1, 0
}

func (c *Ctx) ZExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	return c.Concat(c.Const(w-t.w, 0), t)
}

func (c *Ctx) topZero(t *Term) bool {
	switch t.op {
	case OpConcat:
		a := t.args[0]
		if a.isConst() {
			return a.bigVal().Bit(a.w-1) == 0
		}
		return c.topZero(a)
	case OpConst:
		return t.bigVal().Bit(t.w-1) == 0
	}
	if t.w <= 64 {
		return t.uhi < uint64(1)<<uint(t.w-1)
	}
	return false
}

func (c *Ctx) SExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	if t.isConst() {
		v := t.bigVal()
		if v.Bit(t.w-1) == 1 {
			v = new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
		}
		return c.BigConst(w, v)
	}
	if c.topZero(t) {
		return c.ZExt(t, w)
	}
	if t.op == OpSExt {
		return c.SExt(t.args[0], w)
	}
	if t.op == OpLin && w <= 64 && linExact(t) {
		// exact: extend every addend
		r := c.Const(w, uint64(sext64(t.u, t.w)))
		for i, a := range t.args {
			r = c.Add(r, c.MulC(c.SExt(a, w), uint64(sext64(t.coef[i], t.w))))
		}
		return r
	}
	return c.mk(OpSExt, w, t)
}

// segs splits a term into (msb first) pieces at the given boundaries helper
type seg struct {
	t *Term
}

func pieces(t *Term) []*Term {
	if t.op == OpConcat {
		return t.args
	}
	return []*Term{t}
}

// boundaries: set of bit positions (lo ends)
func cuts(ts ...*Term) []int {
	set := map[int]bool{}
	for _, t := range ts {
		pos := t.w
		for _, p := range pieces(t) {
			pos -= p.w
			set[pos] = true
		}
	}
	var out []int
	for k := range set {
		out = append(out, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(out)))
	return out
}

func (c *Ctx) Not(t *Term) *Term {
	if t.w == 0 {
		return c.BNot(t)
	}
	switch t.op {
	case OpConst:
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.w)), big.NewInt(1))
		return c.BigConst(t.w, new(big.Int).Xor(m, t.bigVal()))
	case OpNot:
		return t.args[0]
	case OpConcat:
		ps := make([]*Term, len(t.args))
		for i, p := range t.args {
			ps[i] = c.Not(p)
		}
		return c.Concat(ps...)
	}
	return c.mk(OpNot, t.w, t)
}

func (t *Term) isZero() bool {
	return t.op == OpConst && (t.w <= 64 && t.u == 0 || t.w > 64 && t.big.Sign() == 0)
}
func (t *Term) isOnes() bool {
	if t.op != OpConst {
		return false
	}
	if t.w <= 64 {
		return t.u == mask(t.w)
	}
	return t.big.BitLen() == t.w && new(big.Int).Add(t.big, big.NewInt(1)).TrailingZeroBits() == uint(t.w)
}

// maskRuns splits a constant into runs of equal bits, msb first.
func (c *Ctx) maskRuns(k *Term) []int {
	v := k.bigVal()
	var runs []int // lengths, alternating, starting with bit value of msb
	cur := v.Bit(k.w - 1)
	n := 0
	for i := k.w - 1; i >= 0; i-- {
		if v.Bit(i) == cur {
			n++
		} else {
			runs = append(runs, n)
			n = 1
			cur = v.Bit(i)
		}
	}
	return append(runs, n)
}

const maxRuns = 40

func (c *Ctx) And(a, b *Term) *Term {
	if a.w == 0 {
		return c.BAnd(a, b)
	}
	if a == b {
		return a
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if b.isConst() {
			return c.BigConst(a.w, new(big.Int).And(a.bigVal(), b.bigVal()))
		}
		if a.isZero() {
			return a
		}
		if a.isOnes() {
			return b
		}
		runs := c.maskRuns(a)
		if len(runs) <= maxRuns {
			bit := a.bigVal().Bit(a.w - 1)
			pos := a.w
			var ps []*Term
			for _, n := range runs {
				pos -= n
				if bit == 1 {
					ps = append(ps, c.Extract(b, pos+n-1, pos))
				} else {
					ps = append(ps, c.Const(n, 0))
				}
				bit ^= 1
			}
			return c.Concat(ps...)
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		return c.segwise(a, b, c.And)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, a.w, a, b)
}

func (c *Ctx) segwise(a, b *Term, f func(x, y *Term) *Term) *Term {
	cs := cuts(a, b)
	hi := a.w - 1
	var ps []*Term
	for _, lo := range cs {
		ps = append(ps, f(c.Extract(a, hi, lo), c.Extract(b, hi, lo)))
		hi = lo - 1
	}
	return c.Concat(ps...)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.w == 0 {
		return c.BOr(a, b)
	}
	if a == b {
		return a
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if b.isConst() {
			return c.BigConst(a.w, new(big.Int).Or(a.bigVal(), b.bigVal()))
		}
		if a.isZero() {
			return b
		}
		if a.isOnes() {
			return a
		}
		runs := c.maskRuns(a)
		if len(runs) <= maxRuns {
			bit := a.bigVal().Bit(a.w - 1)
			pos := a.w
			var ps []*Term
			for _, n := range runs {
				pos -= n
				if bit == 0 {
					ps = append(ps, c.Extract(b, pos+n-1, pos))
				} else {
					ps = append(ps, c.Not(c.Const(n, 0)))
				}
				bit ^= 1
			}
			return c.Concat(ps...)
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		return c.segwise(a, b, c.Or)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, a.w, a, b)
}

func (c *Ctx) Xor(ts ...*Term) *Term {
	w := ts[0].w
	if w == 0 {
		r := ts[0]
		for _, t := range ts[1:] {
			r = c.BNot(c.Eq(r, t))
		}
		return r
	}
	// flatten
	var fl []*Term
	acc := new(big.Int)
	cat := false
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.op == OpXor:
			for _, a := range t.args {
				add(a)
			}
		case t.isConst():
			acc.Xor(acc, t.bigVal())
		case t.op == OpNot:
			acc.Xor(acc, c.Not(c.Const(w, 0)).bigVal())
			add(t.args[0])
		default:
			if t.op == OpConcat {
				cat = true
			}
			fl = append(fl, t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	sortID(fl)
	var out []*Term
	for _, t := range fl {
		if n := len(out); n > 0 && out[n-1] == t {
			out = out[:n-1]
		} else {
			out = append(out, t)
		}
	}
	k := c.BigConst(w, acc)
	if len(out) == 0 {
		return k
	}
	if len(out) == 1 && k.isZero() {
		return out[0]
	}
	if w > 1 && (cat || (len(out) == 1 && !k.isZero() && !k.isOnes())) {
		// split at cuts (and at runs of the constant)
		set := map[int]bool{}
		for _, t := range out {
			for _, x := range cuts(t) {
				set[x] = true
			}
		}
		if !k.isZero() {
			pos := w
			runs := c.maskRuns(k)
			if len(runs) <= 64 {
				for _, n := range runs {
					pos -= n
					set[pos] = true
				}
			}
		}
		var cs []int
		for x := range set {
			cs = append(cs, x)
		}
		if len(cs) > 1 {
			sort.Sort(sort.Reverse(sort.IntSlice(cs)))
			hi := w - 1
			var ps []*Term
			for _, lo := range cs {
				var sub []*Term
				for _, t := range out {
					sub = append(sub, c.Extract(t, hi, lo))
				}
				sub = append(sub, c.Extract(k, hi, lo))
				ps = append(ps, c.Xor(sub...))
				hi = lo - 1
			}
			return c.Concat(ps...)
		}
	}
	if k.isOnes() {
		var r *Term
		if len(out) == 1 {
			r = out[0]
		} else {
			r = c.mk(OpXor, w, out...)
		}
		return c.Not(r)
	}
	if !k.isZero() {
		out = append(out, k)
	}
	return c.mk(OpXor, w, out...)
}

// ---------- arithmetic ----------

func (c *Ctx) mkLin(w int, m map[*Term]uint64, k uint64) *Term {
	k &= mask(w)
	var args []*Term
	for t, cf := range m {
		if cf&mask(w) != 0 {
			args = append(args, t)
		}
	}
	if len(args) == 0 {
		return c.Const(w, k)
	}
	sortID(args)
	coef := make([]uint64, len(args))
	var sb strings.Builder
	for i, a := range args {
		coef[i] = m[a] & mask(w)
		fmt.Fprintf(&sb, "%d*%d,", coef[i], a.id)
	}
	if len(args) == 1 && coef[0] == 1 && k == 0 {
		return args[0]
	}
	return c.intern(tkey{op: OpLin, w: int32(w), u: k, name: sb.String()}, func() *Term {
		return &Term{op: OpLin, w: w, args: args, coef: coef, u: k}
	})
}

func (c *Ctx) linInto(m map[*Term]uint64, k *uint64, t *Term, f uint64) {
	switch {
	case t.isConst():
		*k += t.u * f
	case t.op == OpLin:
		for i, a := range t.args {
			m[a] += t.coef[i] * f
		}
		*k += t.u * f
	default:
		m[t] += f
	}
}

// zero bits known below? number of trailing known-zero bits
func trailZeros(t *Term) int {
	if t.isConst() {
		v := t.bigVal()
		if v.Sign() == 0 {
			return t.w
		}
		return int(v.TrailingZeroBits())
	}
	if t.op == OpConcat {
		l := t.args[len(t.args)-1]
		return min(trailZeros(l), l.w)
	}
	return 0
}
func leadUsed(t *Term) int { // number of low bits possibly nonzero
	if t.isConst() {
		return t.bigVal().BitLen()
	}
	if t.op == OpConcat && t.args[0].isZero() {
		return t.w - t.args[0].w
	}
	if t.w <= 64 {
		return bits.Len64(t.uhi)
	}
	return t.w
}

func (c *Ctx) Add(a, b *Term) *Term {
	w := a.w
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	if a.isConst() && b.isConst() {
		return c.BigConst(w, new(big.Int).Add(a.bigVal(), b.bigVal()))
	}
	if leadUsed(a) <= trailZeros(b) || leadUsed(b) <= trailZeros(a) {
		return c.Or(a, b)
	}
	if w <= 64 {
		m := map[*Term]uint64{}
		var k uint64
		c.linInto(m, &k, a, 1)
		c.linInto(m, &k, b, 1)
		return c.mkLin(w, m, k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAdd, w, a, b)
}

func (c *Ctx) MulC(a *Term, f uint64) *Term {
	f &= mask(a.w)
	if f == 0 {
		return c.Const(a.w, 0)
	}
	if f == 1 {
		return a
	}
	if a.isConst() {
		return c.Const(a.w, a.u*f)
	}
	if a.w <= 64 {
		if f&(f-1) == 0 && a.op != OpLin {
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(f))))
		}
		m := map[*Term]uint64{}
		var k uint64
		c.linInto(m, &k, a, f)
		return c.mkLin(a.w, m, k)
	}
	return c.mk(OpMul, a.w, a, c.Const(a.w, f))
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.w <= 64 {
		if a.isConst() {
			return c.Const(a.w, -a.u)
		}
		// -(zext bit) is a sign extension of the bit
		if a.op == OpConcat && len(a.args) == 2 && a.args[0].isZero() && a.args[1].w == 1 {
			return c.SExt(a.args[1], a.w)
		}
		m := map[*Term]uint64{}
		var k uint64
		c.linInto(m, &k, a, ^uint64(0))
		return c.mkLin(a.w, m, k)
	}
	if a.isConst() {
		return c.BigConst(a.w, new(big.Int).Neg(a.bigVal()))
	}
	return c.Add(c.Not(a), c.Const(a.w, 1))
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.w <= 64 {
		if a.isConst() && b.isConst() {
			return c.Const(a.w, a.u-b.u)
		}
		if b.isZero() {
			return a
		}
		m := map[*Term]uint64{}
		var k uint64
		c.linInto(m, &k, a, 1)
		c.linInto(m, &k, b, ^uint64(0))
		return c.mkLin(a.w, m, k)
	}
	return c.Add(a, c.Neg(b))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BigConst(a.w, new(big.Int).Mul(a.bigVal(), b.bigVal()))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.isZero() {
			return a
		}
		v := a.bigVal()
		if v.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if tz := v.TrailingZeroBits(); int(tz)+1 == v.BitLen() {
			return c.Shl(b, c.Const(a.w, uint64(tz)))
		}
		if a.w <= 64 {
			return c.MulC(b, a.u)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpMul, a.w, a, b)
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && !b.isZero() {
		return c.BigConst(a.w, new(big.Int).Div(a.bigVal(), b.bigVal()))
	}
	if b.isConst() {
		v := b.bigVal()
		if tz := v.TrailingZeroBits(); v.Sign() > 0 && int(tz)+1 == v.BitLen() {
			return c.Lshr(a, c.Const(a.w, uint64(tz)))
		}
		if a.w <= 64 && a.uhi < b.u {
			return c.Const(a.w, 0)
		}
		if a.w <= 64 && a.slo >= 0 && b.sval() > 0 {
			if q, _, ok := c.linDivMod(a, b.sval()); ok {
				return q
			}
		}
	}
	return c.mk(OpUDiv, a.w, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && !b.isZero() {
		return c.BigConst(a.w, new(big.Int).Mod(a.bigVal(), b.bigVal()))
	}
	if b.isConst() {
		v := b.bigVal()
		if tz := v.TrailingZeroBits(); v.Sign() > 0 && int(tz)+1 == v.BitLen() {
			if tz == 0 {
				return c.Const(a.w, 0)
			}
			return c.ZExt(c.Extract(a, int(tz)-1, 0), a.w)
		}
		if a.w <= 64 && a.uhi < b.u {
			return a
		}
		if a.w <= 64 && a.slo >= 0 && b.sval() > 0 {
			if _, r, ok := c.linDivMod(a, b.sval()); ok {
				return r
			}
		}
	}
	return c.mk(OpURem, a.w, a, b)
}

// linDivMod: a = q*d + y with exact arithmetic, y's bounds within (-d, d): truncated quotient and remainder.
func (c *Ctx) linDivMod(a *Term, d int64) (q, r *Term, ok bool) {
	w := a.w
	if a.op != OpLin || !linExact(a) || d <= 1 {
		return nil, nil, false
	}
	qm := map[*Term]uint64{}
	ym := map[*Term]uint64{}
	for i, t := range a.args {
		cf := sext64(a.coef[i], w)
		if cf%d == 0 {
			qm[t] += uint64(cf / d)
		} else {
			ym[t] += uint64(cf)
		}
	}
	if len(qm) == 0 {
		return nil, nil, false
	}
	k := sext64(a.u, w)
	kq, kr := k/d, k%d
	if kr < 0 {
		kq--
		kr += d
	}
	qt := c.mkLin(w, qm, uint64(kq))
	yt := c.mkLin(w, ym, uint64(kr))
	if !linExact(qt) || !linExact(yt) {
		return nil, nil, false
	}
	if yt.slo <= -d || yt.shi >= 2*d {
		return nil, nil, false
	}
	D := c.Const(w, uint64(d))
	// normalise y into [0,d)
	if yt.shi >= d {
		over := c.BNot(c.Slt(yt, D))
		qt = c.Ite(over, c.Add(qt, c.Const(w, 1)), qt)
		yt = c.Ite(over, c.Sub(yt, D), yt)
		yt = c.clampBounds(yt, min(yt.slo, 0), d-1)
	}
	if yt.slo < 0 {
		neg := c.Slt(yt, c.Const(w, 0))
		qt = c.Ite(neg, c.Sub(qt, c.Const(w, 1)), qt)
		yt = c.Ite(neg, c.Add(yt, D), yt)
		yt = c.clampBounds(yt, 0, d-1)
	}
	// floor division result (qt, yt); truncate toward zero
	if a.slo >= 0 || yt.isZero() || qt.slo >= 0 {
		return qt, yt, true
	}
	adj := c.BAnd(c.Slt(qt, c.Const(w, 0)), c.BNot(c.Eq(yt, c.Const(w, 0))))
	return c.Ite(adj, c.Add(qt, c.Const(w, 1)), qt), c.Ite(adj, c.Sub(yt, D), yt), true
}

func (c *Ctx) clampBounds(t *Term, lo, hi int64) *Term {
	if t.op == OpIte && t.w <= 64 {
		// safe: interned term, bounds only ever tightened to proven facts
		if lo > t.slo {
			t.slo = lo
		}
		if hi < t.shi {
			t.shi = hi
		}
		if t.slo >= 0 {
			t.ulo, t.uhi = uint64(t.slo), uint64(t.shi)
		}
	}
	return t
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && !b.isZero() {
		if a.w <= 64 {
			x, y := a.sval(), b.sval()
			if y == -1 {
				return c.Neg(a)
			}
			return c.Const(a.w, uint64(x/y))
		}
		return c.BigConst(a.w, new(big.Int).Quo(signed(a), signed(b)))
	}
	if a.w <= 64 && b.isConst() && b.sval() > 0 {
		if b.u == 1 {
			return a
		}
		if a.slo >= 0 {
			return c.UDiv(a, b)
		}
		if q, _, ok := c.linDivMod(a, b.sval()); ok {
			return q
		}
	}
	return c.mk(OpSDiv, a.w, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && !b.isZero() {
		if a.w <= 64 {
			x, y := a.sval(), b.sval()
			if y == -1 {
				return c.Const(a.w, 0)
			}
			return c.Const(a.w, uint64(x%y))
		}
		return c.BigConst(a.w, new(big.Int).Rem(signed(a), signed(b)))
	}
	if a.w <= 64 && b.isConst() && b.sval() > 0 {
		if b.u == 1 {
			return c.Const(a.w, 0)
		}
		if a.slo >= 0 {
			return c.URem(a, b)
		}
		if _, r, ok := c.linDivMod(a, b.sval()); ok {
			return r
		}
	}
	return c.mk(OpSRem, a.w, a, b)
}

func signed(t *Term) *big.Int {
	v := t.bigVal()
	if v.Bit(t.w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
	}
	return v
}

// shifts: amount has the same width as a; amounts >= width give 0 / sign.
func (c *Ctx) Shl(a, n *Term) *Term {
	if n.isConst() {
		if n.bigVal().Cmp(big.NewInt(int64(a.w))) >= 0 {
			return c.Const(a.w, 0)
		}
		k := int(n.bigVal().Int64())
		if k == 0 {
			return a
		}
		if a.isConst() {
			return c.BigConst(a.w, new(big.Int).Lsh(a.bigVal(), uint(k)))
		}
		if a.op == OpLin {
			return c.MulC(a, uint64(1)<<uint(k))
		}
		return c.Concat(c.Extract(a, a.w-1-k, 0), c.Const(k, 0))
	}
	if a.isZero() {
		return a
	}
	return c.mk(OpShl, a.w, a, n)
}
func (c *Ctx) Lshr(a, n *Term) *Term {
	if n.isConst() {
		if n.bigVal().Cmp(big.NewInt(int64(a.w))) >= 0 {
			return c.Const(a.w, 0)
		}
		k := int(n.bigVal().Int64())
		if k == 0 {
			return a
		}
		return c.Concat(c.Const(k, 0), c.Extract(a, a.w-1, k))
	}
	if a.isZero() {
		return a
	}
	return c.mk(OpLshr, a.w, a, n)
}
func (c *Ctx) Ashr(a, n *Term) *Term {
	if n.isConst() {
		k := a.w - 1
		if n.bigVal().Cmp(big.NewInt(int64(a.w))) < 0 {
			k = int(n.bigVal().Int64())
		}
		if k == 0 {
			return a
		}
		return c.SExt(c.Extract(a, a.w-1, k), a.w)
	}
	if c.topZero(a) {
		return c.Lshr(a, n)
	}
	return c.mk(OpAshr, a.w, a, n)
}

// ---------- booleans ----------

func (c *Ctx) BNot(t *Term) *Term {
	if t.isConst() {
		return c.Bool(t.u == 0)
	}
	if t.op == OpBNot {
		return t.args[0]
	}
	if t.op == OpTable {
		nv := make([]*big.Int, len(t.tab.vals))
		for i, v := range t.tab.vals {
			nv[i] = big.NewInt(1 - v.Int64())
		}
		return c.Table(nv, 0, t.args[0])
	}
	return c.mk(OpBNot, 0, t)
}

func (c *Ctx) BAnd(ts ...*Term) *Term {
	var fl []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() {
			return false
		}
		if t.isTrue() || seen[t] {
			return true
		}
		if t.op == OpBAnd {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if t.op == OpBNot && seen[t.args[0]] {
			return false
		}
		if seen[c.BNot(t)] {
			return false
		}
		seen[t] = true
		fl = append(fl, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.False
		}
	}
	// merge predicate tables over one index
	if len(fl) > 1 {
		var first map[*Term]int
		merged := false
		var out []*Term
		for _, t := range fl {
			if t.op != OpTable {
				out = append(out, t)
				continue
			}
			if first == nil {
				first = map[*Term]int{}
			}
			i, ok := first[t.args[0]]
			if !ok {
				first[t.args[0]] = len(out)
				out = append(out, t)
				continue
			}
			o := out[i]
			if o.op != OpTable {
				out = append(out, t)
				continue
			}
			n := max(len(o.tab.vals), len(t.tab.vals))
			nv := make([]*big.Int, n)
			at := func(tb *ConstTab, k int) *big.Int {
				if k < len(tb.vals) {
					return tb.vals[k]
				}
				return tb.vals[0]
			}
			for k := range nv {
				nv[k] = new(big.Int).And(at(o.tab, k), at(t.tab, k))
			}
			merged = true
			out[i] = c.Table(nv, 0, o.args[0])
		}
		if merged {
			return c.BAnd(out...)
		}
	}
	if len(fl) == 0 {
		return c.True
	}
	if len(fl) == 1 {
		return fl[0]
	}
	sortID(fl)
	return c.mk(OpBAnd, 0, fl...)
}

func (c *Ctx) BOr(ts ...*Term) *Term {
	n := make([]*Term, len(ts))
	for i, t := range ts {
		n[i] = c.BNot(t)
	}
	return c.BNot(c.BAnd(n...))
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.BOr(cond, b)
		}
		if a.isFalse() {
			return c.BAnd(c.BNot(cond), b)
		}
		if b.isTrue() {
			return c.BOr(c.BNot(cond), a)
		}
		if b.isFalse() {
			return c.BAnd(cond, a)
		}
	}
	if cond.op == OpBNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(OpIte, a.w, cond, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.False // interned
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.BNot(a)
		}
		if a == c.BNot(b) {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OpEq, 0, a, b)
	}
	if a.w <= 64 && (a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo) {
		return c.False
	}
	if b.isConst() {
		switch a.op {
		case OpIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OpTable:
			nv := make([]*big.Int, len(a.tab.vals))
			bv := b.bigVal()
			for i, v := range a.tab.vals {
				nv[i] = big.NewInt(0)
				if v.Cmp(bv) == 0 {
					nv[i] = big.NewInt(1)
				}
			}
			return c.Table(nv, 0, a.args[0])
		case OpBitLen:
			x := a.args[0]
			k := int(b.u)
			if k > x.w {
				return c.False
			}
			if k == 0 {
				return c.Eq(x, c.Const(x.w, 0))
			}
			r := c.Eq(c.Extract(x, k-1, k-1), c.Const(1, 1))
			if k < x.w {
				r = c.BAnd(r, c.Eq(c.Extract(x, x.w-1, k), c.Const(x.w-k, 0)))
			}
			return r
		case OpNot:
			return c.Eq(a.args[0], c.Not(b))
		case OpExtract:
			// (bitlen(x)+k)>>s = const, as in byte-length computations
			if l := a.args[0]; a.w+int(a.lo) == l.w && b.u < 1<<40 && a.lo < 20 {
				var x *Term
				k := int64(0)
				if l.op == OpBitLen {
					x = l.args[0]
				} else if l.op == OpLin && len(l.args) == 1 && l.coef[0] == 1 && l.args[0].op == OpBitLen && l.u < 1<<20 {
					x = l.args[0].args[0]
					k = int64(l.u)
				}
				if x != nil {
					from := int64(b.u)<<uint(a.lo) - k
					to := (int64(b.u)+1)<<uint(a.lo) - k
					return c.BAnd(c.BNot(c.bitLenLT(x, int(from))), c.bitLenLT(x, int(to)))
				}
			}
		case OpSExt:
			in := a.args[0]
			lowc := c.Extract(b, in.w-1, 0)
			if c.SExt(lowc, a.w) != b {
				return c.False
			}
			return c.Eq(in, lowc)
		}
	}
	if a.w <= 64 && (a.op == OpLin || b.op == OpLin) {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.u == 0)
		}
		if d.op == OpLin && len(d.args) == 1 {
			switch d.coef[0] {
			case 1:
				return c.Eq(d.args[0], c.Const(d.w, -d.u))
			case mask(d.w):
				return c.Eq(d.args[0], c.Const(d.w, d.u))
			}
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		cs := cuts(a, b)
		if len(cs) > 1 {
			hi := a.w - 1
			var es []*Term
			for _, lo := range cs {
				e := c.Eq(c.Extract(a, hi, lo), c.Extract(b, hi, lo))
				if e.isFalse() {
					return e
				}
				es = append(es, e)
				hi = lo - 1
			}
			return c.BAnd(es...)
		}
	}
	if a.op == OpXor && !b.isConst() || b.op == OpXor && !a.isConst() {
		x := c.Xor(a, b)
		if x.isConst() {
			return c.Bool(x.isZero())
		}
		if x.op != OpXor && x.op != OpNot {
			return c.Eq(x, c.Const(x.w, 0))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, a, b)
}

// tabPred maps a table term through a predicate.
func (c *Ctx) tabPred(t *Term, f func(v *big.Int) bool) *Term {
	nv := make([]*big.Int, len(t.tab.vals))
	for i, v := range t.tab.vals {
		nv[i] = big.NewInt(0)
		if f(v) {
			nv[i] = big.NewInt(1)
		}
	}
	return c.Table(nv, 0, t.args[0])
}

func (c *Ctx) tabWord(t *Term, w int, f func(v uint64) uint64) *Term {
	nv := make([]*big.Int, len(t.tab.vals))
	for i, v := range t.tab.vals {
		nv[i] = new(big.Int).SetUint64(f(v.Uint64()) & mask(w))
	}
	return c.Table(nv, w, t.args[0])
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.bigVal().Cmp(b.bigVal()) < 0)
	}
	if a.op == OpTable && b.isConst() {
		return c.tabPred(a, func(v *big.Int) bool { return v.Cmp(b.bigVal()) < 0 })
	}
	if b.op == OpTable && a.isConst() {
		return c.tabPred(b, func(v *big.Int) bool { return a.bigVal().Cmp(v) < 0 })
	}
	if a.w <= 64 {
		if a.uhi < b.ulo {
			return c.True
		}
		if a.ulo >= b.uhi {
			return c.False
		}
	}
	if b.isZero() {
		return c.False
	}
	if b.isConst() {
		if a.op == OpBitLen {
			return c.bitLenLT(a.args[0], int(min(b.u, uint64(a.args[0].w+1))))
		}
		if b.w <= 64 && b.u == 1 || b.w > 64 && b.big.Cmp(big.NewInt(1)) == 0 {
			return c.Eq(a, c.Const(a.w, 0))
		}
	}
	if a.w <= 64 {
		// x/k < n  <=>  x < n*k, and n < x/k  <=>  x >= (n+1)*k
		if a.op == OpUDiv && b.isConst() && a.args[1].isConst() && a.args[1].u > 0 {
			if n := new(big.Int).Mul(b.bigVal(), a.args[1].bigVal()); n.BitLen() > a.w {
				return c.True
			} else {
				return c.Ult(a.args[0], c.BigConst(a.w, n))
			}
		}
		if b.op == OpUDiv && a.isConst() && b.args[1].isConst() && b.args[1].u > 0 {
			n := new(big.Int).Mul(new(big.Int).Add(a.bigVal(), big.NewInt(1)), b.args[1].bigVal())
			if n.BitLen() > a.w {
				return c.False
			}
			return c.BNot(c.Ult(b.args[0], c.BigConst(a.w, n)))
		}
	}
	if a.isConst() && b.op == OpBitLen {
		return c.BNot(c.bitLenLT(b.args[0], int(min(a.u+1, uint64(b.args[0].w+1)))))
	}
	// common zero prefix
	if a.op == OpConcat && a.args[0].isZero() {
		z := a.args[0].w
		if b.isConst() {
			if leadUsed(b) > a.w-z {
				return c.True
			}
			return c.Ult(c.Extract(a, a.w-z-1, 0), c.Extract(b, a.w-z-1, 0))
		}
		if b.op == OpConcat && b.args[0].isZero() {
			if b.args[0].w < z {
				z = b.args[0].w
			}
			return c.Ult(c.Extract(a, a.w-z-1, 0), c.Extract(b, a.w-z-1, 0))
		}
	}
	if a.isConst() && b.op == OpConcat && b.args[0].isZero() {
		z := b.args[0].w
		if leadUsed(a) > a.w-z {
			return c.False
		}
		return c.Ult(c.Extract(a, a.w-z-1, 0), c.Extract(b, a.w-z-1, 0))
	}
	return c.mk(OpUlt, 0, a, b)
}

// bitLenLT: bitlen(x) < k
func (c *Ctx) bitLenLT(x *Term, k int) *Term {
	if k <= 0 {
		return c.False
	}
	if k > x.w {
		return c.True
	}
	return c.Eq(c.Extract(x, x.w-1, k-1), c.Const(x.w-k+1, 0))
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(signed(a).Cmp(signed(b)) < 0)
	}
	if a.w <= 64 {
		if a.op == OpTable && b.isConst() {
			return c.tabPred(a, func(v *big.Int) bool { return sext64(v.Uint64(), a.w) < b.sval() })
		}
		if b.op == OpTable && a.isConst() {
			return c.tabPred(b, func(v *big.Int) bool { return a.sval() < sext64(v.Uint64(), b.w) })
		}
	}
	if a.w <= 64 {
		if a.shi < b.slo {
			return c.True
		}
		if a.slo >= b.shi {
			return c.False
		}
		if a.slo >= 0 && b.slo >= 0 {
			return c.Ult(a, b)
		}
		// compare exact linear forms without overflow: x + k < y  ==> shift the constant
		if a.op == OpLin && b.isConst() && linExact(a) && len(a.args) == 1 && a.coef[0] == 1 {
			if nb := new(big.Int).Sub(big.NewInt(b.sval()), big.NewInt(sext64(a.u, a.w))); nb.IsInt64() && a.w == 64 {
				return c.Slt(a.args[0], c.Const(64, uint64(nb.Int64())))
			}
		}
		if b.op == OpLin && a.isConst() && linExact(b) && len(b.args) == 1 && b.coef[0] == 1 {
			if na := new(big.Int).Sub(big.NewInt(a.sval()), big.NewInt(sext64(b.u, b.w))); na.IsInt64() && a.w == 64 {
				return c.Slt(c.Const(64, uint64(na.Int64())), b.args[0])
			}
		}
	} else if c.topZero(a) && c.topZero(b) {
		return c.Ult(a, b)
	}
	if b.isZero() {
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.Const(1, 1))
	}
	return c.mk(OpSlt, 0, a, b)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.BNot(c.Ult(b, a)) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.BNot(c.Slt(b, a)) }

// BitLen of an unsigned value, as a 64-bit term.
func (c *Ctx) BitLen(x *Term) *Term {
	for x.op == OpConcat && x.args[0].isZero() {
		x = c.Extract(x, x.w-x.args[0].w-1, 0)
	}
	if x.isConst() {
		return c.Const(64, uint64(x.bigVal().BitLen()))
	}
	// leading constant with a one bit: fixed length
	if x.op == OpConcat && x.args[0].isConst() && !x.args[0].isZero() {
		a := x.args[0]
		return c.Const(64, uint64(x.w-a.w+a.bigVal().BitLen()))
	}
	return c.mk(OpBitLen, 64, x)
}

// App is an uninterpreted function application with result width w.
func (c *Ctx) App(name string, w int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	return c.intern(tkey{op: OpApp, w: int32(w), name: sb.String()}, func() *Term {
		return &Term{op: OpApp, w: w, name: name, args: append([]*Term(nil), args...)}
	})
}

// Table: vals[idx], w==0 for a predicate. len(vals) need not cover all of idx's range; missing = vals[0].
func (c *Ctx) Table(vals []*big.Int, w int, idx *Term) *Term {
	if idx.isConst() {
		i := int(idx.bigVal().Int64())
		v := vals[0]
		if i < len(vals) {
			v = vals[i]
		}
		if w == 0 {
			return c.Bool(v.Sign() != 0)
		}
		return c.BigConst(w, v)
	}
	// strip leading zeros of idx
	for idx.op == OpConcat && idx.args[0].isZero() {
		idx = c.Extract(idx, idx.w-idx.args[0].w-1, 0)
	}
	if idx.isConst() {
		return c.Table(vals, w, idx)
	}
	// table of a table: compose
	if idx.op == OpTable {
		nv := make([]*big.Int, len(idx.tab.vals))
		for i, v := range idx.tab.vals {
			nv[i] = vals[0]
			if v.IsInt64() && v.Int64() < int64(len(vals)) {
				nv[i] = vals[v.Int64()]
			}
		}
		return c.Table(nv, w, idx.args[0])
	}
	if idx.w <= 64 {
		if n := bits.Len64(idx.uhi); n < idx.w && n > 0 {
			idx = c.Extract(idx, n-1, 0)
		}
	}
	same := true
	limit := len(vals)
	if idx.w < 31 && 1<<uint(idx.w) < limit {
		limit = 1 << uint(idx.w)
	}
	vals = vals[:limit]
	if idx.w <= 64 && idx.uhi < uint64(len(vals)-1) {
		vals = vals[:idx.uhi+1]
	}
	for _, v := range vals {
		if v.Cmp(vals[0]) != 0 {
			same = false
			break
		}
	}
	if same {
		if w == 0 {
			return c.Bool(vals[0].Sign() != 0)
		}
		return c.BigConst(w, vals[0])
	}
	if w > 0 {
		ident := true
		for i, v := range vals {
			if !v.IsInt64() || v.Int64() != int64(i) {
				ident = false
				break
			}
		}
		if ident && (idx.w <= 64 && idx.uhi < uint64(len(vals))) {
			return c.ZExt(idx, w)
		}
		// GF(2)-affine table
		if n := idx.w; n <= 16 && len(vals) == 1<<uint(n) && n > 1 && w <= 64 {
			aff := true
			v0 := vals[0].Uint64()
			for i := 1; i < len(vals) && aff; i++ {
				low := i & -i
				if i == low {
					continue
				}
				if vals[i].Uint64() != vals[i^low].Uint64()^vals[low].Uint64()^v0 {
					aff = false
				}
			}
			if aff {
				ts := []*Term{c.Const(w, v0)}
				for b := 0; b < n; b++ {
					m := vals[1<<uint(b)].Uint64() ^ v0
					ts = append(ts, c.And(c.Const(w, m), c.SExt(c.Extract(idx, b, b), w)))
				}
				return c.Xor(ts...)
			}
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:%d:", idx.w, w)
	for _, v := range vals {
		sb.WriteString(v.Text(62))
		sb.WriteByte(',')
	}
	key := sb.String()
	tb := c.tabs[key]
	if tb == nil {
		c.nTabs++
		tb = &ConstTab{id: c.nTabs, idxW: idx.w, w: w, vals: append([]*big.Int(nil), vals...), key: key}
		c.tabs[key] = tb
	}
	return c.intern(tkey{op: OpTable, w: int32(w), a: idx.id, hi: int32(tb.id)}, func() *Term {
		return &Term{op: OpTable, w: w, args: []*Term{idx}, tab: tb}
	})
}
