package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program:
//
//	*Term            integers and booleans
//	Float            floating point
//	string           concrete string
//	*SymStr          string of concrete length with symbolic bytes
//	*TabStr          one of a table of concrete strings, chosen by a symbolic index
//	*Rope            concatenation of the above and of opaque pieces
//	Slice            Go slice (nil slice = Slice(nil))
//	Struct, Array    aggregates (copied on load and store)
//	*Value           pointer
//	*SymPtr          pointer to a symbolically indexed element
//	SeqPtr           unsafe.SliceData / unsafe.StringData
//	Iface, *Closure, *MapVal, *ChanVal, Tuple
//	*BigVal          math/big.Int
//	TimeVal          time.Time
//	Poison           result of an initialiser that could not be evaluated
type Value any

type Struct []Value
type Array []Value
type Tuple []Value
type Slice []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn      *ssa.Function
	env     []Value
	builtin *ssa.Builtin
	native  func(m *Machine, args []Value) Value
}

type SymPtr struct {
	seq []Value
	idx *Term
}

type SeqPtr struct{ seq []Value }

type SymStr struct{ b []*Term }

type TabStr struct {
	tab *StrTab
	idx *Term
}

type StrTab struct {
	vals []string
	inj  int // 0 unknown, 1 injective, 2 not
	key  string
}

type Opaque struct {
	what string
	args []Value
}

type Rope struct{ parts []Value }

type Float struct {
	f    float64
	sec  *Term // when non-nil: the value is sec + nsec/1e9
	nsec *Term
}

type Poison struct{ why string }

type BigVal struct {
	neg *Term // Bool
	mag *Term // width >= 1
}

type TimeVal struct {
	sec  *Term // unix seconds, 64 bit
	nsec *Term // 64 bit, [0,1e9)
	loc  *LocVal
}

// LocVal stands for a *time.Location.
type LocVal struct {
	name string
	off  int
}

type mapEntry struct {
	k, v Value
	del  bool
}

type MapVal struct {
	ents      []*mapEntry
	idx       map[any]int // concrete key -> entry
	count     int
	kt        types.Type
	frozenTab map[string]*mapTabs
}

type mapTabs struct {
	ok   []*big.Int
	vals []*big.Int
	raw  []Value
}

type ChanVal struct {
	cap    int
	buf    []Value
	closed bool
	recvq  int
	et     types.Type
}

// ---------- zero values and copies ----------

func under(t types.Type) types.Type { return t.Underlying() }

func intWidth(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func opaqueNamed(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() {
	case "math/big":
		if n.Obj().Name() == "Int" {
			return "big"
		}
	case "time":
		if n.Obj().Name() == "Time" {
			return "time"
		}
	}
	return ""
}

func (m *Machine) zero(t types.Type) Value {
	switch opaqueNamed(t) {
	case "big":
		return m.bigZero()
	case "time":
		return m.timeZero()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return m.c.False
		}
		if w, _, ok := intWidth(u); ok {
			return m.c.Const(w, 0)
		}
		if u.Info()&types.IsFloat != 0 {
			return Float{}
		}
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			z := m.zero(u.Elem())
			a[0] = z
			_, agg1 := z.(Struct)
			_, agg2 := z.(Array)
			for i := 1; i < n; i++ {
				if agg1 || agg2 {
					a[i] = m.zero(u.Elem())
				} else {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapVal)(nil)
	case *types.Chan:
		return (*ChanVal)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = m.zero(u.At(i).Type())
		}
		return tt
	}
	return Poison{"zero of " + t.String()}
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		s := make(Struct, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	case Array:
		s := make(Array, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	}
	return v
}

// ---------- strings ----------

func mkSymStr(c *Ctx, b []*Term) Value {
	conc := true
	for _, t := range b {
		if !t.isConst() {
			conc = false
			break
		}
	}
	if conc {
		s := make([]byte, len(b))
		for i, t := range b {
			s[i] = byte(t.u)
		}
		return string(s)
	}
	return &SymStr{b}
}

func (m *Machine) bytesOfString(s string) []*Term {
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = m.byteT[s[i]]
	}
	return b
}

func (t *StrTab) injective() bool {
	if t.inj == 0 {
		seen := make(map[string]bool, len(t.vals))
		t.inj = 1
		for _, s := range t.vals {
			if seen[s] {
				t.inj = 2
				break
			}
			seen[s] = true
		}
	}
	return t.inj == 1
}

func (m *Machine) strTab(vals []string) *StrTab {
	key := strings.Join(vals, "\x00")
	if t, ok := m.strTabs[key]; ok {
		return t
	}
	t := &StrTab{vals: vals, key: key}
	m.strTabs[key] = t
	return t
}

// mkTabStr builds vals[idx]; the caller guarantees idx < len(vals).
func (m *Machine) mkTabStr(tab *StrTab, idx *Term) Value {
	if idx.isConst() {
		return tab.vals[idx.u]
	}
	if idx.w <= 64 && idx.ulo == idx.uhi {
		return tab.vals[idx.ulo]
	}
	return &TabStr{tab, idx}
}

func (m *Machine) tabMap(t *TabStr, key string, f func(string) string) Value {
	ck := tabMapKey{t.tab, key}
	nt, ok := m.tabMaps[ck]
	if !ok {
		vals := make([]string, len(t.tab.vals))
		same := true
		for i, s := range t.tab.vals {
			vals[i] = f(s)
			if vals[i] != s {
				same = false
			}
		}
		if same {
			nt = t.tab
		} else {
			nt = m.strTab(vals)
		}
		m.tabMaps[ck] = nt
	}
	if nt == t.tab {
		return t
	}
	return m.mkTabStr(nt, t.idx)
}

type tabMapKey struct {
	t *StrTab
	k string
}

func (m *Machine) tabInt(t *TabStr, w int, f func(string) int64) *Term {
	vals := make([]*big.Int, len(t.tab.vals))
	for i, s := range t.tab.vals {
		vals[i] = new(big.Int).And(big.NewInt(f(s)), new(big.Int).SetUint64(mask(w)))
	}
	return m.c.Table(vals, w, t.idx)
}

func (m *Machine) tabPred(t *TabStr, f func(string) bool) *Term {
	vals := make([]*big.Int, len(t.tab.vals))
	for i, s := range t.tab.vals {
		vals[i] = big0
		if f(s) {
			vals[i] = big1
		}
	}
	return m.c.Table(vals, 0, t.idx)
}

var big0, big1 = big.NewInt(0), big.NewInt(1)

// strLen returns the length as a 64-bit term.
func (m *Machine) strLen(v Value) *Term {
	switch s := v.(type) {
	case string:
		return m.c.Const(64, uint64(len(s)))
	case *SymStr:
		return m.c.Const(64, uint64(len(s.b)))
	case *TabStr:
		return m.tabInt(s, 64, func(x string) int64 { return int64(len(x)) })
	case *Rope:
		t := m.c.Const(64, 0)
		for _, p := range s.parts {
			t = m.c.Add(t, m.strLen(p))
		}
		return t
	case *Opaque:
		v := m.concretizeOpaque(s)
		return m.strLen(v)
	}
	m.unsupported("len of %T", v)
	return nil
}

// strBytes resolves a string to a concrete number of byte terms (forking on the length if needed).
func (m *Machine) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		return m.bytesOfString(s)
	case *SymStr:
		return s.b
	case *TabStr:
		n := int(m.concretize(m.strLen(s)).Int64())
		out := make([]*Term, n)
		for i := range out {
			out[i] = m.tabInt(s, 8, func(x string) int64 {
				if i < len(x) {
					return int64(x[i])
				}
				return 0
			})
		}
		return out
	case *Rope:
		var out []*Term
		for _, p := range s.parts {
			out = append(out, m.strBytes(p)...)
		}
		return out
	case *Opaque:
		return m.strBytes(m.concretizeOpaque(s))
	}
	m.unsupported("string bytes of %T", v)
	return nil
}

func (m *Machine) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	flat := func(v Value) ([]*Term, bool) {
		switch s := v.(type) {
		case string:
			return m.bytesOfString(s), true
		case *SymStr:
			return s.b, true
		}
		return nil, false
	}
	if x, ok := flat(a); ok {
		if y, ok := flat(b); ok {
			return mkSymStr(m.c, append(append([]*Term(nil), x...), y...))
		}
	}
	var parts []Value
	add := func(v Value) {
		if r, ok := v.(*Rope); ok {
			parts = append(parts, r.parts...)
		} else {
			parts = append(parts, v)
		}
	}
	add(a)
	n := len(parts)
	add(b)
	// merge adjacent concrete pieces
	if n > 0 && n < len(parts) {
		if x, ok := parts[n-1].(string); ok {
			if y, ok := parts[n].(string); ok {
				parts[n-1] = x + y
				parts = append(parts[:n], parts[n+1:]...)
			}
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return &Rope{parts}
}

func (m *Machine) strEq(a, b Value) *Term {
	if a == b {
		return m.c.True
	}
	if x, ok := a.(string); ok {
		switch y := b.(type) {
		case string:
			return m.c.Bool(x == y)
		case *TabStr:
			return m.tabPred(y, func(s string) bool { return s == x })
		}
	}
	if y, ok := b.(string); ok {
		if x, ok := a.(*TabStr); ok {
			return m.tabPred(x, func(s string) bool { return s == y })
		}
	}
	if x, ok := a.(*TabStr); ok {
		if y, ok := b.(*TabStr); ok && x.tab == y.tab && x.tab.injective() {
			w := max(x.idx.w, y.idx.w)
			return m.c.Eq(m.c.ZExt(x.idx, w), m.c.ZExt(y.idx, w))
		}
	}
	if x, y, changed := m.stripCommon(a, b); changed {
		return m.strEq(x, y)
	}
	if !m.hasOpaque(a) && !m.hasOpaque(b) {
		// quick length mismatch without forking
		le := m.c.Eq(m.strLen(a), m.strLen(b))
		if le.isFalse() {
			return m.c.False
		}
		if !le.isTrue() {
			if !m.decide(le) {
				return m.c.False
			}
		}
	} else {
		ra, ok1 := a.(*Rope)
		rb, ok2 := b.(*Rope)
		if ok1 && ok2 && len(ra.parts) == len(rb.parts) {
			same := true
			for i := range ra.parts {
				if !valueSame(ra.parts[i], rb.parts[i]) {
					same = false
				}
			}
			if same {
				return m.c.True
			}
		}
	}
	return m.bytesEq(m.strBytes(a), m.strBytes(b))
}

// stripCommon removes equal pieces at both ends when at least one of the strings is a rope.
func (m *Machine) stripCommon(a, b Value) (Value, Value, bool) {
	_, r1 := a.(*Rope)
	_, r2 := b.(*Rope)
	if !r1 && !r2 {
		return a, b, false
	}
	p, q := append([]Value(nil), m.parts(a)...), append([]Value(nil), m.parts(b)...)
	changed := false
	for len(p) > 0 && len(q) > 0 {
		if valueSame(p[0], q[0]) {
			p, q, changed = p[1:], q[1:], true
			continue
		}
		x, ok1 := p[0].(string)
		y, ok2 := q[0].(string)
		if !ok1 || !ok2 {
			break
		}
		n := 0
		for n < len(x) && n < len(y) && x[n] == y[n] {
			n++
		}
		if n == len(x) && n > 0 {
			p, q[0], changed = p[1:], y[n:], true
		} else if n == len(y) && n > 0 {
			q, p[0], changed = q[1:], x[n:], true
		} else {
			break
		}
	}
	for len(p) > 0 && len(q) > 0 {
		i, j := len(p)-1, len(q)-1
		if valueSame(p[i], q[j]) {
			p, q, changed = p[:i], q[:j], true
			continue
		}
		x, ok1 := p[i].(string)
		y, ok2 := q[j].(string)
		if !ok1 || !ok2 {
			break
		}
		n := 0
		for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
			n++
		}
		if n == len(x) && n > 0 {
			p, q[j], changed = p[:i], y[:len(y)-n], true
		} else if n == len(y) && n > 0 {
			q, p[i], changed = q[:j], x[:len(x)-n], true
		} else {
			break
		}
	}
	if !changed {
		return a, b, false
	}
	join := func(ps []Value) Value {
		var out Value = ""
		for _, x := range ps {
			out = m.strConcat(out, x)
		}
		return out
	}
	return join(p), join(q), true
}

func valueSame(a, b Value) bool {
	switch x := a.(type) {
	case *Opaque:
		y, ok := b.(*Opaque)
		if !ok || x.what != y.what || len(x.args) != len(y.args) {
			return false
		}
		for i := range x.args {
			if !valueSame(x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	case *TabStr:
		y, ok := b.(*TabStr)
		return ok && x.tab == y.tab && x.idx == y.idx
	case *SymStr:
		y, ok := b.(*SymStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case string, *Term, Float:
		return a == b
	case TimeVal:
		y, ok := b.(TimeVal)
		return ok && x == y
	}
	return false
}

func (m *Machine) hasOpaque(v Value) bool {
	switch s := v.(type) {
	case *Opaque:
		return true
	case *Rope:
		for _, p := range s.parts {
			if m.hasOpaque(p) {
				return true
			}
		}
	}
	return false
}

func (m *Machine) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return m.c.False
	}
	if len(a) == 0 {
		return m.c.True
	}
	cs := make([]*Term, 0, len(a))
	for i := range a {
		e := m.c.Eq(a[i], b[i])
		if e.isFalse() {
			return e
		}
		if !e.isTrue() {
			cs = append(cs, e)
		}
	}
	if len(cs) == 0 {
		return m.c.True
	}
	// one wide comparison keeps terms small
	return m.c.Eq(m.c.Concat(a...), m.c.Concat(b...))
}

// strLess: lexicographic a < b
func (m *Machine) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		switch y := b.(type) {
		case string:
			return m.c.Bool(x < y)
		case *TabStr:
			return m.tabPred(y, func(s string) bool { return x < s })
		}
	}
	if y, ok := b.(string); ok {
		if x, ok := a.(*TabStr); ok {
			return m.tabPred(x, func(s string) bool { return s < y })
		}
	}
	x, y := m.strBytes(a), m.strBytes(b)
	n := min(len(x), len(y))
	if n == 0 {
		return m.c.Bool(len(x) < len(y))
	}
	cx, cy := m.c.Concat(x[:n]...), m.c.Concat(y[:n]...)
	lt := m.c.Ult(cx, cy)
	if len(x) < len(y) {
		return m.c.BOr(lt, m.c.Eq(cx, cy))
	}
	return lt
}

func (m *Machine) concString(v Value) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *Rope:
		var sb strings.Builder
		for _, p := range s.parts {
			x, ok := m.concString(p)
			if !ok {
				return "", false
			}
			sb.WriteString(x)
		}
		return sb.String(), true
	}
	return "", false
}

// mustString concretises a string (forking).
func (m *Machine) mustString(v Value) string {
	if s, ok := m.concString(v); ok {
		return s
	}
	if t, ok := v.(*TabStr); ok {
		i := m.concretize(t.idx)
		return t.tab.vals[i.Int64()]
	}
	b := m.strBytes(v)
	out := make([]byte, len(b))
	for i, t := range b {
		out[i] = byte(m.concretize(t).Uint64())
	}
	return string(out)
}

func (m *Machine) sliceBytes(s Slice) []*Term {
	out := make([]*Term, len(s))
	for i, v := range s {
		t, ok := v.(*Term)
		if !ok {
			m.unsupported("byte slice element %T", v)
		}
		out[i] = t
	}
	return out
}

func termsToSlice(b []*Term) Slice {
	s := make(Slice, len(b))
	for i, t := range b {
		s[i] = t
	}
	return s
}

func (m *Machine) concBytes(b []*Term) ([]byte, bool) {
	out := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.u)
	}
	return out, true
}

func typeName(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (p Poison) String() string { return "poison(" + p.why + ")" }

func describe(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			if x.w == 0 {
				return fmt.Sprint(x.u == 1)
			}
			return x.bigVal().String()
		}
		return "<sym>"
	case string:
		return x
	case *TabStr:
		return fmt.Sprintf("<one of %d strings>", len(x.tab.vals))
	case *Rope:
		var sb strings.Builder
		for _, p := range x.parts {
			sb.WriteString(describe(p))
		}
		return sb.String()
	case *SymStr:
		return fmt.Sprintf("<%d bytes>", len(x.b))
	case Slice:
		var sb strings.Builder
		for i, p := range x {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(describe(p))
		}
		return "[" + sb.String() + "]"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return typeName(x.t) + "(" + describe(x.v) + ")"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + describe(*x)
	case Struct:
		parts := make([]string, len(x))
		for i := range x {
			parts[i] = describe(x[i])
		}
		return "{" + strings.Join(parts, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}
