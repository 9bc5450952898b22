package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// growCap asks the real runtime for the capacity append would allocate.
func growCap(oldCap, newLen, elemSize int) int {
	if elemSize <= 0 {
		elemSize = 1
	}
	if newLen <= oldCap {
		return oldCap
	}
	k := growKey{oldCap, newLen, elemSize}
	growMu.Lock()
	defer growMu.Unlock()
	if v, ok := growCache[k]; ok {
		return v
	}
	t := reflect.SliceOf(reflect.ArrayOf(elemSize, reflect.TypeOf(byte(0))))
	s := reflect.MakeSlice(t, oldCap, oldCap)
	add := reflect.MakeSlice(t, newLen-oldCap, newLen-oldCap)
	s = reflect.AppendSlice(s, add)
	growCache[k] = s.Cap()
	return s.Cap()
}

func (m *Machine) elemSize(t types.Type) int {
	return int(m.prog.sizes.Sizeof(t))
}

func (m *Machine) appendVals(s Slice, vals []Value, et types.Type) Slice {
	n := len(s) + len(vals)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range vals {
			m.store(&r[len(s)+i], copyVal(v))
		}
		return r
	}
	es := 16
	if et != nil {
		es = m.elemSize(et)
	}
	cp := growCap(cap(s), n, es)
	r := make(Slice, n, cp)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range vals {
		r[len(s)+i] = copyVal(v)
	}
	if cp > n {
		var z Value
		if et != nil {
			z = m.zero(et)
		}
		full := r[:cp]
		for i := n; i < cp; i++ {
			full[i] = copyVal(z)
		}
	}
	return r
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Value, site ssa.CallInstruction) Value {
	for i, a := range args {
		l, ok := a.(*LazyBytes)
		if !ok {
			continue
		}
		if l.forced == nil {
			switch b.Name() {
			case "len", "cap":
				return m.strLen(l.str)
			case "append":
				if len(args) == 2 {
					return m.lazyAppend(args[0], args[1])
				}
				return l
			}
		}
		args[i] = m.force(l)
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return m.c.Const(64, uint64(len(x)))
		case Array:
			return m.c.Const(64, uint64(len(x)))
		case *Value:
			if a, ok := (*x).(Array); ok {
				return m.c.Const(64, uint64(len(a)))
			}
		case *MapVal:
			if x == nil {
				return m.c.Const(64, 0)
			}
			return m.c.Const(64, uint64(x.count))
		case *ChanVal:
			if x == nil {
				return m.c.Const(64, 0)
			}
			return m.c.Const(64, uint64(len(x.buf)))
		case string, *SymStr, *TabStr, *Rope, *Opaque:
			return m.strLen(x)
		case Poison:
			m.unsupported("len of %s", x)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.c.Const(64, uint64(cap(x)))
		case Array:
			return m.c.Const(64, uint64(len(x)))
		case *ChanVal:
			return m.c.Const(64, uint64(x.cap))
		case *Value:
			if a, ok := (*x).(Array); ok {
				return m.c.Const(64, uint64(len(a)))
			}
		}
	case "append":
		var et types.Type
		if st, ok := b.Type().(*types.Signature); ok && st.Params().Len() > 0 {
			if s, ok := st.Params().At(0).Type().Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		if len(args) == 1 {
			return args[0]
		}
		s, ok := args[0].(Slice)
		if !ok {
			m.unsupported("append to %T", args[0])
		}
		if _, isSl := args[1].(Slice); !isSl && m.isLazyStr(args[1]) {
			return m.lazyAppend(args[0], args[1])
		}
		switch y := args[1].(type) {
		case Slice:
			if len(y) == 0 {
				return s
			}
			return m.appendVals(s, y, et)
		case string, *SymStr, *TabStr, *Rope, *Opaque:
			return m.appendVals(s, termsToSlice(m.strBytes(y)), et)
		default:
			m.unsupported("append of %T", y)
		}
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			m.unsupported("copy to %T", args[0])
		}
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case string, *SymStr, *TabStr, *Rope, *Opaque:
			src = termsToSlice(m.strBytes(y))
		default:
			m.unsupported("copy from %T", y)
		}
		n := min(len(d), len(src))
		if n > 0 {
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				m.store(&d[i], tmp[i])
			}
		}
		return m.c.Const(64, uint64(n))
	case "delete":
		m.mapDelete(args[0], args[1])
		return nil
	case "close":
		ch := args[0].(*ChanVal)
		if ch == nil {
			m.targetRuntime("close of nil channel")
		}
		if ch.closed {
			m.targetRuntime("close of closed channel")
		}
		ch.closed = true
		m.yieldPoint("close")
		return nil
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		// fr is the deferred function's frame's caller chain: recover works in the frame that defers
		f := fr
		if f != nil {
			f = f.caller
		}
		if f != nil && f.panicking {
			f.panicking = false
			v := f.panicVal.v
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{types.Typ[types.String], v}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				sg := isSigned(site.Common().Args[0].Type())
				var lt *Term
				if sg {
					lt = m.c.Slt(y, x)
				} else {
					lt = m.c.Ult(y, x)
				}
				if b.Name() == "min" {
					r = m.c.Ite(lt, y, x)
				} else {
					r = m.c.Ite(lt, x, y)
				}
			case Float:
				y := m.floatConc(a.(Float))
				xf := m.floatConc(x)
				if (b.Name() == "min") == (y < xf) {
					r = Float{f: y}
				} else {
					r = Float{f: xf}
				}
			default:
				lt := m.decide(m.strLess(a, r))
				if lt == (b.Name() == "min") {
					r = a
				}
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case Slice:
			st := site.Common().Args[0].Type().Underlying().(*types.Slice)
			for i := range x {
				m.store(&x[i], m.zero(st.Elem()))
			}
			return nil
		case *MapVal:
			if x != nil {
				for _, e := range x.ents {
					if !e.del {
						m.mapDelete(x, e.k)
					}
				}
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.targetRuntime(fmt.Sprintf("value method %v.%v called using nil pointer", describe(args[1]), describe(args[2])))
		}
		return args[0]
	case "String": // unsafe.String
		n := m.concInt(m.asTerm(args[1]))
		switch p := args[0].(type) {
		case SeqPtr:
			return mkSymStr(m.c, m.sliceBytes(Slice(p.seq[:n])))
		case *Value:
			if n == 0 {
				return ""
			}
			if n == 1 {
				return mkSymStr(m.c, []*Term{m.asTerm(*p)})
			}
		}
		m.unsupported("unsafe.String of %T", args[0])
	case "StringData":
		return SeqPtr{termsToSlice(m.strBytes(args[0]))}
	case "SliceData":
		s := args[0].(Slice)
		return SeqPtr{s[:cap(s)]}
	case "Slice":
		n := m.concInt(m.asTerm(args[1]))
		switch p := args[0].(type) {
		case SeqPtr:
			return Slice(p.seq[:n:n])
		case *Value:
			if p == nil && n == 0 {
				return Slice(nil)
			}
		}
		m.unsupported("unsafe.Slice of %T", args[0])
	}
	if len(args) > 0 {
		m.unsupported("builtin %s on %T", b.Name(), args[0])
	}
	m.unsupported("builtin %s", b.Name())
	return nil
}

// ---------- maps ----------

type kstr string

// mapKey returns a comparable Go key for a concrete key, ok=false when symbolic.
func (m *Machine) mapKey(k Value) (any, bool) {
	switch x := k.(type) {
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		return x, true // interned
	case string:
		return kstr(x), true
	case *SymStr, *TabStr, *Opaque:
		return nil, false
	case *Rope:
		if s, ok := m.concString(x); ok {
			return kstr(s), true
		}
		return nil, false
	case Float:
		return x.f, x.sec == nil
	case *Value, *ChanVal, *LocVal:
		return x, true
	case *RTypeVal:
		return "rtype:" + x.t.String(), true
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		sub, ok := m.mapKey(x.v)
		return [2]any{x.t.String(), sub}, ok
	case Struct:
		s := ""
		for _, f := range x {
			sub, ok := m.mapKey(f)
			if !ok {
				return nil, false
			}
			if t, is := sub.(*Term); is {
				sub = t.id
			}
			s += fmt.Sprintf("%T:%v;", sub, sub)
		}
		return "s" + s, true
	case Array:
		v, ok := m.mapKey(Struct(x))
		return v, ok
	}
	m.unsupported("map key %T", k)
	return nil, false
}

func (m *Machine) mapFind(mv *MapVal, k Value) *mapEntry {
	if mv == nil {
		return nil
	}
	ck, ok := m.mapKey(k)
	if ok {
		if i, ok := mv.idx[ck]; ok && !mv.ents[i].del {
			return mv.ents[i]
		}
		// there may be symbolic keys in the map
		for _, e := range mv.ents {
			if e.del {
				continue
			}
			if _, c := m.mapKey(e.k); !c {
				if m.decide(m.equal(e.k, k, nil)) {
					return e
				}
			}
		}
		return nil
	}
	for _, e := range mv.ents {
		if e.del {
			continue
		}
		if m.decide(m.equal(e.k, k, nil)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapUpdate(mp Value, k, v Value) {
	mv, ok := mp.(*MapVal)
	if !ok {
		m.unsupported("map update on %T", mp)
	}
	if mv == nil {
		panic(targetPanic{v: Iface{m.prog.runtimeErr, "assignment to entry in nil map"}, text: "assignment to entry in nil map"})
	}
	mv.frozenTab = nil
	if e := m.mapFind(mv, k); e != nil {
		old := e.v
		m.onUndo(func() { e.v = old; mv.frozenTab = nil })
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	mv.ents = append(mv.ents, e)
	mv.count++
	ck, conc := m.mapKey(k)
	var oldIdx int
	var had bool
	if conc {
		oldIdx, had = mv.idx[ck]
		mv.idx[ck] = len(mv.ents) - 1
	}
	n := len(mv.ents)
	m.onUndo(func() {
		mv.frozenTab = nil
		mv.ents = mv.ents[:n-1]
		mv.count--
		if conc {
			if had {
				mv.idx[ck] = oldIdx
			} else {
				delete(mv.idx, ck)
			}
		}
	})
}

func (m *Machine) mapDelete(mp Value, k Value) {
	mv, ok := mp.(*MapVal)
	if !ok {
		m.unsupported("delete on %T", mp)
	}
	if mv == nil {
		return
	}
	if e := m.mapFind(mv, k); e != nil {
		mv.frozenTab = nil
		e.del = true
		mv.count--
		m.onUndo(func() { e.del = false; mv.count++; mv.frozenTab = nil })
	}
}

func (m *Machine) mapLookup(fr *frame, in *ssa.Lookup, mp, k Value) Value {
	mv, ok := mp.(*MapVal)
	if !ok {
		if po, is := mp.(Poison); is {
			m.unsupported("map lookup on %s", po)
		}
		m.unsupported("map lookup on %T", mp)
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	ret := func(v Value, found *Term) Value {
		if in.CommaOk {
			return Tuple{v, found}
		}
		return v
	}
	if mv == nil {
		return ret(m.zero(et), m.c.False)
	}
	// table-driven lookup for strings drawn from a table
	if ts, ok := k.(*TabStr); ok {
		if r, ok := m.mapLookupTab(mv, ts, et); ok {
			return ret(r[0], r[1].(*Term))
		}
	}
	if t, ok := k.(*Term); ok && !t.isConst() && t.w > 0 {
		if r, ok := m.mapLookupInt(mv, t, et); ok {
			return ret(r[0], r[1].(*Term))
		}
	}
	if ss, ok := k.(*SymStr); ok && mv.count > 16 {
		if r, ok := m.mapLookupSym(mv, ss, et); ok {
			return ret(r[0], r[1].(*Term))
		}
	}
	if e := m.mapFind(mv, k); e != nil {
		return ret(copyVal(e.v), m.c.True)
	}
	return ret(m.zero(et), m.c.False)
}

// mapLookupTab: key vals[idx]; works when all keys are concrete.
func (m *Machine) mapLookupTab(mv *MapVal, ts *TabStr, et types.Type) ([2]Value, bool) {
	mt := mv.frozenTab[ts.tab.key]
	if mt == nil {
		for _, e := range mv.ents {
			if _, c := m.mapKey(e.k); !c {
				return [2]Value{}, false
			}
		}
		mt = &mapTabs{}
		z := m.zero(et)
		for _, s := range ts.tab.vals {
			var v Value = z
			ok := big0
			if i, found := mv.idx[kstr(s)]; found && !mv.ents[i].del {
				v = mv.ents[i].v
				ok = big1
			}
			mt.ok = append(mt.ok, ok)
			mt.raw = append(mt.raw, v)
		}
		if mv.frozenTab == nil {
			mv.frozenTab = map[string]*mapTabs{}
		}
		mv.frozenTab[ts.tab.key] = mt
	}
	found := m.c.Table(mt.ok, 0, ts.idx)
	return [2]Value{m.symRead(mt.raw, ts.idx), found}, true
}

func (m *Machine) mapLookupInt(mv *MapVal, t *Term, et types.Type) ([2]Value, bool) {
	if mv.count > 300 {
		return [2]Value{}, false
	}
	found := m.c.False
	zt, ok := m.zero(et).(*Term)
	if !ok {
		return [2]Value{}, false
	}
	r := zt
	for _, e := range mv.ents {
		if e.del {
			continue
		}
		ev, ok := e.v.(*Term)
		if !ok {
			return [2]Value{}, false
		}
		eq := m.equal(e.k, t, nil)
		found = m.c.BOr(found, eq)
		r = m.c.Ite(eq, ev, r)
	}
	return [2]Value{r, found}, true
}

// mapLookupSym: a symbolic string of fixed length in a big map with concrete string keys.
func (m *Machine) mapLookupSym(mv *MapVal, ss *SymStr, et types.Type) ([2]Value, bool) {
	n := len(ss.b)
	var cand []*mapEntry
	for _, e := range mv.ents {
		if e.del {
			continue
		}
		s, ok := e.k.(string)
		if !ok {
			return [2]Value{}, false
		}
		if len(s) != n {
			continue
		}
		// prune by constant bytes
		match := true
		for i, t := range ss.b {
			if t.isConst() && byte(t.u) != s[i] {
				match = false
				break
			}
		}
		if match {
			cand = append(cand, e)
		}
	}
	if len(cand) == 0 {
		return [2]Value{m.zero(et), m.c.False}, true
	}
	word := m.c.Concat(ss.b...)
	eqs := make([]*Term, len(cand))
	for i, e := range cand {
		m.x.checkStop()
		eqs[i] = m.c.Eq(word, m.c.BigConst(8*n, new(big.Int).SetBytes([]byte(e.k.(string)))))
	}
	found := m.c.BOr(eqs...)
	if !m.decide(found) {
		return [2]Value{m.zero(et), m.c.False}, true
	}
	// the word is the k-th candidate
	vals := make([]Value, len(cand))
	strs := make([]string, len(cand))
	for i, e := range cand {
		vals[i] = e.v
		strs[i] = e.k.(string)
	}
	if len(cand) == 1 {
		return [2]Value{copyVal(vals[0]), m.c.True}, true
	}
	k := m.c.RangeVar(fmt.Sprintf("which:%d", word.id), 16, 0, int64(len(cand)-1))
	m.fact(m.c.Ult(k, m.c.Const(16, uint64(len(cand)))))
	for i := 0; i < n; i++ {
		tv := make([]*big.Int, len(cand))
		for j, s := range strs {
			tv[j] = big.NewInt(int64(s[i]))
		}
		m.fact(m.c.Eq(ss.b[i], m.c.Table(tv, 8, k)))
	}
	return [2]Value{m.symRead(vals, k), m.c.True}, true
}

// ---------- ranges ----------

type iter struct {
	mv    *MapVal
	order []*mapEntry
	pos   int
	perm  bool
	sb    []*Term // string bytes
	str   string
	isStr bool
	conc  bool
}

func (m *Machine) rangeIter(fr *frame, x Value, t types.Type) Value {
	switch v := x.(type) {
	case *MapVal:
		it := &iter{mv: v}
		if v != nil {
			for _, e := range v.ents {
				if !e.del {
					it.order = append(it.order, e)
				}
			}
			if fr != nil && fr.cf.repo && len(it.order) > 1 && !m.inBase {
				if len(it.order) <= 4 {
					it.perm = true
				} else {
					m.note("map iteration order fixed for maps of more than 4 entries")
				}
			}
		}
		return it
	case string:
		return &iter{isStr: true, conc: true, str: v}
	case *SymStr, *TabStr, *Rope, *Opaque:
		return &iter{isStr: true, sb: m.strBytes(v)}
	case Poison:
		m.unsupported("range over %s", v)
	}
	m.unsupported("range over %T", x)
	return nil
}

func (m *Machine) strNext(it *iter) (bool, int, *Term) {
	if it.conc {
		if it.pos >= len(it.str) {
			return false, 0, nil
		}
		for i, r := range it.str[it.pos:] {
			_ = i
			p := it.pos
			n := len(string(r))
			if r == 0xFFFD {
				// invalid byte or real U+FFFD
				n = 1
				if len(it.str[p:]) >= 3 && it.str[p:p+3] == "\uFFFD" {
					n = 3
				}
			}
			it.pos += n
			return true, p, m.c.Const(32, uint64(uint32(r)))
		}
	}
	if it.pos >= len(it.sb) {
		return false, 0, nil
	}
	p := it.pos
	b := it.sb[p]
	if m.decide(m.c.Ult(b, m.c.Const(8, 0x80))) {
		it.pos++
		return true, p, m.c.ZExt(b, 32)
	}
	r, n := m.decodeRune(it.sb[p:])
	it.pos = p + n
	return true, p, r
}

// decodeRune decodes a non-ASCII rune, forking on its class only.
func (m *Machine) decodeRune(b []*Term) (*Term, int) {
	c := m.c
	in := func(t *Term, lo, hi uint64) *Term {
		return c.BAnd(c.Ule(c.Const(8, lo), t), c.Ule(t, c.Const(8, hi)))
	}
	low := func(t *Term, mask uint64) *Term { return c.ZExt(c.And(t, c.Const(8, mask)), 32) }
	bad := c.Const(32, 0xFFFD)
	if len(b) == 1 || !m.decide(in(b[0], 0xC2, 0xF4)) || !m.decide(in(b[1], 0x80, 0xBF)) {
		return bad, 1
	}
	if m.decide(c.Ult(b[0], c.Const(8, 0xE0))) {
		return c.Or(c.Shl(low(b[0], 0x1F), c.Const(32, 6)), low(b[1], 0x3F)), 2
	}
	three := m.decide(c.Ult(b[0], c.Const(8, 0xF0)))
	// ranges of the second byte that are not allowed after some first bytes
	eq := func(v uint64) *Term { return c.Eq(b[0], c.Const(8, v)) }
	lim := func(first, lo, hi uint64) *Term { return c.BOr(c.BNot(eq(first)), in(b[1], lo, hi)) }
	var ok *Term
	if three {
		ok = c.BAnd(lim(0xE0, 0xA0, 0xBF), lim(0xED, 0x80, 0x9F))
	} else {
		ok = c.BAnd(lim(0xF0, 0x90, 0xBF), lim(0xF4, 0x80, 0x8F))
	}
	if !m.decide(ok) || len(b) < 3 || !m.decide(in(b[2], 0x80, 0xBF)) {
		return bad, 1
	}
	if three {
		return c.Or(c.Shl(low(b[0], 0x0F), c.Const(32, 12)), c.Or(c.Shl(low(b[1], 0x3F), c.Const(32, 6)), low(b[2], 0x3F))), 3
	}
	if len(b) < 4 || !m.decide(in(b[3], 0x80, 0xBF)) {
		return bad, 1
	}
	return c.Or(c.Shl(low(b[0], 0x07), c.Const(32, 18)), c.Or(c.Shl(low(b[1], 0x3F), c.Const(32, 12)), c.Or(c.Shl(low(b[2], 0x3F), c.Const(32, 6)), low(b[3], 0x3F)))), 4
}

func (m *Machine) next(fr *frame, in *ssa.Next, it *iter) Value {
	if it.isStr {
		ok, p, r := m.strNext(it)
		if !ok {
			return Tuple{m.c.False, m.c.Const(64, 0), m.c.Const(32, 0)}
		}
		return Tuple{m.c.True, m.c.Const(64, uint64(p)), r}
	}
	tt := in.Type().(*types.Tuple)
	for len(it.order) > 0 {
		i := 0
		if it.perm {
			i = m.choose("maporder", len(it.order))
		}
		e := it.order[i]
		it.order = append(append([]*mapEntry(nil), it.order[:i]...), it.order[i+1:]...)
		if e.del {
			continue
		}
		return Tuple{m.c.True, copyVal(e.k), copyVal(e.v)}
	}
	zero := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return m.zero(tt.At(i).Type())
	}
	return Tuple{m.c.False, zero(1), zero(2)}
}

// lazyAppend concatenates byte sequences of symbolic length without fixing the length.
func (m *Machine) lazyAppend(a, b Value) Value {
	view := func(v Value) Value {
		switch v.(type) {
		case Slice, *LazyBytes:
			return m.sliceStr(v)
		}
		return v
	}
	r := m.strConcat(view(a), view(b))
	if m.isLazyStr(r) {
		return &LazyBytes{str: r}
	}
	return termsToSlice(m.strBytes(r))
}
