package main

import (
	"go/types"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// nativePure lists pure library functions evaluated natively on concrete arguments
// (elementwise when one argument is drawn from a table); otherwise their Go bodies are interpreted.
var nativePure = map[string]any{
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index,
	"strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte, "strings.LastIndexAny": strings.LastIndexAny,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter,
	"strings.Fields": strings.Fields, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.ToLower": strings.ToLower,
	"strings.ToUpper": strings.ToUpper, "strings.ToTitle": strings.ToTitle, "strings.Title": strings.Title,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimSpace": strings.TrimSpace, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count, "strings.Compare": strings.Compare,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower,
	"unicode.ToUpper": unicode.ToUpper, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidRune": utf8.ValidRune,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"unicode/utf8.RuneCount": utf8.RuneCount, "unicode/utf8.Valid": utf8.Valid,
	"strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatBool": strconv.FormatBool, "strconv.QuoteToASCII": strconv.QuoteToASCII,
	"strconv.QuoteRune": strconv.QuoteRune, "strconv.CanBackquote": strconv.CanBackquote, "strconv.IsPrint": strconv.IsPrint,
	"path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Clean": filepath.Clean,
	"path/filepath.Ext": filepath.Ext, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.Join": filepath.Join,
}

func allTabs(t *TabStr, f func(string) bool) bool {
	for _, s := range t.tab.vals {
		if !f(s) {
			return false
		}
	}
	return true
}

func (m *Machine) parts(v Value) []Value {
	if r, ok := v.(*Rope); ok {
		return r.parts
	}
	return []Value{v}
}

// fields splits a string around white space; words from tables stay whole.
func (m *Machine) fields(v Value) []Value {
	var out []Value
	var cur Value = ""
	have := false
	flush := func() {
		if have {
			out = append(out, cur)
		}
		cur, have = "", false
	}
	for _, p := range m.parts(v) {
		switch s := p.(type) {
		case string:
			start := -1
			for i, r := range s {
				if unicode.IsSpace(r) {
					if start >= 0 {
						cur = m.strConcat(cur, s[start:i])
						have = true
						start = -1
					}
					flush()
				} else if start < 0 {
					start = i
				}
			}
			if start >= 0 {
				cur = m.strConcat(cur, s[start:])
				have = true
			}
		case *TabStr:
			if allTabs(s, func(x string) bool { return x != "" && !strings.ContainsFunc(x, unicode.IsSpace) }) {
				cur = m.strConcat(cur, s)
				have = true
				continue
			}
			for _, b := range m.strBytes(s) {
				m.fieldByte(b, &cur, &have, flush)
			}
		case *SymStr:
			for _, b := range s.b {
				m.fieldByte(b, &cur, &have, flush)
			}
		case *Opaque:
			if s.what == "itoa" {
				cur = m.strConcat(cur, s)
				have = true
				continue
			}
			for _, b := range m.strBytes(m.concretizeOpaque(s)) {
				m.fieldByte(b, &cur, &have, flush)
			}
		default:
			m.unsupported("fields of %T", p)
		}
	}
	flush()
	return out
}

func (m *Machine) fieldByte(b *Term, cur *Value, have *bool, flush func()) {
	c := m.c
	if m.decide(m.isSpaceByte(b)) {
		flush()
		return
	}
	if m.decide(c.Ule(c.Const(8, 0x80), b)) {
		m.x.bound("white space splitting treats symbolic non-ASCII bytes as non-space")
	}
	*cur = m.strConcat(*cur, mkSymStr(c, []*Term{b}))
	*have = true
}

func (m *Machine) isSpaceByte(b *Term) *Term {
	c := m.c
	return c.BOr(c.Eq(b, c.Const(8, ' ')), c.BAnd(c.Ule(c.Const(8, 9), b), c.Ule(b, c.Const(8, 13))))
}

func (m *Machine) mapBytes(ss *SymStr, f func(byte) byte) Value {
	vals := make([]*big.Int, 256)
	for i := range vals {
		vals[i] = big.NewInt(int64(f(byte(i))))
	}
	out := make([]*Term, len(ss.b))
	for i, b := range ss.b {
		out[i] = m.c.Table(vals, 8, b)
	}
	return mkSymStr(m.c, out)
}

func (m *Machine) allASCII(b []*Term) *Term {
	cs := make([]*Term, len(b))
	for i := range b {
		cs[i] = m.c.Ult(b[i], m.c.Const(8, 0x80))
	}
	return m.c.BAnd(cs...)
}

func (m *Machine) caseMap(v Value, key string, f func(string) string, fb func(byte) byte) Value {
	switch s := v.(type) {
	case string:
		return f(s)
	case *TabStr:
		return m.tabMap(s, key, f)
	case *SymStr:
		if m.decide(m.allASCII(s.b)) {
			return m.mapBytes(s, fb)
		}
		return notHandled{}
	case *Rope:
		var out Value = ""
		for _, p := range s.parts {
			q := m.caseMap(p, key, f, fb)
			if _, nh := q.(notHandled); nh {
				return q
			}
			out = m.strConcat(out, q)
		}
		return out
	case *Opaque:
		if s.what == "itoa" {
			return s
		}
		return m.caseMap(m.concretizeOpaque(s), key, f, fb)
	}
	return notHandled{}
}

func lowerB(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}

func upperB(b byte) byte {
	if b >= 'a' && b <= 'z' {
		return b - 32
	}
	return b
}

// indexByte finds the first byte equal to c.
func (m *Machine) indexByte(b []*Term, c *Term) Value {
	for i, x := range b {
		if m.decide(m.c.Eq(x, c)) {
			return m.c.Const(64, uint64(i))
		}
	}
	return m.c.Const(64, ^uint64(0))
}

func (m *Machine) indexBytes(a, b []*Term) Value {
	for i := 0; i+len(b) <= len(a); i++ {
		if m.decide(m.bytesEq(a[i:i+len(b)], b)) {
			return m.c.Const(64, uint64(i))
		}
	}
	return m.c.Const(64, ^uint64(0))
}

func (m *Machine) countByte(b []*Term, c *Term) Value {
	n := m.c.Const(64, 0)
	for _, x := range b {
		n = m.c.Add(n, m.c.Ite(m.c.Eq(x, c), m.c.Const(64, 1), m.c.Const(64, 0)))
	}
	return n
}

func (m *Machine) compareBytes(a, b []*Term) Value {
	sa, sb := mkSymStr(m.c, a), mkSymStr(m.c, b)
	return m.c.Ite(m.strLess(sa, sb), m.c.Const(64, ^uint64(0)), m.c.Ite(m.strEq(sa, sb), m.c.Const(64, 0), m.c.Const(64, 1)))
}

func init() {
	reg(func(m *Machine, a []Value) Value {
		return m.caseMap(a[0], "lower", strings.ToLower, lowerB)
	}, "strings.ToLower")
	reg(func(m *Machine, a []Value) Value {
		return m.caseMap(a[0], "upper", strings.ToUpper, upperB)
	}, "strings.ToUpper")
	reg(func(m *Machine, a []Value) Value {
		s := m.slc(a[0])
		var out Value = ""
		for i, p := range s {
			if i > 0 {
				out = m.strConcat(out, a[1])
			}
			out = m.strConcat(out, p)
		}
		return out
	}, "strings.Join")
	reg(func(m *Machine, a []Value) Value {
		out := Slice{}
		for _, f := range m.fields(a[0]) {
			out = append(out, f)
		}
		return out
	}, "strings.Fields")
	reg(func(m *Machine, a []Value) Value {
		// splitting a rope of words at a separator the words cannot contain
		r, ok := a[0].(*Rope)
		if !ok {
			if ts, ok := a[0].(*TabStr); ok {
				r = &Rope{[]Value{ts}}
			} else {
				return callPure(m, "strings.Split", a)
			}
		}
		sep, ok := m.concString(a[1])
		if !ok || len(sep) != 1 {
			return notHandled{}
		}
		var out Slice
		var cur Value = ""
		for _, p := range r.parts {
			switch s := p.(type) {
			case string:
				fs := strings.Split(s, sep)
				for i, f := range fs {
					if i > 0 {
						out = append(out, cur)
						cur = ""
					}
					cur = m.strConcat(cur, f)
				}
			case *TabStr:
				if !allTabs(s, func(x string) bool { return !strings.Contains(x, sep) }) {
					return notHandled{}
				}
				cur = m.strConcat(cur, s)
			default:
				return notHandled{}
			}
		}
		out = append(out, cur)
		return out
	}, "strings.Split")
	reg(func(m *Machine, a []Value) Value {
		// trimming a rope only touches its ends
		r, ok := a[0].(*Rope)
		if !ok {
			return callPure(m, "strings.TrimSpace", a)
		}
		ps := append([]Value(nil), r.parts...)
		for len(ps) > 0 {
			s, ok := ps[0].(string)
			if !ok {
				if ts, ok := ps[0].(*TabStr); ok && allTabs(ts, func(x string) bool { return x != "" && strings.TrimSpace(x) == x }) {
					break
				}
				return notHandled{}
			}
			s = strings.TrimLeftFunc(s, unicode.IsSpace)
			if s != "" {
				ps[0] = s
				break
			}
			ps = ps[1:]
		}
		for len(ps) > 0 {
			k := len(ps) - 1
			s, ok := ps[k].(string)
			if !ok {
				if ts, ok := ps[k].(*TabStr); ok && allTabs(ts, func(x string) bool { return x != "" && strings.TrimSpace(x) == x }) {
					break
				}
				return notHandled{}
			}
			s = strings.TrimRightFunc(s, unicode.IsSpace)
			if s != "" {
				ps[k] = s
				break
			}
			ps = ps[:k]
		}
		var out Value = ""
		for _, p := range ps {
			out = m.strConcat(out, p)
		}
		return out
	}, "strings.TrimSpace")
	reg(func(m *Machine, a []Value) Value { return a[0] }, "strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape", "internal/abi.Escape")
	reg(func(m *Machine, a []Value) Value { return m.c.Const(64, 0) }, "internal/abi.FuncPCABI0")

	reg(nop, "(*strings.Builder).copyCheck", "(*strings.Builder).Grow")
	reg(func(m *Machine, a []Value) Value {
		st := (*m.ptr(a[0])).(Struct)
		return m.sliceStr(st[len(st)-1])
	}, "(*strings.Builder).String")

	// bytes.Buffer and the bytes functions on text of symbolic length
	buf := func(m *Machine, a0 Value) (*Value, *Value, bool) {
		p := m.ptr(a0)
		if p == nil {
			return nil, nil, false
		}
		t := m.typ("bytes", "Buffer")
		b, off := m.field(t, *p, "buf"), m.field(t, *p, "off")
		l, ok := (*b).(*LazyBytes)
		return b, off, ok && l.forced == nil
	}
	bufWrite := func(m *Machine, a0, s Value) Value {
		b, off, lazy := buf(m, a0)
		if b == nil || !lazy && !m.isLazyStr(s) {
			return notHandled{}
		}
		cur := m.sliceStr(*b)
		if !lazy {
			k := m.concInt(m.asTerm(*off))
			cur = mkSymStr(m.c, m.sliceBytes(m.slc(*b))[k:])
		}
		m.set(b, m.toBytes(m.strConcat(cur, s)))
		m.set(off, m.c.Const(64, 0))
		return Tuple{m.strLen(s), Iface{}}
	}
	second := func(r Value) Value {
		if t, ok := r.(Tuple); ok {
			return t[1]
		}
		return r
	}
	B := func(n string, f intrinsic) { reg(f, "(*bytes.Buffer)."+n) }
	B("WriteString", func(m *Machine, a []Value) Value { return bufWrite(m, a[0], a[1]) })
	B("Write", func(m *Machine, a []Value) Value {
		if l, ok := a[1].(*LazyBytes); ok && l.forced == nil {
			return bufWrite(m, a[0], l.str)
		}
		if _, _, lazy := buf(m, a[0]); lazy {
			return bufWrite(m, a[0], m.sliceStr(a[1]))
		}
		return notHandled{}
	})
	B("WriteByte", func(m *Machine, a []Value) Value {
		return second(bufWrite(m, a[0], mkSymStr(m.c, []*Term{m.asTerm(a[1])})))
	})
	B("WriteRune", func(m *Machine, a []Value) Value {
		if x := m.asTerm(a[1]); x.isConst() {
			return bufWrite(m, a[0], string(rune(x.sval())))
		}
		return notHandled{}
	})
	B("Bytes", func(m *Machine, a []Value) Value {
		if b, _, lazy := buf(m, a[0]); lazy {
			return *b
		}
		return notHandled{}
	})
	B("String", func(m *Machine, a []Value) Value {
		if b, _, lazy := buf(m, a[0]); lazy {
			return m.sliceStr(*b)
		}
		return notHandled{}
	})
	B("Len", func(m *Machine, a []Value) Value {
		if b, _, lazy := buf(m, a[0]); lazy {
			return m.strLen(m.sliceStr(*b))
		}
		return notHandled{}
	})
	B("Reset", func(m *Machine, a []Value) Value {
		if b, off, lazy := buf(m, a[0]); lazy {
			m.set(b, Slice{})
			m.set(off, m.c.Const(64, 0))
			return nil
		}
		return notHandled{}
	})
	B("WriteTo", func(m *Machine, a []Value) Value {
		b, _, lazy := buf(m, a[0])
		if !lazy {
			return notHandled{}
		}
		s := m.sliceStr(*b)
		r := m.fprint(a[1], s).(Tuple)
		if r[1].(Iface).t == nil {
			m.set(b, Slice{})
		}
		return r
	})
	lazyFn := func(name string) {
		f := intrinsics["strings."+name]
		reg(func(m *Machine, a []Value) Value {
			l, ok := a[0].(*LazyBytes)
			if !ok || l.forced != nil {
				return notHandled{}
			}
			b := append([]Value{l.str}, a[1:]...)
			for i := range b {
				if i > 0 {
					b[i] = m.sliceStr(b[i])
				}
			}
			switch r := f(m, b).(type) {
			case Slice:
				out := Slice{}
				for _, x := range r {
					out = append(out, m.toBytes(x))
				}
				return out
			case notHandled:
				return r
			case nil:
				return notHandled{}
			default:
				return m.toBytes(r)
			}
		}, "bytes."+name)
	}
	for _, n := range []string{"ToLower", "ToUpper", "Fields", "TrimSpace", "Split"} {
		lazyFn(n)
	}

	// internal/bytealg (assembly)
	reg(func(m *Machine, a []Value) Value {
		return m.indexByte(m.sliceBytes(m.slc(a[0])), m.asTerm(a[1]))
	}, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(m *Machine, a []Value) Value {
		return m.indexByte(m.strBytes(a[0]), m.asTerm(a[1]))
	}, "internal/bytealg.IndexByteString")
	reg(func(m *Machine, a []Value) Value {
		return m.indexBytes(m.sliceBytes(m.slc(a[0])), m.sliceBytes(m.slc(a[1])))
	}, "internal/bytealg.Index", "bytes.Index")
	reg(func(m *Machine, a []Value) Value {
		return m.indexBytes(m.strBytes(a[0]), m.strBytes(a[1]))
	}, "internal/bytealg.IndexString")
	reg(func(m *Machine, a []Value) Value {
		return m.countByte(m.sliceBytes(m.slc(a[0])), m.asTerm(a[1]))
	}, "internal/bytealg.Count")
	reg(func(m *Machine, a []Value) Value {
		return m.countByte(m.strBytes(a[0]), m.asTerm(a[1]))
	}, "internal/bytealg.CountString")
	reg(func(m *Machine, a []Value) Value {
		return m.compareBytes(m.sliceBytes(m.slc(a[0])), m.sliceBytes(m.slc(a[1])))
	}, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(m *Machine, a []Value) Value {
		return m.compareBytes(m.strBytes(a[0]), m.strBytes(a[1]))
	}, "internal/bytealg.CompareString", "internal/runtime/cmp.CompareString")
	reg(func(m *Machine, a []Value) Value {
		return m.strEq(m.sliceStr(a[0]), m.sliceStr(a[1]))
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(m *Machine, a []Value) Value {
		x, y := m.sliceBytes(m.slc(a[0])), m.sliceBytes(m.slc(a[1]))
		if len(x) != len(y) {
			return m.c.Const(64, 0)
		}
		return m.c.Ite(m.bytesEq(x, y), m.c.Const(64, 1), m.c.Const(64, 0))
	}, "crypto/subtle.ConstantTimeCompare", "crypto/internal/fips140/subtle.ConstantTimeCompare")
	reg(func(m *Machine, a []Value) Value {
		n := m.concInt(m.asTerm(a[0]))
		return m.makeSlice(types.Typ[types.Uint8], n, n)
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *Machine, a []Value) Value {
		dst, x, y := m.slc(a[0]), m.slc(a[1]), m.slc(a[2])
		n := min(len(x), len(y))
		if n == 0 {
			return m.c.Const(64, 0)
		}
		if n > len(dst) {
			m.targetRuntime("subtle.XORBytes: dst too short")
		}
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = m.c.Xor(m.asTerm(x[i]), m.asTerm(y[i]))
		}
		for i := 0; i < n; i++ {
			m.set(&dst[i], vals[i])
		}
		return m.c.Const(64, uint64(n))
	}, "crypto/subtle.XORBytes", "crypto/internal/fips140/subtle.XORBytes", "internal/xorbytes.XORBytes")
}

func callPure(m *Machine, name string, a []Value) Value {
	return m.callNative(name, reflectOf(nativePure[name]), a)
}
