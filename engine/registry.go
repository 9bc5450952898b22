package main

import (
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics replace library functions whose bodies are outside what is encoded.
var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

type growKey struct{ oldCap, newLen, elemSize int }

var growMu sync.Mutex
var growCache = map[growKey]int{}

// RTypeVal stands for a reflect type descriptor (*reflect.rtype).
type RTypeVal struct{ t types.Type }

func nop(m *Machine, args []Value) Value { return nil }

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if nf, ok := nativePure[name]; ok {
		rv := reflect.ValueOf(nf)
		return func(m *Machine, args []Value) Value { return m.callNative(name, rv, args) }
	}
	if strings.HasPrefix(name, "(*math/big.Int).") {
		meth := strings.TrimPrefix(name, "(*math/big.Int).")
		return func(m *Machine, args []Value) Value { return m.bigNative(meth, args) }
	}
	if strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(*time.Time).") {
		return func(m *Machine, args []Value) Value { return m.timeNative(name, fn, args) }
	}
	if strings.HasPrefix(name, "(*time.Location).") {
		return func(m *Machine, args []Value) Value {
			l, ok := args[0].(*LocVal)
			if ok && strings.HasSuffix(name, ".String") {
				return l.name
			}
			m.unsupported("%s", name)
			return nil
		}
	}
	return nil
}

// ---------- native calls for pure functions on concrete arguments ----------

type errVal struct{ e error }

// toNative converts a concrete value; ok=false when it is (partly) symbolic.
func (m *Machine) toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := m.concString(v)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s).Convert(t), true
	case reflect.Bool:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.u == 1).Convert(t), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		r.SetInt(x.sval())
		return r, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		r.SetUint(x.u)
		return r, true
	case reflect.Float64, reflect.Float32:
		x, ok := v.(Float)
		if !ok || x.sec != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.f).Convert(t), true
	case reflect.Slice:
		if l, ok := v.(*LazyBytes); ok {
			if s, ok := m.concString(l.str); ok && l.forced == nil {
				return reflect.ValueOf([]byte(s)), true
			}
		}
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i, e := range s {
			x, ok := m.toNative(e, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(x)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (m *Machine) fromNative(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return m.c.Bool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return m.c.Const(v.Type().Bits(), uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return m.c.Const(v.Type().Bits(), v.Uint())
	case reflect.Float64, reflect.Float32:
		return Float{f: v.Float()}
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, v.Len())
		for i := range s {
			s[i] = m.fromNative(v.Index(i))
		}
		return s
	}
	m.unsupported("native result of kind %s", v.Kind())
	return nil
}

func (m *Machine) fromNatives(rs []reflect.Value) Value {
	if len(rs) == 0 {
		return nil
	}
	if len(rs) == 1 {
		return m.fromNative(rs[0])
	}
	t := make(Tuple, len(rs))
	for i := range rs {
		t[i] = m.fromNative(rs[i])
	}
	return t
}

func (m *Machine) callNative(name string, f reflect.Value, args []Value) Value {
	ft := f.Type()
	in := make([]reflect.Value, len(args))
	sym := -1
	for i, a := range args {
		at := ft.In(i)
		x, ok := m.toNative(a, at)
		if !ok {
			if _, isTab := a.(*TabStr); isTab && sym < 0 {
				sym = i
				continue
			}
			return notHandled{}
		}
		in[i] = x
	}
	call := func(in []reflect.Value) []reflect.Value {
		if ft.IsVariadic() {
			return f.CallSlice(in)
		}
		return f.Call(in)
	}
	if sym < 0 {
		return m.fromNatives(call(in))
	}
	// one argument drawn from a table of strings: elementwise
	ts := args[sym].(*TabStr)
	if len(ts.tab.vals) > 20000 || ft.NumOut() == 0 {
		return notHandled{}
	}
	for i := 0; i < ft.NumOut(); i++ {
		switch ft.Out(i).Kind() {
		case reflect.String, reflect.Bool, reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8:
		default:
			return notHandled{}
		}
	}
	rows := make([][]reflect.Value, len(ts.tab.vals))
	for i, s := range ts.tab.vals {
		in[sym] = reflect.ValueOf(s).Convert(ft.In(sym))
		rows[i] = call(append([]reflect.Value(nil), in...))
	}
	outs := make(Tuple, ft.NumOut())
	for k := range outs {
		switch ot := ft.Out(k); ot.Kind() {
		case reflect.String:
			vals := make([]string, len(rows))
			same := true
			for i := range rows {
				vals[i] = rows[i][k].String()
				same = same && vals[i] == ts.tab.vals[i]
			}
			if same {
				outs[k] = ts
			} else {
				outs[k] = m.mkTabStr(m.strTab(vals), ts.idx)
			}
		case reflect.Bool:
			vals := make([]*big.Int, len(rows))
			for i := range rows {
				vals[i] = big0
				if rows[i][k].Bool() {
					vals[i] = big1
				}
			}
			outs[k] = m.c.Table(vals, 0, ts.idx)
		default:
			w := ot.Bits()
			vals := make([]*big.Int, len(rows))
			for i := range rows {
				vals[i] = m.fromNative(rows[i][k]).(*Term).bigVal()
			}
			outs[k] = m.c.Table(vals, w, ts.idx)
		}
	}
	if len(outs) == 1 {
		return outs[0]
	}
	return outs
}

// ---------- lazily materialised byte slices ----------

// LazyBytes is a []byte made from a string whose length depends on symbolic data.
type LazyBytes struct {
	str    Value
	forced Slice
}

func (m *Machine) isLazyStr(v Value) bool {
	switch s := v.(type) {
	case *TabStr:
		return !m.strLen(s).isConst()
	case *Opaque:
		return true
	case *Rope:
		for _, p := range s.parts {
			if m.isLazyStr(p) {
				return true
			}
		}
	}
	return false
}

func (m *Machine) force(l *LazyBytes) Slice {
	if l.forced == nil {
		b := termsToSlice(m.strBytes(l.str))
		if len(b) == 0 {
			b = Slice{}
		}
		l.forced = b
		m.onUndo(func() { l.forced = nil })
	}
	return l.forced
}

// slc views a value as a slice.
func (m *Machine) slc(v Value) Slice {
	switch s := v.(type) {
	case Slice:
		return s
	case *LazyBytes:
		return m.force(s)
	case Poison:
		m.unsupported("use of %s", s)
	}
	m.unsupported("slice expected, got %T", v)
	return nil
}

// sliceStr views a []byte as a string without forcing it.
func (m *Machine) sliceStr(v Value) Value {
	if l, ok := v.(*LazyBytes); ok && l.forced == nil {
		return l.str
	}
	return mkSymStr(m.c, m.sliceBytes(m.slc(v)))
}

func reflectOf(f any) reflect.Value { return reflect.ValueOf(f) }
