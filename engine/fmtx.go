package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- method calls by name ----------

type nameKey struct {
	t types.Type
	n string
}

func (m *Machine) methodNamed(t types.Type, name string) *ssa.Function {
	k := nameKey{t, name}
	if f, ok := m.side[k]; ok {
		return f.(*ssa.Function)
	}
	m.prog.mu.Lock()
	var f *ssa.Function
	sel := m.prog.ssa.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel != nil {
		f = m.prog.ssa.MethodValue(sel)
	}
	m.prog.mu.Unlock()
	m.side[k] = f
	return f
}

func (m *Machine) callMethod(recv Value, name string, args ...Value) Value {
	i, ok := recv.(Iface)
	if !ok {
		m.unsupported("method %s on %T", name, recv)
	}
	if i.t == nil {
		m.targetRuntime("invalid memory address or nil pointer dereference")
	}
	f := m.methodNamed(i.t, name)
	if f == nil {
		m.unsupported("no method %s on %s", name, i.t)
	}
	return m.call(m.cur.top, f, append([]Value{i.v}, args...), nil)
}

func (m *Machine) ptrTo(t types.Type) types.Type {
	k := nameKey{t, "*"}
	if p, ok := m.side[k]; ok {
		return p.(types.Type)
	}
	p := types.NewPointer(t)
	m.side[k] = p
	return p
}

func (m *Machine) typ(pkg, name string) types.Type {
	p := m.prog.pkgs[pkg]
	if p == nil || p.Type(name) == nil {
		m.unsupported("type %s.%s not in the program", pkg, name)
	}
	return p.Type(name).Type()
}

func newCell(v Value) *Value { return &v }

func (m *Machine) errorNew(msg Value) Value {
	return Iface{m.prog.errString, newCell(Struct{msg})}
}

// ---------- formatting ----------

type fspec struct {
	flags string
	wid   int
	hasW  bool
	prec  int
	hasP  bool
	verb  byte
}

func (f fspec) String() string {
	s := "%" + f.flags
	if f.hasW {
		s += strconv.Itoa(f.wid)
	}
	if f.hasP {
		s += "." + strconv.Itoa(f.prec)
	}
	return s + string(f.verb)
}

func (f fspec) plain() bool { return f.flags == "" && !f.hasW && !f.hasP }

// sprintf formats; wraps receives the indices of %w operands.
func (m *Machine) sprintf(format string, args Slice, wraps *[]int) Value {
	var out Value = ""
	add := func(v Value) { out = m.strConcat(out, v) }
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			add(format[i:])
			break
		}
		add(format[i : i+j])
		i += j + 1
		var sp fspec
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			sp.flags += string(format[i])
			i++
		}
		num := func() (int, bool) {
			if i < len(format) && format[i] == '*' {
				i++
				if n >= len(args) {
					m.unsupported("format width argument missing")
				}
				v := m.concInt(m.asTerm(args[n].(Iface).v))
				n++
				return v, true
			}
			st := i
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			if st == i {
				return 0, false
			}
			v, _ := strconv.Atoi(format[st:i])
			return v, true
		}
		sp.wid, sp.hasW = num()
		if sp.hasW && sp.wid < 0 {
			sp.flags += "-"
			sp.wid = -sp.wid
		}
		if i < len(format) && format[i] == '.' {
			i++
			sp.prec, _ = num()
			sp.hasP = true
		}
		if i < len(format) && format[i] == '[' {
			m.unsupported("explicit format argument index")
		}
		if i >= len(format) {
			add("%!(NOVERB)")
			break
		}
		sp.verb = format[i]
		i++
		if sp.verb == '%' {
			add("%")
			continue
		}
		if n >= len(args) {
			add("%!" + string(sp.verb) + "(MISSING)")
			continue
		}
		a := args[n]
		if sp.verb == 'w' {
			if wraps != nil {
				*wraps = append(*wraps, n)
			}
			sp.verb = 'v'
		}
		n++
		add(m.formatArg(a, sp))
	}
	if n < len(args) {
		add("%!(EXTRA ")
		for k, a := range args[n:] {
			if k > 0 {
				add(", ")
			}
			i := a.(Iface)
			if i.t == nil {
				add("<nil>")
			} else {
				add(shortType(i.t) + "=")
				add(m.formatArg(a, fspec{verb: 'v'}))
			}
		}
		add(")")
	}
	return out
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *Machine) formatArg(a Value, sp fspec) Value {
	i, ok := a.(Iface)
	if !ok {
		if p, isP := a.(Poison); isP {
			m.unsupported("formatting %s", p)
		}
		m.unsupported("formatting of %T", a)
	}
	if sp.verb == 'T' {
		if i.t == nil {
			return fmt.Sprintf(sp.String(), nil)
		}
		return m.fmtStr(shortType(i.t), fspec{flags: sp.flags, wid: sp.wid, hasW: sp.hasW, verb: 's'})
	}
	if i.t == nil {
		if sp.verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(sp.verb) + "(<nil>)"
	}
	return m.formatVal(i.t, i.v, sp, 0)
}

func (m *Machine) formatVal(t types.Type, v Value, sp fspec, depth int) Value {
	strVerb := strings.IndexByte("vsxXq", sp.verb) >= 0
	if strings.Contains(sp.flags, "#") && sp.verb == 'v' {
		m.unsupported("%%#v")
	}
	if b, isBig := m.isBig(t, v); isBig {
		return m.fmtBig(b, sp)
	}
	if strVerb {
		for _, meth := range []string{"Error", "String"} {
			f := m.methodNamed(t, meth)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.String]) {
				continue
			}
			if p, ok := v.(*Value); ok && p == nil {
				return "<nil>"
			}
			s := m.call(m.cur.top, f, []Value{v}, nil)
			return m.fmtStr(s, sp)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return m.fmtStr(v, sp)
		case u.Info()&types.IsBoolean != 0:
			b := m.asTerm(v)
			if b.isConst() {
				return fmt.Sprintf(sp.String(), b.u == 1)
			}
			if m.decide(b) {
				return fmt.Sprintf(sp.String(), true)
			}
			return fmt.Sprintf(sp.String(), false)
		case u.Info()&types.IsInteger != 0:
			_, sg, _ := intWidth(u)
			return m.fmtInt(m.asTerm(v), sg, sp)
		case u.Info()&types.IsFloat != 0:
			return fmt.Sprintf(sp.String(), m.floatConc(v.(Float)))
		}
	case *types.Slice, *types.Array:
		var et types.Type
		var el []Value
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			if bb, ok := et.Underlying().(*types.Basic); ok && bb.Kind() == types.Uint8 && strings.IndexByte("sxXq", sp.verb) >= 0 {
				return m.fmtStr(m.sliceStr(v), sp)
			}
			el = m.slc(v)
		} else {
			et = u.(*types.Array).Elem()
			el = v.(Array)
			if bb, ok := et.Underlying().(*types.Basic); ok && bb.Kind() == types.Uint8 && strings.IndexByte("sxXq", sp.verb) >= 0 {
				return m.fmtStr(mkSymStr(m.c, m.sliceBytes(el)), sp)
			}
		}
		var out Value = "["
		for i, e := range el {
			if i > 0 {
				out = m.strConcat(out, " ")
			}
			out = m.strConcat(out, m.formatElem(et, e, sp, depth+1))
		}
		return m.strConcat(out, "]")
	case *types.Struct:
		if _, ok := v.(Struct); !ok {
			break
		}
		var out Value = "{"
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = m.strConcat(out, " ")
			}
			if strings.Contains(sp.flags, "+") {
				out = m.strConcat(out, u.Field(i).Name()+":")
			}
			out = m.strConcat(out, m.formatElem(u.Field(i).Type(), v.(Struct)[i], sp, depth+1))
		}
		return m.strConcat(out, "}")
	case *types.Pointer:
		if p, ok := v.(*Value); ok {
			if p == nil {
				return "<nil>"
			}
			if depth == 0 {
				if _, ok := (*p).(Struct); ok {
					return m.strConcat("&", m.formatVal(u.Elem(), m.load(p), sp, depth+1))
				}
			}
			return "0xc000010000"
		}
	}
	m.unsupported("formatting of %s with %s", t, sp)
	return nil
}

func (m *Machine) formatElem(t types.Type, v Value, sp fspec, depth int) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		i := v.(Iface)
		if i.t == nil {
			return "<nil>"
		}
		return m.formatVal(i.t, i.v, sp, depth)
	}
	return m.formatVal(t, v, sp, depth)
}

func (m *Machine) isBig(t types.Type, v Value) (*BigVal, bool) {
	p, ok := t.(*types.Pointer)
	if !ok || opaqueNamed(p.Elem()) != "big" {
		return nil, false
	}
	if c, ok := v.(*Value); ok && c != nil {
		if b, ok := (*c).(*BigVal); ok {
			return b, true
		}
	}
	return nil, false
}

func (m *Machine) fmtBig(b *BigVal, sp fspec) Value {
	if n, ok := m.bigConcrete(b); ok {
		return fmt.Sprintf(sp.String(), n)
	}
	if sp.plain() && b.neg.isFalse() && b.mag.w <= 64 && (sp.verb == 'd' || sp.verb == 'v') {
		return &Opaque{"itoa", []Value{b.mag, m.c.False, m.c.Const(8, 10)}}
	}
	return &Opaque{"big" + sp.String(), []Value{b.mag, b.neg}}
}

func (m *Machine) fmtInt(t *Term, sg bool, sp fspec) Value {
	nat := func(u uint64) string {
		switch {
		case sp.verb == 'c' || sp.verb == 'q' || sp.verb == 'U':
			return fmt.Sprintf(sp.String(), rune(sext64(u, t.w)))
		case sg:
			return fmt.Sprintf(sp.String(), sext64(u, t.w))
		case t.w == 8:
			return fmt.Sprintf(sp.String(), uint8(u))
		}
		return fmt.Sprintf(sp.String(), u)
	}
	if t.isConst() {
		return nat(t.u)
	}
	if t.w <= 8 {
		vals := make([]string, 256)
		for i := range vals {
			vals[i] = nat(uint64(i))
		}
		return m.mkTabStr(m.strTab(vals), t)
	}
	if sp.plain() && (sp.verb == 'd' || sp.verb == 'v') {
		return &Opaque{"itoa", []Value{t, m.c.Bool(sg), m.c.Const(8, 10)}}
	}
	return nat(m.sample(t, "formatted integer "+sp.String()))
}

func (m *Machine) fmtStr(s Value, sp fspec) Value {
	if c, ok := m.concString(s); ok {
		if sp.verb == 'v' {
			sp.verb = 's'
		}
		return fmt.Sprintf(sp.String(), c)
	}
	if ts, ok := s.(*TabStr); ok {
		return m.tabMap(ts, "fmt"+sp.String(), func(x string) string { return fmt.Sprintf(sp.String(), x) })
	}
	switch sp.verb {
	case 's', 'v':
		if sp.hasP {
			m.unsupported("string precision on symbolic text")
		}
		if sp.hasW {
			b := m.strBytes(s)
			if len(b) >= sp.wid && m.decide(m.allASCII(b)) {
				return s
			}
			m.unsupported("padding of symbolic text")
		}
		return s
	case 'q':
		if sp.plain() {
			return &Opaque{"quote", []Value{s}}
		}
	case 'x', 'X':
		if sp.plain() {
			dig := "0123456789abcdef"
			if sp.verb == 'X' {
				dig = "0123456789ABCDEF"
			}
			vals := make([]string, 256)
			for i := range vals {
				vals[i] = string(dig[i>>4]) + string(dig[i&15])
			}
			tab := m.strTab(vals)
			var out Value = ""
			for _, b := range m.strBytes(s) {
				out = m.strConcat(out, m.mkTabStr(tab, b))
			}
			return out
		}
	}
	m.unsupported("formatting of symbolic text with %s", sp)
	return nil
}

func (m *Machine) sprint(args Slice, ln bool) Value {
	var out Value = ""
	prevStr := false
	for k, a := range args {
		i, _ := a.(Iface)
		isStr := false
		if i.t != nil {
			b, ok := i.t.(*types.Basic)
			if !ok {
				if nb, ok2 := i.t.Underlying().(*types.Basic); ok2 {
					b, ok = nb, true
				}
			}
			isStr = ok && b.Info()&types.IsString != 0
		}
		if k > 0 && (ln || !isStr && !prevStr) {
			out = m.strConcat(out, " ")
		}
		out = m.strConcat(out, m.formatArg(a, fspec{verb: 'v'}))
		prevStr = isStr
	}
	if ln {
		out = m.strConcat(out, "\n")
	}
	return out
}

// toBytes makes a []byte of a string, lazily if its length is symbolic.
func (m *Machine) toBytes(s Value) Value {
	if m.isLazyStr(s) {
		return &LazyBytes{str: s}
	}
	return termsToSlice(m.strBytes(s))
}

func (m *Machine) fprint(w Value, s Value) Value {
	return m.callMethod(w, "Write", m.toBytes(s))
}

func (m *Machine) itoaForked(t *Term, sg bool, base int) Value {
	if t.w <= 8 || t.uhi-t.ulo < 4096 && t.uhi < 1<<62 {
		lo, hi := t.ulo, t.uhi
		if t.w <= 8 {
			lo, hi = 0, 255
		}
		vals := make([]string, hi+1)
		for i := lo; i <= hi; i++ {
			if sg {
				vals[i] = strconv.FormatInt(sext64(i, t.w), base)
			} else {
				vals[i] = strconv.FormatUint(i, base)
			}
		}
		return m.mkTabStr(m.strTab(vals), t)
	}
	u := m.sample(t, "decimal text of an integer inspected")
	if sg {
		return strconv.FormatInt(sext64(u, t.w), base)
	}
	return strconv.FormatUint(u, base)
}

func (m *Machine) quoteForked(v Value) Value {
	b := m.strBytes(v)
	var out Value = `"`
	vals := make([]string, 128)
	for i := range vals {
		q := strconv.Quote(string(rune(i)))
		vals[i] = q[1 : len(q)-1]
	}
	tab := m.strTab(vals)
	if !m.decide(m.allASCII(b)) {
		m.unsupported("quoting symbolic non-ASCII text")
	}
	for _, x := range b {
		out = m.strConcat(out, m.mkTabStr(tab, x))
	}
	return m.strConcat(out, `"`)
}

func init() {
	reg(func(m *Machine, a []Value) Value { return m.sprintf(m.mustString(a[0]), m.slc(a[1]), nil) }, "fmt.Sprintf")
	reg(func(m *Machine, a []Value) Value { return m.sprint(m.slc(a[0]), false) }, "fmt.Sprint")
	reg(func(m *Machine, a []Value) Value { return m.sprint(m.slc(a[0]), true) }, "fmt.Sprintln")
	reg(func(m *Machine, a []Value) Value {
		return m.fprint(a[0], m.sprintf(m.mustString(a[1]), m.slc(a[2]), nil))
	}, "fmt.Fprintf")
	reg(func(m *Machine, a []Value) Value { return m.fprint(a[0], m.sprint(m.slc(a[1]), false)) }, "fmt.Fprint")
	reg(func(m *Machine, a []Value) Value { return m.fprint(a[0], m.sprint(m.slc(a[1]), true)) }, "fmt.Fprintln")
	stdout := func(m *Machine) Value {
		return Iface{m.ptrTo(m.typ("os", "File")), m.load(m.globalAddr(m.prog.pkgs["os"].Var("Stdout")))}
	}
	reg(func(m *Machine, a []Value) Value {
		return m.fprint(stdout(m), m.sprintf(m.mustString(a[0]), m.slc(a[1]), nil))
	}, "fmt.Printf")
	reg(func(m *Machine, a []Value) Value { return m.fprint(stdout(m), m.sprint(m.slc(a[0]), false)) }, "fmt.Print")
	reg(func(m *Machine, a []Value) Value { return m.fprint(stdout(m), m.sprint(m.slc(a[0]), true)) }, "fmt.Println")
	reg(func(m *Machine, a []Value) Value {
		var ws []int
		args := m.slc(a[1])
		s := m.sprintf(m.mustString(a[0]), args, &ws)
		errOf := func(k int) Value {
			i := args[k].(Iface)
			if i.t != nil && m.implements(i.t, errorIface) {
				return i
			}
			return Iface{}
		}
		switch len(ws) {
		case 0:
			return m.errorNew(s)
		case 1:
			return Iface{m.ptrTo(m.typ("fmt", "wrapError")), newCell(Struct{s, errOf(ws[0])})}
		}
		var es Slice
		for _, k := range ws {
			if e := errOf(k).(Iface); e.t != nil {
				es = append(es, e)
			}
		}
		return Iface{m.ptrTo(m.typ("fmt", "wrapErrors")), newCell(Struct{s, es})}
	}, "fmt.Errorf")
	reg(func(m *Machine, a []Value) Value {
		t := m.asTerm(a[0])
		if t.isConst() {
			return strconv.FormatInt(t.sval(), 10)
		}
		return &Opaque{"itoa", []Value{t, m.c.True, m.c.Const(8, 10)}}
	}, "strconv.Itoa")
	reg(func(m *Machine, a []Value) Value {
		t, b := m.asTerm(a[0]), m.asTerm(a[1])
		if t.isConst() || !b.isConst() {
			return callPure(m, "strconv.FormatInt", a)
		}
		return &Opaque{"itoa", []Value{t, m.c.True, m.c.Const(8, b.u)}}
	}, "strconv.FormatInt")
	reg(func(m *Machine, a []Value) Value {
		t, b := m.asTerm(a[0]), m.asTerm(a[1])
		if t.isConst() || !b.isConst() {
			return callPure(m, "strconv.FormatUint", a)
		}
		return &Opaque{"itoa", []Value{t, m.c.False, m.c.Const(8, b.u)}}
	}, "strconv.FormatUint")
	reg(func(m *Machine, a []Value) Value {
		if s, ok := m.concString(a[0]); ok {
			return strconv.Quote(s)
		}
		return &Opaque{"quote", []Value{a[0]}}
	}, "strconv.Quote")

	// errors
	var unwrap func(m *Machine, e Iface, f func(Iface) bool) bool
	unwrap = func(m *Machine, e Iface, f func(Iface) bool) bool {
		for {
			if e.t == nil {
				return false
			}
			if f(e) {
				return true
			}
			u := m.methodNamed(e.t, "Unwrap")
			if u == nil || u.Signature.Params().Len() != 0 || u.Signature.Results().Len() != 1 {
				return false
			}
			r := m.call(m.cur.top, u, []Value{e.v}, nil)
			switch r := r.(type) {
			case Iface:
				e = r
			case Slice:
				for _, x := range r {
					if unwrap(m, x.(Iface), f) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
	}
	reg(func(m *Machine, a []Value) Value {
		e, tgt := a[0].(Iface), a[1].(Iface)
		if e.t == nil || tgt.t == nil {
			return m.c.Bool(e.t == nil && tgt.t == nil)
		}
		return m.c.Bool(unwrap(m, e, func(x Iface) bool {
			if types.Identical(x.t, tgt.t) && types.Comparable(x.t) && m.decide(m.equal(x.v, tgt.v, x.t)) {
				return true
			}
			if is := m.methodNamed(x.t, "Is"); is != nil && is.Signature.Params().Len() == 1 && is.Signature.Results().Len() == 1 {
				return m.decide(m.asTerm(m.call(m.cur.top, is, []Value{x.v, tgt}, nil)))
			}
			return false
		}))
	}, "errors.Is")
	reg(func(m *Machine, a []Value) Value {
		e, tgt := a[0].(Iface), a[1].(Iface)
		if e.t == nil {
			return m.c.False
		}
		pt, ok := tgt.t.(*types.Pointer)
		p, ok2 := tgt.v.(*Value)
		if !ok || !ok2 || p == nil {
			m.targetRuntime("errors: target must be a non-nil pointer")
		}
		return m.c.Bool(unwrap(m, e, func(x Iface) bool {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if m.implements(x.t, it) {
					m.store(p, x)
					return true
				}
			} else if types.Identical(x.t, pt.Elem()) {
				m.store(p, x.v)
				return true
			}
			if as := m.methodNamed(x.t, "As"); as != nil && as.Signature.Params().Len() == 1 {
				return m.decide(m.asTerm(m.call(m.cur.top, as, []Value{x.v, tgt}, nil)))
			}
			return false
		}))
	}, "errors.As")

	// reflect, as far as flag needs it
	reg(func(m *Machine, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{m.ptrTo(m.typ("reflect", "rtype")), &RTypeVal{i.t}}
	}, "reflect.TypeOf")
	rt := func(m *Machine, v Value) types.Type {
		r, ok := v.(*RTypeVal)
		if !ok {
			m.unsupported("reflection on %T", v)
		}
		return r.t
	}
	wrap := func(m *Machine, t types.Type) Value { return Iface{m.ptrTo(m.typ("reflect", "rtype")), &RTypeVal{t}} }
	reg(func(m *Machine, a []Value) Value {
		switch u := rt(m, a[0]).Underlying().(type) {
		case *types.Pointer:
			return wrap(m, u.Elem())
		case *types.Slice:
			return wrap(m, u.Elem())
		case *types.Array:
			return wrap(m, u.Elem())
		case *types.Map:
			return wrap(m, u.Elem())
		}
		m.unsupported("reflect Elem of %s", rt(m, a[0]))
		return nil
	}, "(*reflect.rtype).Elem")
	reg(func(m *Machine, a []Value) Value {
		var k reflect.Kind
		switch u := rt(m, a[0]).Underlying().(type) {
		case *types.Pointer:
			k = reflect.Pointer
		case *types.Slice:
			k = reflect.Slice
		case *types.Array:
			k = reflect.Array
		case *types.Map:
			k = reflect.Map
		case *types.Struct:
			k = reflect.Struct
		case *types.Interface:
			k = reflect.Interface
		case *types.Signature:
			k = reflect.Func
		case *types.Chan:
			k = reflect.Chan
		case *types.Basic:
			switch u.Kind() {
			case types.String:
				k = reflect.String
			case types.UnsafePointer:
				k = reflect.UnsafePointer
			default:
				if u.Kind() >= types.Bool && u.Kind() <= types.Complex128 {
					k = reflect.Bool + reflect.Kind(u.Kind()-types.Bool)
				}
			}
		}
		return m.c.Const(64, uint64(k))
	}, "(*reflect.rtype).Kind")
	reg(func(m *Machine, a []Value) Value {
		if n, ok := rt(m, a[0]).(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := rt(m, a[0]).(*types.Basic); ok {
			return b.Name()
		}
		return ""
	}, "(*reflect.rtype).Name")
	reg(func(m *Machine, a []Value) Value {
		return types.TypeString(rt(m, a[0]), func(p *types.Package) string { return p.Name() })
	}, "(*reflect.rtype).String")
}
