package main

import (
	"go/types"
	"reflect"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const zeroUnix = -62135596800

var locUTC = &LocVal{name: "UTC"}
var locLocal = &LocVal{name: "Local"}

func (t TimeVal) locName() string {
	if t.loc == nil {
		return "UTC"
	}
	return t.loc.name
}

func (m *Machine) timeZero() Value {
	zs := int64(zeroUnix)
	return TimeVal{sec: m.c.Const(64, uint64(zs)), nsec: m.c.Const(64, 0)}
}

func (m *Machine) asTime(v Value) TimeVal {
	switch t := v.(type) {
	case TimeVal:
		return t
	case *Value:
		if t == nil {
			m.targetRuntime("invalid memory address or nil pointer dereference")
		}
		return m.asTime(*t)
	}
	m.unsupported("time.Time expected, got %T", v)
	return TimeVal{}
}

func (m *Machine) timeConc(t TimeVal) (time.Time, bool) {
	if !t.sec.isConst() || !t.nsec.isConst() {
		return time.Time{}, false
	}
	return m.nativeTime(t.sec.sval(), t.nsec.sval(), t.loc), true
}

func (m *Machine) nativeTime(sec, nsec int64, l *LocVal) time.Time {
	r := time.Unix(sec, nsec).UTC()
	if l != nil && l != locUTC && l != locLocal {
		r = r.In(time.FixedZone(l.name, l.off))
	}
	return r
}

func (m *Machine) timeOf(t time.Time, l *LocVal) TimeVal {
	return TimeVal{m.c.Const(64, uint64(t.Unix())), m.c.Const(64, uint64(t.Nanosecond())), normLoc(l)}
}

func normLoc(l *LocVal) *LocVal {
	if l == locUTC {
		return nil
	}
	return l
}

// sample fixes a term to one feasible value (an under-approximation that is recorded).
func (m *Machine) sample(t *Term, why string) uint64 {
	if t.isConst() {
		return t.u
	}
	p := m.path
	if p == nil || m.inBase {
		m.unsupported("symbolic value in package initialisation")
	}
	m.x.bound("a few values only considered for " + why)
	p.partial = true
	c := m.c
	for n := 0; ; n++ {
		var d Dec
		if p.pos < len(p.prefix) {
			d = p.prefix[p.pos]
			p.pos++
			p.trace = append(p.trace, d)
			if d.guess == nil {
				m.unsupported("decision replay mismatch")
			}
		} else {
			m.x.checkStop()
			var hint []*Term
			if t.w >= 16 {
				hint = append(hint, c.Eq(c.Extract(t, 7, 0), c.Const(8, [3]uint64{0xA7, 0x01, 0x80}[n%3])))
			}
			r, mv := m.sol.Check(p.pc, hint, []*Term{t})
			if r != IsSat {
				r, mv = m.sol.Check(p.pc, nil, []*Term{t})
			}
			if r != IsSat {
				m.unsupported("no model to sample")
			}
			g := mv[0]
			if n < 2 && m.check(c.BNot(c.Eq(t, c.BigConst(t.w, g)))) == IsSat {
				m.x.push(append(append([]Dec(nil), p.trace...), Dec{taken: false, guess: g}))
			}
			d = Dec{taken: true, guess: g}
			m.record(d)
		}
		eq := c.Eq(t, c.BigConst(t.w, d.guess))
		m.addPC(m.lit(eq, d.taken))
		m.learn(eq, d.taken)
		if d.taken {
			return d.guess.Uint64()
		}
	}
}

func (m *Machine) timeSample(t TimeVal, why string) time.Time {
	s := int64(m.sample(t.sec, why))
	n := int64(m.sample(t.nsec, why))
	return m.nativeTime(s, n, t.loc)
}

func (m *Machine) mkTime(sec, nsec *Term, l *LocVal) TimeVal {
	// normalise nsec to [0,1e9)
	c := m.c
	e9 := c.Const(64, 1e9)
	if nsec.slo >= 0 && nsec.shi < 1e9 {
		return TimeVal{sec, nsec, l}
	}
	if nsec.slo >= -1e9 && nsec.shi < 2e9 {
		over := c.Sle(e9, nsec)
		under := c.Slt(nsec, c.Const(64, 0))
		sec = c.Add(sec, c.Ite(over, c.Const(64, 1), c.Ite(under, c.Neg(c.Const(64, 1)), c.Const(64, 0))))
		nsec = c.Ite(over, c.Sub(nsec, e9), c.Ite(under, c.Add(nsec, e9), nsec))
		return TimeVal{sec, c.clampBounds(nsec, 0, 1e9-1), l}
	}
	q, r := c.SDiv(nsec, e9), c.SRem(nsec, e9)
	neg := c.Slt(r, c.Const(64, 0))
	sec = c.Add(sec, c.Ite(neg, c.Sub(q, c.Const(64, 1)), q))
	return TimeVal{sec, c.clampBounds(c.Ite(neg, c.Add(r, e9), r), 0, 1e9-1), l}
}

func (m *Machine) timeAdd(t TimeVal, d *Term) TimeVal {
	c := m.c
	e9 := c.Const(64, 1e9)
	q, r := c.SDiv(d, e9), c.SRem(d, e9)
	return m.mkTime(c.Add(t.sec, q), c.Add(t.nsec, r), t.loc)
}

func (m *Machine) timeSub(t, u TimeVal) *Term {
	c := m.c
	ds := c.Sub(t.sec, u.sec)
	dn := c.Sub(t.nsec, u.nsec)
	const lim = 9223372035
	if !(ds.slo > -lim && ds.shi < lim) {
		in := c.BAnd(c.Slt(c.Neg(c.Const(64, lim)), ds), c.Slt(ds, c.Const(64, lim)))
		if !m.decide(in) {
			if !m.decide(c.Slt(ds, c.Const(64, 0))) {
				if m.decide(c.Slt(c.Const(64, lim+2), ds)) {
					return c.Const(64, 1<<63-1)
				}
			} else if m.decide(c.Slt(ds, c.Neg(c.Const(64, lim+3)))) {
				return c.Const(64, 1<<63)
			}
			a := int64(m.sample(ds, "time difference near the range limit"))
			b := int64(m.sample(dn, "time difference near the range limit"))
			return c.Const(64, uint64(time.Unix(a, b).Sub(time.Unix(0, 0))))
		}
		ds = m.narrow(ds, -lim, lim)
	}
	return c.Add(c.MulC(ds, 1e9), dn)
}

func (m *Machine) timeBefore(t, u TimeVal) *Term {
	c := m.c
	return c.BOr(c.Slt(t.sec, u.sec), c.BAnd(c.Eq(t.sec, u.sec), c.Slt(t.nsec, u.nsec)))
}

func (m *Machine) timeEqual(t, u TimeVal) *Term {
	return m.c.BAnd(m.c.Eq(t.sec, u.sec), m.c.Eq(t.nsec, u.nsec))
}

func init() {
	T := func(name string, f intrinsic) { reg(f, "(time.Time)."+name) }
	T("Unix", func(m *Machine, a []Value) Value { return m.asTime(a[0]).sec })
	T("UnixNano", func(m *Machine, a []Value) Value {
		t := m.asTime(a[0])
		return m.c.Add(m.c.MulC(t.sec, 1e9), t.nsec)
	})
	T("UnixMilli", func(m *Machine, a []Value) Value {
		t := m.asTime(a[0])
		return m.c.Add(m.c.MulC(t.sec, 1e3), m.c.SDiv(t.nsec, m.c.Const(64, 1e6)))
	})
	T("UnixMicro", func(m *Machine, a []Value) Value {
		t := m.asTime(a[0])
		return m.c.Add(m.c.MulC(t.sec, 1e6), m.c.SDiv(t.nsec, m.c.Const(64, 1e3)))
	})
	T("Nanosecond", func(m *Machine, a []Value) Value { return m.asTime(a[0]).nsec })
	T("IsZero", func(m *Machine, a []Value) Value {
		return m.timeEqual(m.asTime(a[0]), m.timeZero().(TimeVal))
	})
	T("After", func(m *Machine, a []Value) Value { return m.timeBefore(m.asTime(a[1]), m.asTime(a[0])) })
	T("Before", func(m *Machine, a []Value) Value { return m.timeBefore(m.asTime(a[0]), m.asTime(a[1])) })
	T("Equal", func(m *Machine, a []Value) Value { return m.timeEqual(m.asTime(a[0]), m.asTime(a[1])) })
	T("Compare", func(m *Machine, a []Value) Value {
		c := m.c
		x, y := m.asTime(a[0]), m.asTime(a[1])
		return c.Ite(m.timeBefore(x, y), c.Neg(c.Const(64, 1)), c.Ite(m.timeEqual(x, y), c.Const(64, 0), c.Const(64, 1)))
	})
	T("Add", func(m *Machine, a []Value) Value { return m.timeAdd(m.asTime(a[0]), m.asTerm(a[1])) })
	T("Sub", func(m *Machine, a []Value) Value { return m.timeSub(m.asTime(a[0]), m.asTime(a[1])) })
	T("UTC", func(m *Machine, a []Value) Value { t := m.asTime(a[0]); t.loc = nil; return t })
	T("Local", func(m *Machine, a []Value) Value { t := m.asTime(a[0]); t.loc = locLocal; return t })
	T("In", func(m *Machine, a []Value) Value {
		t := m.asTime(a[0])
		l, ok := a[1].(*LocVal)
		if !ok {
			if p, is := a[1].(*Value); is && p == nil {
				panic(targetPanic{v: Iface{m.stringType(), "time: missing Location in call to Time.In"}, text: "time: missing Location in call to Time.In"})
			}
			m.unsupported("time.In with %T", a[1])
		}
		t.loc = normLoc(l)
		return t
	})
	T("Location", func(m *Machine, a []Value) Value {
		t := m.asTime(a[0])
		if t.loc == nil {
			return locUTC
		}
		return t.loc
	})
	T("Round", func(m *Machine, a []Value) Value {
		t := m.asTime(a[0])
		d := m.asTerm(a[1])
		if d.isConst() && d.sval() == 1e9 {
			c := m.c
			up := c.Sle(c.Const(64, 5e8), t.nsec)
			return TimeVal{c.Add(t.sec, c.Ite(up, c.Const(64, 1), c.Const(64, 0))), c.Const(64, 0), t.loc}
		}
		if d.isConst() && d.sval() <= 0 {
			return t
		}
		n := m.timeSample(t, "time rounding")
		return m.timeOf(n.Round(time.Duration(m.sample(d, "time rounding"))), t.loc)
	})
	T("AddDate", func(m *Machine, a []Value) Value {
		c := m.c
		t := m.asTime(a[0])
		y, mo, d := m.asTerm(a[1]), m.asTerm(a[2]), m.asTerm(a[3])
		if y.isZero() && mo.isZero() && t.loc != locLocal {
			// no daylight saving in UTC and fixed zones: a day is 86400 seconds
			if d.isConst() || m.decide(c.BAnd(c.Sle(c.Neg(c.Const(64, 1<<40)), d), c.Sle(d, c.Const(64, 1<<40)))) {
				return TimeVal{c.Add(t.sec, c.MulC(m.narrow(d, -1<<40, 1<<40), 86400)), t.nsec, t.loc}
			}
		}
		n := m.timeSample(t, "calendar arithmetic")
		f := func(x *Term) int { return int(int64(m.sample(x, "calendar arithmetic"))) }
		return m.timeOf(n.AddDate(f(y), f(mo), f(d)), t.loc)
	})
	T("Truncate", func(m *Machine, a []Value) Value {
		c := m.c
		t := m.asTime(a[0])
		d := m.asTerm(a[1])
		if d.isConst() {
			dv := d.sval()
			if dv <= 0 {
				return t
			}
			if 1e9%dv == 0 {
				q := c.SRem(t.nsec, c.Const(64, uint64(dv)))
				return TimeVal{t.sec, c.clampBounds(c.Sub(t.nsec, q), 0, 1e9-1), t.loc}
			}
			if dv%1e9 == 0 {
				// seconds since year 1
				k := dv / 1e9
				if m.decide(c.BAnd(c.Sle(c.Const(64, 0), t.sec), c.Slt(t.sec, c.Const(64, 1<<40)))) {
					s := m.narrow(t.sec, 0, 1<<40)
					zu := int64(zeroUnix)
					r := c.SRem(c.Sub(s, c.Const(64, uint64(zu))), c.Const(64, uint64(k)))
					return TimeVal{c.Sub(s, r), c.Const(64, 0), t.loc}
				}
			}
		}
		n := m.timeSample(t, "time truncation")
		return m.timeOf(n.Truncate(time.Duration(m.sample(d, "time truncation"))), t.loc)
	})
	opq := func(what string) intrinsic {
		return func(m *Machine, a []Value) Value {
			t := m.asTime(a[0])
			if n, ok := m.timeConc(t); ok {
				if what == "String" {
					return n.String()
				}
				if f, ok := m.concString(a[1]); ok {
					return n.Format(f)
				}
			}
			args := []Value{t}
			if what != "String" {
				args = append(args, a[1])
			}
			return &Opaque{what: "time." + what, args: args}
		}
	}
	T("String", opq("String"))
	T("Format", opq("Format"))
	reg(func(m *Machine, a []Value) Value {
		return m.mkTime(m.asTerm(a[0]), m.asTerm(a[1]), locLocal)
	}, "time.Unix")
	reg(func(m *Machine, a []Value) Value {
		c := m.c
		x := m.asTerm(a[0])
		q, r := c.SDiv(x, c.Const(64, 1000)), c.SRem(x, c.Const(64, 1000))
		return m.mkTime(q, c.MulC(r, 1e6), locLocal)
	}, "time.UnixMilli")
	reg(func(m *Machine, a []Value) Value {
		return m.envNow()
	}, "time.Now")
	reg(func(m *Machine, a []Value) Value { return m.timeSub(m.envNow(), m.asTime(a[0])) }, "time.Since")
	reg(func(m *Machine, a []Value) Value { return m.timeSub(m.asTime(a[0]), m.envNow()) }, "time.Until")
	reg(func(m *Machine, a []Value) Value {
		var v [7]int
		for i := range v {
			v[i] = int(int64(m.sample(m.c.SExt(m.asTerm(a[i]), 64), "calendar field")))
		}
		l, ok := a[7].(*LocVal)
		if !ok {
			m.unsupported("time.Date with %T", a[7])
		}
		nl := time.UTC
		if l != locUTC && l != locLocal {
			nl = time.FixedZone(l.name, l.off)
		}
		return m.timeOf(time.Date(v[0], time.Month(v[1]), v[2], v[3], v[4], v[5], v[6], nl), l)
	}, "time.Date")
	reg(func(m *Machine, a []Value) Value {
		return &LocVal{name: m.mustString(a[0]), off: m.concInt(m.asTerm(a[1]))}
	}, "time.FixedZone")
	reg(func(m *Machine, a []Value) Value {
		s := m.mustString(a[0])
		if s == "" || s == "UTC" {
			return Tuple{locUTC, Iface{}}
		}
		if s == "Local" {
			return Tuple{locLocal, Iface{}}
		}
		m.unsupported("time.LoadLocation")
		return nil
	}, "time.LoadLocation")
	reg(func(m *Machine, a []Value) Value {
		d := m.asTerm(a[0])
		if d.isConst() {
			return Float{f: time.Duration(d.sval()).Seconds()}
		}
		c := m.c
		e9 := c.Const(64, 1e9)
		q, r := c.SDiv(d, e9), c.SRem(d, e9)
		if r.isZero() {
			return Float{sec: q}
		}
		return Float{sec: q, nsec: r}
	}, "(time.Duration).Seconds")
	reg(func(m *Machine, a []Value) Value {
		d := m.asTerm(a[0])
		if d.isConst() {
			return time.Duration(d.sval()).String()
		}
		return &Opaque{what: "duration", args: []Value{d}}
	}, "(time.Duration).String")
}

// timeNative handles the other methods of time.Time on one concrete value.
func (m *Machine) timeNative(name string, fn *ssa.Function, args []Value) Value {
	i := strings.LastIndex(name, ".")
	meth := name[i+1:]
	rv := reflect.ValueOf(time.Time{}).MethodByName(meth)
	if !rv.IsValid() || strings.HasPrefix(name, "(*") {
		m.unsupported("%s", name)
	}
	t := m.asTime(args[0])
	n, ok := m.timeConc(t)
	if !ok {
		n = m.timeSample(t, "calendar arithmetic (time."+meth+")")
	}
	rv = reflect.ValueOf(n).MethodByName(meth)
	in := make([]reflect.Value, len(args)-1)
	tt := reflect.TypeOf(time.Time{})
	for i := range in {
		if rv.Type().In(i) == tt {
			u := m.asTime(args[i+1])
			un, ok := m.timeConc(u)
			if !ok {
				un = m.timeSample(u, "calendar arithmetic (time."+meth+")")
			}
			in[i] = reflect.ValueOf(un)
			continue
		}
		av := args[i+1]
		if t, is := av.(*Term); is && !t.isConst() && t.w > 0 {
			av = m.c.Const(t.w, m.sample(t, "calendar arithmetic (time."+meth+")"))
		}
		x, ok := m.toNative(av, rv.Type().In(i))
		if !ok {
			m.unsupported("%s with symbolic argument", name)
		}
		in[i] = x
	}
	outs := rv.Call(in)
	conv := func(o reflect.Value) Value {
		if o.Type() == tt {
			return m.timeOf(o.Interface().(time.Time), t.loc)
		}
		return m.fromNative(o)
	}
	if len(outs) == 1 {
		return conv(outs[0])
	}
	r := make(Tuple, len(outs))
	for i := range outs {
		r[i] = conv(outs[i])
	}
	return r
}

// concretizeOpaque resolves a formatted value by fixing its arguments to one feasible value.
func (m *Machine) concretizeOpaque(o *Opaque) Value {
	switch o.what {
	case "itoa":
		t := o.args[0].(*Term)
		sg := o.args[1].(*Term).isTrue()
		base := int(o.args[2].(*Term).u)
		return m.itoaForked(t, sg, base)
	case "time.String", "time.Format":
		n := m.timeSample(o.args[0].(TimeVal), "formatted time")
		if o.what == "time.String" {
			return n.String()
		}
		return n.Format(m.mustString(o.args[1]))
	case "duration":
		return time.Duration(m.sample(o.args[0].(*Term), "formatted duration")).String()
	case "quote":
		return m.quoteForked(o.args[0])
	}
	m.unsupported("contents of formatted value %s", o.what)
	return nil
}

func isErrorType(t types.Type) bool { return types.Implements(t, errorIface) }

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
