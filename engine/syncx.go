package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Env is the per-path state of the modelled environment.
type Env struct {
	abort    any
	preempts int
	sendq    map[*ChanVal]*[]*sendReq

	generic  bool
	longRand bool // draws of 16 bytes start with a non-zero byte
	shortAt  int
	shortTwo bool
	genCount int
	genSeen  map[*Term]bool

	cli *CLIState
}

func newEnv() *Env {
	return &Env{sendq: map[*ChanVal]*[]*sendReq{}, generic: true, shortAt: -1, genSeen: map[*Term]bool{}}
}

// leaf finds the n-th integer cell inside a struct (used for the state words of sync types).
func leaf(p *Value, n *int) *Value {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			if r := leaf(&v[i], n); r != nil {
				return r
			}
		}
	case Array:
		for i := range v {
			if r := leaf(&v[i], n); r != nil {
				return r
			}
		}
	case *Term:
		if *n == 0 {
			return p
		}
		*n--
	}
	return nil
}

func (m *Machine) ptr(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			m.targetRuntime("invalid memory address or nil pointer dereference")
		}
		return p
	case SeqPtr:
		if len(p.seq) > 0 {
			return &p.seq[0]
		}
	case Poison:
		m.unsupported("use of %s", p)
	}
	m.unsupported("pointer expected, got %T", v)
	return nil
}

func (m *Machine) stateWord(v Value) *Value {
	n := 0
	p := leaf(m.ptr(v), &n)
	if p == nil {
		m.unsupported("sync object without a state word")
	}
	return p
}

func init() {
	isZero := func(p *Value) bool { t, ok := (*p).(*Term); return ok && t.isZero() }
	one := func(m *Machine, p *Value) Value { return m.c.Const((*p).(*Term).w, 1) }
	zero := func(m *Machine, p *Value) Value { return m.c.Const((*p).(*Term).w, 0) }
	lock := func(m *Machine, a []Value) Value {
		p := m.stateWord(a[0])
		m.yieldPoint("lock")
		m.block("mutex", func() bool { return isZero(p) })
		m.set(p, one(m, p))
		return nil
	}
	unlock := func(m *Machine, a []Value) Value {
		p := m.stateWord(a[0])
		if isZero(p) {
			m.targetRuntime("sync: unlock of unlocked mutex")
		}
		m.set(p, zero(m, p))
		return nil
	}
	reg(lock, "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(m *Machine, a []Value) Value {
		p := m.stateWord(a[0])
		if isZero(p) {
			m.set(p, one(m, p))
			return m.c.True
		}
		return m.c.False
	}, "(*sync.Mutex).TryLock", "(*internal/sync.Mutex).TryLock")
	// RWMutex: state word = -1 writer, n readers
	rw := func(v Value, m *Machine) *Value { return m.stateWord(v) }
	reg(func(m *Machine, a []Value) Value {
		p := rw(a[0], m)
		m.yieldPoint("lock")
		m.block("rwmutex", func() bool { return isZero(p) })
		m.set(p, m.c.Const((*p).(*Term).w, ^uint64(0)))
		return nil
	}, "(*sync.RWMutex).Lock")
	reg(func(m *Machine, a []Value) Value { p := rw(a[0], m); m.set(p, zero(m, p)); return nil }, "(*sync.RWMutex).Unlock")
	reg(func(m *Machine, a []Value) Value {
		p := rw(a[0], m)
		m.yieldPoint("rlock")
		m.block("rwmutex", func() bool { return (*p).(*Term).sval() >= 0 })
		m.set(p, m.c.Add((*p).(*Term), one(m, p).(*Term)))
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(m *Machine, a []Value) Value {
		p := rw(a[0], m)
		m.set(p, m.c.Sub((*p).(*Term), one(m, p).(*Term)))
		return nil
	}, "(*sync.RWMutex).RUnlock")
	// WaitGroup: state word holds the counter
	reg(func(m *Machine, a []Value) Value {
		p := m.stateWord(a[0])
		n := m.concInt(m.asTerm(a[1]))
		t := (*p).(*Term)
		nt := m.c.Const(t.w, uint64(t.sval()+int64(n)))
		if nt.sval() < 0 {
			m.targetRuntime("sync: negative WaitGroup counter")
		}
		m.set(p, nt)
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Machine, a []Value) Value {
		p := m.stateWord(a[0])
		m.yieldPoint("wait")
		m.block("WaitGroup", func() bool { return isZero(p) })
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Machine, a []Value) Value {
		p := m.ptr(a[0])
		st := (*p).(Struct)
		if f, ok := st[len(st)-1].(*Closure); ok && f != nil {
			return m.callback(f)
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(nop, "(*sync.Pool).Put", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime/debug.FreeOSMemory",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register", "internal/godebug.registerMetric",
		"time.runtimeNow", "runtime/debug.SetGCPercent", "os/signal.Reset", "os/signal.Ignore")
	reg(func(m *Machine, a []Value) Value { return m.c.Const(64, 8) }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	reg(func(m *Machine, a []Value) Value { m.yieldPoint("gosched"); return nil }, "runtime.Gosched")
	reg(func(m *Machine, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).Name")
	reg(func(m *Machine, a []Value) Value { return (*Value)(nil) }, "internal/godebug.New")
	reg(func(m *Machine, a []Value) Value { return Iface{} }, "runtime/debug.ReadBuildInfo")

	// math/bits
	for _, b := range []struct {
		n string
		w uint64
	}{{"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}, {"", 64}} {
		reg(func(m *Machine, a []Value) Value { return m.bitLen64(m.asTerm(a[0])) }, "math/bits.Len"+b.n)
		reg(func(m *Machine, a []Value) Value {
			return m.c.Sub(m.c.Const(64, b.w), m.bitLen64(m.asTerm(a[0])))
		}, "math/bits.LeadingZeros"+b.n)
	}

	// sync/atomic
	at := "sync/atomic."
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(m *Machine, a []Value) Value { m.yieldPoint("atomic"); return m.load(m.ptr(a[0])) }, at+"Load"+ty)
		reg(func(m *Machine, a []Value) Value { m.yieldPoint("atomic"); m.set(m.ptr(a[0]), a[1]); return nil }, at+"Store"+ty)
		reg(func(m *Machine, a []Value) Value {
			m.yieldPoint("atomic")
			p := m.ptr(a[0])
			old := *p
			m.set(p, a[1])
			return old
		}, at+"Swap"+ty)
		reg(func(m *Machine, a []Value) Value {
			m.yieldPoint("atomic")
			p := m.ptr(a[0])
			if m.decide(m.equal(*p, a[1], nil)) {
				m.set(p, a[2])
				return m.c.True
			}
			return m.c.False
		}, at+"CompareAndSwap"+ty)
		if ty != "Pointer" {
			reg(func(m *Machine, a []Value) Value {
				m.yieldPoint("atomic")
				p := m.ptr(a[0])
				n := m.c.Add(m.asTerm(*p), m.asTerm(a[1]))
				m.set(p, n)
				return n
			}, at+"Add"+ty)
			reg(func(m *Machine, a []Value) Value {
				p := m.ptr(a[0])
				old := m.asTerm(*p)
				m.set(p, m.c.And(old, m.asTerm(a[1])))
				return old
			}, at+"And"+ty)
			reg(func(m *Machine, a []Value) Value {
				p := m.ptr(a[0])
				old := m.asTerm(*p)
				m.set(p, m.c.Or(old, m.asTerm(a[1])))
				return old
			}, at+"Or"+ty)
		}
	}
	// atomic.Value and atomic.Pointer[T] keep their content in the first suitable field
	reg(func(m *Machine, a []Value) Value {
		p := m.ptr(a[0])
		st := (*p).(Struct)
		return st[0]
	}, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, a []Value) Value {
		p := m.ptr(a[0])
		st := (*p).(Struct)
		m.set(&st[0], a[1])
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(m *Machine, a []Value) Value {
		p := m.ptr(a[0])
		st := (*p).(Struct)
		old := st[0]
		m.set(&st[0], a[1])
		return old
	}, "(*sync/atomic.Value).Swap")
	ap := "(*sync/atomic.Pointer[T])."
	last := func(m *Machine, v Value) *Value {
		st := (*m.ptr(v)).(Struct)
		return &st[len(st)-1]
	}
	reg(func(m *Machine, a []Value) Value { return *last(m, a[0]) }, ap+"Load")
	reg(func(m *Machine, a []Value) Value { m.set(last(m, a[0]), a[1]); return nil }, ap+"Store")
	reg(func(m *Machine, a []Value) Value {
		p := last(m, a[0])
		old := *p
		m.set(p, a[1])
		return old
	}, ap+"Swap")
	reg(func(m *Machine, a []Value) Value {
		p := last(m, a[0])
		if m.decide(m.equal(*p, a[1], nil)) {
			m.set(p, a[2])
			return m.c.True
		}
		return m.c.False
	}, ap+"CompareAndSwap")
}

// globalOverride gives the modelled value of certain library globals.
func (m *Machine) globalOverride(g *ssa.Global) Value {
	if g.Pkg == nil {
		return nil
	}
	if e, ok := m.prog.embeds[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
		if _, isStr := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); isStr {
			*m.globals[g] = e
			return nil
		}
		*m.globals[g] = termsToSlice(m.bytesOfString(e))
		return nil
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "time.UTC":
		return locUTC
	case "time.Local":
		return locLocal
	case "os.Stdin", "os.Stdout", "os.Stderr":
		fd := map[string]int{"Stdin": 0, "Stdout": 1, "Stderr": 2}[g.Name()]
		return newCell(&FileVal{fd: fd, name: "/dev/" + map[int]string{0: "stdin", 1: "stdout", 2: "stderr"}[fd], std: true})
	case "golang.org/x/crypto/curve25519.Basepoint":
		return nil
	}
	return nil
}

var _ = types.Typ

func (m *Machine) bitLen64(t *Term) *Term {
	b := m.bitLen(t)
	if b.w < 64 {
		return m.c.ZExt(b, 64)
	}
	return b
}
