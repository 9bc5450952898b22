package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int32 // >=0: register
	c    Value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	op  []opnd
	aux any
}

type cblock struct {
	phis  []*ssa.Phi
	pdst  []int32
	pops  [][]opnd
	ins   []cinstr
	succs []int
	preds []int
}

type cfunc struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cblock
	params   int
	intr     intrinsic
	name     string
	hasDefer bool
	recover  int
	repo     bool
	built    bool
}

type intrinsic func(m *Machine, args []Value) Value

type notHandled struct{}

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

type frame struct {
	m         *Machine
	cf        *cfunc
	regs      []Value
	caller    *frame
	block     int
	prev      int
	pc        int
	defers    []deferred
	panicking bool
	panicVal  targetPanic
	result    Value
	depth     int
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func (m *Machine) cfunc(fn *ssa.Function) *cfunc {
	if cf, ok := m.funcs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn, name: fnKey(fn), recover: -1}
	m.funcs[fn] = cf
	cf.intr = lookupIntrinsic(cf.name, fn)
	if fn.Pkg != nil {
		cf.repo = m.prog.isRepo(fn.Pkg.Pkg.Path())
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		cf.repo = m.prog.isRepo(o.Pkg.Pkg.Path())
	}
	return cf
}

func (m *Machine) compile(cf *cfunc) {
	fn := cf.fn
	cf.built = true
	slots := map[ssa.Value]int32{}
	n := int32(0)
	alloc := func(v ssa.Value) int32 {
		slots[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		alloc(p)
	}
	for _, p := range fn.FreeVars {
		alloc(p)
	}
	cf.params = len(fn.Params)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{slot: -1, c: m.constVal(x)}
		case *ssa.Global:
			return opnd{slot: -2, g: x}
		case *ssa.Function:
			return opnd{slot: -1, c: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{slot: -1, c: &Closure{builtin: x}}
		case nil:
			return opnd{slot: -1}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v, fn))
		}
		return opnd{slot: s}
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, phi)
				cb.pdst = append(cb.pdst, slots[phi])
				ops := make([]opnd, len(phi.Edges))
				for i, e := range phi.Edges {
					ops[i] = mk(e)
				}
				cb.pops = append(cb.pops, ops)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			for _, o := range in.Operands(nil) {
				if *o == nil {
					ci.op = append(ci.op, opnd{slot: -1})
				} else {
					ci.op = append(ci.op, mk(*o))
				}
			}
			switch x := in.(type) {
			case *ssa.Defer:
				cf.hasDefer = true
			case *ssa.Store:
				// operand order: Addr, Val
			case *ssa.Alloc:
				ci.aux = x.Type().Underlying().(*types.Pointer).Elem()
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		cf.recover = fn.Recover.Index
	}
	cf.nregs = int(n)
}

func (fr *frame) get(o opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.g != nil {
		return fr.m.globalAddr(o.g)
	}
	return o.c
}

func (m *Machine) constVal(k *ssa.Const) Value {
	if v, ok := m.consts[k]; ok {
		return v
	}
	v := m.constVal1(k)
	m.consts[k] = v
	return v
}

func (m *Machine) constVal1(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return m.zero(t)
	}
	return m.constOf(k.Value, t)
}

func (m *Machine) constOf(cv constant.Value, t types.Type) Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.Underlying().(*types.Interface); ok {
			_ = tp
		}
		return Poison{"const of type " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(cv))
	case b.Info()&types.IsString != 0:
		if cv.Kind() == constant.Int {
			i, _ := constant.Int64Val(cv)
			return string(rune(i))
		}
		return constant.StringVal(cv)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(cv))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Float{f: f}
	}
	if w, _, ok := intWidth(b); ok {
		x := constant.ToInt(cv)
		if i, ok := constant.Int64Val(x); ok {
			return m.c.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(x)
		return m.c.Const(w, u)
	}
	if b.Kind() == types.UnsafePointer {
		return (*Value)(nil)
	}
	return Poison{"const of type " + t.String()}
}

func (m *Machine) globalAddr(g *ssa.Global) *Value {
	p, ok := m.globals[g]
	if !ok {
		p = new(Value)
		*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
		m.globals[g] = p
		if o := m.globalOverride(g); o != nil {
			*p = o
			m.frozen[p] = true
			return p
		}
	}
	if g.Pkg != nil && m.pkgInit[g.Pkg] == 0 {
		m.initPackage(g.Pkg)
	}
	return p
}

// initPackage runs a package initialiser tolerantly, as part of the base state.
func (m *Machine) initPackage(p *ssa.Package) {
	if m.pkgInit[p] != 0 {
		return
	}
	m.pkgInit[p] = 1
	init := p.Func("init")
	if init == nil || skipInit(p.Pkg.Path()) {
		m.pkgInit[p] = 2
		return
	}
	// base state: not journaled, runs outside any path
	oldBase, oldPath, oldCur := m.inBase, m.path, m.cur
	m.inBase = true
	m.cur = &gor{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					m.x.noteInit(p.Pkg.Path(), x.msg)
				case targetPanic:
					m.x.noteInit(p.Pkg.Path(), "panic: "+m.panicText(x))
				default:
					panic(r)
				}
			}
		}()
		m.call(nil, init, nil, nil)
	}()
	m.inBase, m.path, m.cur = oldBase, oldPath, oldCur
	m.pkgInit[p] = 2
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "internal/godebug", "internal/cpu", "crypto/internal/fips140/check", "crypto/internal/sysrand", "os/signal", "internal/poll", "syscall":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime")
}

const maxDepth = 3000

func (m *Machine) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	cf := m.cfunc(fn)
	if cf.intr != nil {
		r := cf.intr(m, args)
		if _, nh := r.(notHandled); !nh {
			return r
		}
	}
	if fn.Blocks == nil {
		m.unsupported("function without Go body: %s", fn.String())
	}
	if !cf.built {
		m.compile(cf)
	}
	if cf.repo && !m.encoded[fn] {
		m.encoded[fn] = true
	}
	fr := &frame{m: m, cf: cf, caller: caller, regs: make([]Value, cf.nregs)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			m.targetRuntime("stack overflow")
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	m.cur.top = fr
	if cf.hasDefer || cf.recover >= 0 {
		m.runDeferring(fr)
	} else {
		fr.run()
	}
	m.cur.top = caller
	return fr.result
}

func (m *Machine) runDeferring(fr *frame) {
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			tp, isT := r.(targetPanic)
			if !isT {
				panic(r)
			}
			m.cur.top = fr
			fr.panicking = true
			fr.panicVal = tp
		}()
		fr.run()
		ok = true
	}()
	if ok {
		return
	}
	fr.runDefers()
	if fr.panicking {
		panic(fr.panicVal)
	}
	// recovered
	if fr.cf.recover >= 0 {
		fr.block = fr.cf.recover
		fr.pc = 0
		fr.run()
		return
	}
	fr.result = m.zeroResults(fr.cf.fn.Signature)
}

func (m *Machine) zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return m.zero(sig.Results().At(0).Type())
	}
	return m.zero(sig.Results())
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			tp, isT := r.(targetPanic)
			if !isT {
				panic(r)
			}
			fr.m.cur.top = fr
			fr.panicking = true
			fr.panicVal = tp
			ok = true
		}()
		fr.m.callValue(fr, d.fn, d.args, nil)
		ok = true
	}()
}

func (m *Machine) callValue(caller *frame, f Value, args []Value, site ssa.CallInstruction) Value {
	cl, ok := f.(*Closure)
	if !ok {
		m.unsupported("call of %T", f)
	}
	if cl == nil {
		m.targetRuntime("invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		return cl.native(m, args)
	}
	if cl.builtin != nil {
		return m.builtin(caller, cl.builtin, args, site)
	}
	return m.call(caller, cl.fn, args, cl.env)
}

// CallClosure lets intrinsics call back into the program.
func (m *Machine) callback(f Value, args ...Value) Value {
	return m.callValue(m.cur.top, f, args, nil)
}

func (m *Machine) targetRuntime(text string) {
	panic(targetPanic{v: Iface{m.prog.runtimeErr, "runtime error: " + text}, text: "runtime error: " + text})
}

func (m *Machine) panicText(t targetPanic) string {
	if t.text != "" {
		return t.text
	}
	return describe(t.v)
}

func (fr *frame) run() {
	m := fr.m
	for {
		cb := &fr.cf.blocks[fr.block]
		if n := len(cb.phis); n > 0 && fr.pc == 0 {
			pi := 0
			for i, p := range cb.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if n == 1 {
				fr.regs[cb.pdst[0]] = fr.get(cb.pops[0][pi])
			} else {
				var tmp [16]Value
				t := tmp[:0]
				for i := 0; i < n; i++ {
					t = append(t, fr.get(cb.pops[i][pi]))
				}
				for i := 0; i < n; i++ {
					fr.regs[cb.pdst[i]] = t[i]
				}
			}
		}
		if m.path != nil {
			m.path.steps += int64(len(cb.ins))
			if m.polls++; m.polls&0x3fff == 0 {
				m.x.checkStop()
			}
			if m.path.steps > m.x.maxSteps {
				panic(pathEnd{"budget", fmt.Sprintf("more than %d steps%s", m.x.maxSteps, m.where())})
			}
		}
		ins := cb.ins
		next := -1
		for i := 0; i < len(ins); i++ {
			ci := &ins[i]
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = cb.succs[0]
			case *ssa.If:
				cond := fr.get(ci.op[0])
				t, ok := cond.(*Term)
				if !ok {
					m.unsupported("branch on %T", cond)
				}
				if m.decide(t) {
					next = cb.succs[0]
				} else {
					next = cb.succs[1]
				}
			case *ssa.Return:
				switch len(ci.op) {
				case 0:
				case 1:
					fr.result = fr.get(ci.op[0])
				default:
					t := make(Tuple, len(ci.op))
					for j := range ci.op {
						t[j] = fr.get(ci.op[j])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := fr.get(ci.op[0])
				panic(targetPanic{v: v})
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.panicking {
					panic(fr.panicVal)
				}
			default:
				_ = in
				if m.inBase && fr.caller == nil && fr.cf.fn.Name() == "init" {
					fr.tolerant(ci)
				} else {
					fr.exec(ci)
				}
			}
		}
		if next < 0 {
			m.unsupported("block without terminator")
		}
		fr.prev = fr.block
		fr.block = next
		fr.pc = 0
	}
}

// tolerant executes one instruction of a package initialiser; a failure poisons its result only.
func (fr *frame) tolerant(ci *cinstr) {
	defer func() {
		if r := recover(); r != nil {
			var why string
			switch x := r.(type) {
			case pathEnd:
				why = x.msg
			case targetPanic:
				why = "panic: " + fr.m.panicText(x)
			default:
				panic(r)
			}
			fr.m.cur.top = fr
			if ci.dst >= 0 {
				fr.regs[ci.dst] = Poison{why}
				if t, ok := ci.in.(ssa.Value).Type().(*types.Tuple); ok {
					tt := make(Tuple, t.Len())
					for i := range tt {
						tt[i] = Poison{why}
					}
					fr.regs[ci.dst] = tt
				}
			}
			fr.m.x.noteInit(fr.cf.fn.Pkg.Pkg.Path(), why)
		}
	}()
	// calls to the initialisers of other packages are made lazily
	if c, ok := ci.in.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Synthetic != "" && f.Pkg != fr.cf.fn.Pkg {
			if fr.m.prog.isRepo(f.Pkg.Pkg.Path()) {
				fr.m.initPackage(f.Pkg)
			}
			return
		}
	}
	fr.exec(ci)
}

func (m *Machine) asTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		if p, isP := v.(Poison); isP {
			m.unsupported("use of %s", p)
		}
		m.unsupported("scalar expected, got %T", v)
	}
	return t
}

func (fr *frame) exec(ci *cinstr) {
	m := fr.m
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = m.zero(ci.aux.(types.Type))
		fr.regs[ci.dst] = p

	case *ssa.UnOp:
		fr.regs[ci.dst] = m.unop(fr, in, fr.get(ci.op[0]))

	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(ci.op[0]), fr.get(ci.op[1]))

	case *ssa.Store:
		m.storeTo(fr.get(ci.op[0]), fr.get(ci.op[1]))

	case *ssa.Call:
		fr.regs[ci.dst] = fr.doCall(&in.Call, ci, in)

	case *ssa.FieldAddr:
		switch p := fr.get(ci.op[0]).(type) {
		case *Value:
			if p == nil {
				m.targetRuntime("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				if po, is := (*p).(Poison); is {
					m.unsupported("field of %s", po)
				}
				m.unsupported("field address in %T (%s)", *p, in)
			}
			fr.regs[ci.dst] = &s[in.Field]
		case *SymPtr:
			i := m.concInt(p.idx)
			s := p.seq[i].(Struct)
			fr.regs[ci.dst] = &s[in.Field]
		default:
			m.unsupported("field address of %T", p)
		}

	case *ssa.Field:
		s, ok := fr.get(ci.op[0]).(Struct)
		if !ok {
			m.unsupported("field of %T", fr.get(ci.op[0]))
		}
		fr.regs[ci.dst] = s[in.Field]

	case *ssa.IndexAddr:
		fr.regs[ci.dst] = m.indexAddr(fr.get(ci.op[0]), m.idxTerm(fr.get(ci.op[1]), in.Index.Type()))

	case *ssa.Index:
		fr.regs[ci.dst] = m.index(fr.get(ci.op[0]), m.idxTerm(fr.get(ci.op[1]), in.Index.Type()))

	case *ssa.Lookup:
		if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
			fr.regs[ci.dst] = m.mapLookup(fr, in, fr.get(ci.op[0]), fr.get(ci.op[1]))
		} else {
			fr.regs[ci.dst] = m.index(fr.get(ci.op[0]), m.idxTerm(fr.get(ci.op[1]), in.Index.Type()))
		}

	case *ssa.Extract:
		t, ok := fr.get(ci.op[0]).(Tuple)
		if !ok {
			m.unsupported("extract from %T", fr.get(ci.op[0]))
		}
		fr.regs[ci.dst] = t[in.Index]

	case *ssa.Slice:
		var lo, hi, mx Value
		// operand order: X, Low, High, Max
		if in.Low != nil {
			lo = m.idxTerm(fr.get(ci.op[1]), in.Low.Type())
		}
		if in.High != nil {
			hi = m.idxTerm(fr.get(ci.op[2]), in.High.Type())
		}
		if in.Max != nil {
			mx = m.idxTerm(fr.get(ci.op[3]), in.Max.Type())
		}
		fr.regs[ci.dst] = m.slice(fr.get(ci.op[0]), lo, hi, mx)

	case *ssa.MakeSlice:
		n := m.asTerm(m.idxTerm(fr.get(ci.op[0]), in.Len.Type()))
		k := m.asTerm(m.idxTerm(fr.get(ci.op[1]), in.Cap.Type()))
		ln, cp := m.concInt(n), m.concInt(k)
		if ln < 0 || ln > 1<<30 {
			m.targetRuntime("makeslice: len out of range")
		}
		if cp < ln || cp > 1<<30 {
			m.targetRuntime("makeslice: cap out of range")
		}
		if cp > 1<<24 {
			m.unsupported("slice of %d elements", cp)
		}
		fr.regs[ci.dst] = m.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), ln, cp)

	case *ssa.MakeMap:
		fr.regs[ci.dst] = &MapVal{idx: map[any]int{}, kt: in.Type().Underlying().(*types.Map).Key()}

	case *ssa.MapUpdate:
		m.mapUpdate(fr.get(ci.op[0]), fr.get(ci.op[1]), fr.get(ci.op[2]))

	case *ssa.MakeChan:
		n := m.concInt(m.asTerm(fr.get(ci.op[0])))
		fr.regs[ci.dst] = &ChanVal{cap: n, et: in.Type().Underlying().(*types.Chan).Elem()}

	case *ssa.MakeInterface:
		v := fr.get(ci.op[0])
		fr.regs[ci.dst] = Iface{in.X.Type(), copyVal(v)}

	case *ssa.MakeClosure:
		env := make([]Value, len(ci.op)-1)
		for i := range env {
			env[i] = fr.get(ci.op[i+1])
		}
		fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}

	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(ci.op[0])

	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(fr.get(ci.op[0]), in.X.Type(), in.Type())

	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(fr.get(ci.op[0]), in.X.Type(), in.Type())

	case *ssa.SliceToArrayPointer:
		s := fr.get(ci.op[0]).(Slice)
		at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(len(s)) < at.Len() {
			m.targetRuntime("cannot convert slice to array pointer: length too short")
		}
		if s == nil {
			fr.regs[ci.dst] = (*Value)(nil)
			return
		}
		p := new(Value)
		*p = Array(s[:at.Len():at.Len()])
		fr.regs[ci.dst] = p

	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(in, fr.get(ci.op[0]))

	case *ssa.Range:
		fr.regs[ci.dst] = m.rangeIter(fr, fr.get(ci.op[0]), in.X.Type())

	case *ssa.Next:
		fr.regs[ci.dst] = m.next(fr, in, fr.get(ci.op[0]).(*iter))

	case *ssa.Defer:
		fn, args := fr.prepCall(&in.Call, ci)
		fr.defers = append(fr.defers, deferred{fn, args, in})

	case *ssa.Go:
		fn, args := fr.prepCall(&in.Call, ci)
		m.spawn(fn, args)

	case *ssa.Send:
		m.chanSend(fr.get(ci.op[0]), fr.get(ci.op[1]))

	case *ssa.Select:
		fr.regs[ci.dst] = m.selectStmt(fr, in, ci)

	default:
		m.unsupported("instruction %T", in)
	}
}

func (m *Machine) makeSlice(et types.Type, ln, cp int) Slice {
	s := make(Slice, cp)
	if cp > 0 {
		z := m.zero(et)
		agg := false
		switch z.(type) {
		case Struct, Array:
			agg = true
		}
		for i := range s {
			if agg && i > 0 {
				s[i] = m.zero(et)
			} else {
				s[i] = z
			}
		}
	}
	return s[:ln]
}

func (m *Machine) storeTo(p Value, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			m.targetRuntime("invalid memory address or nil pointer dereference")
		}
		m.store(p, v)
	case *SymPtr:
		nv, ok := v.(*Term)
		if ok && len(p.seq) <= 512 {
			all := true
			for _, e := range p.seq {
				if _, ok := e.(*Term); !ok {
					all = false
				}
			}
			if all {
				for i := range p.seq {
					if i > 0 && p.idx.w < 62 && uint64(i) >= 1<<uint(p.idx.w) {
						break
					}
					c := m.c.Eq(p.idx, m.c.Const(p.idx.w, uint64(i)))
					if c.isFalse() {
						continue
					}
					m.set(&p.seq[i], m.c.Ite(c, nv, p.seq[i].(*Term)))
				}
				return
			}
		}
		i := m.concInt(p.idx)
		m.store(&p.seq[i], v)
	default:
		if po, ok := p.(Poison); ok {
			m.unsupported("store through %s", po)
		}
		m.unsupported("store through %T", p)
	}
}

func (m *Machine) loadFrom(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			m.targetRuntime("invalid memory address or nil pointer dereference")
		}
		return m.load(p)
	case *SymPtr:
		return m.symRead(p.seq, p.idx)
	case SeqPtr:
		if len(p.seq) == 0 {
			m.unsupported("load through empty SliceData")
		}
		return m.load(&p.seq[0])
	}
	if po, ok := p.(Poison); ok {
		m.unsupported("load through %s", po)
	}
	m.unsupported("load through %T", p)
	return nil
}

// symRead reads seq[idx]; idx is already known to be in range.
func (m *Machine) symRead(seq []Value, idx *Term) Value {
	if idx.isConst() {
		return copyVal(seq[idx.u])
	}
	// restrict to feasible prefix
	hi := len(seq) - 1
	if idx.w <= 64 && idx.uhi < uint64(hi) {
		hi = int(idx.uhi)
	}
	sub := seq[:hi+1]
	allConst, allTerm, allStr := true, true, true
	w := -1
	for _, v := range sub {
		switch x := v.(type) {
		case *Term:
			allStr = false
			if w < 0 {
				w = x.w
			}
			if !x.isConst() {
				allConst = false
			}
		case string:
			allConst, allTerm = false, false
		default:
			allConst, allTerm, allStr = false, false, false
		}
	}
	switch {
	case allTerm && allConst:
		vals := make([]*big.Int, len(sub))
		for i, v := range sub {
			vals[i] = v.(*Term).bigVal()
		}
		return m.c.Table(vals, w, idx)
	case allTerm && len(sub) <= 300:
		r := sub[len(sub)-1].(*Term)
		for i := len(sub) - 2; i >= 0; i-- {
			r = m.c.Ite(m.c.Eq(idx, m.c.Const(idx.w, uint64(i))), sub[i].(*Term), r)
		}
		return r
	case allStr:
		ck := seqKey{&sub[0], len(sub)}
		tab, ok := m.side[ck].(*StrTab)
		if !ok || !tabMatches(tab, sub) {
			vals := make([]string, len(sub))
			for i, v := range sub {
				vals[i] = v.(string)
			}
			tab = m.strTab(vals)
			m.side[ck] = tab
		}
		return m.mkTabStr(tab, idx)
	}
	i := m.concInt(idx)
	return copyVal(seq[i])
}

type seqKey struct {
	p *Value
	n int
}

func tabMatches(t *StrTab, sub []Value) bool {
	for i, v := range sub {
		if v.(string) != t.vals[i] {
			return false
		}
	}
	return true
}

func (m *Machine) idxTerm(v Value, t types.Type) Value {
	x, ok := v.(*Term)
	if !ok {
		return v
	}
	if x.w == 64 {
		return x
	}
	b := t.Underlying().(*types.Basic)
	if b.Info()&types.IsUnsigned != 0 {
		return m.c.ZExt(x, 64)
	}
	return m.c.SExt(x, 64)
}

func (m *Machine) boundsCheck(idx *Term, n int) {
	if idx.isConst() {
		if idx.sval() < 0 || idx.sval() >= int64(n) {
			m.targetRuntime(fmt.Sprintf("index out of range [%d] with length %d", idx.sval(), n))
		}
		return
	}
	if !m.decide(m.c.Ult(idx, m.c.Const(64, uint64(n)))) {
		m.targetRuntime(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (m *Machine) indexAddr(x Value, iv Value) Value {
	idx := m.asTerm(iv)
	var seq []Value
	if l, ok := x.(*LazyBytes); ok {
		x = m.force(l)
	}
	switch p := x.(type) {
	case Slice:
		seq = p
	case *Value:
		if p == nil {
			m.targetRuntime("invalid memory address or nil pointer dereference")
		}
		a, ok := (*p).(Array)
		if !ok {
			m.unsupported("index address in %T", *p)
		}
		seq = a
	case *SymPtr:
		i := m.concInt(p.idx)
		seq = p.seq[i].(Array)
	default:
		if po, ok := x.(Poison); ok {
			m.unsupported("index of %s", po)
		}
		m.unsupported("index address of %T", x)
	}
	m.boundsCheck(idx, len(seq))
	if idx.isConst() {
		return &seq[idx.u]
	}
	if idx.ulo == idx.uhi {
		return &seq[idx.ulo]
	}
	return &SymPtr{seq, idx}
}

func (m *Machine) index(x Value, iv Value) Value {
	idx := m.asTerm(iv)
	switch s := x.(type) {
	case Array:
		m.boundsCheck(idx, len(s))
		return m.symRead(s, idx)
	case Slice:
		m.boundsCheck(idx, len(s))
		return m.symRead(s, idx)
	case string:
		m.boundsCheck(idx, len(s))
		if idx.isConst() {
			return m.byteT[s[idx.u]]
		}
		vals := make([]*big.Int, len(s))
		for i := range vals {
			vals[i] = big.NewInt(int64(s[i]))
		}
		return m.c.Table(vals, 8, idx)
	case *SymStr:
		m.boundsCheck(idx, len(s.b))
		if idx.isConst() {
			return s.b[idx.u]
		}
		return m.symRead(termsToSlice(s.b), idx)
	case *TabStr:
		if idx.isConst() {
			ln := m.strLen(s)
			if !m.decide(m.c.Slt(idx, ln)) || idx.sval() < 0 {
				m.targetRuntime("index out of range (string)")
			}
			i := int(idx.u)
			return m.tabInt(s, 8, func(x string) int64 {
				if i < len(x) {
					return int64(x[i])
				}
				return 0
			})
		}
		return m.index(mkSymStr(m.c, m.strBytes(s)), idx)
	case *Rope, *Opaque:
		return m.index(mkSymStr(m.c, m.strBytes(s)), idx)
	}
	m.unsupported("index of %T", x)
	return nil
}

func (m *Machine) sliceBounds(lo, hi, mx Value, ln, cp int) (int, int, int) {
	get := func(v Value, def int) int {
		if v == nil {
			return def
		}
		return m.concInt(m.asTerm(v))
	}
	l, h, x := get(lo, 0), get(hi, ln), get(mx, cp)
	if x < 0 || x > cp || h < 0 || h > x || l < 0 || l > h {
		m.targetRuntime(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, x, cp))
	}
	return l, h, x
}

func (m *Machine) slice(x Value, lo, hi, mx Value) Value {
	if l, ok := x.(*LazyBytes); ok {
		if hi == nil && mx == nil && (lo == nil || m.asTerm(lo).isZero()) {
			return x
		}
		x = m.force(l)
	}
	switch s := x.(type) {
	case Slice:
		l, h, c := m.sliceBounds(lo, hi, mx, len(s), cap(s))
		if s == nil {
			return s
		}
		return s[l:h:c]
	case *Value:
		if s == nil {
			m.targetRuntime("invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(Array)
		if !ok {
			m.unsupported("slice of pointer to %T", *s)
		}
		l, h, c := m.sliceBounds(lo, hi, mx, len(a), len(a))
		return Slice(a[l:h:c])
	case string:
		l, h, _ := m.sliceBounds(lo, hi, nil, len(s), len(s))
		return s[l:h]
	case *SymStr:
		l, h, _ := m.sliceBounds(lo, hi, nil, len(s.b), len(s.b))
		return mkSymStr(m.c, s.b[l:h])
	case *TabStr:
		if hi == nil {
			l := 0
			if lo != nil {
				l = m.concInt(m.asTerm(lo))
			}
			if l == 0 {
				return s
			}
			if l < 0 || !m.decide(m.c.Sle(m.c.Const(64, uint64(l)), m.strLen(s))) {
				m.targetRuntime("slice bounds out of range (string)")
			}
			return m.tabMap(s, fmt.Sprintf("[%d:]", l), func(x string) string {
				if l <= len(x) {
					return x[l:]
				}
				return ""
			})
		}
		if h, ok := hi.(*Term); ok && h.isConst() && (lo == nil || m.asTerm(lo).isConst()) {
			l := 0
			if lo != nil {
				l = int(m.asTerm(lo).sval())
			}
			hh := int(h.sval())
			if l < 0 || hh < l || !m.decide(m.c.Sle(h, m.strLen(s))) {
				m.targetRuntime("slice bounds out of range (string)")
			}
			return m.tabMap(s, fmt.Sprintf("[%d:%d]", l, hh), func(x string) string {
				if hh <= len(x) {
					return x[l:hh]
				}
				return ""
			})
		}
		return m.slice(mkSymStr(m.c, m.strBytes(s)), lo, hi, mx)
	case *Rope, *Opaque:
		return m.slice(mkSymStr(m.c, m.strBytes(s)), lo, hi, mx)
	}
	if po, ok := x.(Poison); ok {
		m.unsupported("slice of %s", po)
	}
	m.unsupported("slice of %T", x)
	return nil
}

func (fr *frame) prepCall(cc *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	m := fr.m
	f := fr.get(ci.op[0])
	args := make([]Value, 0, len(ci.op))
	if cc.IsInvoke() {
		recv, ok := f.(Iface)
		if !ok {
			if po, is := f.(Poison); is {
				m.unsupported("method call on %s", po)
			}
			m.unsupported("method call on %T", f)
		}
		if recv.t == nil {
			m.targetRuntime("invalid memory address or nil pointer dereference")
		}
		fn := m.findMethod(recv.t, cc.Method)
		if fn == nil {
			m.unsupported("method %s not found on %s", cc.Method.Name(), recv.t)
		}
		args = append(args, recv.v)
		f = &Closure{fn: fn}
	}
	for _, o := range ci.op[1:] {
		args = append(args, copyVal(fr.get(o)))
	}
	return f, args
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Id()}
	if f, ok := m.methods[k]; ok {
		return f
	}
	m.prog.mu.Lock()
	f := m.prog.ssa.LookupMethod(t, meth.Pkg(), meth.Name())
	m.prog.mu.Unlock()
	m.methods[k] = f
	return f
}

func (fr *frame) doCall(cc *ssa.CallCommon, ci *cinstr, site ssa.CallInstruction) Value {
	f, args := fr.prepCall(cc, ci)
	return fr.m.callValue(fr, f, args, site)
}

// ---------- operators ----------

func (m *Machine) unop(fr *frame, in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		return m.loadFrom(x)
	case token.ARROW:
		v, ok := m.chanRecv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, m.c.Bool(ok)}
		}
		return v
	case token.NOT:
		return m.c.BNot(m.asTerm(x))
	case token.SUB:
		if f, ok := x.(Float); ok {
			if f.sec != nil {
				m.unsupported("negation of symbolic float")
			}
			return Float{f: -f.f}
		}
		return m.c.Neg(m.asTerm(x))
	case token.XOR:
		return m.c.Not(m.asTerm(x))
	}
	m.unsupported("unary %s", in.Op)
	return nil
}

func (m *Machine) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.equal(x, y, xt)
	case token.NEQ:
		return m.c.BNot(m.equal(x, y, xt))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			m.unsupported("operand %T", y)
		}
		return m.intOp(op, xt, yt, a, b)
	case Float:
		return m.floatOp(op, a, y.(Float))
	case string, *SymStr, *TabStr, *Rope, *Opaque:
		switch op {
		case token.ADD:
			return m.strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.c.BNot(m.strLess(y, x))
		case token.GEQ:
			return m.c.BNot(m.strLess(x, y))
		}
	}
	if po, ok := x.(Poison); ok {
		m.unsupported("operator on %s", po)
	}
	m.unsupported("operator %s on %T", op, x)
	return nil
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (m *Machine) intOp(op token.Token, xt, yt types.Type, a, b *Term) Value {
	c := m.c
	if a.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return c.BAnd(a, b)
		case token.OR, token.LOR:
			return c.BOr(a, b)
		}
		m.unsupported("bool operator %s", op)
	}
	sg := isSigned(xt)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		if b.isConst() {
			if b.isZero() {
				m.targetRuntime("integer divide by zero")
			}
		} else if m.decide(c.Eq(b, c.Const(b.w, 0))) {
			m.targetRuntime("integer divide by zero")
		}
		if !b.isConst() && !a.isConst() && a.w >= 32 {
			// division by a symbolic divisor: split on the divisor
			b = c.BigConst(b.w, m.concretize(b))
		}
		if op == token.QUO {
			if sg {
				return c.SDiv(a, b)
			}
			return c.UDiv(a, b)
		}
		if sg {
			return c.SRem(a, b)
		}
		return c.URem(a, b)
	case token.AND:
		return c.And(a, b)
	case token.OR:
		return c.Or(a, b)
	case token.XOR:
		return c.Xor(a, b)
	case token.AND_NOT:
		return c.And(a, c.Not(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if b.isConst() {
				if b.sval() < 0 {
					m.targetRuntime("negative shift amount")
				}
			} else if m.decide(c.Slt(b, c.Const(b.w, 0))) {
				m.targetRuntime("negative shift amount")
			}
		}
		return m.shift(op, sg, a, b)
	case token.LSS:
		if sg {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.GTR:
		if sg {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.LEQ:
		if sg {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GEQ:
		if sg {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	m.unsupported("integer operator %s", op)
	return nil
}

func (m *Machine) shift(op token.Token, sg bool, a, b *Term) *Term {
	c := m.c
	if b.isConst() {
		n := b.bigVal()
		if n.Cmp(big.NewInt(int64(a.w))) >= 0 {
			if op == token.SHL || !sg {
				return c.Const(a.w, 0)
			}
			return c.Ashr(a, c.Const(a.w, uint64(a.w-1)))
		}
		k := c.Const(a.w, n.Uint64())
		switch {
		case op == token.SHL:
			return c.Shl(a, k)
		case sg:
			return c.Ashr(a, k)
		}
		return c.Lshr(a, k)
	}
	// symbolic amount
	big := c.BNot(c.Ult(b, c.Const(b.w, uint64(a.w))))
	var k *Term
	if b.w >= a.w {
		k = c.Extract(b, a.w-1, 0)
	} else {
		k = c.ZExt(b, a.w)
	}
	switch {
	case op == token.SHL:
		return c.Ite(big, c.Const(a.w, 0), c.Shl(a, k))
	case sg:
		return c.Ite(big, c.Ashr(a, c.Const(a.w, uint64(a.w-1))), c.Ashr(a, k))
	}
	return c.Ite(big, c.Const(a.w, 0), c.Lshr(a, k))
}

func (m *Machine) floatConc(f Float) float64 {
	if f.sec == nil {
		return f.f
	}
	s := int64(m.concretize(f.sec).Uint64())
	var n int64
	if f.nsec != nil {
		n = int64(m.concretize(f.nsec).Uint64())
	}
	return float64(s) + float64(n)/1e9
}

func (m *Machine) floatOp(op token.Token, a, b Float) Value {
	if a.sec != nil || b.sec != nil {
		isz := func(x *Term) bool { return x == nil || x.isZero() }
		switch {
		case op == token.ADD && b.sec == nil && b.f == 0:
			return a
		case op == token.ADD && a.sec == nil && a.f == 0:
			return b
		case op == token.QUO && b.sec == nil && b.f == 1, op == token.MUL && b.sec == nil && b.f == 1:
			return a
		case op == token.ADD && a.sec != nil && b.sec != nil && isz(a.nsec) && isz(b.nsec):
			// exact as long as both fit 52 bits
			if a.sec.slo > -(1<<51) && a.sec.shi < 1<<51 && b.sec.slo > -(1<<51) && b.sec.shi < 1<<51 {
				return Float{sec: m.c.Add(a.sec, b.sec)}
			}
		case (op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ) && isz(a.nsec) && isz(b.nsec):
			ia, ok1 := m.floatInt(a)
			ib, ok2 := m.floatInt(b)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return m.c.Slt(ia, ib)
				case token.GTR:
					return m.c.Slt(ib, ia)
				case token.LEQ:
					return m.c.Sle(ia, ib)
				case token.GEQ:
					return m.c.Sle(ib, ia)
				}
			}
		}
		a, b = Float{f: m.floatConc(a)}, Float{f: m.floatConc(b)}
	}
	switch op {
	case token.ADD:
		return Float{f: a.f + b.f}
	case token.SUB:
		return Float{f: a.f - b.f}
	case token.MUL:
		return Float{f: a.f * b.f}
	case token.QUO:
		return Float{f: a.f / b.f}
	case token.LSS:
		return m.c.Bool(a.f < b.f)
	case token.GTR:
		return m.c.Bool(a.f > b.f)
	case token.LEQ:
		return m.c.Bool(a.f <= b.f)
	case token.GEQ:
		return m.c.Bool(a.f >= b.f)
	}
	m.unsupported("float operator %s", op)
	return nil
}

func (m *Machine) floatInt(a Float) (*Term, bool) {
	if a.sec != nil {
		return a.sec, a.sec.slo > -(1<<52) && a.sec.shi < 1<<52
	}
	if a.f == float64(int64(a.f)) && a.f > -(1<<52) && a.f < 1<<52 {
		return m.c.Const(64, uint64(int64(a.f))), true
	}
	return nil, false
}

func (m *Machine) equal(x, y Value, t types.Type) *Term {
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			m.unsupported("compare %T with %T", x, y)
		}
		if a.w == 0 {
			return m.boolEq(a, b)
		}
		return m.c.Eq(a, b)
	case Float:
		b := y.(Float)
		if a.sec != nil || b.sec != nil {
			ia, ok1 := m.floatInt(a)
			ib, ok2 := m.floatInt(b)
			z := func(x *Term) bool { return x == nil || x.isZero() }
			if ok1 && ok2 && z(a.nsec) && z(b.nsec) {
				return m.c.Eq(ia, ib)
			}
			return m.c.Bool(m.floatConc(a) == m.floatConc(b))
		}
		return m.c.Bool(a.f == b.f)
	case string, *SymStr, *TabStr, *Rope, *Opaque:
		return m.strEq(x, y)
	case *Value:
		switch b := y.(type) {
		case *Value:
			return m.c.Bool(a == b)
		case *SymPtr:
			return m.c.Bool(false)
		case SeqPtr:
			return m.c.Bool(len(b.seq) > 0 && a == &b.seq[0])
		}
	case SeqPtr:
		switch b := y.(type) {
		case SeqPtr:
			return m.c.Bool(len(a.seq) > 0 && len(b.seq) > 0 && &a.seq[0] == &b.seq[0])
		case *Value:
			if b == nil {
				return m.c.Bool(a.seq == nil)
			}
			return m.c.Bool(len(a.seq) > 0 && &a.seq[0] == b)
		}
	case *SymPtr:
		if b, ok := y.(*Value); ok && b == nil {
			return m.c.False
		}
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			m.unsupported("compare interface with %T", y)
		}
		if a.t == nil || b.t == nil {
			return m.c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return m.c.False
		}
		if !types.Comparable(a.t) {
			m.targetRuntime("comparing uncomparable type " + a.t.String())
		}
		return m.equal(a.v, b.v, a.t)
	case Struct:
		b := y.(Struct)
		r := m.c.True
		for i := range a {
			r = m.c.BAnd(r, m.equal(a[i], b[i], nil))
		}
		return r
	case Array:
		b := y.(Array)
		if len(a) > 0 {
			if _, ok := a[0].(*Term); ok {
				ta, tb := m.sliceBytes(Slice(a)), m.sliceBytes(Slice(b))
				if ta[0].w == 8 {
					return m.bytesEq(ta, tb)
				}
			}
		}
		r := m.c.True
		for i := range a {
			r = m.c.BAnd(r, m.equal(a[i], b[i], nil))
		}
		return r
	case *LazyBytes:
		return m.c.False // only comparable with nil
	case Slice:
		if _, ok := y.(*LazyBytes); ok {
			return m.c.False
		}
		if b, ok := y.(Slice); ok {
			if b == nil {
				return m.c.Bool(a == nil)
			}
			if a == nil {
				return m.c.Bool(b == nil)
			}
		}
	case *MapVal:
		if b, ok := y.(*MapVal); ok {
			return m.c.Bool(a == b)
		}
	case *ChanVal:
		if b, ok := y.(*ChanVal); ok {
			return m.c.Bool(a == b)
		}
	case *Closure:
		if b, ok := y.(*Closure); ok && (a == nil || b == nil) {
			return m.c.Bool(a == nil && b == nil)
		}
	case TimeVal:
		b := y.(TimeVal)
		return m.c.BAnd(m.c.Eq(a.sec, b.sec), m.c.Eq(a.nsec, b.nsec), m.c.Bool(a.loc == b.loc || a.locName() == b.locName()))
	case *LocVal:
		if b, ok := y.(*LocVal); ok {
			return m.c.Bool(a == b)
		}
		return m.c.False
	case *RTypeVal:
		if b, ok := y.(*RTypeVal); ok {
			return m.c.Bool(types.Identical(a.t, b.t))
		}
		return m.c.False
	case nil:
		return m.c.Bool(y == nil)
	case Poison:
		m.unsupported("comparison of %s", a)
	}
	if rx := reflect.TypeOf(x); rx != nil && rx == reflect.TypeOf(y) && rx.Kind() == reflect.Ptr {
		return m.c.Bool(x == y)
	}
	m.unsupported("comparison of %T and %T", x, y)
	return nil
}

func (m *Machine) boolEq(a, b *Term) *Term {
	if a == b {
		return m.c.True
	}
	if a.isConst() {
		if a.u == 1 {
			return b
		}
		return m.c.BNot(b)
	}
	if b.isConst() {
		if b.u == 1 {
			return a
		}
		return m.c.BNot(a)
	}
	return m.c.BOr(m.c.BAnd(a, b), m.c.BAnd(m.c.BNot(a), m.c.BNot(b)))
}

// ---------- conversions ----------

func (m *Machine) convert(v Value, from, to types.Type) Value {
	if po, ok := v.(Poison); ok {
		m.unsupported("conversion of %s", po)
	}
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			switch x := v.(type) {
			case *Term:
				if x.w == w {
					return x
				}
				if x.w > w {
					return m.c.Extract(x, w-1, 0)
				}
				if isSigned(fu) {
					return m.c.SExt(x, w)
				}
				return m.c.ZExt(x, w)
			case Float:
				return m.floatToInt(x, w, t)
			case *Value, SeqPtr:
				m.unsupported("pointer to integer conversion")
			}
		}
		if t.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case Float:
				if t.Kind() == types.Float32 && x.sec == nil {
					return Float{f: float64(float32(x.f))}
				}
				return x
			case *Term:
				if x.isConst() {
					var f float64
					if isSigned(fu) {
						f = float64(x.sval())
					} else {
						f = float64(x.u)
					}
					if t.Kind() == types.Float32 {
						f = float64(float32(f))
					}
					return Float{f: f}
				}
				y := x
				if x.w < 64 {
					if isSigned(fu) {
						y = m.c.SExt(x, 64)
					} else {
						y = m.c.ZExt(x, 64)
					}
				}
				if y.slo > -(1<<52) && y.shi < 1<<52 && t.Kind() == types.Float64 {
					return Float{sec: y}
				}
				lim := m.c.Const(64, 1<<52)
				if t.Kind() == types.Float64 && m.decide(m.c.BAnd(m.c.Slt(y, lim), m.c.Slt(m.c.Neg(lim), y))) {
					return Float{sec: m.narrow(y, -(1<<52)+1, 1<<52-1)}
				}
				return Float{f: float64(int64(m.concretize(y).Uint64()))}
			}
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case string, *SymStr, *TabStr, *Rope, *Opaque:
				return v
			case *Term:
				if x.isConst() {
					return string(rune(x.sval()))
				}
				var y *Term
				if x.w <= 32 {
					y = m.c.ZExt(x, 32)
				} else {
					y = m.c.Extract(x, 31, 0)
				}
				if m.decide(m.c.Ult(y, m.c.Const(32, 0x80))) {
					return mkSymStr(m.c, []*Term{m.c.Extract(y, 7, 0)})
				}
				return string(rune(m.concretize(y).Int64()))
			case *LazyBytes:
				return m.sliceStr(x)
			case Slice:
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					return mkSymStr(m.c, m.sliceBytes(x))
				}
				var rs []rune
				allc := true
				for _, e := range x {
					t := e.(*Term)
					if !t.isConst() {
						allc = false
					}
				}
				if !allc {
					var out Value = ""
					for _, e := range x {
						out = m.strConcat(out, m.convert(e, et, types.Typ[types.String]))
					}
					return out
				}
				for _, e := range x {
					rs = append(rs, rune(e.(*Term).sval()))
				}
				return string(rs)
			}
		}
		if t.Kind() == types.UnsafePointer {
			return v
		}
	case *types.Slice:
		switch fu.(type) {
		case *types.Basic: // string
			et := t.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				if m.isLazyStr(v) {
					return &LazyBytes{str: v}
				}
				b := m.strBytes(v)
				return m.freshCap(termsToSlice(b))
			}
			// []rune
			var out Slice
			it := m.rangeIter(nil, v, from)
			iv := it.(*iter)
			out = Slice{}
			for {
				ok, _, r := m.strNext(iv)
				if !ok {
					break
				}
				out = append(out, r)
			}
			return out
		}
		return v
	case *types.Pointer:
		return v
	case *types.Array:
		if s, ok := v.(Slice); ok { // slice to array
			if int64(len(s)) < t.Len() {
				m.targetRuntime("cannot convert slice to array: length too short")
			}
			return copyVal(Array(s[:t.Len()]))
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	m.unsupported("conversion %s -> %s of %T", from, to, v)
	return nil
}

// freshCap gives a []byte conversion the capacity the runtime would give it.
func (m *Machine) freshCap(s Slice) Slice {
	if len(s) == 0 {
		return s
	}
	cp := growCap(0, len(s), 1)
	if cp > len(s) {
		n := make(Slice, len(s), cp)
		copy(n, s)
		for i := len(s); i < cp; i++ {
			n[:cp][i] = m.byteT[0]
		}
		return n
	}
	return s
}

// narrow returns a term equal to t (under the path condition) with the given static bounds.
func (m *Machine) narrow(t *Term, lo, hi int64) *Term {
	if t.isConst() || t.slo >= lo && t.shi <= hi {
		return t
	}
	v := m.c.RangeVar(fmt.Sprintf("narrow:%d", t.id), t.w, lo, hi)
	eq := m.c.Eq(v, t)
	if k, ok := m.path.known[eq]; ok && k {
		return v
	}
	m.fact(eq)
	return v
}

func (m *Machine) floatToInt(x Float, w int, t *types.Basic) Value {
	if x.sec != nil {
		s := x.sec
		if x.nsec != nil && !x.nsec.isZero() {
			if !m.decide(m.c.Eq(x.nsec, m.c.Const(64, 0))) {
				// truncation of sec + nsec/1e9 for non-negative values below 2^22 is exact
				if m.decide(m.c.BAnd(m.c.Sle(m.c.Const(64, 0), s), m.c.Slt(s, m.c.Const(64, 1<<22)))) {
					if w == 64 {
						return s
					}
					return m.c.Extract(s, w-1, 0)
				}
				f := m.floatConc(x)
				return m.c.Const(w, uint64(int64(f)))
			}
		}
		if w == 64 {
			return s
		}
		return m.c.Extract(s, w-1, 0)
	}
	// amd64 semantics
	if t.Info()&types.IsUnsigned != 0 && w == 64 {
		return m.c.Const(64, uint64(x.f))
	}
	if w == 32 && t.Info()&types.IsUnsigned == 0 {
		return m.c.Const(32, uint64(uint32(int32(x.f))))
	}
	return m.c.Const(w, uint64(int64(x.f)))
}

// ---------- type assertions ----------

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := m.side[k]; ok {
		return v.(bool)
	}
	m.prog.mu.Lock()
	v := types.Implements(t, it)
	m.prog.mu.Unlock()
	m.side[k] = v
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Value) Value {
	v, ok := x.(Iface)
	if !ok {
		if po, is := x.(Poison); is {
			m.unsupported("type assertion on %s", po)
		}
		m.unsupported("type assertion on %T", x)
	}
	match := false
	var res Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && m.implements(v.t, it) {
			match = true
			res = v
		}
	} else if v.t != nil && types.Identical(v.t, in.AssertedType) {
		match = true
		res = v.v
	}
	if in.CommaOk {
		if !match {
			return Tuple{m.zero(in.AssertedType), m.c.False}
		}
		return Tuple{copyVal(res), m.c.True}
	}
	if !match {
		m.targetRuntime(fmt.Sprintf("interface conversion: interface is %s, not %s", typeName(v.t), typeName(in.AssertedType)))
	}
	return copyVal(res)
}
