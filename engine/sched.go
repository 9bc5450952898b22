package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program under test run as coroutines: exactly one holds the baton.

type gor struct {
	id    int
	top   *frame
	wake  chan bool
	ready func() bool // nil: runnable
	done  bool
	kill  bool
	ack   chan bool
	main  bool
	what  string
}

func (m *Machine) spawn(fn Value, args []Value) {
	if m.inBase {
		m.unsupported("go statement during initialisation")
	}
	m.gorID++
	g := &gor{id: m.gorID, wake: make(chan bool), ack: make(chan bool, 1)}
	m.gors = append(m.gors, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if g.kill {
				g.ack <- true
				return
			}
			if r != nil {
				if tp, ok := r.(targetPanic); ok && m.path.env.cli != nil {
					r = cliCrash{tp}
				}
				m.path.env.abort = r
				main := m.gors[0]
				m.cur = main
				main.wake <- true
				return
			}
			// hand the baton on
			nx := m.pickNext(nil)
			if nx == nil {
				m.path.env.abort = pathEnd{"deadlock", "all goroutines are blocked"}
				nx = m.gors[0]
			}
			m.cur = nx
			nx.wake <- true
		}()
		if g.kill {
			panic(killed{})
		}
		g.ready = nil
		m.callValue(nil, fn, args, nil)
	}()
	m.yieldPoint("go")
}

func (m *Machine) runnable(except *gor) []*gor {
	var out []*gor
	for _, g := range m.gors {
		if g.done || g == except {
			continue
		}
		if g.ready == nil || g.ready() {
			out = append(out, g)
		}
	}
	return out
}

// pickNext may itself fork paths and therefore panic with a pathEnd.
func (m *Machine) pickNext(except *gor) (g *gor) {
	rs := m.runnable(except)
	if len(rs) == 0 {
		return nil
	}
	if len(rs) == 1 || m.path.env.cli != nil && !m.path.env.cli.interleave {
		return rs[0]
	}
	defer func() {
		if r := recover(); r != nil {
			m.path.env.abort = r
			g = m.gors[0]
		}
	}()
	return rs[m.choose("sched", len(rs))]
}

func (m *Machine) switchTo(g *gor) {
	self := m.cur
	if g == self {
		return
	}
	m.cur = g
	g.wake <- true
	<-self.wake
	if self.kill {
		panic(killed{})
	}
	if self.main && m.path.env.abort != nil {
		r := m.path.env.abort
		m.path.env.abort = nil
		m.cur = self
		panic(r)
	}
}

// yieldPoint lets another goroutine run here (bounded number of preemptions per path).
func (m *Machine) yieldPoint(what string) {
	if st := m.cli(); st != nil && !st.interleave {
		return
	}
	if m.inBase || len(m.gors) < 2 || m.path.env.preempts >= m.x.maxPreempt {
		return
	}
	rs := m.runnable(nil)
	if len(rs) < 2 {
		return
	}
	// current first
	for i, g := range rs {
		if g == m.cur {
			rs[0], rs[i] = rs[i], rs[0]
		}
	}
	i := m.choose("preempt", len(rs))
	if i == 0 {
		return
	}
	m.path.env.preempts++
	m.switchTo(rs[i])
}

func (m *Machine) block(what string, ready func() bool) {
	for !ready() {
		if m.inBase {
			m.unsupported("blocking during initialisation")
		}
		self := m.cur
		self.ready = ready
		self.what = what
		nx := m.pickNext(self)
		if nx == nil {
			if m.fireEnvEvent() {
				continue
			}
			self.ready = nil
			d := pathEnd{"deadlock", "all goroutines are blocked (" + what + ")" + m.where()}
			if self.main {
				panic(d)
			}
			m.path.env.abort = d
			nx = m.gors[0]
		}
		m.switchTo(nx)
		self.ready = nil
	}
}

// killGors ends every coroutine except the main one.
func (m *Machine) killGors() {
	for _, g := range m.gors {
		if g.main || g.done {
			continue
		}
		g.kill = true
		g.wake <- true
		<-g.ack
	}
	if len(m.gors) > 0 {
		m.gors = m.gors[:1]
	}
}

// ---------- channels ----------

type sendReq struct {
	v     Value
	taken bool
}

func (m *Machine) chq(ch *ChanVal) *[]*sendReq {
	q, ok := m.path.env.sendq[ch]
	if !ok {
		q = new([]*sendReq)
		m.path.env.sendq[ch] = q
	}
	return q
}

func (m *Machine) asChan(v Value) *ChanVal {
	ch, ok := v.(*ChanVal)
	if !ok {
		m.unsupported("channel operation on %T", v)
	}
	return ch
}

func (m *Machine) chanSend(cv, v Value) {
	ch := m.asChan(cv)
	m.yieldPoint("send")
	if ch == nil {
		m.block("send on nil channel", func() bool { return false })
	}
	if ch.closed {
		m.targetRuntime("send on closed channel")
	}
	if ch.cap > 0 {
		m.block("channel send", func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			m.targetRuntime("send on closed channel")
		}
		ch.buf = append(ch.buf, copyVal(v))
		return
	}
	q := m.chq(ch)
	r := &sendReq{v: copyVal(v)}
	*q = append(*q, r)
	m.block("channel send", func() bool { return r.taken })
}

func (m *Machine) canRecv(ch *ChanVal) bool {
	return ch != nil && (len(ch.buf) > 0 || len(*m.chq(ch)) > 0 || ch.closed)
}

func (m *Machine) doRecv(ch *ChanVal, et types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		return v, true
	}
	if q := m.chq(ch); len(*q) > 0 {
		r := (*q)[0]
		*q = append([]*sendReq(nil), (*q)[1:]...)
		r.taken = true
		return r.v, true
	}
	return m.zero(et), false
}

func (m *Machine) chanRecv(cv Value, et types.Type) (Value, bool) {
	ch := m.asChan(cv)
	m.yieldPoint("recv")
	if ch == nil {
		m.block("receive on nil channel", func() bool { return false })
	}
	ch.recvq++
	m.block("channel receive", func() bool { return m.canRecv(ch) })
	ch.recvq--
	return m.doRecv(ch, et)
}

func (m *Machine) selectStmt(fr *frame, in *ssa.Select, ci *cinstr) Value {
	// operands: for each state Chan, Send
	type st struct {
		ch   *ChanVal
		send bool
		v    Value
		et   types.Type
	}
	var sts []st
	k := 0
	for _, s := range in.States {
		x := st{}
		x.ch = m.asChan(fr.get(ci.op[k]))
		k++
		x.et = s.Chan.Type().Underlying().(*types.Chan).Elem()
		if s.Dir == types.SendOnly {
			x.send = true
			x.v = fr.get(ci.op[k])
			k++
		} else if k < len(ci.op) && s.Send == nil {
			// go/ssa lists the nil Send operand too
			k++
		}
		sts = append(sts, x)
	}
	ready := func() []int {
		var out []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.send {
				if s.ch.closed || len(s.ch.buf) < s.ch.cap || s.ch.cap == 0 && s.ch.recvq > 0 {
					out = append(out, i)
				}
			} else if m.canRecv(s.ch) {
				out = append(out, i)
			}
		}
		return out
	}
	m.yieldPoint("select")
	if in.Blocking {
		for _, s := range sts {
			if !s.send && s.ch != nil {
				s.ch.recvq++
			}
		}
		m.block("select", func() bool { return len(ready()) > 0 })
		for _, s := range sts {
			if !s.send && s.ch != nil {
				s.ch.recvq--
			}
		}
	}
	rs := ready()
	idx := -1
	res := Tuple{nil, m.c.False}
	if len(rs) > 0 {
		idx = rs[m.choose("select", len(rs))]
	}
	for i, s := range sts {
		if s.send {
			if i == idx {
				m.chanSend(s.ch, s.v)
			}
			continue
		}
		if i == idx {
			v, ok := m.doRecv(s.ch, s.et)
			res[1] = m.c.Bool(ok)
			res = append(res, v)
		} else {
			res = append(res, m.zero(s.et))
		}
	}
	res[0] = m.c.Const(64, uint64(int64(idx)))
	_ = fmt.Sprint
	return res
}
