package main

import (
	"go/types"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// The environment of the command-line tool: arguments, clock, files, standard streams, terminal, signals.

type inode struct {
	kind int // 0 file, 1 directory, 2 symbolic link
	mode uint64
	data Value // string-like
}

type cliItem struct {
	data Value
	intr bool
	line bool
}

type sigHandler struct {
	id     int
	cancel Value // closure to call
	ch     *ChanVal
}

type CLIState struct {
	files      map[string]*inode
	out        [3]Value
	script     []cliItem
	cooked     Value // bytes of the current line not yet read (canonical mode)
	cookedEOF  bool
	endPresses int
	tty        bool
	width      *Term
	sec, nsec  *Term
	nowCalls   int
	interleave bool
	raceAt     int
	race       *inode
	raceName   string
	ops        int
	fullDisk   bool
	fullStdout bool
	termios    Value
	echoed     bool // a password was typed while the terminal echoes
	handlers   []sigHandler
	nextID     int
	open       map[int]*FileVal
	nextFD     int
	tokens     map[*Value]Value
	wbufs      map[*Value]Value // contents of buffered writers holding text of symbolic length
	rnd        int
}

type FileVal struct {
	fd     int
	name   string
	std    bool
	node   *inode
	rest   Value // unread content
	read   bool
	write  bool
	app    bool
	closed bool
}

type cliExit struct {
	code   int
	signal bool
}

// cliCrash is an uncaught panic in a goroutine of the program.
type cliCrash struct{ p targetPanic }

func (m *Machine) cli() *CLIState {
	if m.path == nil {
		return nil
	}
	return m.path.env.cli
}

func (m *Machine) fireEnvEvent() bool { return false }

func (m *Machine) envNow() TimeVal {
	if s := m.cli(); s != nil {
		t := m.mkTime(s.sec, s.nsec, locLocal)
		k := s.nowCalls
		s.nowCalls++
		if k > 0 {
			t.sec = m.c.Add(t.sec, m.c.Const(64, uint64(k)))
		}
		return t
	}
	s := m.nondetRange("now.sec", 64, 0, 1<<40)
	n := m.nondetRange("now.nsec", 64, 0, 999999999)
	return m.mkTime(s, n, locLocal)
}

func (m *Machine) field(t types.Type, v Value, name string) *Value {
	st := t.Underlying().(*types.Struct)
	s := v.(Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &s[i]
		}
	}
	m.unsupported("no field %s in %s", name, t)
	return nil
}

func (m *Machine) fileOf(v Value) (string, *inode) {
	t := m.typ(vxPath, "File")
	return path.Clean(m.mustString(*m.field(t, v, "Name"))),
		&inode{kind: m.concInt(m.asTerm(*m.field(t, v, "Kind"))), mode: uint64(m.concInt(m.asTerm(*m.field(t, v, "Mode")))), data: *m.field(t, v, "Data")}
}

func (m *Machine) runCLI(req Value) Value {
	rt, it, resT, ft := m.typ(vxPath, "Run"), m.typ(vxPath, "Item"), m.typ(vxPath, "Result"), m.typ(vxPath, "File")
	get := func(n string) Value { return *m.field(rt, req, n) }
	st := &CLIState{files: map[string]*inode{}, out: [3]Value{"", "", ""}, cooked: "", open: map[int]*FileVal{}, nextFD: 3, tokens: map[*Value]Value{}}
	if !m.cur.main || len(m.gors) != 1 {
		m.unsupported("RunCLI from a goroutine")
	}
	for _, f := range m.slc(get("Files")) {
		n, i := m.fileOf(f)
		st.files[n] = i
	}
	for _, x := range m.slc(get("Stdin")) {
		st.script = append(st.script, cliItem{data: *m.field(it, x, "Data"), intr: m.decide(m.asTerm(*m.field(it, x, "Interrupt"))), line: m.decide(m.asTerm(*m.field(it, x, "Line")))})
	}
	st.tty = m.decide(m.asTerm(get("TTY")))
	st.width = m.asTerm(get("Width"))
	st.sec, st.nsec = m.asTerm(get("Sec")), m.asTerm(get("Nsec"))
	st.interleave = m.decide(m.asTerm(get("Interleave")))
	st.fullDisk = m.decide(m.asTerm(get("FullDisk")))
	st.fullStdout = m.decide(m.asTerm(get("FullStdout")))
	st.raceAt = m.concInt(m.asTerm(get("RaceAt")))
	if st.raceAt > 0 {
		st.raceName, st.race = m.fileOf(get("Race"))
	}
	tt := m.typ("golang.org/x/sys/unix", "Termios")
	tv := m.zero(tt)
	*m.field(tt, tv, "Iflag") = m.c.Const(32, syscall.ICRNL|syscall.IXON)
	*m.field(tt, tv, "Oflag") = m.c.Const(32, syscall.OPOST|syscall.ONLCR)
	*m.field(tt, tv, "Cflag") = m.c.Const(32, syscall.CS8|syscall.CREAD)
	*m.field(tt, tv, "Lflag") = m.c.Const(32, syscall.ECHO|syscall.ICANON|syscall.ISIG|syscall.IEXTEN|syscall.ECHOE|syscall.ECHOK)
	st.termios = tv
	first := copyVal(tv)

	args := Slice{"mnemonikey"}
	args = append(args, m.slc(get("Args"))...)
	m.set(m.globalAddr(m.prog.pkgs["os"].Var("Args")), args)
	mainPkg := m.prog.pkgs[mainPath]
	if mainPkg == nil || mainPkg.Func("main") == nil {
		m.unsupported("no main function")
	}
	m.initPackage(mainPkg)

	old := m.path.env.cli
	m.path.env.cli = st
	top := m.cur.top
	exit, signal, crashed := 0, false, false
	func() {
		defer func() {
			r := recover()
			switch e := r.(type) {
			case nil:
			case cliExit:
				exit, signal = e.code, e.signal
			case targetPanic:
				exit, crashed = 2, true
				st.out[2] = m.strConcat(st.out[2], "panic: "+m.panicText(e)+"\n\ngoroutine 1 [running]:\n")
			case cliCrash:
				exit, crashed = 2, true
				st.out[2] = m.strConcat(st.out[2], "panic: "+m.panicText(e.p)+"\n\ngoroutine 2 [running]:\n")
			default:
				panic(r)
			}
		}()
		m.call(top, mainPkg.Func("main"), nil, nil)
	}()
	m.cur = m.gors[0]
	m.cur.top = top
	m.cur.ready = nil
	m.killGors()
	m.path.env.abort = nil
	m.path.env.cli = old

	res := m.zero(resT)
	*m.field(resT, res, "Exit") = m.c.Const(64, uint64(exit))
	*m.field(resT, res, "Signal") = m.c.Bool(signal)
	*m.field(resT, res, "Crashed") = m.c.Bool(crashed)
	same := m.c.True
	for _, f := range []string{"Iflag", "Oflag", "Cflag", "Lflag"} {
		same = m.c.BAnd(same, m.c.Eq(m.asTerm(*m.field(tt, first, f)), m.asTerm(*m.field(tt, st.termios, f))))
	}
	*m.field(resT, res, "Restored") = same
	*m.field(resT, res, "Echoed") = m.c.Bool(st.echoed)
	*m.field(resT, res, "Stdout") = st.out[1]
	*m.field(resT, res, "Stderr") = st.out[2]
	var names []string
	for n := range st.files {
		names = append(names, n)
	}
	sort.Strings(names)
	fl := Slice{}
	for _, n := range names {
		i := st.files[n]
		f := m.zero(ft)
		*m.field(ft, f, "Name") = n
		*m.field(ft, f, "Data") = i.data
		*m.field(ft, f, "Mode") = m.c.Const(32, i.mode)
		*m.field(ft, f, "Kind") = m.c.Const(64, uint64(i.kind))
		fl = append(fl, f)
	}
	*m.field(resT, res, "Files") = fl
	return newCell(res)
}

// ---------- errors ----------

func (m *Machine) errno(e syscall.Errno) Value {
	return Iface{m.typ("syscall", "Errno"), m.c.Const(64, uint64(e))}
}

func (m *Machine) pathErr(op, p string, e syscall.Errno) Value {
	return Iface{m.ptrTo(m.typ("io/fs", "PathError")), newCell(Struct{op, p, m.errno(e)})}
}

func (m *Machine) ioEOF() Value { return m.load(m.globalAddr(m.prog.pkgs["io"].Var("EOF"))) }

func (m *Machine) sentinel(pkg, name string) Value {
	return m.load(m.globalAddr(m.prog.pkgs[pkg].Var(name)))
}

// ---------- files ----------

// fileOp marks a file-system operation; another process may act just before it.
func (m *Machine) fileOp() *CLIState {
	st := m.cli()
	if st == nil {
		m.unsupported("file access outside a run of the tool")
	}
	st.ops++
	if st.ops == st.raceAt {
		if _, there := st.files[st.raceName]; !there {
			st.files[st.raceName] = st.race
		}
	}
	return st
}

// lookup resolves a path; links are followed when follow is set.
func (st *CLIState) lookup(name string, follow bool) (string, *inode, syscall.Errno) {
	if name == "" {
		return "", nil, syscall.ENOENT
	}
	for hops := 0; hops < 10; hops++ {
		p := path.Clean(name)
		if len(path.Base(p)) > 255 {
			return p, nil, syscall.ENAMETOOLONG
		}
		if p == "." || p == "/" {
			return p, &inode{kind: 1, mode: 0o755}, 0
		}
		d := path.Dir(p)
		if d != "." && d != "/" {
			_, pn, e := st.lookup(d, true)
			if e != 0 {
				return p, nil, e
			}
			if pn.kind != 1 {
				return p, nil, syscall.ENOTDIR
			}
		}
		n := st.files[p]
		if n == nil {
			return p, nil, syscall.ENOENT
		}
		if n.kind == 1 || n.kind == 0 && !strings.HasSuffix(name, "/") || !follow {
			return p, n, 0
		}
		if n.kind == 0 {
			return p, nil, syscall.ENOTDIR
		}
		tgt, ok := n.data.(string)
		if !ok {
			return p, nil, syscall.ENOENT
		}
		if !path.IsAbs(tgt) {
			tgt = path.Join(d, tgt)
		}
		name = tgt
	}
	return name, nil, syscall.ELOOP
}

func (m *Machine) newFile(st *CLIState, f *FileVal) Value {
	f.fd = st.nextFD
	st.nextFD++
	st.open[f.fd] = f
	return newCell(f)
}

func (m *Machine) fileVal(v Value) *FileVal {
	p, ok := v.(*Value)
	if !ok {
		m.unsupported("file expected, got %T", v)
	}
	if p == nil {
		return nil
	}
	f, ok := (*p).(*FileVal)
	if !ok {
		m.unsupported("file expected, got %T", *p)
	}
	return f
}

func (m *Machine) invalid() Value { return m.sentinel("io/fs", "ErrInvalid") }

func (m *Machine) openFile(name string, flag int, perm uint64) (Value, Value) {
	st := m.fileOp()
	p, n, e := st.lookup(name, flag&(syscall.O_NOFOLLOW) == 0)
	fail := func(e syscall.Errno) (Value, Value) { return (*Value)(nil), m.pathErr("open", name, e) }
	acc := flag & 3
	if flag&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		if _, _, e2 := st.lookup(name, false); e2 == 0 {
			return fail(syscall.EEXIST)
		}
	}
	if e == syscall.ENOENT && flag&syscall.O_CREAT != 0 && name != "" {
		if strings.HasSuffix(name, "/") {
			return fail(syscall.EISDIR)
		}
		if d := path.Dir(p); d != "." && d != "/" {
			_, dn, e2 := st.lookup(d, true)
			if e2 != 0 {
				return fail(e2)
			}
			if dn.kind != 1 {
				return fail(syscall.ENOTDIR)
			}
		}
		n = &inode{mode: perm &^ 0o022 & 0o777, data: ""}
		st.files[p] = n
	} else if e != 0 {
		return fail(e)
	} else {
		if n.kind == 1 && acc != syscall.O_RDONLY {
			return fail(syscall.EISDIR)
		}
		if n.kind == 2 {
			return fail(syscall.ELOOP)
		}
		if flag&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
			n.data = ""
		}
	}
	f := &FileVal{name: name, node: n, rest: n.data, read: acc != syscall.O_WRONLY, write: acc != syscall.O_RDONLY, app: flag&syscall.O_APPEND != 0}
	return m.newFile(st, f), Iface{}
}

func (m *Machine) fileInfo(name string, n *inode) Value {
	t := m.typ("os", "fileStat")
	v := m.zero(t)
	mode := n.mode
	switch n.kind {
	case 1:
		mode |= uint64(fs.ModeDir)
	case 2:
		mode |= uint64(fs.ModeSymlink)
	}
	*m.field(t, v, "name") = path.Base(name)
	if n.data != nil {
		*m.field(t, v, "size") = m.strLen(n.data)
	}
	*m.field(t, v, "mode") = m.c.Const(32, mode)
	return Iface{m.ptrTo(t), newCell(v)}
}

func (m *Machine) fileWrite(f *FileVal, s Value) Value {
	n := m.c.Const(64, 1) // nobody looks at the count when printing formatted text
	if !m.hasOpaque(s) {
		n = m.strLen(s)
	}
	st := m.cli()
	if st == nil {
		m.unsupported("output outside a run of the tool")
	}
	if f == nil {
		return Tuple{m.c.Const(64, 0), m.invalid()}
	}
	if f.closed {
		return Tuple{m.c.Const(64, 0), Iface{m.ptrTo(m.typ("io/fs", "PathError")), newCell(Struct{"write", f.name, m.sentinel("io/fs", "ErrClosed")})}}
	}
	if f.std {
		if f.fd == 0 {
			// a terminal is open for both
			if st.tty {
				return Tuple{n, Iface{}}
			}
			return Tuple{m.c.Const(64, 0), m.pathErr("write", f.name, syscall.EBADF)}
		}
		if f.fd == 1 && st.fullStdout && !(n.isConst() && n.u == 0) {
			return Tuple{m.c.Const(64, 0), m.pathErr("write", f.name, syscall.ENOSPC)}
		}
		st.out[f.fd] = m.strConcat(st.out[f.fd], s)
		return Tuple{n, Iface{}}
	}
	if !f.write {
		return Tuple{m.c.Const(64, 0), m.pathErr("write", f.name, syscall.EBADF)}
	}
	if st.fullDisk {
		if n.isConst() && n.u == 0 {
			return Tuple{n, Iface{}}
		}
		return Tuple{m.c.Const(64, 0), m.pathErr("write", f.name, syscall.EFBIG)}
	}
	f.node.data = m.strConcat(f.node.data, s)
	f.rest = ""
	return Tuple{n, Iface{}}
}

// takeBytes splits the first n bytes off a string.
func (m *Machine) takeBytes(v Value, n int) ([]*Term, Value) {
	if r, ok := v.(*Rope); ok {
		// avoid touching more of the rope than needed
		var out []*Term
		for i, p := range r.parts {
			if len(out) >= n {
				var rest Value = ""
				for _, q := range r.parts[i:] {
					rest = m.strConcat(rest, q)
				}
				return out, rest
			}
			b := m.strBytes(p)
			k := min(n-len(out), len(b))
			out = append(out, b[:k]...)
			if k < len(b) {
				rest := mkSymStr(m.c, b[k:])
				for _, q := range r.parts[i+1:] {
					rest = m.strConcat(rest, q)
				}
				return out, rest
			}
		}
		return out, ""
	}
	b := m.strBytes(v)
	k := min(n, len(b))
	return b[:k], mkSymStr(m.c, b[k:])
}

func (m *Machine) emptyStr(v Value) bool {
	if s, ok := v.(string); ok {
		return s == ""
	}
	t := m.strLen(v)
	return t.isConst() && t.u == 0
}

func (m *Machine) copyIn(dst Slice, b []*Term) {
	for i, t := range b {
		m.set(&dst[i], t)
	}
}

// fileRead returns the bytes read, whether the end was reached, and an error number.
func (m *Machine) fileRead(f *FileVal, n int) ([]*Term, bool, syscall.Errno) {
	st := m.cli()
	if st == nil {
		m.unsupported("input outside a run of the tool")
	}
	if f.std {
		if f.fd != 0 {
			return nil, false, syscall.EBADF
		}
		return m.stdinRead(n)
	}
	if f.node.kind == 1 {
		return nil, false, syscall.EISDIR
	}
	if !f.read {
		return nil, false, syscall.EBADF
	}
	if m.emptyStr(f.rest) {
		return nil, true, 0
	}
	b, rest := m.takeBytes(f.rest, n)
	f.rest = rest
	return b, false, 0
}

// ---------- standard input ----------

func (st *CLIState) lflag(m *Machine, field string) uint64 {
	t := m.typ("golang.org/x/sys/unix", "Termios")
	return m.asTerm(*m.field(t, st.termios, field)).u
}

func (m *Machine) deliverInterrupt(st *CLIState) {
	st.cooked, st.cookedEOF = "", false
	if len(st.handlers) == 0 {
		panic(cliExit{code: 130, signal: true})
	}
	for _, h := range append([]sigHandler(nil), st.handlers...) {
		if h.cancel != nil {
			m.callback(h.cancel)
		} else if len(h.ch.buf) < h.ch.cap {
			sig := Iface{m.typ("syscall", "Signal"), m.c.Const(64, uint64(syscall.SIGINT))}
			h.ch.buf = append(h.ch.buf, sig)
		} else if h.ch.cap == 0 && h.ch.recvq > 0 {
			sig := Iface{m.typ("syscall", "Signal"), m.c.Const(64, uint64(syscall.SIGINT))}
			q := m.chq(h.ch)
			*q = append(*q, &sendReq{v: sig})
		}
	}
	// the reader keeps waiting for input; others react first, unless input follows at once
	others := m.runnable(m.cur)
	if len(others) > 0 {
		if st.interleave && m.path.env.preempts < m.x.maxPreempt && m.choose("late", 2) == 1 {
			m.path.env.preempts++
			return
		}
		g := others[0]
		if st.interleave {
			g = others[m.choose("sched", len(others))]
		}
		m.switchTo(g)
	}
}

func (m *Machine) stdinRead(n int) ([]*Term, bool, syscall.Errno) {
	st := m.cli()
	if n == 0 {
		return nil, false, 0
	}
	if m.emptyStr(st.cooked) {
		m.yieldPoint("stdin")
	}
	for {
		canon := st.tty && st.lflag(m, "Lflag")&syscall.ICANON != 0
		if canon && !m.emptyStr(st.cooked) {
			b, rest := m.takeBytes(st.cooked, n)
			st.cooked = rest
			return b, false, 0
		}
		if len(st.script) > 0 {
			it := &st.script[0]
			if it.intr {
				st.script = st.script[1:]
				m.deliverInterrupt(st)
				continue
			}
			if m.emptyStr(it.data) {
				st.script = st.script[1:]
				continue
			}
			if !st.tty {
				b, rest := m.takeBytes(it.data, n)
				it.data = rest
				return b, false, 0
			}
		} else {
			if !st.tty {
				return nil, true, 0
			}
			// Ctrl+C
			st.endPresses++
			if st.endPresses > 50 {
				panic(pathEnd{"budget", "the tool does not end when interrupted"})
			}
			st.script = append(st.script, cliItem{data: "\x03", line: true})
		}
		b, eof, again := m.typed(st, n, canon)
		if again {
			continue
		}
		return b, eof, 0
	}
}

// typed feeds typed bytes through the line discipline.
func (m *Machine) typed(st *CLIState, n int, canon bool) (out []*Term, eof, again bool) {
	l, i := st.lflag(m, "Lflag"), st.lflag(m, "Iflag")
	c := m.c
	var line []*Term
	for len(st.script) > 0 && !st.script[0].intr {
		it := &st.script[0]
		if m.emptyStr(it.data) {
			if !canon && len(out) > 0 {
				return out, false, false
			}
			st.script = st.script[1:]
			continue
		}
		b, rest := m.takeBytes(it.data, 1)
		it.data = rest
		x := b[0]
		if l&syscall.ECHO != 0 && !it.line {
			st.echoed = true
		}
		if !x.isConst() && (l&(syscall.ISIG|syscall.ICANON) != 0 || i&(syscall.ICRNL|syscall.INLCR|syscall.IGNCR) != 0) {
			if m.decide(c.BOr(c.Ult(x, c.Const(8, 0x20)), c.Eq(x, c.Const(8, 0x7f)))) {
				x = c.BigConst(8, m.concretize(x))
			}
		}
		if x.isConst() {
			v := x.u
			if l&syscall.ISIG != 0 && v == 3 {
				st.cooked, line, out = "", nil, nil
				m.deliverInterrupt(st)
				return nil, false, true
			}
			if l&syscall.ISIG != 0 && (v == 0x1c || v == 0x1a) {
				m.unsupported("terminal signal character %#x", v)
			}
			if v == '\r' {
				if i&syscall.IGNCR != 0 {
					continue
				}
				if i&syscall.ICRNL != 0 {
					v = '\n'
				}
			} else if v == '\n' && i&syscall.INLCR != 0 {
				v = '\r'
			}
			if canon {
				switch v {
				case '\n':
					line = append(line, c.Const(8, v))
					st.cooked = mkSymStr(c, line)
					return nil, false, true
				case 4:
					if len(line) == 0 {
						return nil, true, false
					}
					st.cooked = mkSymStr(c, line)
					return nil, false, true
				case 0x7f:
					if len(line) > 0 {
						line = line[:len(line)-1]
					}
					continue
				case 0x15:
					line = nil
					continue
				case 0x17, 0x16, 0x11, 0x13, 0x12, 0xf:
					m.unsupported("terminal editing character %#x", v)
				}
			}
			x = c.Const(8, v)
		}
		if canon {
			line = append(line, x)
			continue
		}
		out = append(out, x)
		if len(out) == n {
			return out, false, false
		}
	}
	if canon && len(line) > 0 {
		// an unfinished line stays in the terminal's buffer
		rest := mkSymStr(c, line)
		if len(st.script) > 0 && st.script[0].intr {
			return nil, false, true // the interrupt discards it
		}
		st.script = append([]cliItem{{data: m.strConcat(rest, "\x03")}}, st.script...)
		st.endPresses++
		if st.endPresses > 50 {
			panic(pathEnd{"budget", "the tool does not end when interrupted"})
		}
		return nil, false, true
	}
	return out, false, len(out) == 0
}

// lazyInput returns a pointer to the unread content when it can be read word by word.
func (m *Machine) lazyInput(f *FileVal) *Value {
	st := m.cli()
	if st == nil || f == nil || f.closed {
		return nil
	}
	if f.std {
		if f.fd != 0 || st.tty {
			return nil
		}
		for len(st.script) > 1 && !st.script[0].intr && !st.script[1].intr {
			d := m.strConcat(st.script[0].data, st.script[1].data)
			st.script = append([]cliItem{{data: d}}, st.script[2:]...)
		}
		if len(st.script) == 1 && !st.script[0].intr {
			return &st.script[0].data
		}
		if len(st.script) == 0 {
			var empty Value = ""
			return &empty
		}
		return nil
	}
	if f.node.kind != 0 || !f.read {
		return nil
	}
	return &f.rest
}

// cutToken removes the next token from the front of a rope: up to a newline, or a word.
func (m *Machine) cutToken(src *Value, words bool) (tok Value, ok, handled bool) {
	ps := m.parts(*src)
	var cur Value = ""
	have := false
	isSep := func(b byte) bool {
		if words {
			return b == ' ' || b >= 9 && b <= 13
		}
		return b == '\n'
	}
	for k, p := range ps {
		switch s := p.(type) {
		case string:
			for i := 0; i < len(s); i++ {
				if s[i] >= 0x80 && words {
					return nil, false, false
				}
				if !isSep(s[i]) {
					continue
				}
				cur = m.strConcat(cur, s[:i])
				if i > 0 {
					have = true
				}
				if words && !have {
					s = s[i+1:]
					i = -1
					cur = ""
					continue
				}
				var rest Value = s[i+1:]
				for _, q := range ps[k+1:] {
					rest = m.strConcat(rest, q)
				}
				*src = rest
				return cur, true, true
			}
			if s != "" {
				cur = m.strConcat(cur, s)
				have = true
			}
		case *TabStr:
			if !allTabs(s, func(x string) bool {
				if x == "" {
					return false
				}
				for i := 0; i < len(x); i++ {
					if isSep(x[i]) || x[i] >= 0x80 {
						return false
					}
				}
				return true
			}) {
				return nil, false, false
			}
			cur = m.strConcat(cur, s)
			have = true
		default:
			return nil, false, false
		}
	}
	*src = ""
	return cur, have, true
}

func init() {
	reg(func(m *Machine, a []Value) Value { return m.runCLI(a[0]) }, vxPath+".RunCLI")

	zero := func(m *Machine) Value { return m.c.Const(64, 0) }
	num := func(m *Machine, n int) Value { return m.c.Const(64, uint64(n)) }
	F := func(n string, f intrinsic) { reg(f, "(*os.File)."+n) }

	F("Write", func(m *Machine, a []Value) Value { return m.fileWrite(m.fileVal(a[0]), m.sliceStr(a[1])) })
	F("WriteString", func(m *Machine, a []Value) Value { return m.fileWrite(m.fileVal(a[0]), a[1]) })
	F("Read", func(m *Machine, a []Value) Value {
		f := m.fileVal(a[0])
		if f == nil {
			return Tuple{zero(m), m.invalid()}
		}
		if f.closed {
			return Tuple{zero(m), Iface{m.ptrTo(m.typ("io/fs", "PathError")), newCell(Struct{"read", f.name, m.sentinel("io/fs", "ErrClosed")})}}
		}
		dst := m.slc(a[1])
		b, eof, e := m.fileRead(f, len(dst))
		if e != 0 {
			return Tuple{zero(m), m.pathErr("read", f.name, e)}
		}
		if eof && len(dst) > 0 {
			return Tuple{zero(m), m.ioEOF()}
		}
		m.copyIn(dst, b)
		return Tuple{num(m, len(b)), Iface{}}
	})
	F("Close", func(m *Machine, a []Value) Value {
		f := m.fileVal(a[0])
		if f == nil {
			return m.invalid()
		}
		if f.closed {
			return Iface{m.ptrTo(m.typ("io/fs", "PathError")), newCell(Struct{"close", f.name, m.sentinel("io/fs", "ErrClosed")})}
		}
		if !f.std {
			f.closed = true
			delete(m.cli().open, f.fd)
		}
		return Iface{}
	})
	F("Fd", func(m *Machine, a []Value) Value {
		f := m.fileVal(a[0])
		if f == nil {
			return m.c.Const(64, ^uint64(0))
		}
		return num(m, f.fd)
	})
	F("Name", func(m *Machine, a []Value) Value { return m.fileVal(a[0]).name })
	F("Sync", func(m *Machine, a []Value) Value { return Iface{} })
	F("Stat", func(m *Machine, a []Value) Value {
		f := m.fileVal(a[0])
		if f.std {
			mode := uint64(fs.ModeNamedPipe | 0o600)
			if f.fd == 0 && m.cli() != nil && m.cli().tty {
				mode = uint64(fs.ModeDevice | fs.ModeCharDevice | 0o620)
			}
			return Tuple{m.fileInfo(f.name, &inode{mode: mode}), Iface{}}
		}
		return Tuple{m.fileInfo(f.name, f.node), Iface{}}
	})
	F("Chmod", func(m *Machine, a []Value) Value {
		f := m.fileVal(a[0])
		f.node.mode = uint64(m.concInt(m.asTerm(a[1]))) & 0o777
		return Iface{}
	})
	F("Truncate", func(m *Machine, a []Value) Value {
		f := m.fileVal(a[0])
		if m.concInt(m.asTerm(a[1])) != 0 {
			m.unsupported("truncate")
		}
		f.node.data = ""
		return Iface{}
	})
	for _, n := range []string{"Seek", "ReadAt", "WriteAt", "ReadDir", "Readdir", "Readdirnames", "Chdir", "Chown", "SyscallConn", "WriteTo"} {
		F(n, func(m *Machine, a []Value) Value { m.unsupported("(*os.File).%s", n); return nil })
	}
	F("ReadFrom", func(m *Machine, a []Value) Value {
		// io.Copy(file, reader) through a buffer
		f := m.fileVal(a[0])
		total := 0
		buf := m.makeSlice(types.Typ[types.Uint8], 32*1024, 32*1024)
		for {
			r := m.callMethod(a[1], "Read", buf).(Tuple)
			n := m.concInt(m.asTerm(r[0]))
			if n > 0 {
				w := m.fileWrite(f, mkSymStr(m.c, m.sliceBytes(buf[:n]))).(Tuple)
				total += n
				if w[1].(Iface).t != nil {
					return Tuple{num(m, total), w[1]}
				}
			}
			if e := r[1].(Iface); e.t != nil {
				if m.decide(m.equal(e, m.ioEOF(), nil)) {
					return Tuple{num(m, total), Iface{}}
				}
				return Tuple{num(m, total), e}
			}
		}
	})
	for _, n := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
		F(n, func(m *Machine, a []Value) Value { return m.sentinel("os", "ErrNoDeadline") })
	}

	reg(func(m *Machine, a []Value) Value {
		f, e := m.openFile(m.mustString(a[0]), m.concInt(m.asTerm(a[1])), uint64(m.concInt(m.asTerm(a[2]))))
		return Tuple{f, e}
	}, "os.OpenFile")
	reg(func(m *Machine, a []Value) Value {
		name := m.mustString(a[0])
		f, e := m.openFile(name, 0, 0)
		if e.(Iface).t != nil {
			return Tuple{Slice(nil), e}
		}
		fv := m.fileVal(f)
		delete(m.cli().open, fv.fd)
		if fv.node.kind == 1 {
			return Tuple{Slice(nil), m.pathErr("read", name, syscall.EISDIR)}
		}
		b := m.toBytes(fv.rest)
		if s, ok := b.(Slice); ok && s == nil {
			b = Slice{}
		}
		return Tuple{b, Iface{}}
	}, "os.ReadFile")
	stat := func(op string, follow bool) intrinsic {
		return func(m *Machine, a []Value) Value {
			name := m.mustString(a[0])
			st := m.fileOp()
			_, n, e := st.lookup(name, follow)
			if e != 0 {
				return Tuple{Iface{}, m.pathErr(op, name, e)}
			}
			return Tuple{m.fileInfo(name, n), Iface{}}
		}
	}
	reg(stat("stat", true), "os.Stat")
	reg(stat("lstat", false), "os.Lstat")
	reg(func(m *Machine, a []Value) Value {
		name := m.mustString(a[0])
		st := m.fileOp()
		p, _, e := st.lookup(name, false)
		if e != 0 {
			return m.pathErr("remove", name, e)
		}
		delete(st.files, p)
		return Iface{}
	}, "os.Remove")
	reg(func(m *Machine, a []Value) Value {
		name := m.mustString(a[0])
		st := m.fileOp()
		p := path.Clean(name)
		for k := range st.files {
			if k == p || strings.HasPrefix(k, p+"/") {
				delete(st.files, k)
			}
		}
		return Iface{}
	}, "os.RemoveAll")
	two := func(op string, link bool) intrinsic {
		return func(m *Machine, a []Value) Value {
			from, to := m.mustString(a[0]), m.mustString(a[1])
			st := m.fileOp()
			fail := func(e syscall.Errno) Value {
				return Iface{m.ptrTo(m.typ("os", "LinkError")), newCell(Struct{op, from, to, m.errno(e)})}
			}
			p, n, e := st.lookup(from, false)
			if e != 0 {
				return fail(e)
			}
			q, old, e := st.lookup(to, false)
			if e != 0 && e != syscall.ENOENT {
				return fail(e)
			}
			if link && old != nil {
				return fail(syscall.EEXIST)
			}
			if d := path.Dir(q); d != "." && d != "/" {
				if _, _, e := st.lookup(d, true); e != 0 {
					return fail(e)
				}
			}
			if old != nil && old.kind == 1 && n.kind != 1 {
				return fail(syscall.EEXIST)
			}
			st.files[q] = n
			if !link {
				delete(st.files, p)
			}
			return Iface{}
		}
	}
	reg(two("rename", false), "os.Rename")
	reg(two("link", true), "os.Link")
	reg(func(m *Machine, a []Value) Value {
		name := m.mustString(a[0])
		st := m.fileOp()
		_, n, e := st.lookup(name, true)
		if e != 0 {
			return m.pathErr("chmod", name, e)
		}
		n.mode = uint64(m.concInt(m.asTerm(a[1]))) & 0o777
		return Iface{}
	}, "os.Chmod")
	reg(func(m *Machine, a []Value) Value {
		name := m.mustString(a[0])
		st := m.fileOp()
		p, _, e := st.lookup(name, false)
		if e == 0 {
			return m.pathErr("mkdir", name, syscall.EEXIST)
		}
		if e != syscall.ENOENT {
			return m.pathErr("mkdir", name, e)
		}
		st.files[p] = &inode{kind: 1, mode: uint64(m.concInt(m.asTerm(a[1]))) &^ 0o022 & 0o777, data: ""}
		return Iface{}
	}, "os.Mkdir")
	reg(func(m *Machine, a []Value) Value {
		if m.cli() == nil {
			m.unsupported("os.Exit outside a run of the tool")
		}
		panic(cliExit{code: m.concInt(m.asTerm(a[0]))})
	}, "os.Exit", "syscall.Exit")
	reg(func(m *Machine, a []Value) Value { return "" }, "os.Getenv", "syscall.runtime_envs")
	reg(func(m *Machine, a []Value) Value { return Tuple{"", m.c.False} }, "os.LookupEnv", "syscall.Getenv")
	reg(func(m *Machine, a []Value) Value { return "/tmp" }, "os.TempDir")
	reg(func(m *Machine, a []Value) Value { return m.c.Const(64, 0) }, "os.Getuid", "os.Geteuid", "os.Getgid", "os.Getegid")
	reg(func(m *Machine, a []Value) Value {
		st := m.cli()
		if st == nil {
			m.unsupported("os.nextRandom")
		}
		st.rnd++
		return "88172645463325" + string(rune('0'+st.rnd%10))
	}, "os.nextRandom")
	reg(func(m *Machine, a []Value) Value {
		t := m.asTerm(a[0])
		return syscall.Errno(t.u).Error()
	}, "(syscall.Errno).Error")

	// terminal control
	fdTTY := func(m *Machine, fd Value) syscall.Errno {
		st := m.cli()
		if st == nil {
			m.unsupported("terminal access outside a run of the tool")
		}
		switch n := m.concInt(m.asTerm(fd)); {
		case n == 0 && st.tty:
			return 0
		case n <= 2 && n >= 0 || st.open[n] != nil:
			return syscall.ENOTTY
		}
		return syscall.EBADF
	}
	u := "golang.org/x/sys/unix."
	reg(func(m *Machine, a []Value) Value {
		if e := fdTTY(m, a[0]); e != 0 {
			return Tuple{(*Value)(nil), m.errno(e)}
		}
		return Tuple{newCell(copyVal(m.cli().termios)), Iface{}}
	}, u+"IoctlGetTermios")
	reg(func(m *Machine, a []Value) Value {
		if e := fdTTY(m, a[0]); e != 0 {
			return m.errno(e)
		}
		m.yieldPoint("termios")
		m.cli().termios = copyVal(*m.ptr(a[2]))
		return Iface{}
	}, u+"IoctlSetTermios")
	reg(func(m *Machine, a []Value) Value {
		if e := fdTTY(m, a[0]); e != 0 {
			return Tuple{(*Value)(nil), m.errno(e)}
		}
		t := m.typ("golang.org/x/sys/unix", "Winsize")
		v := m.zero(t)
		*m.field(t, v, "Col") = m.cli().width
		*m.field(t, v, "Row") = m.c.Const(16, 40)
		return Tuple{newCell(v), Iface{}}
	}, u+"IoctlGetWinsize")
	rd := func(m *Machine, a []Value) Value {
		st := m.cli()
		if st == nil {
			m.unsupported("read outside a run of the tool")
		}
		fd := m.concInt(m.asTerm(a[0]))
		f := st.open[fd]
		if fd == 0 {
			f = &FileVal{fd: 0, std: true}
		}
		if f == nil {
			return Tuple{m.c.Const(64, ^uint64(0)), m.errno(syscall.EBADF)}
		}
		dst := m.slc(a[1])
		b, _, e := m.fileRead(f, len(dst))
		if e != 0 {
			return Tuple{m.c.Const(64, ^uint64(0)), m.errno(e)}
		}
		m.copyIn(dst, b)
		return Tuple{num(m, len(b)), Iface{}}
	}
	reg(rd, u+"Read", "syscall.Read")

	// signals
	wants := func(m *Machine, sigs Value) bool {
		s := m.slc(sigs)
		if len(s) == 0 {
			return true
		}
		for _, x := range s {
			i := x.(Iface)
			if t, ok := i.v.(*Term); ok && t.isConst() && t.u == uint64(syscall.SIGINT) {
				return true
			}
		}
		return false
	}
	reg(func(m *Machine, a []Value) Value {
		st := m.cli()
		if st == nil {
			m.unsupported("signal.NotifyContext outside a run of the tool")
		}
		r := m.call(m.cur.top, m.prog.pkgs["context"].Func("WithCancel"), []Value{a[0]}, nil).(Tuple)
		cancel := r[1]
		id := st.nextID
		st.nextID++
		if wants(m, a[1]) {
			st.handlers = append(st.handlers, sigHandler{id: id, cancel: cancel})
		}
		stop := &Closure{native: func(m *Machine, _ []Value) Value {
			for i, h := range st.handlers {
				if h.id == id {
					st.handlers = append(append([]sigHandler(nil), st.handlers[:i]...), st.handlers[i+1:]...)
					break
				}
			}
			return m.callback(cancel)
		}}
		return Tuple{r[0], stop}
	}, "os/signal.NotifyContext")
	reg(func(m *Machine, a []Value) Value {
		st := m.cli()
		if st == nil {
			m.unsupported("signal.Notify outside a run of the tool")
		}
		if wants(m, a[1]) {
			st.handlers = append(st.handlers, sigHandler{id: -1, ch: m.asChan(a[0])})
		}
		return nil
	}, "os/signal.Notify")
	reg(func(m *Machine, a []Value) Value {
		st := m.cli()
		ch := m.asChan(a[0])
		var keep []sigHandler
		for _, h := range st.handlers {
			if h.ch != ch {
				keep = append(keep, h)
			}
		}
		st.handlers = keep
		return nil
	}, "os/signal.Stop")

	// reading word by word
	readerOf := func(m *Machine, v Value) *FileVal {
		i, ok := v.(Iface)
		if !ok {
			return nil
		}
		p, ok := i.v.(*Value)
		if !ok || p == nil {
			return nil
		}
		f, _ := (*p).(*FileVal)
		return f
	}
	reg(func(m *Machine, a []Value) Value {
		st := m.cli()
		if st == nil {
			return notHandled{}
		}
		t := m.typ("bufio", "Scanner")
		p := m.ptr(a[0])
		delete(st.tokens, p)
		f := readerOf(m, *m.field(t, *p, "r"))
		if f == nil || len(m.slc(*m.field(t, *p, "buf"))) > 0 {
			return notHandled{}
		}
		src := m.lazyInput(f)
		if src == nil || !m.isLazyStr(*src) {
			return notHandled{}
		}
		sp, _ := (*m.field(t, *p, "split")).(*Closure)
		if sp == nil || sp.fn == nil {
			return notHandled{}
		}
		var words bool
		switch sp.fn.String() {
		case "bufio.ScanWords":
			words = true
		case "bufio.ScanLines":
		default:
			return notHandled{}
		}
		tok, ok, handled := m.cutToken(src, words)
		if !handled {
			return notHandled{}
		}
		if !ok {
			st.tokens[p] = ""
			return m.c.False
		}
		if s, isS := tok.(string); isS && !words {
			tok = strings.TrimSuffix(s, "\r")
		} else if r, isR := tok.(*Rope); isR && !words {
			if l, isS := r.parts[len(r.parts)-1].(string); isS && strings.HasSuffix(l, "\r") {
				var out Value = ""
				for _, q := range r.parts[:len(r.parts)-1] {
					out = m.strConcat(out, q)
				}
				tok = m.strConcat(out, strings.TrimSuffix(l, "\r"))
			}
		}
		st.tokens[p] = tok
		return m.c.True
	}, "(*bufio.Scanner).Scan")
	reg(func(m *Machine, a []Value) Value {
		if st := m.cli(); st != nil {
			if t, ok := st.tokens[m.ptr(a[0])]; ok {
				return t
			}
		}
		return notHandled{}
	}, "(*bufio.Scanner).Text")
	reg(func(m *Machine, a []Value) Value {
		if st := m.cli(); st != nil {
			if t, ok := st.tokens[m.ptr(a[0])]; ok {
				return m.toBytes(t)
			}
		}
		return notHandled{}
	}, "(*bufio.Scanner).Bytes")
	reg(func(m *Machine, a []Value) Value {
		f := readerOf(m, a[0])
		if f == nil || m.cli() == nil {
			return notHandled{}
		}
		src := m.lazyInput(f)
		if src == nil || !m.isLazyStr(*src) {
			return notHandled{}
		}
		b := m.toBytes(*src)
		*src = ""
		return Tuple{b, Iface{}}
	}, "io.ReadAll")
	rs := func(m *Machine, a []Value) (Value, bool, bool) {
		if m.cli() == nil {
			return nil, false, false
		}
		t := m.typ("bufio", "Reader")
		p := m.ptr(a[0])
		f := readerOf(m, *m.field(t, *p, "rd"))
		d := m.asTerm(a[1])
		if f == nil || !d.isConst() || d.u != '\n' || m.asTerm(*m.field(t, *p, "w")) != m.asTerm(*m.field(t, *p, "r")) {
			return nil, false, false
		}
		src := m.lazyInput(f)
		if src == nil || !m.isLazyStr(*src) {
			return nil, false, false
		}
		tok, _, handled := m.cutToken(src, false)
		if !handled {
			return nil, false, false
		}
		return m.strConcat(tok, "\n"), true, true
	}
	reg(func(m *Machine, a []Value) Value {
		if s, ok, h := rs(m, a); h && ok {
			return Tuple{s, Iface{}}
		}
		return notHandled{}
	}, "(*bufio.Reader).ReadString")
	reg(func(m *Machine, a []Value) Value {
		if s, ok, h := rs(m, a); h && ok {
			return Tuple{m.toBytes(s), Iface{}}
		}
		return notHandled{}
	}, "(*bufio.Reader).ReadBytes")

	// writing through a buffer: text of symbolic length is kept whole and written at the next Flush
	bw := func(m *Machine, p *Value, s Value) Value {
		st := m.cli()
		if st == nil || p == nil {
			return notHandled{}
		}
		t := m.typ("bufio", "Writer")
		if e, ok := (*m.field(t, *p, "err")).(Iface); !ok || e.t != nil {
			return notHandled{}
		}
		cur, ok := st.wbufs[p]
		if !ok {
			if !m.isLazyStr(s) {
				return notHandled{}
			}
			n := m.concInt(m.asTerm(*m.field(t, *p, "n")))
			cur = mkSymStr(m.c, m.sliceBytes(m.slc(*m.field(t, *p, "buf"))[:n]))
			m.set(m.field(t, *p, "n"), m.c.Const(64, 0))
			m.note("a buffered writer holding text of symbolic length writes it only when flushed")
		}
		if st.wbufs == nil {
			st.wbufs = map[*Value]Value{}
		}
		st.wbufs[p] = m.strConcat(cur, s)
		return Tuple{m.strLen(s), Iface{}}
	}
	reg(func(m *Machine, a []Value) Value { return bw(m, m.ptr(a[0]), a[1]) }, "(*bufio.Writer).WriteString")
	reg(func(m *Machine, a []Value) Value {
		if l, ok := a[1].(*LazyBytes); ok && l.forced == nil {
			return bw(m, m.ptr(a[0]), l.str)
		}
		if st := m.cli(); st != nil && st.wbufs[m.ptr(a[0])] != nil {
			return bw(m, m.ptr(a[0]), m.sliceStr(a[1]))
		}
		return notHandled{}
	}, "(*bufio.Writer).Write")
	reg(func(m *Machine, a []Value) Value {
		r := bw(m, m.ptr(a[0]), mkSymStr(m.c, []*Term{m.asTerm(a[1])}))
		if t, ok := r.(Tuple); ok {
			return t[1]
		}
		return r
	}, "(*bufio.Writer).WriteByte")
	reg(func(m *Machine, a []Value) Value {
		x := m.asTerm(a[1])
		if !x.isConst() {
			return notHandled{}
		}
		return bw(m, m.ptr(a[0]), string(rune(x.sval())))
	}, "(*bufio.Writer).WriteRune")
	reg(func(m *Machine, a []Value) Value {
		st := m.cli()
		p := m.ptr(a[0])
		if st == nil || st.wbufs[p] == nil {
			return notHandled{}
		}
		s := st.wbufs[p]
		delete(st.wbufs, p)
		t := m.typ("bufio", "Writer")
		r := m.fprint(*m.field(t, *p, "wr"), s).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			m.set(m.field(t, *p, "err"), e)
			return e
		}
		return Iface{}
	}, "(*bufio.Writer).Flush")

	// word lookup for words drawn from a table
	reg(func(m *Machine, a []Value) Value {
		ts, ok := a[0].(*TabStr)
		if !ok {
			return notHandled{}
		}
		wl := map[string]bool{}
		g := m.prog.pkgs["github.com/kklash/wordlist4096"].Var("WordMap")
		mv, _ := m.load(m.globalAddr(g)).(*MapVal)
		if mv == nil {
			return notHandled{}
		}
		for _, e := range mv.ents {
			if !e.del {
				wl[m.mustString(e.k)] = true
			}
		}
		if !m.decide(m.tabPred(ts, func(s string) bool { return wl[s] })) {
			return notHandled{}
		}
		t := m.typ("github.com/kklash/wordlist4096", "SearchResult")
		v := m.zero(t)
		*m.field(t, v, "ExactMatch") = m.c.True
		*m.field(t, v, "Suffixes") = Slice{""}
		m.note("word search on a symbolic word reports only the exact match, not longer words beginning with it")
		return newCell(v)
	}, "github.com/kklash/wordlist4096.Search")
}

var _ = ssa.BuilderMode(0)
