//go:build !verifengine

package vx

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// CLIControl is handed to the instrumented build of the tool.
type CLIControl struct {
	Rand      []string
	Seed      int64
	Sec, Nsec int64
	RaceAt    int
	RaceName  string
	RaceData  string
	RaceMode  uint32
	RaceKind  int
	FullDisk  bool
	Delays    int64
}

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg))
	if e != 0 {
		return e
	}
	return nil
}

func openPTY() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	var n uint32
	var zero int32
	if err = ioctl(master.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return
	}
	if err = ioctl(master.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		return
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	return
}

func mkFile(dir string, f File) error {
	p := filepath.Join(dir, f.Name)
	switch f.Kind {
	case 1:
		return os.MkdirAll(p, 0o755)
	case 2:
		return os.Symlink(f.Data, p)
	}
	if err := os.WriteFile(p, []byte(f.Data), 0o600); err != nil {
		return err
	}
	return os.Chmod(p, os.FileMode(f.Mode))
}

// UsedDelays says whether the tool was run with thread interleavings; DelaySeed selects one (0: no delays).
var (
	UsedDelays bool
	DelaySeed  int64
)

// UsedCLI says whether the tool was run.
var UsedCLI bool

// RunCLI runs the instrumented build of the tool.
func RunCLI(r Run) *Result {
	bin := os.Getenv("VERIF_CLI_BIN")
	if bin == "" {
		panic(Skip{})
	}
	UsedCLI = true
	dir, err := os.MkdirTemp(".", "cli-")
	if err != nil {
		panic(Skip{})
	}
	defer os.RemoveAll(dir)
	for _, f := range r.Files {
		if err := mkFile(dir, f); err != nil {
			panic(Skip{})
		}
	}
	ctl := CLIControl{Sec: r.Sec, Nsec: r.Nsec, RaceAt: r.RaceAt, RaceName: r.Race.Name, RaceData: r.Race.Data, RaceMode: r.Race.Mode, RaceKind: r.Race.Kind, FullDisk: r.FullDisk}
	for k := counts["rand"]; ; k++ {
		i, ok := inputs[fmt.Sprintf("rand#%d", k)]
		if !ok {
			break
		}
		ctl.Rand = append(ctl.Rand, i.Hex)
	}
	if Random != nil {
		if Random.Intn(4) != 0 {
			ctl.Rand = nil
		}
		ctl.Seed = Random.Int63() | 1
	}
	if r.Interleave {
		UsedDelays = true
		n, i, ok := next("delays")
		if ok {
			fmt.Sscanf(i.Hex, "%x", &ctl.Delays)
		} else {
			ctl.Delays = DelaySeed
		}
		Used = append(Used, Input{n, "u64", fmt.Sprintf("%x", ctl.Delays)})
	}
	cj, _ := json.Marshal(ctl)
	for _, a := range r.Args {
		if strings.Contains(a, "\x00") {
			panic(Skip{})
		}
	}
	cmd := exec.Command(bin, r.Args...)
	cmd.Args[0] = "mnemonikey"
	cmd.Dir = dir
	cmd.Env = []string{"VERIF_CLI_CTL=" + string(cj), "HOME=" + dir, "GOTRACEBACK=single"}
	var so, se, rep bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if r.FullStdout {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(Skip{})
		}
		defer full.Close()
		cmd.Stdout = full
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		panic(Skip{})
	}
	cmd.ExtraFiles = []*os.File{rw}
	var master, slave *os.File
	var mode0, mode1 syscall.Termios
	var echo bytes.Buffer
	var emu sync.Mutex
	var inW *os.File
	if r.TTY {
		master, slave, err = openPTY()
		if err != nil {
			panic(Skip{})
		}
		ws := [4]uint16{40, r.Width, 0, 0}
		ioctl(master.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
		cmd.Stdin = slave
		ioctl(slave.Fd(), syscall.TCGETS, unsafe.Pointer(&mode0))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	} else {
		var inR *os.File
		inR, inW, err = os.Pipe()
		if err != nil {
			panic(Skip{})
		}
		cmd.Stdin = inR
		defer inR.Close()
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start the tool:", err)
		panic(Skip{})
	}
	rw.Close()
	var over atomic.Bool
	done := make(chan struct{})
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := rr.Read(buf)
			rep.Write(buf[:n])
			if err != nil {
				break
			}
		}
		rr.Close()
		close(done)
	}()
	fed := make(chan struct{})
	go func() {
		defer close(fed)
		if r.TTY {
			feedTTY(r, cmd.Process.Pid, master, slave, &over)
		} else {
			feedPipe(r, inW, cmd.Process, &over)
		}
	}()
	if r.TTY {
		go func() {
			buf := make([]byte, 4096)
			for {
				n, err := master.Read(buf)
				emu.Lock()
				echo.Write(buf[:n])
				emu.Unlock()
				if err != nil {
					return
				}
			}
		}()
	}
	hung := make(chan bool, 1)
	tm := time.AfterFunc(20*time.Second, func() { hung <- true; cmd.Process.Kill() })
	err = cmd.Wait()
	tm.Stop()
	over.Store(true)
	if inW != nil {
		inW.Close()
	}
	<-fed
	if r.TTY {
		ioctl(slave.Fd(), syscall.TCGETS, unsafe.Pointer(&mode1))
		master.Close()
		slave.Close()
	}
	<-done
	select {
	case <-hung:
		panic(Failure{"the tool did not end within 20 s; its error output was:\n" + se.String()})
	default:
	}
	res := &Result{Stdout: so.String(), Stderr: se.String(), Restored: !r.TTY || mode0 == mode1}
	emu.Lock()
	for _, it := range r.Stdin {
		if t := strings.Trim(it.Data, "\r\n"); r.TTY && !it.Line && !it.Interrupt && t != "" && strings.Contains(echo.String(), t) {
			res.Echoed = true
		}
	}
	emu.Unlock()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			res.Exit, res.Signal = 128+int(ws.Signal()), ws.Signal() == syscall.SIGINT
			if !res.Signal {
				res.Crashed = true
			}
		} else {
			res.Exit = ws.ExitStatus()
		}
		if res.Exit == 2 && (strings.Contains(res.Stderr, "\ngoroutine ") || strings.Contains(res.Stderr, "fatal error: ")) {
			res.Crashed = true
		}
	}
	if s := os.Getenv("VERIF_CLI_SHOW"); s != "" {
		fmt.Fprintf(os.Stderr, "RUN %q exit=%d signal=%v crashed=%v\n--stdout\n%s\n--stderr\n%s\n", r.Args, res.Exit, res.Signal, res.Crashed, res.Stdout, res.Stderr)
	}
	for _, l := range strings.Fields(rep.String()) {
		n := fmt.Sprintf("rand#%d", counts["rand"])
		counts["rand"]++
		b, _ := hex.DecodeString(l)
		stream = append(stream, b...)
		Used = append(Used, Input{n, "bytes", l})
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return nil
		}
		f := File{Name: rel, Mode: uint32(fi.Mode().Perm())}
		switch {
		case fi.IsDir():
			f.Kind = 1
		case fi.Mode()&os.ModeSymlink != 0:
			f.Kind = 2
			f.Data, _ = os.Readlink(p)
		default:
			b, _ := os.ReadFile(p)
			f.Data = string(b)
		}
		res.Files = append(res.Files, f)
		return nil
	})
	sort.Slice(res.Files, func(i, j int) bool { return res.Files[i].Name < res.Files[j].Name })
	return res
}

// reading reports whether a thread of the process is in a read of standard input.
func reading(pid int) bool {
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/syscall", pid))
	seen := false
	for _, t := range ts {
		b, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		seen = true
		if bytes.HasPrefix(b, []byte("0 0x0 ")) {
			return true
		}
	}
	if !seen { // not available: assume so after a while
		time.Sleep(20 * time.Millisecond)
		return true
	}
	return false
}

// settled waits until the tool has taken what there was and waits for more; false if it ended or time is up.
func settled(pid int, cond func() bool, over *atomic.Bool, max time.Duration) bool {
	end := time.Now().Add(max)
	for n := 0; !over.Load() && time.Now().Before(end); {
		if cond() && reading(pid) {
			if n++; n == 3 {
				return true
			}
		} else {
			n = 0
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func feedPipe(r Run, w *os.File, p *os.Process, over *atomic.Bool) {
	for _, it := range r.Stdin {
		if over.Load() {
			return
		}
		if it.Interrupt {
			empty := func() bool {
				var n int32
				ioctl(w.Fd(), 0x541B, unsafe.Pointer(&n))
				return n == 0
			}
			settled(p.Pid, empty, over, 10*time.Second)
			p.Signal(syscall.SIGINT)
			time.Sleep(3 * time.Millisecond)
			continue
		}
		w.Write([]byte(it.Data))
	}
	w.Close()
}

func feedTTY(r Run, pid int, master, slave *os.File, over *atomic.Bool) {
	var t syscall.Termios
	state := func() bool {
		return ioctl(slave.Fd(), syscall.TCGETS, unsafe.Pointer(&t)) == nil
	}
	empty := func() bool {
		var n int32
		ioctl(slave.Fd(), 0x541B, unsafe.Pointer(&n)) // FIONREAD
		return n == 0
	}
	raw := func() bool { return state() && t.Lflag&syscall.ICANON == 0 && empty() }
	pass := func() bool { return state() && t.Lflag&syscall.ICANON != 0 && t.Lflag&syscall.ECHO == 0 && empty() }
	any := func() bool { return raw() || pass() }
	for _, it := range r.Stdin {
		if over.Load() {
			return
		}
		cond, data := pass, []byte(it.Data)
		switch {
		case it.Interrupt:
			cond, data = any, []byte{3}
		case it.Raw:
			cond = raw
		case it.Line:
			cond = func() bool { return state() && empty() }
		}
		if len(data) == 0 {
			continue
		}
		settled(pid, cond, over, 6*time.Second)
		if over.Load() {
			return
		}
		master.Write(data)
		time.Sleep(2 * time.Millisecond)
	}
	// Ctrl+C whenever the tool asks for more
	for !over.Load() {
		if settled(pid, any, over, 4*time.Second) || settled(pid, func() bool { return state() && empty() }, over, 2*time.Second) {
			master.Write([]byte{3})
			time.Sleep(2 * time.Millisecond)
		}
	}
}
