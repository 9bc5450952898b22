// Command replay runs one harness natively on given inputs.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"syscall"
	"time"

	"github.com/kklash/mnemonikey/zzverif/h"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

type request struct {
	Harness string     `json:"harness"`
	Inputs  []vx.Input `json:"inputs"`
	Random  int        `json:"random"`
	Seconds int        `json:"seconds"`
	Seed    int        `json:"seed"`
	Fast    bool       `json:"fast"`
	Kind    string     `json:"kind"`
	Tier    string     `json:"tier"`
	Msg     string     `json:"msg"`

	Traces [][]vx.Input `json:"traces"`
}

var skipped bool

func once(f func()) (bad string) {
	skipped = false
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case vx.Skip:
				skipped = true
			case vx.Failure:
				bad = "assertion failed: " + e.Msg
			default:
				bad = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	f()
	return ""
}

// again confirms a failure of a run of the tool, which has to come back with the same inputs: what
// counts is what the tool does, not the timing of the terminal it is driven through.
func again(f func()) bool {
	if !vx.UsedCLI {
		return true
	}
	rnd, used := vx.Random, vx.Used
	defer func() { vx.Random, vx.Used = rnd, used }()
	vx.Random = nil
	for i := 0; i < 2; i++ {
		vx.Reset(used)
		if once(f) == "" {
			return false
		}
	}
	return true
}

func main() {
	var rq request
	if err := json.NewDecoder(os.Stdin).Decode(&rq); err != nil {
		fmt.Println("bad request:", err)
		os.Exit(1)
	}
	f := h.Table[rq.Harness]
	if f == nil {
		fmt.Println("no such harness:", rq.Harness)
		os.Exit(1)
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	vx.SetThorough(rq.Tier == "thorough")
	if rq.Kind == "validate" {
		end := time.Now().Add(time.Duration(rq.Seconds) * time.Second)
		good, excl := 0, 0
		for _, t := range rq.Traces {
			if time.Now().After(end) {
				break
			}
			vx.Reset(t)
			if bad := once(f); bad != "" && again(f) {
				b, _ := json.Marshal(vx.Used)
				fmt.Printf("%s\nINPUTS %s\nVALIDATED %d %d\n", bad, b, good, excl)
				os.Exit(3)
			}
			if skipped {
				excl++
			} else {
				good++
			}
		}
		fmt.Printf("VALIDATED %d %d\n", good, excl)
		return
	}
	if rq.Kind == "hard" {
		rnd := rand.New(rand.NewSource(int64(rq.Seed)))
		end := time.Now().Add(time.Duration(rq.Seconds) * time.Second)
		n := 0
		for i := 0; time.Now().Before(end) && i < 400*len(rq.Traces); i++ {
			vx.Random = rnd
			if i < len(rq.Traces) {
				vx.Random = nil
			}
			vx.Reset(rq.Traces[i%len(rq.Traces)])
			if bad := once(f); bad != "" && again(f) {
				b, _ := json.Marshal(vx.Used)
				fmt.Printf("%s\nINPUTS %s\nVALIDATED %d\n", bad, b, n)
				os.Exit(3)
			}
			if !skipped {
				n++
			}
		}
		fmt.Printf("VALIDATED %d\n", n)
		return
	}
	if rq.Random == 0 {
		vx.Reset(rq.Inputs)
		end := time.Now().Add(45 * time.Second)
		for i := 0; i < 3 || vx.UsedDelays && i < 400 && time.Now().Before(end); i++ {
			vx.DelaySeed = int64(i)
			vx.Reset(rq.Inputs)
			if bad := once(f); bad != "" && (vx.UsedDelays || again(f)) {
				b, _ := json.Marshal(vx.Used)
				fmt.Printf("%s\nINPUTS %s\n", bad, b)
				os.Exit(3)
			}
			if !vx.UsedCLI {
				break
			}
		}
		return
	}
	if rq.Kind == "never" {
		rnd := rand.New(rand.NewSource(int64(rq.Seed)))
		vx.RandomAll = true
		end := time.Now().Add(time.Duration(rq.Seconds) * time.Second)
		for time.Now().Before(end) {
			vx.Random = rnd
			vx.Reset(rq.Inputs)
			once(f)
		}
		c := vx.PossibleSeen[rq.Msg]
		fmt.Printf("%s: evaluated %d times on random inputs, true %d times\n", rq.Msg, c[0], c[1])
		if c[0] >= 100 && c[1] == 0 {
			os.Exit(3)
		}
		return
	}
	end := time.Now().Add(time.Duration(rq.Seconds) * time.Second)
	rnd := rand.New(rand.NewSource(int64(rq.Seed)))
	for i := 0; i < rq.Random && time.Now().Before(end); i++ {
		vx.Random = rnd
		if i == 0 {
			vx.Random = nil
		}
		vx.Reset(rq.Inputs)
		if bad := once(f); bad != "" && again(f) {
			b, _ := json.Marshal(vx.Used)
			fmt.Printf("%s\nINPUTS %s\n", bad, b)
			os.Exit(3)
		}
	}
}
