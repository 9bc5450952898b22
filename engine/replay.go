package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	Text     string `json:"text"`
}

func loadKnown(prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

// replayer runs candidates on the natively compiled tree.
type replayer struct {
	prop string
	dir  string
	bins map[string]string
	errs map[string]string
}

func newReplayer(prop string) *replayer {
	return &replayer{prop: prop, bins: map[string]string{}, errs: map[string]string{}}
}

func (r *replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

type replayReq struct {
	Harness string     `json:"harness"`
	Inputs  []InputVal `json:"inputs"`
	Random  int        `json:"random"` // number of randomised attempts
	Seconds int        `json:"seconds"`
	Seed    int        `json:"seed"`
	Fast    bool       `json:"fast"`
	Kind    string     `json:"kind"`
	Tier    string     `json:"tier"`
	Msg     string     `json:"msg"`

	Traces [][]InputVal `json:"traces"`
}

// build compiles the replay program; fast replaces the memory-hard KDF by a cheap stand-in with the same interface.
func (r *replayer) build(fast bool) (string, error) {
	key := fmt.Sprint(fast)
	if b, ok := r.bins[key]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.errs[key])
		}
		return b, nil
	}
	if r.dir == "" {
		d, err := os.MkdirTemp("", "verif-replay-")
		if err != nil {
			return "", err
		}
		r.dir = d
	}
	ov, err := overlayFiles(*flagRepo, filepath.Join(*flagVerif, "harness"))
	if err != nil {
		return "", err
	}
	tab := filepath.Join(r.dir, "table.go")
	if err := os.WriteFile(tab, []byte(harnessTable(ov)), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(*flagRepo, "zzverif", "h", "zz_table.go")] = tab
	txt := filepath.Join(r.dir, "text.go")
	if err := os.WriteFile(txt, sourceText(*flagRepo), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(*flagRepo, "zzverif", "h", "zz_text.go")] = txt
	var modArgs []string
	if fast {
		mf, err := r.fastModfile()
		if err != nil {
			return "", err
		}
		modArgs = []string{"-modfile=" + mf, "-mod=mod"}
	}
	ob, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(r.dir, "overlay-"+key+".json")
	os.WriteFile(of, ob, 0o644)
	bin := filepath.Join(r.dir, "replay-"+key)
	args := append([]string{"build", "-overlay", of, "-o", bin}, modArgs...)
	cmd := exec.Command("go", append(args, modPath+"/zzverif/replay")...)
	cmd.Dir = *flagRepo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		r.bins[key] = ""
		r.errs[key] = string(out)
		return "", fmt.Errorf("%s", out)
	}
	r.bins[key] = bin
	return bin, nil
}

func (r *replayer) exec(req replayReq, timeout time.Duration) (bool, string) {
	bin, err := r.build(req.Fast)
	if err != nil {
		r.fatal("the replay program does not build: " + err.Error())
	}
	b, _ := json.Marshal(req)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	scratch, err := os.MkdirTemp(r.dir, "run-")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(scratch)
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_REPO="+*flagRepo, "VERIF_DIR="+*flagVerif, "HOME="+scratch)
	if r.prop >= "C22" {
		cli, err := r.buildCLI(req.Fast)
		if err != nil {
			r.fatal("the instrumented tool does not build: " + err.Error())
		}
		cmd.Env = append(cmd.Env, "VERIF_CLI_BIN="+cli)
	}
	cmd.Stdin = bytes.NewReader(b)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err = cmd.Run()
	s := out.String()
	if ctx.Err() != nil {
		if req.Kind == "hang" {
			return true, fmt.Sprintf("the natively compiled code did not terminate within %s on these inputs", timeout)
		}
		return false, "replay timed out"
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		return true, s
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 && strings.Contains(s, "goroutine ") && !req.Fast {
		return true, s // crash of the program under test
	}
	return false, s
}

func (r *replayer) fatal(msg string) {
	fmt.Println("ERROR " + msg)
	r.close()
	os.Exit(2)
}

func (r *replayer) try(harness string, c *Candidate) (bool, string) {
	req := replayReq{Harness: harness, Inputs: c.Inputs, Kind: c.Kind, Seed: *flagSeed, Tier: *flagTier}
	if c.Kind == "hang" {
		return r.exec(req, 15*time.Second)
	}
	if c.Kind == "never" {
		req.Fast, req.Seconds, req.Random, req.Msg = true, 10, 1, c.Never
		return r.exec(req, 60*time.Second)
	}
	found := func(d string) string {
		a, line, ok := strings.Cut(d, "INPUTS ")
		if !ok {
			return d
		}
		line, b, _ := strings.Cut(line, "\n")
		var in []InputVal
		if json.Unmarshal([]byte(line), &in) == nil && len(in) > 0 {
			c.Inputs = in
		}
		return a + b
	}
	ok, d := r.exec(req, 80*time.Second)
	if ok {
		return true, found(d)
	}
	first := d
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Println("replay:", d)
	}
	req.Random, req.Seconds, req.Fast = 3000, 20, true
	ok, d = r.exec(req, 60*time.Second)
	if ok {
		return true, found(d)
	}
	return false, first + " / " + d
}

// validate runs explored paths natively; it returns the number of agreeing and of excluded ones.
func (r *replayer) validate(res *HarnessResult) (bad string, in []InputVal) {
	if len(res.Traces) == 0 {
		return
	}
	req := replayReq{Harness: res.Name, Kind: "validate", Seed: *flagSeed, Tier: *flagTier, Fast: true, Seconds: 8, Traces: res.Traces}
	ok, d := r.exec(req, 60*time.Second)
	if j := strings.Index(d, "VALIDATED "); j >= 0 {
		fmt.Sscanf(d[j:], "VALIDATED %d %d", &res.Validated, &res.Excluded)
	}
	if ok {
		if j := strings.Index(d, "INPUTS "); j >= 0 {
			line, _, _ := strings.Cut(d[j+7:], "\n")
			json.Unmarshal([]byte(line), &in)
		}
		return d, in
	}
	if res.Validated == 0 && res.Excluded == 0 && os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Println("validation failed:", d)
	}
	return
}

// hard runs natively, on solver-chosen inputs and random variations of them, what could not be encoded or decided.
func (r *replayer) hard(res *HarnessResult) (bad string, in []InputVal) {
	ts := res.Hard
	if len(ts) == 0 && (res.Remaining > 0 || res.Undecided > 0) {
		ts = res.Traces
	}
	if len(ts) == 0 {
		return
	}
	req := replayReq{Harness: res.Name, Kind: "hard", Seed: *flagSeed, Tier: *flagTier, Fast: true, Seconds: 12, Traces: ts}
	ok, d := r.exec(req, 60*time.Second)
	if j := strings.Index(d, "VALIDATED "); j >= 0 {
		fmt.Sscanf(d[j:], "VALIDATED %d", &res.HardRuns)
	}
	if ok {
		if j := strings.Index(d, "INPUTS "); j >= 0 {
			line, _, _ := strings.Cut(d[j+7:], "\n")
			json.Unmarshal([]byte(line), &in)
		}
		return d, in
	}
	return
}

func (r *replayer) save(harness string, c *Candidate, detail string) string {
	dir := filepath.Join(*flagVerif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	h := sha256.Sum256([]byte(harness + c.Msg + fmt.Sprint(c.Inputs)))
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", harness, hex.EncodeToString(h[:4])))
	b, _ := json.MarshalIndent(map[string]any{"harness": harness, "kind": c.Kind, "message": c.Msg, "at": c.Pos, "inputs": c.Inputs, "observed": detail,
		"how": "bash check.sh replay THIS-FILE"}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// replayFile runs a saved counterexample again.
func replayFile(p string) int {
	b, err := os.ReadFile(p)
	var c struct {
		Harness, Kind string
		Inputs        []InputVal
	}
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil || len(c.Harness) < 3 {
		fmt.Println("cannot read", p, err)
		return 2
	}
	r := newReplayer(c.Harness[:3])
	defer r.close()
	rc := 0
	for _, fast := range []bool{false, true} {
		ok, d := r.exec(replayReq{Harness: c.Harness, Inputs: c.Inputs, Kind: c.Kind, Seed: *flagSeed, Tier: *flagTier, Fast: fast}, 60*time.Second)
		fmt.Printf("with the reduced KDF: %v, fails: %v\n%s\n", fast, ok, d)
		if ok {
			rc = 1
		}
	}
	return rc
}

var reHarness = regexp.MustCompile(`(?m)^func (C[0-9][0-9]_[A-Za-z0-9_]*)\(\) \{`)

// harnessTable lists all harness functions for the replay program.
func harnessTable(ov map[string]string) string {
	var b strings.Builder
	b.WriteString("package h\n\n// Table lists the harnesses.\nvar Table = map[string]func(){\n")
	for v, f := range ov {
		if !strings.Contains(v, "/zzverif/h/") {
			continue
		}
		src, _ := os.ReadFile(f)
		for _, mm := range reHarness.FindAllStringSubmatch(string(src), -1) {
			fmt.Fprintf(&b, "\t%q: %s,\n", mm[1], mm[1])
		}
	}
	b.WriteString("}\n")
	return b.String()
}

// fastModfile makes a copy of golang.org/x/crypto whose Argon2 keeps hashing all its parameters but
// uses the minimum of memory and one pass, and a go.mod that selects it. Used only to search for
// concrete inputs of a suspected violation whose model does not carry over directly.
func (r *replayer) fastModfile() (string, error) {
	mf := filepath.Join(r.dir, "fast.mod")
	if _, err := os.Stat(mf); err == nil {
		return mf, nil
	}
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/crypto")
	cmd.Dir = *flagRepo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return "", err
	}
	dst := filepath.Join(r.dir, "xcrypto")
	if out, err := exec.Command("cp", "-r", "--no-preserve=mode", strings.TrimSpace(string(out)), dst).CombinedOutput(); err != nil {
		return "", fmt.Errorf("%s", out)
	}
	f := filepath.Join(dst, "argon2", "argon2.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return "", err
	}
	const anchor = "keyLen, mode)\n\n\tmemory = memory /"
	if !strings.Contains(string(b), anchor) {
		return "", fmt.Errorf("argon2 source not recognised")
	}
	b = []byte(strings.Replace(string(b), anchor, "keyLen, mode)\n\tmemory, time = 0, 1\n\tmemory = memory /", 1))
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return "", err
	}
	gm, err := os.ReadFile(filepath.Join(*flagRepo, "go.mod"))
	if err != nil {
		return "", err
	}
	gs, _ := os.ReadFile(filepath.Join(*flagRepo, "go.sum"))
	os.WriteFile(mf, append(gm, []byte("\nreplace golang.org/x/crypto => "+dst+"\n")...), 0o644)
	os.WriteFile(filepath.Join(r.dir, "fast.sum"), gs, 0o644)
	return mf, nil
}
