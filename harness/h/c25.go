package h

import (
	"strconv"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// printedPhrase picks the numbered words out of what was printed for the user.
func printedPhrase(text string) []string {
	words := []string{}
	t := vx.Tokens(text)
	for i := 0; i+1 < len(t); i++ {
		k := strconv.Itoa(len(words) + 1)
		if t[i] == k+":" || t[i] == k+"." || t[i] == k+")" {
			words = append(words, t[i+1])
			i++
		}
	}
	return words
}

// savedPhrase reads the words of a file that should have been created by the run.
func savedPhrase(r *vx.Result, name string) []string {
	f, ok := r.Find(name)
	vx.Assert(ok && f.Kind == 0, "the word file exists")
	vx.Assert(f.Mode&0o077 == 0, "only the owner can read the word file")
	words := vx.Tokens(f.Data)
	// single spaces between the words and nothing else
	vx.Assert(sameText(f.Data, strings.Join(words, " ")), "the word file holds the words separated by single spaces")
	return words
}

// drawnWindow says whether b was handed out by the random source in one piece.
func drawnWindow(b []byte) bool {
	d := vx.Drawn()
	ok := false
	for i := 0; i+len(b) <= len(d); i++ {
		ok = vx.Or(ok, vx.EqBytes(d[i:i+len(b)], b))
	}
	return ok
}

// phraseContent decodes a phrase of the wanted kind.
func phraseContent(words []string, encrypted bool, pw string) (*mnemonikey.Seed, *mnemonikey.DecodedMnemonic) {
	dec, err := mnemonikey.DecodeMnemonic(words)
	vx.Assert(err == nil && dec != nil, "the phrase is shown in full and in order")
	vx.Assert(dec.Encrypted() == encrypted, "the phrase is of the kind asked for")
	var seed *mnemonikey.Seed
	if encrypted {
		seed, err = dec.DecryptSeed([]byte(pw))
	} else {
		seed, err = dec.Seed()
	}
	vx.Assert(err == nil && seed != nil, "the phrase gives its seed")
	return seed, dec
}

// symClock is any clock reading for which generate should work.
func symClock() (sec, nsec int64) {
	off := vx.U31("now")
	vx.Assume(off < 1<<31-16)
	return epochUnix + int64(off), symNsec()
}

func near(t, sec int64) bool { return vx.And(t >= sec, t <= sec+8) }

// C25_Options: all entropies and clock values; where the phrase goes, its kind, and which keys.
func C25_Options() {
	vx.Generic(true)
	sec, nsec := symClock()
	toFile := vx.Choice("to file", 2) == 1
	enc := vx.Choice("encrypt phrase", 2) == 1
	which := vx.Choice("only", pickN(4, 12))
	sel := selections()[which]
	vx.LongRand(!vx.Thorough())
	args := []string{"generate", "-name", "Al", "-email", "a@b.c"}
	if sel.arg != "" {
		args = append(args, "-only", sel.arg)
	}
	run := vx.Run{Sec: sec, Nsec: nsec}
	if which == 1 {
		args = append(args, "-verbose")
		run.Sec, run.Nsec = 1_700_000_000, 0
		sec = run.Sec
	}
	if toFile {
		args = append(args, "-out-word-file", wordFile)
	}
	pw := ""
	if enc {
		pw = shortPassword("password", 3)
		args = append(args, "-encrypt-phrase")
		run.TTY, run.Width = true, 80
		run.Stdin = []vx.Item{typed(pw), typed(pw)}
	}
	run.Args = args
	r := vx.RunCLI(run)
	succeeded(r, "generate")
	var words []string
	if toFile {
		words = savedPhrase(r, wordFile)
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "a saved phrase is not shown")
	} else {
		words = printedPhrase(r.Stderr)
		vx.Assert(len(r.Files) == 0, "no file is written unless asked for")
	}
	seed, dec := phraseContent(words, enc, pw)
	vx.Assert(drawnWindow(seed.Bytes()), "the seed comes from the random source")
	vx.Assert(near(dec.Creation().Unix(), sec), "the key was created now")
	m := newKey(seed, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: "Al", Email: "a@b.c", Subkeys: sel.subkeys})
	vx.Assert(sameText(r.Stdout, exported(m, sel.master, true)), "the phrase recovers exactly the exported key")
	vx.Reached("ok")
}

// C25_Protect: -encrypt-keys, together with -encrypt-phrase or not.
func C25_Protect() {
	vx.Generic(true)
	sec, nsec := symClock()
	vx.LongRand(true)
	kpw := longPassword("key password")
	ppw := shortPassword("phrase password", 3)
	both := vx.Choice("both", 2) == 1
	args := []string{"generate", "-encrypt-keys", "-only", "signing", "-out-word-file", wordFile}
	run := vx.Run{Sec: sec, Nsec: nsec, TTY: true, Width: 80}
	run.Stdin = []vx.Item{typed(kpw), typed(kpw)}
	if both {
		args = append(args, "-encrypt-phrase")
		run.Stdin = append(run.Stdin, typed(ppw), typed(ppw))
	}
	run.Args = args
	r := vx.RunCLI(run)
	succeeded(r, "generate")
	seed, dec := phraseContent(savedPhrase(r, wordFile), both, ppw)
	vx.Assert(drawnWindow(seed.Bytes()), "the seed comes from the random source")
	opts := &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}}
	checkProtected(r.Stdout, seed, uint32(dec.Creation().Unix()), opts, kpw, false, true)
	vx.Reached("ok")
}

// C25_Entropy: -unsafe-entropy from a file or standard input of 0 to 20 (quick: some of them) bytes.
func C25_Entropy() {
	vx.Generic(true)
	sec, nsec := symClock()
	n := []int{16, 15, 0, 17, 20, 8, 1, 4, 12, 14, 40}[vx.Choice("n", pickN(5, 11))]
	data := vx.Bytes("entropy", n)
	if n > 0 {
		vx.Assume(data[0] != 0)
	}
	args := []string{"generate", "-only", "signing", "-unsafe-entropy"}
	run := vx.Run{Sec: sec, Nsec: nsec}
	if vx.Choice("stdin", 2) == 0 {
		args = append(args, "entropy.bin")
		run.Files = []vx.File{{Name: "entropy.bin", Data: string(data), Mode: 0o644}}
	} else {
		args = append(args, "-")
		if n > 4 && vx.Choice("pieces", 2) == 1 {
			run.Stdin = []vx.Item{{Data: string(data[:3])}, {Data: string(data[3:])}}
		} else if n > 0 {
			run.Stdin = []vx.Item{{Data: string(data)}}
		}
	}
	run.Args = args
	r := vx.RunCLI(run)
	if n < 16 {
		refused(r, "too little entropy")
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no phrase without entropy")
		vx.Reached("refused")
		return
	}
	succeeded(r, "generate")
	seed, dec := phraseContent(printedPhrase(r.Stderr), false, "")
	vx.Assert(vx.EqBytes(seed.Bytes(), data[:16]), "the seed is the given entropy")
	m := newKey(seed, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}})
	vx.Assert(sameText(r.Stdout, exported(m, false, true)), "the phrase recovers exactly the exported key")
	vx.Reached("ok")
}

// C25_Clock: every clock value.
func C25_Clock() {
	vx.Generic(true)
	vx.LongRand(true)
	sec, nsec := int64(0), symNsec()
	switch vx.Choice("when", 4) {
	case 0:
		sec = vx.I64("now")
		vx.Assume(vx.And(sec > -1<<40, sec < epochUnix-1))
	case 1:
		sec = vx.I64("now")
		vx.Assume(vx.And(sec > epochUnix+1<<31, sec < 1<<40))
	case 2:
		sec = epochUnix - 2 + int64(vx.Choice("k", 4))
		nsec = int64(vx.Choice("half", 3)) * 499999999
	case 3:
		sec = epochUnix + 1<<31 - 3 + int64(vx.Choice("k", 4))
		nsec = int64(vx.Choice("half", 3)) * 499999999
	}
	r := vx.RunCLI(vx.Run{Sec: sec, Nsec: nsec, Args: []string{"generate", "-only", "signing"}})
	vx.Assert(!r.Crashed, "no crash at any time")
	if r.Exit != 0 {
		vx.Assert(vx.Or(sec < epochUnix, sec >= epochUnix+1<<31-16), "generate works while creation times fit in a phrase")
		refused(r, "a clock out of range")
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no phrase without a key")
		vx.Reached("refused")
		return
	}
	seed, dec := phraseContent(printedPhrase(r.Stderr), false, "")
	vx.Assert(near(dec.Creation().Unix(), sec), "the key was created now")
	m := newKey(seed, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}})
	vx.Assert(sameText(r.Stdout, exported(m, false, true)), "the phrase recovers exactly the exported key")
	vx.Reached("ok")
}

// C25_SaveFails: the word file cannot be created or written.
func C25_SaveFails() {
	vx.Generic(true)
	sec, nsec := symClock()
	out := wordFile
	content := vx.Str("content", 3)
	var files []vx.File
	full := false
	switch vx.Choice("how", 10) {
	case 0:
		files = []vx.File{{Name: wordFile, Data: content, Mode: 0o644}}
	case 1:
		files = []vx.File{{Name: wordFile, Data: content, Mode: 0o400}}
	case 2:
		files = []vx.File{{Name: wordFile, Kind: 1}}
	case 3:
		out = "no/" + wordFile
	case 4:
		files = []vx.File{{Name: "parent", Data: content, Mode: 0o644}}
		out = "parent/" + wordFile
	case 5:
		files = []vx.File{{Name: wordFile, Kind: 2, Data: "other.txt"}, {Name: "other.txt", Data: content, Mode: 0o644}}
	case 6:
		files = []vx.File{{Name: wordFile, Data: "", Mode: 0o600}}
	case 7:
		full = true
	case 8:
		out = strings.Repeat("n", 300)
	case 9:
		files = []vx.File{{Name: wordFile, Kind: 1}}
		out = wordFile + "/"
	}
	args := []string{"generate", "-only", "signing", "-out-word-file", out}
	run := vx.Run{Files: files, FullDisk: full, Sec: sec, Nsec: nsec}
	variant := vx.Choice("variant", 3)
	if variant == 2 {
		args = append(args, "-verbose")
		run.Sec, run.Nsec = 1_700_000_000, 0
	}
	if variant == 1 {
		args = append(args, "-encrypt-phrase")
		run.TTY, run.Width = true, 80
		run.Stdin = []vx.Item{typed("pw"), typed("pw")}
	}
	run.Args = args
	r := vx.RunCLI(run)
	refused(r, "the phrase cannot be saved")
	for _, f := range files {
		g, ok := r.Find(f.Name)
		vx.Assert(ok && g.Kind == f.Kind && (f.Kind == 1 || g.Data == f.Data), "what was there is left unchanged")
	}
	vx.Reached("refused")
}

// C25_Bad: invalid options.
func C25_Bad() {
	vx.Generic(true)
	bad := [][]string{
		{"-only", "signing,foo"},
		{"-only", "Signing"},
		{"-ttl", "5"},
		{"-ttl", "d"},
		{"-ttl", "99999999y"},
		{"-unsafe-entropy", "missing.bin"},
		{"-unsafe-entropy", "."},
		{"-nosuch"},
		{"-encrypt-keys=maybe"},
		{"-out-word-file"},
	}
	args := append([]string{"generate"}, bad[vx.Choice("bad", len(bad))]...)
	if vx.Choice("more", 2) == 1 {
		args = append([]string{"generate", "-out-word-file", "saved.txt"}, args[1:]...)
	}
	r := vx.RunCLI(vx.Run{Args: args, Sec: epochUnix + 1000})
	refused(r, "an invalid option")
	vx.Reached("refused")
}

// C25_Aborted: the password prompts end in an interrupt or at the end of input.
func C25_Aborted() {
	vx.Generic(true)
	sec, nsec := symClock()
	args := []string{"generate", "-only", "signing"}
	pw := longPassword("password")
	keys, phrase := vx.Choice("keys", 2) == 1, vx.Choice("phrase", 2) == 1
	n := 0
	if keys {
		args = append(args, "-encrypt-keys")
		n += 2
	}
	if phrase {
		args = append(args, "-encrypt-phrase")
		n += 2
	}
	toFile := vx.Choice("to file", 2) == 1
	if toFile {
		args = append(args, "-out-word-file", wordFile)
	}
	run := vx.Run{Args: args, Sec: sec, Nsec: nsec, Width: 80}
	if n == 0 {
		return
	}
	at := vx.Choice("entries", 4)
	if at >= n {
		return
	}
	run.TTY = vx.Choice("tty", 2) == 1
	if run.TTY {
		for i := 0; i < at; i++ {
			run.Stdin = append(run.Stdin, typed(pw))
		}
		if vx.Choice("interrupt", 2) == 1 {
			run.Stdin = append(run.Stdin, vx.Item{Interrupt: true})
		}
	} else {
		run.Stdin = []vx.Item{{Data: strings.Repeat(pw+"\n", at)}}
	}
	r := vx.RunCLI(run)
	refused(r, "a password prompt that was not completed")
	_, saved := r.Find(wordFile)
	vx.Assert(!saved && len(printedPhrase(r.Stderr)) == 0, "no phrase either")
	vx.Reached("refused")
}

// C25_Combined: all combinations of name, lifetime, selection, -verbose, kind of phrase and where it goes, at a fixed time.
func C25_Combined() {
	vx.Generic(true)
	vx.LongRand(true)
	// quick: an orthogonal selection of them
	var bit [5]bool
	for i := 0; i < pickN(3, 5); i++ {
		bit[i] = vx.Choice("option", 2) == 1
	}
	if !vx.Thorough() {
		bit[3], bit[4] = bit[0] != bit[1], bit[1] != bit[2]
	}
	run := vx.Run{Args: []string{"generate"}, Sec: 1_700_000_000}
	add := func(a ...string) { run.Args = append(run.Args, a...) }
	opts := &mnemonikey.KeyOptions{Name: "anonymous"}
	if bit[0] {
		opts.Name, opts.Email = "Bob", "b@c.d"
		add("-name="+opts.Name, "-email="+opts.Email)
	}
	if bit[1] {
		add("-ttl", "3w")
		opts.TTL = 3 * 7 * 24 * time.Hour
	}
	sel := selections()[[]int{3, 2, 0, 4}[vx.Choice("only", pickN(3, 4))]]
	if sel.arg != "" {
		add("-only", sel.arg)
	}
	opts.Subkeys = sel.subkeys
	if bit[2] {
		add("-verbose")
	}
	toFile := bit[3]
	if toFile {
		add("-out-word-file", wordFile)
	}
	enc := bit[4]
	if enc {
		add("-encrypt-phrase")
		run.TTY, run.Width = true, 80
		run.Stdin = []vx.Item{typed("pw"), typed("pw")}
	}
	r := vx.RunCLI(run)
	succeeded(r, "generate")
	words := printedPhrase(r.Stderr)
	if toFile {
		vx.Assert(len(words) == 0, "a saved phrase is not shown")
		words = savedPhrase(r, wordFile)
	}
	seed, dec := phraseContent(words, enc, "pw")
	m := newKey(seed, dec.Creation().Unix(), opts)
	vx.Assert(sameText(r.Stdout, exported(m, sel.master, true)), "the phrase recovers exactly the exported key")
	vx.Reached("ok")
}

// C25_UserID: any printable name and email of 0, 1 or 4 bytes.
func C25_UserID() {
	vx.Generic(true)
	vx.LongRand(true)
	name, email := userText("name", []int{4, 1, 0}[vx.Choice("nlen", 3)]), userText("email", []int{3, 0}[vx.Choice("elen", 2)])
	r := vx.RunCLI(vx.Run{Args: []string{"generate", "-only", "master", "-name=" + name, "-email=" + email, "-out-word-file", wordFile}, Sec: 1_700_000_000})
	if name == "" && email == "" && r.Exit != 0 {
		refused(r, "no user ID")
		return
	}
	succeeded(r, "generate")
	seed, dec := phraseContent(savedPhrase(r, wordFile), false, "")
	m := newKey(seed, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: name, Email: email, Subkeys: []mnemonikey.SubkeyType{}})
	vx.Assert(sameText(r.Stdout, exported(m, true, true)), "the key with exactly that user ID")
	vx.Reached("ok")
}

// C25_Full: standard output cannot be written.
func C25_Full() {
	vx.Generic(true)
	vx.LongRand(true)
	args := []string{"generate", "-only", []string{"signing", "master", "encryption,authentication"}[vx.Choice("only", 3)]}
	switch vx.Choice("how", 3) {
	case 1:
		args = append(args, "-verbose")
	case 2:
		args = append(args, "-out-word-file", wordFile)
	}
	refused(vx.RunCLI(vx.Run{Args: args, FullStdout: true, Sec: 1_700_000_000}), "the key cannot be written")
	vx.Reached("refused")
}
