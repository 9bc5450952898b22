package h

import (
	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// answer is what the user does at a password prompt.
type answer struct {
	text      string
	interrupt bool
	eof       bool
}

func (a answer) item() vx.Item {
	switch {
	case a.interrupt:
		return vx.Item{Interrupt: true}
	case a.eof:
		return vx.Item{Data: "\x04"}
	}
	return typed(a.text)
}

// asked is a password prompt: what it returns, and the answers it leaves.
func asked(as []answer, confirm bool) (pw string, rest []answer, ok bool) {
	for len(as) > 0 {
		a := as[0]
		as = as[1:]
		if a.interrupt || a.eof {
			return "", nil, false
		}
		if a.text == "" {
			continue
		}
		if !confirm {
			return a.text, as, true
		}
		if len(as) == 0 {
			break
		}
		b := as[0]
		as = as[1:]
		if b.interrupt || b.eof {
			return "", nil, false
		}
		if a.text == b.text {
			return a.text, as, true
		}
	}
	return "", nil, false // Ctrl+C
}

// decrypted is the prompt for the password of anEncryptedPhrase, repeated while the password is wrong.
func decrypted(as []answer) (dec *mnemonikey.DecodedMnemonic, seed *mnemonikey.Seed, rest []answer, ok bool) {
	dec, err := mnemonikey.DecodeMnemonic(anEncryptedPhrase())
	vx.Assert(err == nil, "decoded")
	for {
		pw, rest, ok := asked(as, false)
		if !ok {
			return nil, nil, nil, false
		}
		if seed, err := dec.DecryptSeed([]byte(pw)); err == nil {
			return dec, seed, rest, true
		}
		as = rest
	}
}

// answers is any history of n answers, followed by one that gives a password if none did.
func answers(n int) []answer {
	a, b := shortPassword("one", 2), shortPassword("other", 2)
	if vx.Choice("differ", 2) == 1 {
		vx.Assume(a != b)
	} else {
		vx.Assume(a == b)
	}
	var as []answer
	for i := 0; i < n; i++ {
		switch vx.Choice("answer", 6) {
		case 0:
			as = append(as, answer{text: a})
		case 1:
			as = append(as, answer{text: b})
		case 2:
			as = append(as, answer{})
		case 3:
			as = append(as, answer{text: a[:1]})
		case 4:
			return append(as, answer{interrupt: true})
		case 5:
			return append(as, answer{eof: true})
		}
	}
	return as
}

func script(as []answer) (out []vx.Item) {
	for _, a := range as {
		out = append(out, a.item())
	}
	return out
}

// noPhrase: no phrase was shown or saved.
func noPhrase(r *vx.Result) {
	vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no phrase is shown after a failed prompt")
	_, ok := r.Find("new.txt")
	vx.Assert(!ok, "no phrase is saved after a failed prompt")
}

// C28_New: histories of answers (quick: 4, thorough: 5) at the prompt for a new password.
func C28_New() {
	vx.Generic(true)
	words, seed, off := fixedPhrase()
	as := answers(pickN(4, 5))
	pw, _, ok := asked(as, true)
	run := vx.Run{Args: []string{"convert", "-in-word-file", wordFile, "-encrypt-phrase", "-out-word-file", "new.txt"}, Files: []vx.File{asFile(words)}, TTY: true, Width: 80, Stdin: script(as)}
	r := vx.RunCLI(run)
	if !ok {
		refused(r, "no password")
		noPhrase(r)
		vx.Reached("refused")
		return
	}
	succeeded(r, "a confirmed password")
	s2, dec := phraseContent(savedPhrase(r, "new.txt"), true, pw)
	vx.Assert(s2.Int().Cmp(seed.Int()) == 0 && dec.CreationOffset() == off, "the phrase is encrypted with the password entered twice")
	vx.Reached("ok")
}

// C28_Old: histories of answers (quick: 3, thorough: 4) at the prompt for an existing password.
func C28_Old() {
	vx.Generic(true)
	rec := vx.Choice("recover", 2) == 1
	n := pickN(3, 4)
	if rec {
		n -= 2
	}
	as := answers(n)
	dec, seed, _, ok := decrypted(as)
	run := vx.Run{Args: []string{"convert", "-in-word-file", wordFile, "-out-word-file", "new.txt"}, Files: []vx.File{asFile(anEncryptedPhrase())}, TTY: true, Width: 80, Stdin: script(as)}
	if rec {
		run.Args = []string{"recover", "-in-word-file", wordFile, "-only", "signing"}
	}
	r := vx.RunCLI(run)
	if !ok {
		refused(r, "no password")
		noPhrase(r)
		vx.Reached("refused")
		return
	}
	succeeded(r, "a password")
	if rec {
		m := newKey(seed, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}})
		vx.Assert(sameText(r.Stdout, exported(m, false, true)), "the key of the password entered is exported")
		vx.Reached("recovered")
		return
	}
	s2, d2 := phraseContent(savedPhrase(r, "new.txt"), false, "")
	vx.Assert(s2.Int().Cmp(seed.Int()) == 0 && d2.CreationOffset() == dec.CreationOffset(), "the password entered is used")
	vx.Reached("converted")
}

// C28_Both: a decryption prompt followed by one for a new password.
func C28_Both() {
	vx.Generic(true)
	as := append([]answer{{text: "pw"}}, answers(pickN(3, 4))...)
	dec, seed, rest, ok := decrypted(as)
	pw := ""
	if ok {
		pw, _, ok = asked(rest, true)
	}
	run := vx.Run{Args: []string{"convert", "-in-word-file", wordFile, "-encrypt-phrase", "-out-word-file", "new.txt"}, Files: []vx.File{asFile(anEncryptedPhrase())}, TTY: true, Width: 80, Stdin: script(as)}
	r := vx.RunCLI(run)
	if !ok {
		refused(r, "no password")
		noPhrase(r)
		vx.Reached("refused")
		return
	}
	succeeded(r, "a confirmed password")
	s2, d2 := phraseContent(savedPhrase(r, "new.txt"), true, pw)
	vx.Assert(s2.Int().Cmp(seed.Int()) == 0 && d2.CreationOffset() == dec.CreationOffset(), "the phrase is encrypted with the password entered twice")
	vx.Reached("ok")
}

// C28_Generate: one or two prompts for new passwords when generating; nothing is left behind when one fails.
func C28_Generate() {
	vx.Generic(true)
	vx.LongRand(true)
	how := vx.Choice("encrypt", 3)
	args := []string{"generate", "-only", "signing", "-out-word-file", "new.txt"}
	a, b := longPassword("one"), shortPassword("two", 2)
	var as []answer
	prompts := 0
	if how != 1 {
		args = append(args, "-encrypt-keys")
		as = append(as, answer{text: a}, answer{text: a})
		prompts++
	}
	if how != 0 {
		args = append(args, "-encrypt-phrase")
		as = append(as, answer{text: b}, answer{text: b})
		prompts++
	}
	fail := vx.Choice("fail", 3)
	if fail > 0 {
		as = as[:vx.Choice("at", len(as))]
		if fail == 1 {
			as = append(as, answer{interrupt: true})
		} else {
			as = append(as, answer{eof: true})
		}
	}
	r := vx.RunCLI(vx.Run{Args: args, TTY: true, Width: 80, Sec: 1_700_000_000, Stdin: script(as)})
	if fail > 0 {
		refused(r, "no password")
		noPhrase(r)
		vx.Reached("refused")
		return
	}
	succeeded(r, "confirmed passwords")
	seed, dec := phraseContent(savedPhrase(r, "new.txt"), how != 0, b)
	opts := &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}}
	if how == 1 {
		vx.Assert(sameText(r.Stdout, exported(newKey(seed, dec.Creation().Unix(), opts), false, true)), "the key is exported")
	} else {
		checkProtected(r.Stdout, seed, uint32(dec.Creation().Unix()), opts, a, false, true)
	}
	vx.Reached("ok")
}

// C28_NoTerminal: without a terminal no password can be entered, and nothing is done with an empty one.
func C28_NoTerminal() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	var args []string
	switch vx.Choice("command", 5) {
	case 0:
		args = []string{"convert", "-in-word-file", wordFile, "-encrypt-phrase", "-out-word-file", "new.txt"}
	case 1:
		args = []string{"generate", "-encrypt-phrase", "-out-word-file", "new.txt"}
	case 2:
		args = []string{"generate", "-encrypt-keys", "-out-word-file", "new.txt"}
	case 3:
		args = []string{"recover", "-in-word-file", wordFile, "-encrypt-keys"}
	case 4:
		args = []string{"recover", "-in-word-file", wordFile}
		words = anEncryptedPhrase()
	}
	pw := shortPassword("password", 2)
	r := vx.RunCLI(vx.Run{Args: args, Files: []vx.File{asFile(words)}, Sec: 1_700_000_000, Stdin: []vx.Item{{Data: pw + "\n" + pw + "\n"}}})
	refused(r, "no terminal")
	noPhrase(r)
	vx.Reached("refused")
}

// C28_Schedules: all interleavings (up to two preemptions) of reader, interrupt and prompt.
func C28_Schedules() {
	vx.Generic(true)
	words, seed, off := fixedPhrase()
	run := vx.Run{TTY: true, Width: 80, Interleave: true, Files: []vx.File{asFile(words)}}
	run.Args = []string{"convert", "-in-word-file", wordFile, "-encrypt-phrase", "-out-word-file", "new.txt"}
	as := [][]answer{
		{{text: "Ab"}, {text: "Ab"}},
		{{interrupt: true}},
		{{text: "Ab"}, {interrupt: true}},
		{{text: "Ab"}, {text: "Ac"}},
		{{eof: true}},
		{{text: "Ab"}, {eof: true}},
		{{}, {interrupt: true}},
	}[vx.Choice("answers", 7)]
	run.Stdin = script(as)
	pw, _, ok := asked(as, true)
	r := vx.RunCLI(run)
	if !ok {
		refused(r, "no password")
		noPhrase(r)
		vx.Reached("refused")
		return
	}
	succeeded(r, "a confirmed password")
	s2, dec := phraseContent(savedPhrase(r, "new.txt"), true, pw)
	vx.Assert(s2.Int().Cmp(seed.Int()) == 0 && dec.CreationOffset() == off, "the phrase is encrypted with the password entered twice")
	vx.Reached("ok")
}
