package h

import (
	"strings"

	"github.com/kklash/mnemonikey/zzverif/vx"
)

// quietTerminal: the terminal is back in its mode and has not shown anything it should not.
func quietTerminal(r *vx.Result) {
	vx.Assert(!r.Crashed, "no crash")
	vx.Assert(r.Restored, "the terminal is back in the mode it was in")
	vx.Assert(!r.Echoed, "passwords and keys are not shown as they are typed")
}

// C32_Passwords: all interleavings (up to two preemptions) of one or two password prompts, entered, failed or interrupted anywhere.
func C32_Passwords() {
	vx.Generic(true)
	run := vx.Run{TTY: true, Width: 80, Interleave: true}
	run.Args = []string{"convert", "-in-word-file", wordFile, "-encrypt-phrase", "-out-word-file", "new.txt"}
	words, _, _ := fixedPhrase()
	as := []answer{{text: "Abc"}, {text: "Abc"}}
	if vx.Choice("two", 2) == 1 {
		words = anEncryptedPhrase()
		as = append([]answer{{text: "pw"}}, as...)
		_, _, _, ok := decrypted(as[:1])
		vx.Assume(ok)
	}
	run.Files = []vx.File{asFile(words)}
	switch vx.Choice("end", 3) {
	case 1:
		as = append(as[:vx.Choice("at", len(as))], answer{interrupt: true})
	case 2:
		as = append(as[:vx.Choice("at", len(as))], answer{eof: true})
	}
	run.Stdin = script(as)
	r := vx.RunCLI(run)
	quietTerminal(r)
	vx.Assert(!strings.Contains(r.Stderr, "Abc") && !strings.Contains(r.Stdout, "Abc"), "passwords are not printed")
	vx.Reached("ok")
}

// C32_Retries: passwords that do not match, or are wrong, and are asked for again; any letters.
func C32_Retries() {
	vx.Generic(true)
	run := vx.Run{TTY: true, Width: 80}
	run.Args = []string{"convert", "-in-word-file", wordFile, "-encrypt-phrase", "-out-word-file", "new.txt"}
	words, _, _ := fixedPhrase()
	a, b := "Q"+shortPassword("one", 1)+"Q", "X"+shortPassword("two", 1)+"X"
	var as []answer
	switch vx.Choice("how", 3) {
	case 0:
		as = []answer{{text: a}, {text: b}, {text: a}, {text: a}}
	case 1:
		as = []answer{{text: a}, {text: a + "Z"}, {text: b}, {interrupt: true}}
	case 2:
		words = anEncryptedPhrase()
		as = []answer{{text: "Wrong9"}, {text: "pw"}, {text: a}, {text: a}}
		_, _, _, ok := decrypted(as[:1])
		vx.Assume(!ok)
		b = "Wrong9"
	}
	run.Files = []vx.File{asFile(words)}
	run.Stdin = script(as)
	r := vx.RunCLI(run)
	quietTerminal(r)
	for _, s := range []string{a, b} {
		vx.Assert(!strings.Contains(r.Stderr, s) && !strings.Contains(r.Stdout, s), "passwords are not printed")
	}
	vx.Reached("ok")
}

// C32_Words: the prompt for the words, left at any point and in any way, and a password prompt after it.
func C32_Words() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	args := []string{[]string{"convert", "recover"}[vx.Choice("command", 2)]}
	run := vx.Run{TTY: true, Width: 80, Interleave: true}
	pw := ""
	switch vx.Choice("password", 3) {
	case 1:
		words = anEncryptedPhrase()
		pw = "pw"
		_, _, _, ok := decrypted([]answer{{text: pw}})
		vx.Assume(ok)
	case 2:
		args = append(args, map[string]string{"convert": "-encrypt-phrase", "recover": "-encrypt-keys"}[args[0]])
	}
	if args[0] == "recover" {
		args = append(args, "-only", "signing")
	}
	line := vx.Choice("simple", 2) == 1
	if line {
		args = append(args, "-simple")
	}
	run.Args = args
	n := vx.Choice("words", len(words)+1)
	for _, w := range words[:n] {
		if line {
			run.Stdin = append(run.Stdin, vx.Item{Data: w + "\r", Line: true})
		} else {
			run.Stdin = append(run.Stdin, keys(w+" "))
		}
	}
	if n == len(words) && pw != "" && vx.Choice("given", 2) == 1 {
		run.Stdin = append(run.Stdin, typed(pw))
	} else if n < len(words) && vx.Choice("end of input", 2) == 1 {
		run.Stdin = append(run.Stdin, vx.Item{Data: "\x04", Raw: !line, Line: line})
	}
	quietTerminal(vx.RunCLI(run))
	vx.Reached("ok")
}

// C32_Generate: the prompts when generating.
func C32_Generate() {
	vx.Generic(true)
	vx.LongRand(true)
	a, b := longPassword("one"), "Xyz"
	as := []answer{{text: a}, {text: a}, {text: b}, {text: b}}
	at := vx.Choice("at", len(as)+1)
	if at < len(as) {
		as = append(as[:at], answer{interrupt: vx.Choice("interrupt", 2) == 1, eof: true})
	}
	r := vx.RunCLI(vx.Run{Args: []string{"generate", "-encrypt-keys", "-encrypt-phrase", "-only", "signing", "-out-word-file", "new.txt"}, TTY: true, Width: 80, Interleave: at < pickN(2, 4), Sec: 1_700_000_000, Stdin: script(as)})
	quietTerminal(r)
	vx.Assert(!strings.Contains(r.Stderr, "Xyz"), "passwords are not printed")
	vx.Reached("ok")
}
