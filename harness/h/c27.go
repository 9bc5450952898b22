package h

import (
	"math/big"
	"strings"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
	"github.com/kklash/wordlist4096"
)

// entry is what the terminal prompt has been given so far.
type entry struct {
	words   []string
	cur     string
	need    int
	aborted bool
}

const (
	keyLeft = "\x1b[D"
	keyBack = "\x7f"
)

func (e *entry) done() bool { return e.need > 0 && len(e.words) == e.need }

// key processes one key press.
func (e *entry) key(b byte) {
	switch {
	case b == 3 || b == 4:
		e.aborted = true
	case b >= 'a' && b <= 'z':
		e.cur += string([]byte{b})
	case b == 0x7f:
		if len(e.cur) > 0 {
			e.cur = e.cur[:len(e.cur)-1]
		}
	case b == '\t' || b == ' ' || b == '\r':
		s := wordlist4096.Search(e.cur).Suffixes
		if len(s) == 0 {
			return
		}
		w := e.cur + s[0]
		if b == '\t' {
			e.cur = w
			return
		}
		e.submit(w)
	}
}

func (e *entry) submit(w string) {
	if len(e.words) == 0 {
		v, err := mnemonikey.ParseMnemonicVersion(w)
		if err != nil {
			e.cur = w[:len(e.cur)]
			return
		}
		e.need = v.MnemonicSize()
	}
	e.words = append(e.words, w)
	e.cur = ""
}

func (e *entry) left() {
	if len(e.words) > 0 {
		e.words = e.words[:len(e.words)-1]
	}
	e.cur = ""
}

func keys(s string) vx.Item { return vx.Item{Data: s, Raw: true} }

// finish is what a user types to end up with the wanted phrase.
func (e *entry) finish(want []string) (out []vx.Item) {
	out = append(out, keys(strings.Repeat(keyBack, 12+len(e.cur))))
	n := 0
	for n < len(e.words) && e.words[n] == want[n] {
		n++
	}
	if n < len(e.words) {
		out = append(out, keys(strings.Repeat(keyLeft, len(e.words)-n)))
	}
	for i, w := range want[n:] {
		out = append(out, keys(w+[]string{" ", "\r"}[i%2]))
	}
	return out
}

// enteredPhrase: the tool used exactly these words (of a plaintext phrase).
func enteredPhrase(r *vx.Result, want []string) {
	succeeded(r, "a phrase entered in full")
	vx.Assert(strings.Join(printedPhrase(r.Stderr), " ") == strings.Join(want, " "), "exactly the words finally entered are used")
}

// C27_Keys: any keys (quick: 2, thorough: 3), arrows or a wrong word after some words, then corrections.
func C27_Keys() {
	vx.Generic(true)
	want, _, _ := fixedPhrase()
	e := &entry{}
	run := vx.Run{Args: []string{"convert"}, TTY: true, Width: 80}
	at := []int{0, 1, 4, 13}[vx.Choice("after", 4)]
	for _, w := range want[:at] {
		e.submit(w)
		run.Stdin = append(run.Stdin, keys(w+" "))
	}
	n := 1 + vx.Choice("events", pickN(2, 3))
	for i := 0; i < n && !e.done() && !e.aborted; i++ {
		switch vx.Choice("event", 4) {
		case 0:
			k := vx.U8("key")
			vx.Assume(vx.And(k != 'D', k != 0x1b))
			run.Stdin = append(run.Stdin, keys(string([]byte{k})))
			e.key(k)
		case 1:
			run.Stdin = append(run.Stdin, keys(keyLeft))
			e.left()
		case 2:
			run.Stdin = append(run.Stdin, keys("can\r"))
			for _, b := range []byte("can\r") {
				if !e.done() {
					e.key(b)
				}
			}
		case 3:
			run.Stdin = append(run.Stdin, keys("zoq"))
			for _, b := range []byte("zoq") {
				e.key(b)
			}
		}
	}
	if e.done() {
		dec, err := mnemonikey.DecodeMnemonic(e.words)
		if err == nil && dec.Encrypted() {
			return
		}
		r := vx.RunCLI(run)
		if err != nil {
			refused(r, "a bad phrase")
		} else {
			enteredPhrase(r, e.words)
		}
		vx.Reached("complete")
		return
	}
	if !e.aborted {
		run.Stdin = append(run.Stdin, e.finish(want)...)
	}
	r := vx.RunCLI(run)
	if e.aborted {
		refused(r, "an aborted prompt")
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no partial phrase is used")
		vx.Reached("aborted")
		return
	}
	enteredPhrase(r, want)
	vx.Reached("ok")
}

// C27_History: histories (quick: 4, thorough: 6) of submissions, steps back and completions.
func C27_History() {
	vx.Generic(true)
	want, _, _ := fixedPhrase()
	e := &entry{}
	run := vx.Run{Args: []string{"convert"}, TTY: true, Width: 80}
	n := pickN(4, 6)
	for i := 0; i < n; i++ {
		k := []string{want[len(e.words)] + " ", keyLeft, "abil\t" + keyBack + "\t\r", "d\r", "\r", "enc" + keyLeft}[vx.Choice("event", 6)]
		run.Stdin = append(run.Stdin, keys(k))
		for j := 0; j < len(k); j++ {
			if strings.HasPrefix(k[j:], keyLeft) {
				e.left()
				j += 2
			} else {
				e.key(k[j])
			}
		}
	}
	if vx.Choice("stop", 2) == 1 {
		if vx.Choice("how", 2) == 1 {
			run.Stdin = append(run.Stdin, keys("\x04"))
		}
		r := vx.RunCLI(run)
		refused(r, "an aborted prompt")
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no partial phrase is used")
		vx.Reached("aborted")
		return
	}
	run.Stdin = append(run.Stdin, e.finish(want)...)
	enteredPhrase(vx.RunCLI(run), want)
	vx.Reached("ok")
}

// C27_Version: going back to the first word and choosing another version changes the number of words.
func C27_Version() {
	vx.Generic(true)
	want, _, _ := fixedPhrase()
	other := anEncryptedPhrase()
	first, second := other, want
	swap := vx.Choice("swap", 2) == 1
	if swap {
		first, second = want, other
	}
	k := 1 + vx.Choice("entered", 3)
	run := vx.Run{Args: []string{"convert"}, TTY: true, Width: 80}
	if k == 3 {
		k = 13
	}
	for _, w := range first[:k] {
		run.Stdin = append(run.Stdin, keys(w+" "))
	}
	run.Stdin = append(run.Stdin, keys(strings.Repeat(keyLeft, k+vx.Choice("extra", 2))))
	for _, w := range second {
		run.Stdin = append(run.Stdin, keys(w+"\r"))
	}
	if !swap {
		enteredPhrase(vx.RunCLI(run), want)
		vx.Reached("ok")
		return
	}
	checkEncryptedEntry(run)
}

const encryptedText = "bagel upward ashtray amount bless mollusk banknote delta ability advocate dynamic chummy scrub accuse grin skull"

// anEncryptedPhrase is a phrase encrypted with the password "pw".
func anEncryptedPhrase() []string {
	return strings.Fields(encryptedText)
}

// checkEncryptedEntry: the run enters anEncryptedPhrase.
func checkEncryptedEntry(run vx.Run) {
	dec, err := mnemonikey.DecodeMnemonic(anEncryptedPhrase())
	vx.Assert(err == nil && dec.Encrypted(), "an encrypted phrase")
	seed, err := dec.DecryptSeed([]byte("pw"))
	run.Stdin = append(run.Stdin, typed("pw"))
	r := vx.RunCLI(run)
	if err != nil {
		refused(r, "a wrong password")
		vx.Reached("refused")
		return
	}
	succeeded(r, "an encrypted phrase entered in full")
	s2, d2 := phraseContent(printedPhrase(r.Stderr), false, "")
	vx.Assert(d2.CreationOffset() == dec.CreationOffset() && s2.Int().Cmp(seed.Int()) == 0, "exactly the words finally entered are used")
	vx.Reached("encrypted")
}

// C27_Simple: arbitrary lines (up to 3 bytes, thorough 4) among the words, on a terminal or a pipe.
func C27_Simple() {
	vx.Generic(true)
	want, _, _ := fixedPhrase()
	tty := vx.Choice("tty", 2) == 1
	run := vx.Run{Args: []string{"convert", "-simple"}, TTY: tty, Width: 80}
	if !tty && vx.Choice("fallback", 2) == 1 {
		run.Args = []string{"convert"}
	}
	add := func(s string) {
		if tty {
			run.Stdin = append(run.Stdin, vx.Item{Data: s + "\r", Line: true})
		} else {
			run.Stdin = append(run.Stdin, vx.Item{Data: s + "\n"})
		}
	}
	at := []int{0, 3, 13}[vx.Choice("after", 3)]
	var got []string
	need := 14
	enter := func(s string) {
		add(s)
		if w := lowerASCII(s); len(got) < need {
			if _, ok := wordlist4096.WordMap[w]; ok {
				if len(got) == 0 {
					v, err := mnemonikey.ParseMnemonicVersion(w)
					if err != nil {
						return
					}
					need = v.MnemonicSize()
				}
				got = append(got, w)
			}
		}
	}
	for _, w := range want[:at] {
		enter(w)
	}
	n := pickN(4, 5)
	if at != 3 || !tty {
		n--
	}
	n = vx.Choice("len", n)
	line := vx.Bytes("line", n)
	for i := range line {
		vx.Assume(vx.And(line[i] > ' ', line[i] < 0x7f))
	}
	enter(string(line))
	end := n < 2 && vx.Choice("end", 2) == 1
	for len(got) < need && len(got) < 14 {
		if end && len(got) == need-1 {
			break
		}
		enter(want[len(got)])
	}
	r := vx.RunCLI(run)
	dec, err := mnemonikey.DecodeMnemonic(got)
	if err != nil {
		refused(r, "an incomplete or bad phrase")
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no partial phrase is used")
		vx.Reached("refused")
		return
	}
	vx.Assume(!dec.Encrypted())
	enteredPhrase(r, got)
	vx.Reached("ok")
}

// C27_Encrypted: the sixteen words of an encrypted phrase at each prompt.
func C27_Encrypted() {
	vx.Generic(true)
	run := vx.Run{Args: []string{"convert"}, TTY: true, Width: 80}
	simple := vx.Choice("simple", 2) == 1
	if simple {
		run.Args = append(run.Args, "-simple")
	}
	for i, w := range anEncryptedPhrase() {
		if simple {
			if i == 7 {
				run.Stdin = append(run.Stdin, vx.Item{Data: "zoq" + "\r", Line: true})
			}
			run.Stdin = append(run.Stdin, vx.Item{Data: strings.ToUpper(w) + "\r", Line: true})
		} else {
			run.Stdin = append(run.Stdin, keys(w+"\r"))
		}
	}
	checkEncryptedEntry(run)
}

// C27_End: the input ends after some words.
func C27_End() {
	vx.Generic(true)
	want, _, _ := fixedPhrase()
	n := vx.Choice("words", 14)
	run := vx.Run{Args: []string{[]string{"convert", "recover"}[vx.Choice("command", 2)]}, Width: 80}
	mode := vx.Choice("mode", 4)
	run.TTY = mode > 1
	if mode == 1 || mode == 2 {
		run.Args = append(run.Args, "-simple")
	}
	for i, w := range want[:n] {
		switch mode {
		case 0, 1:
			if i > 0 {
				w = "\n" + w
			}
			run.Stdin = append(run.Stdin, vx.Item{Data: w})
		case 2:
			run.Stdin = append(run.Stdin, vx.Item{Data: w + "\r", Line: true})
		case 3:
			run.Stdin = append(run.Stdin, keys(w+" "))
		}
	}
	if mode == 2 && vx.Choice("eof", 2) == 1 {
		run.Stdin = append(run.Stdin, vx.Item{Data: "\x04", Line: true})
	}
	if mode == 3 && vx.Choice("partial", 2) == 1 {
		run.Stdin = append(run.Stdin, keys(want[n][:2]))
	}
	r := vx.RunCLI(run)
	refused(r, "an incomplete phrase")
	vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no partial phrase is used")
	vx.Reached("refused")
}

// C27_Edit: a word put together from letters, completions and deletions, whatever it turns out to be.
func C27_Edit() {
	vx.Generic(true)
	at := 1 + 4*vx.Choice("at", pickN(1, 3))
	e := &entry{words: []string{"x"}}
	k := []string{"zo", "cra", "incl", "add", "tra"}[vx.Choice("start", pickN(2, 5))]
	if vx.Choice("complete", 2) == 1 {
		k += "\t"
	}
	k += strings.Repeat(keyBack, vx.Choice("delete", pickN(4, 9)))
	for _, b := range []byte(k) {
		e.key(b)
	}
	if vx.Choice("letter", 2) == 1 {
		b := vx.U8("key")
		vx.Assume(vx.And(b >= 'a', b <= 'z'))
		k += string([]byte{b})
		e.key(b)
		if vx.Choice("again", 2) == 1 {
			k += "\t" + keyBack
			e.key('\t')
			e.key(0x7f)
		}
	}
	k += "\r"
	e.key('\r')
	if len(e.words) < 2 {
		return // not a word
	}
	// a phrase in which that word is the one at this place
	v := big.NewInt(int64(wordlist4096.WordMap[e.words[1]]))
	v.Lsh(v, uint(120-12*at))
	want, err := mnemonikey.EncodeMnemonicPlaintext(mustSeed(v), 1)
	vx.Assert(err == nil && want[at] == e.words[1], "a phrase with the wanted word")
	run := vx.Run{Args: []string{"convert"}, TTY: true, Width: 80}
	for i, w := range want {
		if i == at {
			w = k
		} else {
			w += " "
		}
		run.Stdin = append(run.Stdin, keys(w))
	}
	enteredPhrase(vx.RunCLI(run), want)
	vx.Reached("ok")
}
