package h

import (
	"strings"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// C26_Write: the target appears (as a file, directory or link) at any point of the run.
func C26_Write() {
	vx.Generic(true)
	vx.LongRand(true)
	race := vx.File{Name: wordFile, Mode: 0o644, Data: "precious"}
	kind := vx.Choice("kind", 5)
	var files []vx.File
	switch kind {
	case 1:
		race.Kind = 1
	case 2: // a link to something else
		race.Kind, race.Data = 2, "other.txt"
		files = append(files, vx.File{Name: "other.txt", Data: "precious", Mode: 0o644})
	case 3: // a link to nothing
		race.Kind, race.Data = 2, "nothing.txt"
	case 4:
		race.Data = ""
	}
	run := vx.Run{Files: files, Race: race, Sec: 1_700_000_000}
	run.RaceAt = vx.Choice("at", pickN(7, 12))
	convert := vx.Choice("convert", 2) == 1
	if convert {
		words, _, _ := fixedPhrase()
		in := asFile(words)
		in.Name = "in.txt"
		run.Files = append(run.Files, in)
		run.Args = []string{"convert", "-in-word-file", "in.txt", "-out-word-file", wordFile}
	} else {
		run.Args = []string{"generate", "-only", "signing", "-out-word-file", wordFile}
	}
	r := vx.RunCLI(run)
	for _, f := range run.Files {
		g, ok := r.Find(f.Name)
		vx.Assert(ok && g.Data == f.Data && g.Mode == f.Mode, "other files are left alone")
	}
	f, ok := r.Find(wordFile)
	vx.Assert(ok, "something is there afterwards")
	if f.Kind == race.Kind && (f.Kind == 1 || f.Data == race.Data) {
		refused(r, "something is there already")
		vx.Assert(f.Kind != 0 || f.Mode == race.Mode, "its permissions are unchanged")
		_, made := r.Find("nothing.txt")
		vx.Assert(!made, "nothing is written through a link")
		vx.Reached("refused")
		return
	}
	succeeded(r, "saving")
	vx.Assert(f.Kind == 0 && f.Mode == 0o600, "a new file for its owner only")
	words := savedPhrase(r, wordFile)
	vx.Assert(f.Data == strings.Join(words, " ") || f.Data == strings.Join(words, " ")+"\n", "the words with single spaces and nothing else")
	seed, dec := phraseContent(words, false, "")
	if convert {
		vx.Assert(blank(r.Stdout) && len(words) == 14, "converted")
	} else {
		m := newKey(seed, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}})
		vx.Assert(sameText(r.Stdout, exported(m, false, true)), "the saved phrase recovers the exported key")
	}
	vx.Reached("saved")
}

// C26_Prior: something is there before.
func C26_Prior() {
	vx.Generic(true)
	vx.LongRand(true)
	mode := []uint32{0o644, 0o600, 0o444, 0o666}[vx.Choice("mode", pickN(2, 4))]
	content := vx.Str("content", 2*vx.Choice("len", 2))
	files := []vx.File{{Name: wordFile, Data: content, Mode: mode}}
	out := wordFile
	switch vx.Choice("kind", 5) {
	case 1:
		files[0] = vx.File{Name: wordFile, Kind: 1}
	case 2:
		files[0].Name = "other.txt"
		files = append(files, vx.File{Name: wordFile, Kind: 2, Data: "other.txt"})
	case 3:
		files[0] = vx.File{Name: wordFile, Kind: 2, Data: "nothing.txt"}
	case 4:
		out = "./x/../" + wordFile
		files = append(files, vx.File{Name: "x", Kind: 1})
	}
	args := []string{"generate", "-only", "signing", "-out-word-file", out}
	how := vx.Choice("how", 3)
	if how == 1 {
		words, _, _ := fixedPhrase()
		in := asFile(words)
		in.Name = "in.txt"
		files = append(files, in)
		args = []string{"convert", "-in-word-file", "in.txt", "-out-word-file", out}
	} else if how == 2 {
		args = append(args, "-verbose")
	}
	r := vx.RunCLI(vx.Run{Args: args, Files: files, Sec: 1_700_000_000})
	refused(r, "something is there already")
	vx.Assert(len(r.Files) == len(files), "no file is created")
	for _, f := range files {
		g, ok := r.Find(f.Name)
		vx.Assert(ok && g.Kind == f.Kind && (f.Kind == 1 || g.Data == f.Data) && (f.Kind != 0 || g.Mode == f.Mode), "what was there is left unchanged")
	}
	vx.Reached("refused")
}

// readBack converts a word file holding text.
func readBack(text string) *vx.Result {
	return vx.RunCLI(vx.Run{Args: []string{"convert", "-in-word-file", wordFile}, Files: []vx.File{{Name: wordFile, Data: text, Mode: 0o600}}})
}

func checkRead(r *vx.Result, want []string, what string) {
	dec, err := mnemonikey.DecodeMnemonic(want)
	if err != nil {
		refused(r, what)
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no new phrase: "+what)
		vx.Reached("refused")
		return
	}
	vx.Assume(!dec.Encrypted())
	succeeded(r, what)
	got, err := mnemonikey.DecodeMnemonic(printedPhrase(r.Stderr))
	vx.Assert(err == nil && got.Version == dec.Version && got.CreationOffset() == dec.CreationOffset(), "exactly the words of the file: "+what)
	s1, err1 := got.Seed()
	s2, err2 := dec.Seed()
	vx.Assert(err1 == nil && err2 == nil && s1.Int().Cmp(s2.Int()) == 0, "the words of the file in their order: "+what)
	vx.Reached("read")
}

// C26_Read: every phrase and letter case, several layouts.
func C26_Read() {
	vx.Generic(true)
	words, err := mnemonikey.EncodeMnemonicPlaintext(mustSeed(symSeed(picker(1))), vx.U31("offset"))
	vx.Assert(err == nil, "encoded")
	sep := []string{" ", "\n", "\t", "\r\n", "  \n\n ", "\v", "\f\f"}[vx.Choice("separator", 7)]
	var text string
	switch vx.Choice("form", 4) {
	case 0:
		text = strings.Join(words, sep)
	case 1:
		text = sep + strings.Join(words, sep) + sep
	case 2:
		text = strings.Join(recase(words, 1), sep) + "\n"
	case 3:
		text = strings.Join(recase(words, 2), sep) + sep
	}
	checkRead(readBack(text), words, "a well-formed word file")
}

// C26_Separators: every white space byte between words.
func C26_Separators() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	s := vx.Bytes("separator", 2)
	for i := range s {
		vx.Assume(vx.Or(s[i] == ' ', vx.And(s[i] >= 9, s[i] <= 13)))
	}
	text := strings.Join(words[:3], string(s[:1])) + string(s[1:]) + strings.Join(words[3:], " ")
	checkRead(readBack(text), words, "white space")
}

// C26_Counts: too few or too many words.
func C26_Counts() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	n := []int{0, 1, 13, 15, 16, 17, 28, 99, 100, 101, 102, 300}[vx.Choice("n", 12)]
	enc := anEncryptedPhrase()
	sealed := vx.Choice("encrypted", 2) == 1
	if sealed {
		words = enc
		if n == 16 {
			n = 32
		}
	}
	var list []string
	for i := 0; i < n; i++ {
		list = append(list, words[i%len(words)])
	}
	text := strings.Join(list, " ")
	switch vx.Choice("end", 2) {
	case 1:
		text += "\n"
	}
	run := vx.Run{Args: []string{"convert", "-in-word-file", wordFile}, Files: []vx.File{{Name: wordFile, Data: text, Mode: 0o600}}}
	if sealed {
		run.TTY, run.Width = true, 80
		run.Stdin = []vx.Item{typed("pw")}
	}
	r := vx.RunCLI(run)
	refused(r, "a wrong number of words")
	vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no new phrase")
	vx.Reached("refused")
}

// C26_Junk: arbitrary bytes (quick: up to 3, thorough: up to 5) in place of, before or after a word.
func C26_Junk() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	junk := vx.Bytes("junk", 1+vx.Choice("len", pickN(3, 5)))
	for i := range junk {
		vx.Assume(vx.And(junk[i] > ' ', junk[i] < 0x7f))
	}
	list := append([]string{}, words...)
	at := []int{0, 5, 13}[vx.Choice("at", 3)]
	switch vx.Choice("how", 4) {
	case 0:
		list[at] = string(junk)
	case 1:
		list[at] += string(junk)
	case 2:
		list[at] = string(junk) + list[at]
	case 3:
		list = append(list, string(junk))
	}
	checkRead(readBack(strings.Join(list, " ")+"\n"), list, "a changed word file")
}

// C26_Long: an overlong word before, among or after the words.
func C26_Long() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	long := strings.Repeat("x", []int{100, 4096, 65535, 65536, 70000, 200000}[vx.Choice("len", 6)])
	at := []int{0, 7, 14}[vx.Choice("at", 3)]
	list := append(append(append([]string{}, words[:at]...), long), words[at:]...)
	r := readBack(strings.Join(list, " "))
	refused(r, "an overlong word")
	vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no new phrase")
	vx.Reached("refused")
}

// C26_Missing: the word file cannot be read.
func C26_Missing() {
	vx.Generic(true)
	in := []string{"missing.txt", "dir", ".", "no/words.txt", "dangling", "words.txt/"}[vx.Choice("in", 6)]
	words, _, _ := fixedPhrase()
	files := []vx.File{asFile(words), {Name: "dir", Kind: 1}, {Name: "dangling", Kind: 2, Data: "missing.txt"}}
	cmd := []string{"convert", "recover"}[vx.Choice("command", 2)]
	r := vx.RunCLI(vx.Run{Args: []string{cmd, "-in-word-file", in}, Files: files})
	refused(r, "an unreadable word file")
	vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no new phrase")
	vx.Reached("refused")
}
