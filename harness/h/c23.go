package h

import (
	"strings"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// C23_Convert: all seeds and creation times (from a file); each kind of phrase on either side, each source and destination.
func C23_Convert() {
	vx.Generic(true)
	seed := mustSeed(symSeed(picker(1)))
	off := vx.U31("offset")
	from, to := vx.Choice("from", 2) == 1, vx.Choice("to", 2) == 1
	src, toFile := vx.Choice("source", 3), vx.Choice("to file", 2) == 1
	old := shortPassword("old password", 3)
	pw := shortPassword("new password", 3)
	if src != 0 { // typed: a fixed phrase (all words: C27)
		if from {
			return
		}
		seed, off = mustSeed(hexInt(aSeed)), aOffset
	}
	words, err := mnemonikey.EncodeMnemonicPlaintext(seed, off)
	if from {
		words, err = mnemonikey.EncodeMnemonicEncrypted(seed, off, []byte(old), &fixedReader{data: vx.Bytes("salt", 8)})
	}
	vx.Assert(err == nil, "encoded")
	args := []string{"convert"}
	run := vx.Run{Width: 80}
	switch src {
	case 0:
		args = append(args, "-in-word-file", wordFile)
		run.Files = []vx.File{asFile(words)}
	case 1:
		args = append(args, "-simple")
	}
	if src != 0 {
		run.TTY = true
		for _, w := range words {
			if src == 1 {
				run.Stdin = append(run.Stdin, vx.Item{Data: w + "\r", Line: true})
			} else {
				run.Stdin = append(run.Stdin, vx.Item{Data: w + " ", Raw: true})
			}
		}
	}
	if from {
		run.TTY = true
		run.Stdin = append(run.Stdin, typed(old))
	}
	if to {
		args = append(args, "-encrypt-phrase")
		run.TTY = true
		run.Stdin = append(run.Stdin, typed(pw), typed(pw))
	}
	if toFile {
		args = append(args, "-out-word-file", "new.txt")
	}
	run.Args = args
	r := vx.RunCLI(run)
	succeeded(r, "convert")
	vx.Assert(blank(r.Stdout), "nothing is written to standard output")
	n := 0
	if src == 0 {
		n++
		f, ok := r.Find(wordFile)
		vx.Assert(ok && f.Data == asFile(words).Data && f.Mode == 0o600, "the input file is left untouched")
	}
	var got []string
	if toFile {
		n++
		got = savedPhrase(r, "new.txt")
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "a saved phrase is not shown")
	} else {
		got = printedPhrase(r.Stderr)
	}
	vx.Assert(len(r.Files) == n, "no other file is written")
	s2, dec := phraseContent(got, to, pw)
	vx.Assert(vx.And(s2.Int().Cmp(seed.Int()) == 0, dec.CreationOffset() == off), "the new phrase has the same seed and creation time")
	vx.Reached("ok")
}

// C23_Pipe: words piped in, with blank lines, letter case and white space.
func C23_Pipe() {
	vx.Generic(true)
	seed := mustSeed(symSeed(picker(1)))
	off := vx.U31("offset")
	words, err := mnemonikey.EncodeMnemonicPlaintext(seed, off)
	vx.Assert(err == nil, "encoded")
	args := []string{"convert"}
	simple := vx.Choice("simple", 2) == 1
	if simple {
		args = append(args, "-simple")
	}
	text := strings.Join(words, "\n")
	switch vx.Choice("form", 4) {
	case 0:
		text += "\n"
	case 1:
		text = "\n" + strings.Join(words, "\n\n") + "\n"
	case 2:
		text = "  " + strings.Join(words, " \t\r\n ") + "\n"
	}
	cut := vx.Choice("missing", 3)
	if cut > 0 {
		text = strings.Join(words[:len(words)-cut], "\n") + "\n"
	}
	r := vx.RunCLI(vx.Run{Args: args, Stdin: []vx.Item{{Data: text}}})
	if cut > 0 {
		refused(r, "an incomplete phrase")
		vx.Assert(len(printedPhrase(r.Stderr)) == 0, "no new phrase")
		vx.Reached("refused")
		return
	}
	succeeded(r, "convert")
	vx.Assert(blank(r.Stdout), "nothing is written to standard output")
	s2, dec := phraseContent(printedPhrase(r.Stderr), false, "")
	vx.Assert(vx.And(s2.Int().Cmp(seed.Int()) == 0, dec.CreationOffset() == off), "the new phrase has the same seed and creation time")
	vx.Reached("ok")
}

// C23_Fails: the new phrase cannot be saved, or the old one is bad.
func C23_Fails() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	in := asFile(words)
	files := []vx.File{in}
	out := "new.txt"
	full := false
	content := vx.Str("content", 2)
	switch vx.Choice("how", 9) {
	case 0:
		files = append(files, vx.File{Name: out, Data: content, Mode: 0o644})
	case 1:
		files = append(files, vx.File{Name: out, Kind: 1})
	case 2:
		out = wordFile // onto itself
	case 3:
		out = "no/new.txt"
	case 4:
		out = "./" + wordFile
	case 5:
		full = true
	case 6:
		words[3], words[5] = words[5], words[3]
		files[0] = asFile(words)
	case 7:
		files[0] = asFile(words[:13])
	case 8:
		files = append(files, vx.File{Name: out, Kind: 2, Data: wordFile})
	}
	r := vx.RunCLI(vx.Run{Args: []string{"convert", "-in-word-file", wordFile, "-out-word-file", out}, Files: files, FullDisk: full})
	refused(r, "the phrase cannot be converted or saved")
	for _, f := range files {
		g, ok := r.Find(f.Name)
		vx.Assert(ok && g.Kind == f.Kind && (f.Kind == 1 || g.Data == f.Data), "what was there is left unchanged")
	}
	vx.Reached("refused")
}
