package h

import (
	"strings"

	"github.com/kklash/mnemonikey/zzverif/vx"
)

// sourceTexts are the texts of six or more words in the source of the tool, taken from it at each run.
var sourceTexts []string

// complete: the output holds the same words, in the same order, as on a wide terminal, and (texts) each text it starts or ends in full.
func complete(got, wide string, texts bool) {
	t := vx.Tokens(got)
	vx.Assert(strings.Join(t, " ") == strings.Join(vx.Tokens(wide), " "), "the same words as on a wide terminal")
	if !texts {
		return
	}
	joined := " " + strings.Join(t, " ") + " "
	for _, s := range sourceTexts {
		w := strings.Split(s, " ")
		k := (len(w) + 1) / 2
		if k < 5 {
			k = 5
		}
		for _, part := range []string{strings.Join(w[:k], " "), strings.Join(w[len(w)-k:], " ")} {
			if strings.Contains(joined, " "+part+" ") {
				ok := strings.Contains(joined, " "+s+" ")
				for _, o := range sourceTexts {
					ok = ok || strings.Contains(o, part) && strings.Contains(joined, " "+o+" ")
				}
				vx.Assert(ok, "texts are printed in full: "+s)
				shown++
			}
		}
	}
}

var shown int

// C29_Help: the help of each command, however asked for, for all terminal widths.
func C29_Help() {
	vx.Generic(true)
	args := [][]string{{"help"}, {"-h"}, {}, {"generate", "help"}, {"recover", "-help"}, {"convert", "--help"}, {"generate", "-ttl", "x"}, {"nosuch"}}[vx.Choice("args", 8)]
	w := vx.U16("width")
	wide := vx.RunCLI(vx.Run{Args: args, TTY: true, Width: 1000})
	r := vx.RunCLI(vx.Run{Args: args, TTY: true, Width: w})
	vx.Assert(!r.Crashed, "no crash at any width")
	vx.Assert(r.Exit == wide.Exit, "the width does not matter for success")
	vx.Assert(blank(r.Stdout), "nothing on standard output")
	vx.Assert(len(vx.Tokens(r.Stderr)) > 20, "there is help")
	shown = 0
	complete(r.Stderr, wide.Stderr, true)
	vx.Assert(shown > 0, "texts of the source were recognised")
	vx.Reached("ok")
}

// C29_NoTerminal: without a terminal the help is the same.
func C29_NoTerminal() {
	vx.Generic(true)
	args := [][]string{{"help"}, {"generate", "help"}, {"recover", "help"}, {"convert", "help"}}[vx.Choice("args", 4)]
	wide := vx.RunCLI(vx.Run{Args: args, TTY: true, Width: 1000})
	r := vx.RunCLI(vx.Run{Args: args})
	succeeded(r, "help")
	complete(r.Stderr, wide.Stderr, true)
	vx.Reached("ok")
}

// C29_Messages: what generate, recover and convert print, for all terminal widths.
func C29_Messages() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	w := vx.U16("width")
	var run vx.Run
	switch vx.Choice("command", 3) {
	case 0:
		vx.LongRand(true)
		run = vx.Run{Args: []string{"generate", "-only", "signing", "-unsafe-entropy", "e"}, Sec: 1_700_000_000}
		run.Files = []vx.File{{Name: "e", Data: "0123456789abcdef", Mode: 0o600}}
	case 1:
		run = vx.Run{Args: []string{"recover", "-in-word-file", wordFile, "-verbose", "-only", "signing"}}
	case 2:
		run = vx.Run{Args: []string{"convert", "-in-word-file", wordFile}}
	}
	run.Files = append(run.Files, asFile(words))
	run.TTY, run.Width = true, 1000
	wide := vx.RunCLI(run)
	run.Width = w
	r := vx.RunCLI(run)
	succeeded(wide, "wide terminal")
	succeeded(r, "any width")
	vx.Assert(r.Stdout == wide.Stdout, "the same output")
	complete(r.Stderr, wide.Stderr, run.Args[0] != "recover")
	vx.Reached("ok")
}
