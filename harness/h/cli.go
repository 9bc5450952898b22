package h

import (
	"strings"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// Runs of the command-line tool.

const wordFile = "words.txt"

// aPhrase is the phrase of a fixed plaintext mnemonic (all seeds and creation times: C24_Phrase).
const (
	aSeed   = "8f3c0a5512e94b7d60a1f00dcafe1234"
	aOffset = 0x1234567
)

func blank(s string) bool { return len(vx.Tokens(s)) == 0 }

// sameText compares up to surrounding white space.
func sameText(got, want string) bool { return vx.Trim(got) == vx.Trim(want) }

// refused: the run ended in an error and exported nothing.
func refused(r *vx.Result, what string) {
	vx.Assert(!r.Crashed, "no crash: "+what)
	vx.Assert(r.Exit != 0, "an error: "+what)
	vx.Assert(blank(r.Stdout), "nothing is exported: "+what)
}

func succeeded(r *vx.Result, what string) {
	vx.Assert(!r.Crashed, "no crash: "+what)
	vx.Assert(r.Exit == 0, "success: "+what)
}

func asFile(words []string) vx.File {
	return vx.File{Name: wordFile, Data: strings.Join(words, " ") + "\n", Mode: 0o600}
}

func export(m *mnemonikey.Mnemonikey, pw []byte) string {
	s, err := m.EncodePGPArmor(pw)
	vx.Assert(err == nil, "the key is exported")
	return s
}

func noNUL(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vx.And(ok, s[i] != 0)
	}
	return ok
}

// fixedPhrase is a valid concrete plaintext phrase with its seed and offset.
func fixedPhrase() (words []string, seed *mnemonikey.Seed, off uint32) {
	seed = mustSeed(hexInt(aSeed))
	words, err := mnemonikey.EncodeMnemonicPlaintext(seed, aOffset)
	vx.Assert(err == nil, "encoded")
	return words, seed, aOffset
}
