package h

import (
	"math/big"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

func hexInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

// ttlMeaning gives the seconds a -ttl argument stands for: ok says whether it is well formed, fits whether it can be represented.
func ttlMeaning(s string) (secs uint64, ok, fits bool) {
	if len(s) < 2 {
		return 0, false, false
	}
	u := s[len(s)-1] | 0x20
	ok = vx.Or(vx.Or(u == 'd', u == 'w'), vx.Or(u == 'm', u == 'y'))
	for i := 0; i < len(s)-1; i++ {
		ok = vx.And(ok, vx.And(s[i] >= '0', s[i] <= '9'))
	}
	if !ok {
		return 0, false, false
	}
	var unit uint64
	switch u {
	case 'd':
		unit = 24 * 3600
	case 'w':
		unit = 7 * 24 * 3600
	case 'm':
		unit = 365 * 24 * 3600 / 12
	default:
		unit = 365 * 24 * 3600
	}
	var n uint64
	for i := 0; i < len(s)-1; i++ {
		if n > 1<<40 {
			return 0, true, false
		}
		n = n*10 + uint64(s[i]-'0')
	}
	if n > (1<<32-1)/unit {
		return 0, true, false
	}
	return n * unit, true, true
}

func checkTTL(r *vx.Result, ttl string, seed *mnemonikey.Seed, creation time.Time) {
	secs, ok, fits := ttlMeaning(ttl)
	if !ok {
		refused(r, "a malformed -ttl")
		vx.Reached("malformed")
		return
	}
	if !fits {
		refused(r, "a -ttl too large to represent")
		vx.Reached("too large")
		return
	}
	if secs == 0 && r.Exit != 0 {
		refused(r, "a -ttl of zero")
		vx.Reached("zero")
		return
	}
	succeeded(r, "a well-formed -ttl")
	m, err := mnemonikey.New(seed, creation, &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}, TTL: time.Duration(secs) * time.Second})
	vx.Assert(err == nil, "accepted")
	vx.Assert(sameText(r.Stdout, export(m, nil)), "the exported key has exactly the lifetime asked for")
	vx.Reached("exported")
}

// C22_Recover: arguments of 1 to 6 bytes (quick) or 1 to 22 (thorough).
func C22_Recover() {
	vx.Generic(true)
	n := 6
	if vx.Thorough() {
		n = 22
	}
	ttl := vx.Str("ttl", 1+vx.Choice("len", n))
	vx.Assume(noNUL(ttl))
	words, seed, off := fixedPhrase()
	args := []string{"recover", "-only", "master,signing", "-in-word-file", wordFile, "-ttl", ttl}
	r := vx.RunCLI(vx.Run{Args: args, Files: []vx.File{asFile(words)}})
	checkTTL(r, ttl, seed, vx.Time(epochUnix+int64(off), 0))
}

// C22_Generate: the lifetime of a freshly generated key; arguments of 1 to 4 bytes (quick) or 1 to 12 (thorough).
func C22_Generate() {
	vx.Generic(true)
	vx.LongRand(true)
	sec, nsec := symClock()
	ttl := vx.Str("ttl", 1+vx.Choice("len", pickN(4, 12)))
	vx.Assume(noNUL(ttl))
	args := []string{"generate", "-only", "master,signing", "-out-word-file", wordFile, "-ttl", ttl}
	r := vx.RunCLI(vx.Run{Sec: sec, Nsec: nsec, Args: args})
	if r.Exit != 0 {
		checkTTL(r, ttl, nil, time.Time{})
		return
	}
	seed, dec := phraseContent(savedPhrase(r, wordFile), false, "")
	checkTTL(r, ttl, seed, dec.Creation())
}
