package h

import (
	"errors"
	"math/big"
	"strings"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

func recase(words []string, mode int) []string {
	out := make([]string, len(words))
	for i, w := range words {
		switch {
		case mode == 1 || mode == 2 && i%2 == 0:
			out[i] = strings.ToUpper(w)
		case mode == 3:
			out[i] = strings.ToUpper(w[:1]) + w[1:]
		default:
			out[i] = w
		}
	}
	return out
}

// C01_RoundTrip: all 128-bit seeds, all 32-bit creation offsets, upper, lower and mixed case.
func C01_RoundTrip() {
	sv := vx.Big("seed", 128)
	off := vx.U32("offset")
	orig := new(big.Int).Set(sv)
	seed := mustSeed(sv)
	words, err := mnemonikey.EncodeMnemonicPlaintext(seed, off)
	if off >= 1<<31 {
		vx.Assert(err != nil, "an offset of more than 31 bits is refused")
		vx.Assert(len(words) == 0, "nothing is returned with the error")
		vx.Reached("refused")
		return
	}
	vx.Assert(err == nil, "encoding succeeds")
	vx.Assert(len(words) == 14, "14 words")
	vx.Assert(seed.Int().Cmp(orig) == 0, "encoding leaves the seed alone")
	again, err := mnemonikey.EncodeMnemonicPlaintext(seed, off)
	vx.Assert(err == nil && sameWords(words, again), "encoding again gives the same words")
	in := recase(words, vx.Choice("case", 3))
	keep := append([]string(nil), in...)
	for round := 0; round < 2; round++ {
		dec, err := mnemonikey.DecodeMnemonic(in)
		vx.Assert(err == nil, "the phrase decodes")
		vx.Assert(sameWords(in, keep), "decoding leaves the words alone")
		vx.Assert(dec.Version == 0 && !dec.Encrypted(), "a plaintext phrase of version 0")
		s2, err := dec.Seed()
		vx.Assert(err == nil, "seed available")
		vx.Assert(s2.Int().Cmp(orig) == 0, "same seed")
		vx.Assert(s2.Era() == 0, "era 0")
		vx.Assert(dec.CreationOffset() == off, "same offset")
		vx.Assert(dec.Creation().Unix() == epochUnix+int64(off) && dec.Creation().Nanosecond() == 0, "same creation time")
		s3, err := dec.Seed()
		vx.Assert(err == nil && s3.Int().Cmp(orig) == 0, "asking again gives the same seed")
	}
	vx.Reached("decoded")
}

// C02_RoundTrip: all seeds, offsets and salts; passwords of 1, 8, 33, 80 and 300 bytes.
func C02_RoundTrip() {
	sv := vx.Big("seed", 128)
	off := vx.U32("offset")
	plen := []int{1, 8, 33, 80, 300}[vx.Choice("plen", 5)]
	pw := vx.Bytes("password", plen)
	rnd := vx.Bytes("salt", 8)
	seed := mustSeed(sv)
	orig := new(big.Int).Set(sv)
	words, err := mnemonikey.EncodeMnemonicEncrypted(seed, off, pw, &fixedReader{data: rnd, err: errors.New("dry")})
	if off >= 1<<31 {
		vx.Assert(err != nil && len(words) == 0, "an offset of more than 31 bits is refused")
		return
	}
	vx.Assert(err == nil, "encoding succeeds")
	vx.Assert(len(words) == 16, "16 words")
	vx.Assert(seed.Int().Cmp(orig) == 0, "encoding leaves the seed alone")
	dec, err := mnemonikey.DecodeMnemonic(recase(words, vx.Choice("case", 2)))
	vx.Assert(err == nil, "the phrase decodes")
	vx.Assert(dec.Version == 1 && dec.Encrypted(), "an encrypted phrase of version 1")
	vx.Assert(dec.CreationOffset() == off, "same offset")
	vx.Assert(dec.Creation().Unix() == epochUnix+int64(off), "same creation time")
	for round := 0; round < 2; round++ {
		s2, err := dec.DecryptSeed(pw)
		vx.Assert(err == nil, "the phrase decrypts with its own password")
		vx.Assert(s2.Int().Cmp(orig) == 0, "same seed")
		vx.Assert(s2.Era() == 0, "era 0")
	}
	vx.Reached("decrypted")
}

// C02_Refusals: empty password, failing random source.
func C02_Refusals() {
	seed := mustSeed(vx.Big("seed", 128))
	off := vx.U32("offset")
	switch vx.Choice("what", 3) {
	case 0:
		var pw []byte
		if vx.Choice("nil", 2) == 1 {
			pw = []byte{}
		}
		words, err := mnemonikey.EncodeMnemonicEncrypted(seed, off, pw, &fixedReader{data: vx.Bytes("salt", 8), err: errors.New("dry")})
		vx.Assert(err != nil && len(words) == 0, "an empty password is refused")
	case 1:
		words, err := mnemonikey.EncodeMnemonicEncrypted(seed, off, vx.Bytes("password", 3), &fixedReader{data: vx.Bytes("salt", vx.Choice("have", 3)), err: errors.New("dry")})
		vx.Assert(err != nil && len(words) == 0, "a failing random source is an error")
	case 2:
		k := &failReader{}
		words, err := mnemonikey.EncodeMnemonicEncrypted(seed, off, vx.Bytes("password", 3), k)
		vx.Assert(err != nil && len(words) == 0, "a failing random source is an error")
	}
	vx.Reached("refused")
}

type failReader struct{}

func (*failReader) Read(p []byte) (int, error) { return 0, errors.New("broken") }
