package h

import (
	"errors"
	"math/big"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"github.com/kklash/mnemonikey/zzverif/vx"
	"github.com/kklash/wordlist4096"
)

// C06_Indices: integers of up to 216 bits, bit sizes 0 to 204.
func C06_Indices() {
	sizes := []uint{0, 1, 11, 12, 13, 24, 36, 60, 129, 167, 168, 191, 192, 204}
	k := 8
	if vx.Thorough() {
		k = len(sizes)
	}
	size := sizes[vx.Choice("size", k)]
	v := vx.Big("v", 72)
	if size > 72 {
		v = vx.Big("wide", 216)
	}
	if vx.Choice("neg", 2) == 1 {
		v = new(big.Int).Neg(v)
	}
	orig := new(big.Int).Set(v)
	ix, err := mnemonic.EncodeToIndices(v, size)
	vx.Assert(v.Cmp(orig) == 0, "the argument is left alone")
	if v.Sign() < 0 {
		vx.Assert(err != nil, "negative integers are refused")
		return
	}
	if uint(orig.BitLen()) > size {
		vx.Assert(err != nil && len(ix) == 0, "an integer too large for the bit size is refused")
		vx.Reached("refused")
		return
	}
	vx.Assert(err == nil, "encoding succeeds")
	vx.Assert(uint(len(ix)) == (size+11)/12, "ceil(bits/12) indices")
	for i := range ix {
		vx.Assert(ix[i] == specIndex(orig, len(ix), i), "most significant first")
	}
	keep := append([]uint16(nil), ix...)
	back, err := mnemonic.DecodeIndices(ix)
	vx.Assert(err == nil && back.Cmp(orig) == 0, "decodes to the same integer")
	for i := range ix {
		vx.Assert(ix[i] == keep[i], "decoding leaves the indices alone")
	}
	vx.Reached("ok")
}

// C06_DecodeIndices: arbitrary 16-bit indices.
func C06_DecodeIndices() {
	n := vx.Choice("n", 5)
	ix := make([]uint16, n)
	want := new(big.Int)
	big := false
	for i := range ix {
		ix[i] = vx.U16("ix")
		big = vx.Or(big, ix[i] > 4095)
	}
	for i := range ix {
		want.Lsh(want, 12)
		want.Or(want, bigU(uint64(ix[i])))
	}
	keep := append([]uint16(nil), ix...)
	v, err := mnemonic.DecodeIndices(ix)
	for i := range ix {
		vx.Assert(ix[i] == keep[i], "the indices are left alone")
	}
	w, e2 := mnemonic.EncodeToWords(ix)
	for i := range ix {
		vx.Assert(ix[i] == keep[i], "the indices are left alone")
	}
	if big {
		vx.Assert(errors.Is(err, mnemonic.ErrInvalidIndex) && v == nil, "an index above 4095 is refused")
		vx.Assert(errors.Is(e2, mnemonic.ErrInvalidIndex) && w == nil, "an index above 4095 is refused")
		vx.Reached("refused")
		return
	}
	vx.Assert(err == nil && v.Cmp(want) == 0, "value")
	vx.Assert(e2 == nil && len(w) == n, "words")
	for i := range w {
		vx.Assert(w[i] == wordlist4096.WordList[ix[i]], "the word of the index")
	}
	back, err := mnemonic.DecodeWords(recase(w, vx.Choice("case", 2)))
	vx.Assert(err == nil && len(back) == n, "words decode")
	for i := range back {
		vx.Assert(back[i] == ix[i], "to the same indices")
	}
	vx.Reached("ok")
}

func bigU(u uint64) *big.Int { return new(big.Int).SetUint64(u) }

// C06_Words: ASCII text of up to 8 bytes; text outside the list is refused.
func C06_Words() {
	w := vx.Str("text", vx.Choice("len", 9))
	vx.Assume(isASCII(w))
	words := []string{"abandon", w}
	keep := append([]string(nil), words...)
	ix, err := mnemonic.DecodeWords(words)
	vx.Assert(sameWords(words, keep), "the words are left alone")
	want, member := wordlist4096.WordMap[lowerASCII(w)]
	if member {
		vx.Assert(err == nil && len(ix) == 2 && ix[1] == want, "a list word in any case has its index")
		vx.Reached("member")
	} else {
		vx.Assert(errors.Is(err, mnemonic.ErrInvalidWord) && ix == nil, "other text is refused")
		vx.Reached("foreign")
	}
}

// C07_New: integers of up to 140 bits of either sign, any era.
func C07_New() {
	v := vx.Big("v", 140)
	if vx.Choice("neg", 2) == 1 {
		v = new(big.Int).Neg(v)
	}
	era := mnemonikey.Era(vx.Range("era", -2, 2))
	orig := new(big.Int).Set(v)
	s, err := mnemonikey.NewSeed(era, v)
	vx.Assert(v.Cmp(orig) == 0, "the integer is left alone")
	if era != 0 {
		vx.Assert(errors.Is(err, mnemonikey.ErrInvalidEraNumber) && s == nil, "unsupported eras are refused")
		vx.Reached("era")
		return
	}
	if orig.Sign() < 0 || orig.BitLen() > 128 {
		vx.Assert(err != nil && s == nil, "integers outside 0..2^128-1 are refused")
		vx.Reached("range")
		return
	}
	vx.Assert(err == nil, "accepted")
	v.Add(v, big.NewInt(1))
	s.Int().Add(s.Int(), big.NewInt(5))
	x := s.Int()
	x.Sub(x, big.NewInt(3))
	b := s.Bytes()
	for i := range b {
		b[i] ^= 0x5A
	}
	vx.Assert(s.Int().Cmp(orig) == 0, "the seed keeps its integer")
	vx.Assert(vx.EqBytes(s.Bytes(), orig.FillBytes(make([]byte, 16))), "the seed keeps its bytes")
	vx.Assert(s.Era() == 0, "era")
	vx.Reached("ok")
}

// C07_Generate: the seed is the 16 bytes read; a short source is an error.
func C07_Generate() {
	n := []int{16, 24, 0, 1, 8, 15}[vx.Choice("have", 6)]
	data := vx.Bytes("entropy", n)
	rd := &fixedReader{data: append([]byte(nil), data...), err: errors.New("dry")}
	s, err := mnemonikey.GenerateSeed(rd)
	if n < 16 {
		vx.Assert(err != nil && s == nil, "a source that runs dry is an error")
		vx.Reached("dry")
		return
	}
	vx.Assert(err == nil, "generation succeeds")
	used := n - len(rd.data)
	vx.Assert(used >= 16, "at least 16 bytes are read")
	// the seed is the bytes read, unmodified
	vx.Assert(vx.EqBytes(s.Bytes(), data[:16]), "the seed is exactly the 128 bits read from the source")
	vx.Assert(s.Era() == mnemonikey.EraLatest, "latest era")
	vx.Reached("ok")
}
