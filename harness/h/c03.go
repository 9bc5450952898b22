package h

import (
	"errors"
	"math/big"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"github.com/kklash/mnemonikey/zzverif/vx"
	"github.com/kklash/wordlist4096"
)

// C03_PlainLayout: encoder and decoder agree with the specification, for all seeds and offsets.
func C03_PlainLayout() {
	sv := vx.Big("seed", 128)
	off := vx.U32("offset")
	vx.Assume(off < 1<<31)
	want := wordsOf(specPlain(sv, off))
	words, err := mnemonikey.EncodeMnemonicPlaintext(mustSeed(sv), off)
	vx.Assert(err == nil, "encoding succeeds")
	vx.Assert(sameWords(words, want), "the plaintext phrase has the specified layout")
	dec, err := mnemonikey.DecodeMnemonic(want)
	vx.Assert(err == nil, "the specified phrase decodes")
	s, err := dec.Seed()
	vx.Assert(err == nil && s.Int().Cmp(sv) == 0, "to the specified seed")
	vx.Assert(dec.Creation().Unix() == epochUnix+int64(off), "and creation time")
	vx.Reached("ok")
}

// C03_EncryptedLayout: the same for encrypted phrases; the salt is read off the phrase.
func C03_EncryptedLayout() {
	sv := vx.Big("seed", 128)
	off := vx.U32("offset")
	vx.Assume(off < 1<<31)
	pw := vx.Bytes("password", []int{1, 8, 33, 80, 300}[vx.Choice("plen", 5)])
	words, err := mnemonikey.EncodeMnemonicEncrypted(mustSeed(sv), off, pw, &fixedReader{data: vx.Bytes("salt", 8), err: errors.New("dry")})
	vx.Assert(err == nil, "encoding succeeds")
	ix, err := mnemonic.DecodeWords(words)
	vx.Assert(err == nil && len(ix) == 16, "16 words of the wordlist")
	p, err := mnemonic.DecodeIndices(ix)
	vx.Assert(err == nil, "indices decode")
	salt := uint32(new(big.Int).Rsh(p, 5+31+5).Uint64() & (1<<19 - 1))
	vx.Assert(sameWords(words, wordsOf(specEncrypted(sv, off, pw, salt))), "the encrypted phrase has the specified layout")
	vx.Reached("ok")
}

// C03_EncryptedDecode: every phrase the specification prescribes is decoded and decrypted, for every salt.
func C03_EncryptedDecode() {
	sv := vx.Big("seed", 128)
	off := vx.U32("offset")
	salt := vx.U32("salt19")
	vx.Assume(off < 1<<31 && salt < 1<<19)
	pw := vx.Bytes("password", []int{1, 8, 33, 80, 300}[vx.Choice("plen", 5)])
	dec, err := mnemonikey.DecodeMnemonic(wordsOf(specEncrypted(sv, off, pw, salt)))
	vx.Assert(err == nil, "the specified phrase decodes")
	vx.Assert(dec.Creation().Unix() == epochUnix+int64(off), "to the specified creation time")
	s, err := dec.DecryptSeed(pw)
	vx.Assert(err == nil && s.Int().Cmp(sv) == 0, "and decrypts to the specified seed")
	vx.Reached("ok")
}

// C03_Salt: every bit of the salt comes from the random source.
func C03_Salt() {
	rnd := vx.Bytes("salt", 16)
	words, err := mnemonikey.EncodeMnemonicEncrypted(mustSeed(big.NewInt(7)), 5, []byte("pw"), &fixedReader{data: rnd, err: errors.New("dry")})
	vx.Assert(err == nil, "encoding succeeds")
	ix, err := mnemonic.DecodeWords(words)
	vx.Assert(err == nil && len(ix) == 16, "16 words of the wordlist")
	p, err := mnemonic.DecodeIndices(ix)
	vx.Assert(err == nil, "indices decode")
	salt := uint32(new(big.Int).Rsh(p, 5+31+5).Uint64() & (1<<19 - 1))
	vx.Possible(salt == 1<<19-1, "some random output gives the salt 2^19-1")
	vx.Possible(salt == 0, "some random output gives the salt 0")
	for i := 0; i < 19; i++ {
		vx.Possible(salt == 1<<i, "some random output gives a salt with a single bit set")
	}
	vx.Reached("ok")
}

// symWord is an arbitrary member of the wordlist or, if outside is chosen, something else.
func symWord(label string) string { return vx.OneOf(label, wordlist4096.WordList[:]) }

// C04_Decode: any 13 to 17 words of the wordlist.
func C04_Decode() {
	n := []int{14, 16, 13, 15, 17, 1, 0}[vx.Choice("n", 7)]
	words := make([]string, n)
	for i := range words {
		words[i] = symWord("w")
	}
	dec, err := mnemonikey.DecodeMnemonic(words)
	if n == 0 {
		vx.Assert(errors.Is(err, mnemonikey.ErrInvalidWordCount) && dec == nil, "an empty phrase has the wrong word count")
		vx.Reached("empty")
		return
	}
	ix, e2 := mnemonic.DecodeWords(words)
	vx.Assert(e2 == nil, "list words are list words")
	version := ix[0] >> 8
	if version > 1 {
		vx.Assert(errors.Is(err, mnemonikey.ErrInvalidVersionNumber) && dec == nil, "unknown version")
		vx.Reached("version")
		return
	}
	if version == 0 && n != 14 || version == 1 && n != 16 {
		vx.Assert(errors.Is(err, mnemonikey.ErrInvalidWordCount) && dec == nil, "wrong word count")
		vx.Reached("count")
		return
	}
	p := new(big.Int)
	for _, x := range ix {
		p = shl(p, 12, big.NewInt(int64(x)))
	}
	payload := new(big.Int).Rsh(p, 5)
	canon := specPhrase(payload, 12*n-5)
	sum := ix[n-1]&31 == canon[n-1]&31
	if !sum {
		vx.Assert(errors.Is(err, mnemonikey.ErrInvalidChecksum) && dec == nil, "a wrong checksum is refused as such")
		vx.Reached("checksum")
		return
	}
	vx.Assert(err == nil && dec != nil, "a well-formed phrase is accepted")
	// content determines the phrase: the fields are exactly the bits
	off := new(big.Int).And(payload, big.NewInt(maxOffset))
	vx.Assert(dec.CreationOffset() == uint32(off.Uint64()), "the offset is the 31 bits before the checksum")
	vx.Assert(uint16(dec.Version) == version, "the version is the first four bits")
	if version == 0 {
		s, err := dec.Seed()
		vx.Assert(err == nil, "seed available")
		vx.Assert(sameWords(words, wordsOf(specPlain(s.Int(), dec.CreationOffset()))), "the phrase is the only one for its content")
	}
	vx.Reached("accepted")
}

// C04_BadWord: one position holds a string outside the wordlist.
func C04_BadWord() {
	bad := []string{"", "zzzz", "Ação", "abandon ", "\xff", "word1"}[vx.Choice("bad", 6)]
	if _, ok := wordlist4096.WordMap[bad]; ok {
		return
	}
	n := []int{14, 16}[vx.Choice("n", 2)]
	pos := vx.Choice("pos", n)
	words := make([]string, n)
	for i := range words {
		words[i] = symWord("w")
	}
	words[pos] = bad
	dec, err := mnemonikey.DecodeMnemonic(words)
	vx.Assert(err != nil && dec == nil, "a phrase with a foreign word is refused")
	if pos == 0 {
		vx.Assert(errors.Is(err, mnemonic.ErrInvalidWord), "as an invalid word")
	} else {
		v, e := mnemonikey.ParseMnemonicVersion(words[0])
		if e != nil {
			vx.Assert(errors.Is(err, mnemonikey.ErrInvalidVersionNumber), "unknown version")
		} else if v.MnemonicSize() == n {
			vx.Assert(errors.Is(err, mnemonic.ErrInvalidWord), "as an invalid word")
		}
	}
	vx.Reached("refused")
}

// C04_AnyString: the first string is arbitrary ASCII text of up to 8 bytes, the rest are list words.
func C04_AnyString() {
	w := vx.Str("text", vx.Choice("len", 9))
	vx.Assume(isASCII(w))
	words := []string{w}
	for i := 0; i < 13; i++ {
		words = append(words, "abandon")
	}
	dec, err := mnemonikey.DecodeMnemonic(words)
	ix, member := wordlist4096.WordMap[lowerASCII(w)]
	if !member {
		vx.Assert(errors.Is(err, mnemonic.ErrInvalidWord) && dec == nil, "text outside the wordlist is refused")
		vx.Reached("foreign")
		return
	}
	if ix>>8 > 1 {
		vx.Assert(errors.Is(err, mnemonikey.ErrInvalidVersionNumber), "unknown version")
	} else if ix>>8 == 1 {
		vx.Assert(errors.Is(err, mnemonikey.ErrInvalidWordCount), "wrong count for an encrypted phrase")
	} else {
		vx.Assert(err == nil || errors.Is(err, mnemonikey.ErrInvalidChecksum), "accepted or refused for its checksum")
	}
	vx.Reached("member")
}

// C05_Decrypt: decryption succeeds exactly when the check bits match.
func C05_Decrypt() {
	n := 16
	words := make([]string, n)
	for i := range words {
		words[i] = symWord("w")
	}
	dec, err := mnemonikey.DecodeMnemonic(words)
	if err != nil {
		vx.Assume(false)
	}
	vx.Assert(dec.Encrypted(), "16-word phrases are encrypted")
	if vx.Choice("how", 2) == 0 {
		s, err := dec.Seed()
		vx.Assert(errors.Is(err, mnemonikey.ErrMnemonicDecryption) && s == nil, "no seed without a password")
		m, err := mnemonikey.RecoverPlaintext(words, &mnemonikey.KeyOptions{Subkeys: []mnemonikey.SubkeyType{}})
		vx.Assert(errors.Is(err, mnemonikey.ErrMnemonicDecryption) && m == nil, "no plaintext recovery of an encrypted phrase")
		vx.Reached("no password")
		return
	}
	pw := vx.Bytes("password", []int{0, 1, 9, 80, 300}[vx.Choice("plen", 5)])
	ix, _ := mnemonic.DecodeWords(words)
	p, _ := mnemonic.DecodeIndices(ix)
	salt := uint32(new(big.Int).Rsh(p, 5+31+5).Uint64() & (1<<19 - 1))
	check := byte(new(big.Int).Rsh(p, 5+31).Uint64() & 31)
	k := specSeedKey(pw, salt, dec.CreationOffset())
	s, err := dec.DecryptSeed(pw)
	if k[16]&31 != check {
		vx.Assert(errors.Is(err, mnemonikey.ErrMnemonicDecryption) && s == nil, "a password whose check bits differ is refused")
		vx.Reached("refused")
		return
	}
	vx.Assert(err == nil, "a password whose check bits match is accepted")
	vx.Assert(sameWords(words, wordsOf(specEncrypted(s.Int(), dec.CreationOffset(), pw, salt))), "the seed is the decryption under that password")
	vx.Reached("decrypted")
}

// C05_Recover: RecoverEncrypted agrees with DecryptSeed and never makes a key from a wrong password.
func C05_Recover() {
	sv := vx.Big("seed", 128)
	off := vx.U32("offset")
	salt := vx.U32("salt19")
	vx.Assume(off < 1<<31 && salt < 1<<19)
	words := wordsOf(specEncrypted(sv, off, []byte("correct"), salt))
	pw := vx.Bytes("password", 7)
	opts := &mnemonikey.KeyOptions{Subkeys: []mnemonikey.SubkeyType{}}
	m, err := mnemonikey.RecoverEncrypted(words, pw, opts)
	k0 := specSeedKey([]byte("correct"), salt, off)
	k1 := specSeedKey(pw, salt, off)
	if k0[16]&31 != k1[16]&31 {
		vx.Assert(errors.Is(err, mnemonikey.ErrMnemonicDecryption) && m == nil, "a wrong password gives no key")
		vx.Reached("wrong")
		return
	}
	vx.Assert(err == nil && m != nil, "a password whose check bits match gives a key")
	vx.Reached("match")
}

// C05_Plain: a plaintext phrase gives its seed whatever password is supplied.
func C05_Plain() {
	sv := vx.Big("seed", 128)
	off := vx.U32("offset")
	vx.Assume(off < 1<<31)
	dec, err := mnemonikey.DecodeMnemonic(wordsOf(specPlain(sv, off)))
	vx.Assert(err == nil, "decodes")
	pw := vx.Bytes("password", []int{0, 1, 9, 80, 300}[vx.Choice("plen", 5)])
	s, err := dec.DecryptSeed(pw)
	vx.Assert(err == nil && s.Int().Cmp(sv) == 0, "the password is ignored")
	vx.Reached("ok")
}
