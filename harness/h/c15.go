package h

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"crypto/sha1"
	"crypto/sha256"
	"time"

	"github.com/kklash/mnemonikey/pgp"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// oneKey wraps the three constructors.
type oneKey struct {
	spec    *specKey
	fpr     func() []byte
	public  func() []byte
	private func(pw []byte) ([]byte, error)
	pubTag  int
	secTag  int
}

func symKey(seed []byte, t time.Time, cr uint32) *oneKey {
	keep := cat(seed)
	var k *oneKey
	switch vx.Choice("key", 3) {
	case 0:
		m, err := pgp.NewED25519MasterKey(seed, t, time.Time{})
		vx.Assert(err == nil, "accepted")
		k = &oneKey{specEd("", keep, cr), m.FingerprintV4, m.EncodePublicPacket, m.EncodePrivatePacket, 6, 5}
	case 1:
		m, err := pgp.NewED25519Subkey(seed, t, time.Time{})
		vx.Assert(err == nil, "accepted")
		k = &oneKey{specEd(kSign, keep, cr), m.FingerprintV4, m.EncodePublicSubkeyPacket, m.EncodePrivatePacket, 14, 7}
	default:
		m, err := pgp.NewCurve25519Subkey(seed, t, time.Time{}, nil)
		vx.Assert(err == nil, "accepted")
		k = &oneKey{specCv(keep, cr), m.FingerprintV4, m.EncodePublicSubkeyPacket, m.EncodePrivatePacket, 14, 7}
	}
	vx.Assert(vx.EqBytes(seed, keep), "the seed is left alone")
	return k
}

func onePacket(b []byte, tag int) []byte {
	ps, ok := parsePackets(b)
	vx.Assert(ok && len(ps) == 1 && ps[0].tag == tag, "one packet with the right tag")
	return ps[0].body
}

// C15_Fingerprint: all private keys and creation times.
func C15_Fingerprint() {
	vx.Generic(true)
	seed := vx.Bytes("key", 32)
	vx.Assume(seed[0] != 0) // other lengths: C16_Secret, C17_Short
	cr := vx.U32("creation")
	k := symKey(seed, vx.Time(int64(cr), 0), cr)
	body := onePacket(k.public(), k.pubTag)
	vx.Assert(vx.EqBytes(body, k.spec.body), "the public key packet is the specified one")
	vx.Assert(vx.EqBytes(k.fpr(), specFpr(body)), "the fingerprint is the hash of the public key packet")
	sec, err := k.private(nil)
	vx.Assert(err == nil, "the secret key is exported")
	sb := onePacket(sec, k.secTag)
	vx.Assert(len(sb) > len(body) && vx.EqBytes(sb[:len(body)], body), "the secret key packet starts with the same body")
	prot, err := k.private(append([]byte("password 0123456789 0123456789 0123456789 0123456789 0123456789"), make([]byte, 2000)...))
	vx.Assert(err == nil, "the protected secret key is exported")
	pb := onePacket(prot, k.secTag)
	vx.Assert(len(pb) > len(body) && vx.EqBytes(pb[:len(body)], body), "the protected secret key packet starts with the same body")
	vx.Assert(vx.EqBytes(k.fpr(), specFpr(body)), "the fingerprint does not change")
	vx.Reached("ok")
}

// C16_Secret: all private keys, including those with leading zero bytes.
func C16_Secret() {
	vx.Generic(false)
	seed := vx.Bytes("key", 32)
	cr := vx.U32("creation")
	k := symKey(seed, vx.Time(int64(cr), 0), cr)
	var pw []byte
	if vx.Choice("nil", 2) == 1 {
		pw = []byte{}
	}
	sec, err := k.private(pw)
	vx.Assert(err == nil, "the secret key is exported")
	sb := onePacket(sec, k.secTag)
	vx.Assert(len(sb) > len(k.spec.body) && vx.EqBytes(sb[:len(k.spec.body)], k.spec.body), "the packet starts with the public key body")
	vx.Assert(vx.EqBytes(sb[len(k.spec.body):], unprotected(k.spec.secret)), "followed by the canonical private key and its checksum")
	vx.Reached("ok")
}

// C16_SeedLength: seeds of every length from 0 to 65 bytes.
func C16_SeedLength() {
	n := vx.Choice("n", 66)
	seed := vx.Bytes("key", n)
	t := vx.Time(epochUnix, 0)
	var err error
	var isNil bool
	switch vx.Choice("key", 3) {
	case 0:
		k, e := pgp.NewED25519MasterKey(seed, t, time.Time{})
		err, isNil = e, k == nil
	case 1:
		k, e := pgp.NewED25519Subkey(seed, t, time.Time{})
		err, isNil = e, k == nil
	default:
		k, e := pgp.NewCurve25519Subkey(seed, t, time.Time{}, nil)
		err, isNil = e, k == nil
	}
	vx.Assert((err == nil) == (n == 32) && isNil == (n != 32), "exactly the 32-byte seeds are accepted")
	vx.Reached("ok")
}

// C16_Stable: later changes to the seed do not change the key.
func C16_Stable() {
	vx.Generic(true)
	seed := vx.Bytes("key", 32)
	vx.Assume(seed[0] != 0) // other lengths: C16_Secret, C17_Short
	cr := vx.U32("creation")
	k := symKey(seed, vx.Time(int64(cr), 0), cr)
	a, err := k.private(nil)
	vx.Assert(err == nil, "exported")
	for i := range seed {
		seed[i] ^= 0xA5
	}
	b, err := k.private(nil)
	vx.Assert(err == nil && vx.EqBytes(a, b), "changing the seed afterwards does not change the key")
	vx.Reached("ok")
}

// s2kKey is the iterated and salted string-to-key with SHA-256 over exactly count bytes.
func s2kKey(salt, pw []byte, count int) []byte {
	unit := cat(salt, pw)
	block := unit
	for len(block) < 60000 {
		block = cat(block, block)
	}
	h := sha256.New()
	for count >= len(block) {
		h.Write(block)
		count -= len(block)
	}
	h.Write(block[:count])
	return h.Sum(nil)
}

// cfbDecrypt is OpenPGP CFB (plain, no resynchronisation) with AES.
func cfbDecrypt(key, iv, ct []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(ct))
	cipher.NewCFBDecrypter(blk, iv).XORKeyStream(out, ct)
	return out
}

// protectedParts splits the secret part of a protected packet.
func protectedParts(sec []byte) (salt, iv, ct []byte, count int, keyLen int) {
	vx.Assert(len(sec) > 4+8+1+16, "a protected packet has an S2K specifier, salt, count and IV")
	vx.Assert(sec[0] == 254, "protected with a SHA-1 check")
	cipherID, s2k, hash := sec[1], sec[2], sec[3]
	vx.Assert(s2k == 3, "iterated and salted S2K")
	vx.Assert(hash == 8, "SHA-256")
	switch cipherID {
	case 7:
		keyLen = 16
	case 8:
		keyLen = 24
	case 9:
		keyLen = 32
	}
	vx.Assert(keyLen != 0, "AES")
	c := int(sec[12])
	count = (16 + c&15) << (uint(c>>4) + 6)
	return sec[4:12], sec[13:29], sec[29:], count, keyLen
}

// openProtected returns the opener for packets protected with pw.
func openProtected(pw []byte) func(k *specKey, sec []byte) {
	return func(k *specKey, sec []byte) {
		salt, iv, ct, count, keyLen := protectedParts(sec)
		n := count
		if l := len(pw) + 8; n < l {
			n = l
		}
		pt := cfbDecrypt(s2kKey(salt, pw, n)[:keyLen], iv, ct)
		m := specMPI(k.secret)
		h := sha1.Sum(m)
		vx.Assert(vx.EqBytes(pt, cat(m, h[:])), "the protected secret decrypts with the password to the private key with a correct SHA-1 check")
	}
}

// symPassword has n bytes, the first few symbolic.
func symPassword(n, sym int) []byte {
	if sym > 32 {
		sym = 32
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	copy(b, vx.Bytes("password", sym))
	return b
}

// C17_Protect: one key; passwords of 1, 12, 70 and 1000 bytes.
func C17_Protect() {
	vx.Generic(true)
	seed := vx.Bytes("key", 32)
	vx.Assume(seed[0] != 0) // other lengths: C16_Secret, C17_Short
	cr := vx.U32("creation")
	k := symKey(seed, vx.Time(int64(cr), 0), cr)
	ls := []int{1000, 70, 16}
	if vx.Thorough() {
		ls = []int{1000, 70, 12, 1, 300}
	}
	n := ls[vx.Choice("plen", len(ls))]
	pw := symPassword(n, n)
	keep := cat(pw)
	out, err := k.private(pw)
	vx.Assert(err == nil, "the protected secret key is exported")
	vx.Assert(vx.EqBytes(pw, keep), "the password is left alone")
	sb := onePacket(out, k.secTag)
	vx.Assert(vx.EqBytes(sb[:len(k.spec.body)], k.spec.body), "the packet starts with the public key body")
	openProtected(pw)(k.spec, sb[len(k.spec.body):])
	out2, err := k.private(pw)
	vx.Assert(err == nil, "the protected secret key is exported again")
	sb2 := onePacket(out2, k.secTag)
	openProtected(pw)(k.spec, sb2[len(k.spec.body):])
	s1, v1, _, _, _ := protectedParts(sb[len(k.spec.body):])
	s2, v2, _, _, _ := protectedParts(sb2[len(k.spec.body):])
	vx.Assert(vx.Fresh(s1, s2), "each packet has its own random salt")
	vx.Assert(vx.Fresh(v1, v2), "each packet has its own random IV")
	vx.Assert(vx.Fresh(s1, v1), "salt and IV are independent")
	vx.Reached("ok")
}

// C17_Short: secrets with leading zero bytes.
func C17_Short() {
	vx.Generic(false)
	seed := vx.Bytes("key", 32)
	z := vx.Choice("zeros", 3)
	for i := 0; i < z; i++ {
		vx.Assume(seed[i] == 0)
	}
	vx.Assume(seed[z] != 0)
	k := symKey(seed, vx.Time(epochUnix, 0), uint32(epochUnix))
	pw := symPassword(300, 8)
	out, err := k.private(pw)
	vx.Assert(err == nil, "the protected secret key is exported")
	sb := onePacket(out, k.secTag)
	openProtected(pw)(k.spec, sb[len(k.spec.body):])
	vx.Reached("ok")
}

var _ = ed25519.SeedSize
