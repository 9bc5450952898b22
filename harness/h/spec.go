// Package h holds the harnesses: for each property, functions that exercise the real code on symbolic
// inputs and assert the property. This file is the oracle: an independent statement of the published
// formats (README, RFC 4880bis), written against plain library primitives.
package h

import (
	"crypto/aes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"hash/crc32"
	"math/big"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
	"github.com/kklash/wordlist4096"
	"golang.org/x/crypto/argon2"
	"golang.org/x/crypto/curve25519"
)

const epochUnix = int64(1672531200) // 2023-01-01T00:00:00Z
const maxOffset = int64(1)<<31 - 1

// ---- recovery phrases ----

func shl(v *big.Int, n uint, low *big.Int) *big.Int {
	r := new(big.Int).Lsh(v, n)
	return r.Or(r, low)
}

// specIndex is the i-th (from the left) of n 12-bit groups of payload.
func specIndex(payload *big.Int, n, i int) uint16 {
	x := new(big.Int).Rsh(payload, uint(12*(n-1-i)))
	return uint16(x.And(x, big.NewInt(4095)).Uint64())
}

// specPhrase appends the checksum to a payload of nbits bits and returns the word indices.
func specPhrase(payload *big.Int, nbits int) []uint16 {
	crc := crc32.ChecksumIEEE(payload.FillBytes(make([]byte, (nbits+7)/8)))
	full := shl(payload, 5, big.NewInt(int64(crc%32)))
	n := (nbits + 5) / 12
	out := make([]uint16, n)
	for i := range out {
		out[i] = specIndex(full, n, i)
	}
	return out
}

func specPlain(seed *big.Int, off uint32) []uint16 {
	// 4 bits of version 0, 128 bits of seed, 31 bits of offset
	return specPhrase(shl(seed, 31, big.NewInt(int64(off))), 4+128+31)
}

func specSeedKey(password []byte, salt, off uint32) []byte {
	s := shl(big.NewInt(int64(salt)), 31, big.NewInt(int64(off))).FillBytes(make([]byte, 7)) // 50 bits
	return argon2.IDKey(password, s, 4, 512*1024, 2, 17)
}

func specEncrypted(seed *big.Int, off uint32, password []byte, salt uint32) []uint16 {
	k := specSeedKey(password, salt, off)
	blk, _ := aes.NewCipher(k[:16])
	ct := make([]byte, 16)
	blk.Encrypt(ct, seed.FillBytes(make([]byte, 16)))
	p := shl(big.NewInt(1), 128, new(big.Int).SetBytes(ct))
	p = shl(p, 19, big.NewInt(int64(salt)))
	p = shl(p, 5, big.NewInt(int64(k[16]&31)))
	p = shl(p, 31, big.NewInt(int64(off)))
	return specPhrase(p, 4+128+19+5+31)
}

func wordsOf(ix []uint16) []string {
	out := make([]string, len(ix))
	for i, x := range ix {
		out[i] = wordlist4096.WordList[x]
	}
	return out
}

// lowerASCII maps A-Z to a-z without branching.
func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		x := uint16(c) - 'A'
		b[i] = c | byte((x-26)&^x>>15)<<5
	}
	return string(b)
}

func isASCII(s string) bool {
	r := true
	for _, c := range []byte(s) {
		r = vx.And(r, c < 0x80)
	}
	return r
}

func sameWords(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vx.And(r, a[i] == b[i])
	}
	return r
}

// fixedReader hands out data and then fails.
type fixedReader struct {
	data []byte
	err  error
}

func (r *fixedReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

func mustSeed(v *big.Int) *mnemonikey.Seed {
	s, err := mnemonikey.NewSeed(mnemonikey.EraLatest, v)
	vx.Assert(err == nil, "a 128-bit seed is accepted")
	return s
}

// ---- keys ----

func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func be16(v int) []byte    { return []byte{byte(v >> 8), byte(v)} }

func specRoot(seed []byte, creation uint32) []byte {
	return argon2.IDKey(seed, be32(creation), 4, 512*1024, 2, 32)
}

// specExpand is HKDF-Expand with SHA-256 for 32 bytes.
func specExpand(root []byte, info []byte) []byte {
	m := hmac.New(sha256.New, root)
	m.Write(info)
	m.Write([]byte{1})
	return m.Sum(nil)
}

func subkeyInfo(kind string, index uint16) []byte {
	return append([]byte("mnemonikey "+kind+" subkey"), be16(int(index))...)
}

const (
	masterInfo = "mnemonikey master key"
	kEnc       = "encryption"
	kAuth      = "authentication"
	kSign      = "signing"
)

var kinds = []string{kEnc, kAuth, kSign}

// specKey is one key as the specification prescribes it.
type specKey struct {
	kind   string // "" for the master key
	seed   []byte // private key as derived
	secret []byte // private key as exported (big-endian integer bytes)
	public []byte
	body   []byte // public key packet body
	fpr    []byte
}

var oidEd = []byte{0x2B, 0x06, 0x01, 0x04, 0x01, 0xDA, 0x47, 0x0F, 0x01}
var oidCv = []byte{0x2B, 0x06, 0x01, 0x04, 0x01, 0x97, 0x55, 0x01, 0x05, 0x01}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func specPubBody(creation uint32, alg byte, oid, public, extra []byte) []byte {
	// version, time, algorithm, curve, 263-bit point (0x40 prefix), extra
	return cat([]byte{4}, be32(creation), []byte{alg, byte(len(oid))}, oid, []byte{0x01, 0x07, 0x40}, public, extra)
}

func specFpr(body []byte) []byte {
	h := sha1.Sum(cat([]byte{0x99}, be16(len(body)), body))
	return h[:]
}

func specEd(kind string, seed []byte, creation uint32) *specKey {
	pub := []byte(ed25519.NewKeyFromSeed(seed))[32:]
	k := &specKey{kind: kind, seed: seed, secret: seed, public: pub}
	k.body = specPubBody(creation, 22, oidEd, pub, nil)
	k.fpr = specFpr(k.body)
	return k
}

func specCv(seed []byte, creation uint32) *specKey {
	cl := cat(seed)
	cl[0] &= 248
	cl[31] = cl[31]&127 | 64
	pub, err := curve25519.X25519(cl, curve25519.Basepoint)
	if err != nil {
		panic(err)
	}
	rev := make([]byte, 32)
	for i := range rev {
		rev[i] = cl[31-i]
	}
	k := &specKey{kind: kEnc, seed: cl, secret: rev, public: pub}
	k.body = specPubBody(creation, 18, oidCv, pub, []byte{3, 1, 8, 7})
	k.fpr = specFpr(k.body)
	return k
}

// specMaster and specSubkey derive keys from the root key.
func specMaster(root []byte, creation uint32) *specKey {
	return specEd("", specExpand(root, []byte(masterInfo)), creation)
}

func specSubkey(root []byte, creation uint32, kind string, index uint16) *specKey {
	s := specExpand(root, subkeyInfo(kind, index))
	if kind == kEnc {
		return specCv(s, creation)
	}
	return specEd(kind, s, creation)
}

// ---- OpenPGP parsing ----

type packet struct {
	tag  int
	body []byte
}

// parsePackets splits a sequence of new-format packets; ok is false if it is not exactly that.
func parsePackets(b []byte) (out []packet, ok bool) {
	for len(b) > 0 {
		if len(b) < 2 || b[0]&0xC0 != 0xC0 {
			return out, false
		}
		tag := int(b[0] & 0x3F)
		n, hl, good := parseLen(b[1:])
		if !good || len(b)-1-hl < n {
			return out, false
		}
		out = append(out, packet{tag, b[1+hl : 1+hl+n]})
		b = b[1+hl+n:]
	}
	return out, true
}

// parseLen reads a new-format length: 1, 2 or 5 bytes.
func parseLen(b []byte) (n, hl int, ok bool) {
	if len(b) == 0 {
		return 0, 0, false
	}
	switch {
	case b[0] < 192:
		return int(b[0]), 1, true
	case b[0] < 224:
		if len(b) < 2 {
			return 0, 0, false
		}
		return (int(b[0])-192)<<8 + int(b[1]) + 192, 2, true
	case b[0] == 255:
		if len(b) < 5 {
			return 0, 0, false
		}
		return int(b[1])<<24 | int(b[2])<<16 | int(b[3])<<8 | int(b[4]), 5, true
	}
	return 0, 0, false
}

// specMPI is the canonical multiprecision integer for big-endian bytes b.
func specMPI(b []byte) []byte {
	i := 0
	for i < len(b) && b[i] == 0 {
		i++
	}
	b = b[i:]
	if len(b) == 0 {
		return []byte{0, 0}
	}
	return cat(be16(new(big.Int).SetBytes(b).BitLen()), b)
}

func sum16(b []byte) []byte {
	var s uint16
	for _, x := range b {
		s += uint16(x)
	}
	return be16(int(s))
}

// takeMPI reads one integer and returns its value as 32 bytes.
func takeMPI(b []byte) (val []byte, rest []byte, ok bool) {
	if len(b) < 2 {
		return nil, nil, false
	}
	nb := int(b[0])<<8 | int(b[1])
	n := (nb + 7) / 8
	if len(b) < 2+n || n > 32 {
		return nil, nil, false
	}
	val = make([]byte, 32)
	copy(val[32-n:], b[2:2+n])
	if n > 0 {
		// canonical: exactly nb significant bits
		if new(big.Int).SetBytes(b[2:2+n]).BitLen() != nb {
			return nil, nil, false
		}
	}
	return val, b[2+n:], true
}

type subpacket struct {
	typ  int
	body []byte
}

func parseSubpackets(b []byte) (out []subpacket, ok bool) {
	for len(b) > 0 {
		n, hl, good := parseLen(b)
		if !good || n < 1 || len(b) < hl+n {
			return out, false
		}
		out = append(out, subpacket{int(b[hl]), b[hl+1 : hl+n]})
		b = b[hl+n:]
	}
	return out, true
}

type signature struct {
	typ              int
	hashed, unhashed []subpacket
	prefix           []byte // version through hashed subpackets: the part that is hashed
	left16           []byte
	sig              []byte // 64 bytes
}

func parseSig(b []byte) (s *signature, ok bool) {
	if len(b) < 6 || b[0] != 4 || b[2] != 22 || b[3] != 8 {
		return nil, false
	}
	s = &signature{typ: int(b[1])}
	n := int(b[4])<<8 | int(b[5])
	if len(b) < 6+n+2 {
		return nil, false
	}
	s.prefix = b[:6+n]
	if s.hashed, ok = parseSubpackets(b[6 : 6+n]); !ok {
		return nil, false
	}
	b = b[6+n:]
	n = int(b[0])<<8 | int(b[1])
	if len(b) < 2+n+2 {
		return nil, false
	}
	if s.unhashed, ok = parseSubpackets(b[2 : 2+n]); !ok {
		return nil, false
	}
	b = b[2+n:]
	s.left16 = b[:2]
	r, rest, ok1 := takeMPI(b[2:])
	if !ok1 {
		return nil, false
	}
	t, rest, ok2 := takeMPI(rest)
	if !ok2 || len(rest) != 0 {
		return nil, false
	}
	s.sig = cat(r, t)
	return s, true
}

func find(sp []subpacket, typ int) ([]byte, int) {
	var body []byte
	n := 0
	for _, p := range sp {
		if p.typ == typ {
			body = p.body
			n++
		}
	}
	return body, n
}

// sigDigest is the v4 signature hash over data.
func sigDigest(s *signature, data []byte) []byte {
	h := sha256.Sum256(cat(data, s.prefix, []byte{4, 0xFF}, be32(uint32(len(s.prefix)))))
	return h[:]
}

func hashKey(body []byte) []byte { return cat([]byte{0x99}, be16(len(body)), body) }
func hashUID(uid []byte) []byte  { return cat([]byte{0xB4}, be32(uint32(len(uid))), uid) }

// goodSig reports whether s is the signature by signer over data, dated at creation, with the issuer named.
func goodSig(s *signature, signer *specKey, data []byte, creation uint32) bool {
	d := sigDigest(s, data)
	want := ed25519.Sign(ed25519.NewKeyFromSeed(signer.seed), d)
	ok := vx.EqBytes(s.sig, want)
	ok = vx.And(ok, vx.EqBytes(s.left16, d[:2]))
	t, n := find(s.hashed, 2)
	ok = vx.And(ok, n == 1 && vx.EqBytes(t, be32(creation)))
	f, n := find(s.hashed, 33)
	ok = vx.And(ok, n == 1 && vx.EqBytes(f, cat([]byte{4}, signer.fpr)))
	iss, n := find(s.unhashed, 16)
	ok = vx.And(ok, n == 1 && vx.EqBytes(iss, signer.fpr[12:]))
	return ok
}

// hasExpiry reports whether the hashed subpackets carry exactly the lifetime (none for 0).
func hasExpiry(s *signature, ttl uint32) bool {
	b, n := find(s.hashed, 9)
	if n == 0 {
		return ttl == 0
	}
	return n == 1 && ttl != 0 && vx.EqBytes(b, be32(ttl))
}

func hasBytes(sp []subpacket, typ int, want []byte) bool {
	b, n := find(sp, typ)
	return n == 1 && vx.EqBytes(b, want)
}

func specUserID(name, email string) string {
	if email == "" {
		return name
	}
	if name == "" {
		return email
	}
	return name + " <" + email + ">"
}

// unprotected is the secret part of an unprotected secret key packet body.
func unprotected(secret []byte) []byte {
	m := specMPI(secret)
	return cat([]byte{0}, m, sum16(m))
}

// keySpec describes a complete key set.
type keySpec struct {
	creation uint32
	uid      string
	ttl      uint32
	master   *specKey
	subs     []*specKey // expected subkeys in any order
}

func newKeySpec(seed []byte, creation uint32, opts *mnemonikey.KeyOptions) *keySpec {
	root := specRoot(seed, creation)
	ks := &keySpec{creation: creation, uid: specUserID(opts.Name, opts.Email), ttl: uint32(opts.TTL / time.Second), master: specMaster(root, creation)}
	for _, k := range kinds {
		if wants(opts, k) {
			s := specSubkey(root, creation, k, indexOf(opts, k))
			for _, o := range ks.subs {
				// different derivation inputs give different keys (no hash collisions)
				vx.Assume(!vx.EqBytes(o.public, s.public))
			}
			ks.subs = append(ks.subs, s)
		}
	}
	return ks
}

func wants(opts *mnemonikey.KeyOptions, kind string) bool {
	if opts.Subkeys == nil {
		return true
	}
	for _, t := range opts.Subkeys {
		if string(t) == kind {
			return true
		}
	}
	return false
}

func indexOf(opts *mnemonikey.KeyOptions, kind string) uint16 {
	switch kind {
	case kEnc:
		return opts.EncryptionSubkeyIndex
	case kAuth:
		return opts.AuthenticationSubkeyIndex
	}
	return opts.SigningSubkeyIndex
}

func flagsOf(kind string) byte {
	switch kind {
	case kEnc:
		return 0x0C
	case kAuth:
		return 0x20
	case kSign:
		return 0x02
	}
	return 0x01
}

const gnuDummy = "\xfe\x00\x65\x00GNU\x01"

// checkSelfCert asserts that s certifies the user ID.
func (ks *keySpec) checkSelfCert(s *signature) {
	vx.Assert(s.typ == 0x13, "positive certification")
	vx.Assert(goodSig(s, ks.master, cat(hashKey(ks.master.body), hashUID([]byte(ks.uid))), ks.creation), "the self-certification is the master key's signature over its key and the user ID")
	vx.Assert(hasExpiry(s, ks.ttl), "the self-certification carries the requested lifetime")
	vx.Assert(hasBytes(s.hashed, 27, []byte{0x01}), "the master key is flagged for certification")
	vx.Assert(hasBytes(s.hashed, 11, []byte{9, 8, 7, 2}), "cipher preferences")
	vx.Assert(hasBytes(s.hashed, 21, []byte{10, 9, 8, 11, 2}), "hash preferences")
	vx.Assert(hasBytes(s.hashed, 22, []byte{2, 3, 1}), "compression preferences")
	vx.Assert(hasBytes(s.hashed, 30, []byte{1}), "modification detection feature")
	vx.Assert(hasBytes(s.hashed, 23, []byte{0x80}), "key server preferences")
	_, n := find(s.unhashed, 32)
	vx.Assert(n == 0, "no embedded signature in the self-certification")
}

// checkBinding asserts that s binds sub to the master key.
func (ks *keySpec) checkBinding(s *signature, sub *specKey) {
	data := cat(hashKey(ks.master.body), hashKey(sub.body))
	vx.Assert(s.typ == 0x18, "subkey binding")
	vx.Assert(goodSig(s, ks.master, data, ks.creation), "the binding is the master key's signature over both keys")
	vx.Assert(hasExpiry(s, ks.ttl), "the binding carries the requested lifetime")
	vx.Assert(hasBytes(s.hashed, 27, []byte{flagsOf(sub.kind)}), "the binding carries the key flags of its kind")
	emb, n := find(s.unhashed, 32)
	_, nh := find(s.hashed, 32)
	vx.Assert(nh == 0, "no embedded signature among the hashed subpackets")
	if sub.kind != kSign {
		vx.Assert(n == 0, "only a signing subkey has a back-signature")
		return
	}
	vx.Assert(n == 1, "a signing subkey has a back-signature")
	e, ok := parseSig(emb)
	vx.Assert(ok, "the back-signature is a signature")
	vx.Assert(e.typ == 0x19, "the back-signature is a primary key binding")
	vx.Assert(goodSig(e, sub, data, ks.creation), "the back-signature is the signing subkey's signature over both keys")
}

// checkExport asserts that out is the export of the key set: full (stub false) or subkeys only, secrets
// opened by open, and returns the subkey order.
func (ks *keySpec) checkExport(out []byte, stub, cert, sigs bool, open func(k *specKey, secret []byte)) []string {
	ps, ok := parsePackets(out)
	vx.Assert(ok, "the export is a sequence of packets")
	want := 2 + 2*len(ks.subs)
	if cert {
		want++
	}
	vx.Assert(len(ps) == want, "the export has exactly the expected number of packets")
	m := ps[0]
	vx.Assert(m.tag == 5, "the export starts with the master secret key packet")
	vx.Assert(len(m.body) >= len(ks.master.body) && vx.EqBytes(m.body[:len(ks.master.body)], ks.master.body), "the master packet starts with the public key body")
	if stub {
		vx.Assert(vx.EqBytes(m.body[len(ks.master.body):], []byte(gnuDummy)), "the master secret is replaced by the stub")
	} else {
		open(ks.master, m.body[len(ks.master.body):])
	}
	vx.Assert(ps[1].tag == 13 && vx.EqBytes(ps[1].body, []byte(ks.uid)), "the user ID packet follows")
	ps = ps[2:]
	if cert {
		vx.Assert(ps[0].tag == 2, "the self-certification follows the user ID")
		if sigs {
			s, ok := parseSig(ps[0].body)
			vx.Assert(ok, "the self-certification is a signature")
			ks.checkSelfCert(s)
		}
		ps = ps[1:]
	}
	used := make([]bool, len(ks.subs))
	var order []string
	for i := 0; i+1 < len(ps); i += 2 {
		vx.Assert(ps[i].tag == 7, "each subkey is a secret subkey packet")
		vx.Assert(ps[i+1].tag == 2, "each subkey is followed by its binding signature")
		j := ks.match(ps[i].body, used)
		vx.Assert(j >= 0, "each subkey packet is one of the requested subkeys, once")
		used[j] = true
		order = append(order, ks.subs[j].kind)
		open(ks.subs[j], ps[i].body[len(ks.subs[j].body):])
		if sigs {
			s, ok := parseSig(ps[i+1].body)
			vx.Assert(ok, "the binding is a signature")
			ks.checkBinding(s, ks.subs[j])
		}
	}
	return order
}

// match finds the subkey whose public body starts b.
func (ks *keySpec) match(b []byte, used []bool) int {
	for j, k := range ks.subs {
		if !used[j] && len(b) >= len(k.body) && vx.EqBytes(b[:len(k.body)], k.body) {
			return j
		}
	}
	return -1
}

func openPlain(k *specKey, secret []byte) {
	vx.Assert(vx.EqBytes(secret, unprotected(k.secret)), "the unprotected secret is the canonical private key with its checksum")
}
