package h

import (
	"errors"
	"math/big"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// zoned is the instant sec.nsec in one of several time zones.
func zoned(sec, nsec int64) time.Time { return zonedBy(sec, nsec, vx.Choice("zone", 3)) }

func zonedBy(sec, nsec int64, zone int) time.Time {
	t := vx.Time(sec, nsec)
	switch zone {
	case 1:
		return t.In(time.FixedZone("A", 5*3600+1800))
	case 2:
		return t.In(time.FixedZone("B", -11*3600-1))
	}
	return t
}

// symSeed is a seed from one of three classes: at least 2^120, between 2^60 and 2^68, or 0. C01 to C03 cover the coding of all others.
func symSeed(pick func(string, int) int) *big.Int {
	bits := []int{128, 68, 0}[pick("seedClass", 3)]
	sv := vx.Big("seed", bits)
	if bits > 0 {
		vx.Assume(sv.BitLen() > bits-8)
	}
	return sv
}

func symNsec() int64 { return int64(vx.Range("nsec", 0, 999999999)) }

// sameKey asserts that a and b are the same key set in every observable respect.
func sameKey(a, b *mnemonikey.Mnemonikey) {
	vx.Assert(vx.EqBytes(a.Fingerprint(), b.Fingerprint()), "same master fingerprint")
	ta, tb := a.SubkeyTypes(), b.SubkeyTypes()
	vx.Assert(len(ta) == len(tb), "same subkey types")
	for i := range ta {
		vx.Assert(ta[i] == tb[i], "same subkey types")
	}
	for _, t := range allTypes() {
		vx.Assert(vx.EqBytes(a.SubkeyFingerprint(t), b.SubkeyFingerprint(t)), "same subkey fingerprints")
	}
	vx.Assert(a.CreatedAt().Equal(b.CreatedAt()), "same creation time")
	vx.Assert(a.Expiry().Equal(b.Expiry()), "same expiry")
	vx.Assert(a.UserID() == b.UserID(), "same user ID")
	pa, err := a.EncodePGP(nil)
	vx.Assert(err == nil, "the original is exported")
	pb, err := b.EncodePGP(nil)
	vx.Assert(err == nil, "the recovered key is exported")
	vx.Assert(vx.EqBytes(pa, pb), "same exported packets")
}

func recoverFrom(words []string, pw []byte, opts *mnemonikey.KeyOptions) *mnemonikey.Mnemonikey {
	var m *mnemonikey.Mnemonikey
	var err error
	if pw == nil {
		m, err = mnemonikey.RecoverPlaintext(words, opts)
	} else {
		m, err = mnemonikey.RecoverEncrypted(words, pw, opts)
	}
	vx.Assert(err == nil && m != nil, "the key is recovered")
	return m
}

// C09_Recover: all seeds, creation times, zones and options; plaintext and encrypted phrase.
func C09_Recover() {
	vx.Generic(true)
	cover := 6
	if vx.Thorough() {
		cover = 0
	}
	pick := picker(cover)
	sv := symSeed(pick)
	off := vx.U31("offset")
	nsec := symNsec()
	vx.Assume(vx.Or(off < 1<<31-1, nsec == 0))
	opts := pickOpts(pick, []int{8, 5})
	m := mustNew(sv, zonedBy(epochUnix+int64(off), nsec, pick("zone", 3)), opts)
	keep := *opts
	var words []string
	var err error
	var pw []byte
	if vx.Choice("encrypted", 2) == 0 {
		words, err = m.EncodeMnemonicPlaintext()
		vx.Assert(err == nil && len(words) == 14, "the plaintext phrase is encoded")
	} else {
		pw = vx.Bytes("password", 6)
		words, err = m.EncodeMnemonicEncrypted(pw, &fixedReader{data: vx.Bytes("salt", 8), err: errors.New("dry")})
		vx.Assert(err == nil && len(words) == 16, "the encrypted phrase is encoded")
	}
	r := recoverFrom(words, pw, opts)
	sameKey(m, r)
	vx.Assert(opts.TTL == keep.TTL && opts.Name == keep.Name && opts.Email == keep.Email && len(opts.Subkeys) == len(keep.Subkeys), "the options are left alone")
	vx.Reached("ok")
}

// C09_Convert: chains of conversions between plaintext and encrypted phrases.
func C09_Convert() {
	vx.Generic(true)
	sv := symSeed(picker(0))
	orig := new(big.Int).Set(sv)
	t, cr := symCreation()
	m := mustNew(sv, t, &mnemonikey.KeyOptions{Subkeys: subset(0)})
	words, err := m.EncodeMnemonicPlaintext()
	vx.Assert(err == nil, "the phrase is encoded")
	var pw []byte
	n := 2
	if vx.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		dec, err := mnemonikey.DecodeMnemonic(words)
		vx.Assert(err == nil, "the phrase decodes")
		vx.Assert(dec.Encrypted() == (pw != nil), "the phrase is of the requested kind")
		seed, err := dec.DecryptSeed(pw)
		vx.Assert(err == nil, "the phrase yields its seed")
		vx.Assert(seed.Int().Cmp(orig) == 0, "the seed is the same")
		if vx.Choice("kind", 2) == 0 {
			words, err = mnemonikey.EncodeMnemonicPlaintext(seed, dec.CreationOffset())
			pw = nil
		} else {
			pw = vx.Bytes("password", 3)
			words, err = mnemonikey.EncodeMnemonicEncrypted(seed, dec.CreationOffset(), pw, &fixedReader{data: vx.Bytes("salt", 8), err: errors.New("dry")})
		}
		vx.Assert(err == nil, "the phrase is encoded again")
	}
	r := recoverFrom(words, pw, &mnemonikey.KeyOptions{Subkeys: subset(0)})
	sameKey(m, r)
	vx.Assert(r.CreatedAt().Unix() == int64(cr), "the creation time is the same")
	vx.Reached("ok")
}

// C10_Subsets: every subset of the subkey types, listed in any order and with repetitions, and no list.
func C10_Subsets() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	t, cr := symCreation()
	ei, ai, si := vx.U16("ei"), vx.U16("ai"), vx.U16("si")
	k := vx.Choice("which", 9)
	list := subset(k)
	if k < 8 && len(list) > 1 {
		switch vx.Choice("shape", 3) {
		case 1: // reversed
			rev := []mnemonikey.SubkeyType{}
			for i := len(list) - 1; i >= 0; i-- {
				rev = append(rev, list[i])
			}
			list = rev
		case 2: // repeated
			list = append(list, list[0])
		}
	}
	opts := &mnemonikey.KeyOptions{Name: "n", EncryptionSubkeyIndex: ei, AuthenticationSubkeyIndex: ai, SigningSubkeyIndex: si, Subkeys: list}
	m := mustNew(sv, t, opts)
	ks := newKeySpec(seedBytes(sv), cr, opts)
	types := m.SubkeyTypes()
	vx.Assert(len(types) == len(ks.subs), "exactly the requested subkeys are reported")
	for i := range types {
		vx.Assert(string(types[i]) == ks.subs[i].kind, "the reported types are the requested ones")
	}
	for _, kind := range kinds {
		f := m.SubkeyFingerprint(mnemonikey.SubkeyType(kind))
		if wants(opts, kind) {
			want := specSubkey(specRoot(seedBytes(sv), cr), cr, kind, indexOf(opts, kind))
			vx.Assert(vx.EqBytes(f, want.fpr), "the fingerprint is that of the requested subkey")
		} else {
			vx.Assert(len(f) == 0, "no fingerprint for a subkey that was not requested")
		}
	}
	vx.Assert(m.SubkeyFingerprint("nonsense") == nil, "no fingerprint for an unknown type")
	vx.Assert(vx.EqBytes(m.Fingerprint(), ks.master.fpr), "the master key does not depend on the selection")
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ks.checkExport(out, false, true, false, openPlain)
	vx.Reached("ok")
}

// C10_Independent: two key sets from the same seed with different selections and indices share everything that is common.
func C10_Independent() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	t, _ := symCreation()
	a := &mnemonikey.KeyOptions{EncryptionSubkeyIndex: vx.U16("ei"), AuthenticationSubkeyIndex: vx.U16("ai"), SigningSubkeyIndex: vx.U16("si")}
	b := *a
	ch := vx.Choice("changed", 4)
	switch ch {
	case 0:
		b.EncryptionSubkeyIndex = vx.U16("other")
	case 1:
		b.AuthenticationSubkeyIndex = vx.U16("other")
	case 2:
		b.SigningSubkeyIndex = vx.U16("other")
	case 3:
		b.Subkeys = subset(vx.Choice("sub", 8))
		b.Name, b.TTL = "another", time.Hour
	}
	ma, mb := mustNew(sv, t, a), mustNew(sv, t, &b)
	vx.Assert(vx.EqBytes(ma.Fingerprint(), mb.Fingerprint()), "the master key is the same")
	for i, k := range allTypes() {
		fa, fb := ma.SubkeyFingerprint(k), mb.SubkeyFingerprint(k)
		if ch == 3 {
			vx.Assert(len(fb) == 0 || vx.EqBytes(fa, fb), "a selected subkey is the same")
		} else if i != ch {
			vx.Assert(vx.EqBytes(fa, fb), "the other subkeys are the same")
		}
	}
	vx.Reached("ok")
}

// C10_Separation: different types or indices feed different inputs to the derivation.
func C10_Separation() {
	k1, k2 := kinds[vx.Choice("k1", 3)], kinds[vx.Choice("k2", 3)]
	i1, i2 := vx.U16("i1"), vx.U16("i2")
	vx.Assume(vx.Or(k1 != k2, i1 != i2))
	x1, x2 := subkeyInfo(k1, i1), subkeyInfo(k2, i2)
	vx.Assert(!vx.EqBytes(x1, x2), "the derivation inputs differ")
	vx.Assert(!vx.EqBytes(x1, []byte(masterInfo)), "and differ from the master key's")
	vx.Reached("ok")
}

// C11_Accept: every instant between the years 1 and 9999, every lifetime.
func C11_Accept() {
	sec := vx.I64("sec")
	vx.Assume(sec >= -62135596800)
	vx.Assume(sec <= 253402300799)
	nsec := symNsec()
	ttl := time.Duration(vx.I64("ttl"))
	t := zoned(sec, nsec)
	sv := vx.Big("seed", 128)
	m, err := mnemonikey.New(mustSeed(sv), t, &mnemonikey.KeyOptions{TTL: ttl, Subkeys: subset(0)})
	early := sec < epochUnix
	late := vx.Or(sec > epochUnix+maxOffset, vx.And(sec == epochUnix+maxOffset, nsec > 0))
	badTTL := ttl < 0
	hugeTTL := vx.And(ttl > 0, vx.Or(ttl < time.Second, ttl/time.Second > 1<<32-1))
	bad := vx.Or(vx.Or(early, late), vx.Or(badTTL, hugeTTL))
	vx.Assert(vx.Iff(err != nil, bad), "a key is created exactly when the time and lifetime are acceptable")
	vx.Assert((m == nil) == (err != nil), "a key or an error")
	if err != nil {
		vx.Assert(!errors.Is(err, mnemonikey.ErrCreationTooEarly) || early, "ErrCreationTooEarly is reported for times before 2023")
		vx.Assert(!errors.Is(err, mnemonikey.ErrCreationTooLate) || late, "ErrCreationTooLate is reported for late times")
		vx.Assert(!errors.Is(err, mnemonikey.ErrTTLInvalid) || badTTL, "ErrTTLInvalid is reported for negative lifetimes")
		vx.Assert(errors.Is(err, mnemonikey.ErrCreationTooEarly) || errors.Is(err, mnemonikey.ErrCreationTooLate) || errors.Is(err, mnemonikey.ErrTTLInvalid) || hugeTTL, "a documented error")
		vx.Reached("refused")
		return
	}
	vx.Assert(m.CreatedAt().Unix() == sec && m.CreatedAt().Nanosecond() == 0, "the creation time is the whole second")
	vx.Reached("created")
}

// C11_Everywhere: the accepted time is the one in the packets and in the phrase.
func C11_Everywhere() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	off := vx.U31("offset")
	nsec := symNsec()
	vx.Assume(vx.Or(off < 1<<31-1, nsec == 0))
	t := zoned(epochUnix+int64(off), nsec)
	opts := &mnemonikey.KeyOptions{Name: "n", Subkeys: subset([]int{0, 8}[vx.Choice("which", 2)])}
	m := mustNew(sv, t, opts)
	cr := uint32(epochUnix) + off
	ks := newKeySpec(seedBytes(sv), cr, opts)
	vx.Assert(vx.EqBytes(m.Fingerprint(), ks.master.fpr), "the fingerprint is that of the whole second")
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ks.checkExport(out, false, true, true, openPlain)
	words, err := m.EncodeMnemonicPlaintext()
	vx.Assert(err == nil, "the phrase is encoded")
	vx.Assert(sameWords(words, wordsOf(specPlain(sv, off))), "the phrase holds the whole second")
	vx.Reached("ok")
}

// C12_Expiry: every representable lifetime in whole seconds, and none.
func C12_Expiry() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	t, cr := symCreation()
	ttl := vx.U32("ttl")
	opts := &mnemonikey.KeyOptions{Name: "n", TTL: time.Duration(ttl) * time.Second, Subkeys: subset([]int{0, 1, 2, 4, 8}[vx.Choice("which", 5)])}
	m := mustNew(sv, t, opts)
	ks := newKeySpec(seedBytes(sv), cr, opts)
	if ttl == 0 {
		vx.Assert(m.Expiry().IsZero(), "no expiry is reported without a lifetime")
		vx.Reached("none")
	} else {
		vx.Assert(m.Expiry().Unix() == int64(cr)+int64(ttl) && m.Expiry().Nanosecond() == 0, "the reported expiry is creation plus the lifetime")
		vx.Reached("expires")
	}
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ks.checkExport(out, false, true, true, openPlain)
	out, err = m.EncodeSubkeysPGP(nil, true)
	vx.Assert(err == nil, "the subkey export succeeds")
	ks.checkExport(out, true, true, true, openPlain)
}

// C12_Refuse: every lifetime at all, in nanoseconds: an accepted one is exported as itself, rounded down to whole seconds.
func C12_Refuse() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	t, _ := symCreation()
	ttl := time.Duration(vx.I64("ttl"))
	m, err := mnemonikey.New(mustSeed(sv), t, &mnemonikey.KeyOptions{Name: "n", TTL: ttl, Subkeys: subset(0)})
	if err != nil {
		vx.Assert(vx.Or(ttl < time.Second, ttl/time.Second > 1<<32-1), "a representable lifetime is accepted")
		vx.Assert(ttl != 0, "no lifetime is always accepted")
		vx.Reached("refused")
		return
	}
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ps, ok := parsePackets(out)
	vx.Assert(ok && len(ps) == 3 && ps[2].tag == 2, "master key, user ID and self-certification")
	s, ok := parseSig(ps[2].body)
	vx.Assert(ok, "the self-certification is a signature")
	if ttl == 0 {
		_, n := find(s.hashed, 9)
		vx.Assert(n == 0, "no key expiration without a lifetime")
		return
	}
	b, n := find(s.hashed, 9)
	vx.Assert(n == 1 && len(b) == 4, "one key expiration")
	secs := int64(b[0])<<24 | int64(b[1])<<16 | int64(b[2])<<8 | int64(b[3])
	vx.Assert(vx.And(secs == int64(ttl/time.Second), secs != 0), "the exported lifetime is the requested one")
	vx.Reached("accepted")
}

// C12_NilOptions: nil options mean no expiry.
func C12_NilOptions() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	t, cr := symCreation()
	m := mustNew(sv, t, nil)
	vx.Assert(m.Expiry().IsZero(), "no expiry")
	ks := newKeySpec(seedBytes(sv), cr, &mnemonikey.KeyOptions{})
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ks.checkExport(out, false, true, true, openPlain)
	vx.Reached("ok")
}
