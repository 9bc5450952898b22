package h

import (
	"math/big"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

func symCreation() (time.Time, uint32) {
	off := vx.U31("offset")
	return vx.Time(epochUnix+int64(off), 0), uint32(epochUnix) + off
}

func allTypes() []mnemonikey.SubkeyType {
	return []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeEncryption, mnemonikey.SubkeyTypeAuthentication, mnemonikey.SubkeyTypeSigning}
}

// subset k of the subkey types; 8 means no list at all.
func subset(k int) []mnemonikey.SubkeyType {
	if k >= 8 {
		return nil
	}
	out := []mnemonikey.SubkeyType{}
	for i, t := range allTypes() {
		if k>>i&1 == 1 {
			out = append(out, t)
		}
	}
	return out
}

func mustNew(sv *big.Int, t time.Time, opts *mnemonikey.KeyOptions) *mnemonikey.Mnemonikey {
	m, err := mnemonikey.New(mustSeed(sv), t, opts)
	vx.Assert(err == nil && m != nil, "the key is created")
	return m
}

func seedBytes(sv *big.Int) []byte { return sv.FillBytes(make([]byte, 16)) }

// C08_Derivation: all seeds, creation times and subkey indices, one key at a time and all together.
func C08_Derivation() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	t, cr := symCreation()
	opts := &mnemonikey.KeyOptions{
		EncryptionSubkeyIndex:     vx.U16("ei"),
		AuthenticationSubkeyIndex: vx.U16("ai"),
		SigningSubkeyIndex:        vx.U16("si"),
		Subkeys:                   subset([]int{0, 1, 2, 4, 8}[vx.Choice("which", 5)]),
	}
	m := mustNew(sv, t, opts)
	ks := newKeySpec(seedBytes(sv), cr, opts)
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ks.checkExport(out, false, true, false, openPlain)
	vx.Assert(vx.EqBytes(m.Fingerprint(), ks.master.fpr), "the master fingerprint is that of the prescribed key")
	for _, k := range ks.subs {
		vx.Assert(vx.EqBytes(m.SubkeyFingerprint(mnemonikey.SubkeyType(k.kind)), k.fpr), "the subkey fingerprint is that of the prescribed key")
	}
	vx.Reached("ok")
}
