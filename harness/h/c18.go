package h

import (
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// picker returns the function which makes the discrete choices of a harness: with rows 0 all combinations,
// otherwise a number of rows which together contain every value of every choice.
func picker(rows int) func(label string, n int) int {
	if rows == 0 {
		return vx.Choice
	}
	row := vx.Choice("row", rows)
	k := 0
	return func(label string, n int) int {
		k++
		return (row*(k|1) + row/n*k + k) % n
	}
}

// symOpts draws key options: user ID parts of several lengths, a lifetime, indices and subkeys.
func symOpts(which []int) *mnemonikey.KeyOptions { return pickOpts(vx.Choice, which) }

func pickOpts(pick func(string, int) int, which []int) *mnemonikey.KeyOptions {
	o := &mnemonikey.KeyOptions{
		EncryptionSubkeyIndex:     vx.U16("ei"),
		AuthenticationSubkeyIndex: vx.U16("ai"),
		SigningSubkeyIndex:        vx.U16("si"),
		Subkeys:                   subset(which[pick("which", len(which))]),
	}
	switch pick("uid", 4) {
	case 0:
		o.Name, o.Email = vx.Str("name", 5), vx.Str("email", 7)
	case 1:
		o.Name = vx.Str("name", 9)
	case 2:
		o.Email = vx.Str("email", 9)
	}
	if pick("expires", 2) == 1 {
		s := vx.U32("ttl")
		vx.Assume(s > 0)
		o.TTL = time.Duration(s) * time.Second
	}
	return o
}

// C18_Signatures: every signature of a key set.
func C18_Signatures() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	t, cr := symCreation()
	opts := symOpts([]int{8, 4, 1, 2})
	m := mustNew(sv, t, opts)
	ks := newKeySpec(seedBytes(sv), cr, opts)
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ks.checkExport(out, false, true, true, openPlain)
	vx.Reached("ok")
}

// C18_ShortIntegers: the same when one of the first signature integers has leading zero bytes.
func C18_ShortIntegers() {
	vx.Generic(true)
	vx.ShortAt(vx.Choice("at", 12), vx.Choice("two", 2) == 1)
	sv := vx.Big("seed", 128)
	t, cr := symCreation()
	opts := &mnemonikey.KeyOptions{Name: "n", Subkeys: subset(4)}
	m := mustNew(sv, t, opts)
	ks := newKeySpec(seedBytes(sv), cr, opts)
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ks.checkExport(out, false, true, true, openPlain)
	vx.Reached("ok")
}

// C18_LongUserID: user IDs whose length needs other header forms.
func C18_LongUserID() {
	vx.Generic(true)
	sv := vx.Big("seed", 128)
	t, cr := symCreation()
	ls := []int{191, 192, 300, 8384}
	n := ls[vx.Choice("len", len(ls))]
	name := make([]byte, n)
	for i := range name {
		name[i] = byte('a' + i%23)
	}
	copy(name, vx.Bytes("name", 8))
	opts := &mnemonikey.KeyOptions{Name: string(name), Subkeys: subset(0)}
	m := mustNew(sv, t, opts)
	ks := newKeySpec(seedBytes(sv), cr, opts)
	out, err := m.EncodePGP(nil)
	vx.Assert(err == nil, "the export succeeds")
	ks.checkExport(out, false, true, true, openPlain)
	vx.Reached("ok")
}
