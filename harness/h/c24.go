package h

import (
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

// selection is a -only list with its meaning.
type selection struct {
	arg     string
	ok      bool
	master  bool
	subkeys []mnemonikey.SubkeyType
}

func selections() []selection {
	const e, s, a = mnemonikey.SubkeyTypeEncryption, mnemonikey.SubkeyTypeSigning, mnemonikey.SubkeyTypeAuthentication
	T := func(t ...mnemonikey.SubkeyType) []mnemonikey.SubkeyType {
		return append([]mnemonikey.SubkeyType{}, t...)
	}
	return []selection{
		{"", true, true, nil},
		{"master", true, true, T()},
		{"signing", true, false, T(s)},
		{"master,authentication", true, true, T(a)},
		{"encryption,signing", true, false, T(e, s)},
		{"authentication,encryption,signing", true, false, T(a, e, s)},
		{"encryption,master", true, true, T(e)},
		{"authentication", true, false, T(a)},
		{"encryption", true, false, T(e)},
		{"signing,encryption,master,authentication", true, true, T(a, e, s)},
		{"signing,signing", true, false, T(s)},
		{"master,master", true, true, T()},
		// refused
		{"master,foo", false, false, nil},
		{"Master", false, false, nil},
		{"signing,", false, false, nil},
		{",", false, false, nil},
		{"signing authentication", false, false, nil},
		{"encrypt", false, false, nil},
	}
}

// exported is what the library exports for that selection.
func exported(m *mnemonikey.Mnemonikey, master, cert bool) string {
	if master {
		return export(m, nil)
	}
	s, err := m.EncodeSubkeysPGPArmor(nil, cert)
	vx.Assert(err == nil, "the subkeys are exported")
	return s
}

func newKey(seed *mnemonikey.Seed, creation int64, opts *mnemonikey.KeyOptions) *mnemonikey.Mnemonikey {
	m, err := mnemonikey.New(seed, vx.Time(creation, 0), opts)
	vx.Assert(err == nil, "accepted")
	return m
}

// C24_Phrase: all seeds and creation times.
func C24_Phrase() {
	vx.Generic(true)
	words, err := mnemonikey.EncodeMnemonicPlaintext(mustSeed(vx.Big("seed", 128)), vx.U31("offset"))
	vx.Assert(err == nil, "encoded")
	dec, err := mnemonikey.DecodeMnemonic(words)
	vx.Assert(err == nil, "decoded")
	seed, err := dec.Seed()
	vx.Assert(err == nil, "seed")
	args := []string{"recover", "-in-word-file", wordFile, "-name", "Al", "-email", "a@b.c", "-only", "master,encryption"}
	r := vx.RunCLI(vx.Run{Args: args, Files: []vx.File{asFile(words)}})
	succeeded(r, "recover")
	m := newKey(seed, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: "Al", Email: "a@b.c", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeEncryption}})
	vx.Assert(sameText(r.Stdout, export(m, nil)), "the key of that phrase with that user ID")
	vx.Reached("ok")
}

// C24_Only: the selections above with each form of -self-cert.
func C24_Only() {
	vx.Generic(true)
	sel := selections()[vx.Choice("only", len(selections()))]
	args := []string{"recover", "-in-word-file", wordFile, "-only", sel.arg}
	if sel.arg == "" {
		args = args[:3]
	}
	cert := true
	switch vx.Choice("cert", 4) {
	case 1:
		args = append(args, "-self-cert")
	case 2:
		args = append(args, "-self-cert=true")
	case 3:
		args = append(args, "-self-cert=false")
		cert = false
	}
	words, seed, off := fixedPhrase()
	r := vx.RunCLI(vx.Run{Args: args, Files: []vx.File{asFile(words)}})
	if !sel.ok {
		refused(r, "an unknown key type")
		vx.Reached("refused")
		return
	}
	succeeded(r, "recover")
	m := newKey(seed, epochUnix+int64(off), &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: sel.subkeys})
	vx.Assert(sameText(r.Stdout, exported(m, sel.master, cert)), "exactly the selected keys")
	vx.Reached("ok")
}

// C24_Index: decimal indices of 1 to 6 digits and of 20 digits.
func C24_Index() {
	vx.Generic(true)
	kinds := []string{"enc", "auth", "sig"}
	which := vx.Choice("kind", 3)
	n := []int{1, 2, 5, 6, 20, 3, 4, 10, 21}[vx.Choice("digits", pickN(5, 9))]
	text := vx.Str("index", n)
	digits := true
	for i := 0; i < n; i++ {
		digits = vx.And(digits, vx.And(text[i] >= '0', text[i] <= '9'))
	}
	vx.Assume(digits)
	if n > 1 {
		vx.Assume(text[0] != '0')
	}
	words, seed, off := fixedPhrase()
	types := []string{"encryption", "authentication", "signing"}
	args := []string{"recover", "-in-word-file", wordFile, "-only", types[which], "-" + kinds[which] + "-index", text}
	other := (which + 1) % 3
	args = append(args, "-"+kinds[other]+"-index=7")
	r := vx.RunCLI(vx.Run{Args: args, Files: []vx.File{asFile(words)}})
	var v uint64
	for i := 0; i < n && i < 10; i++ {
		v = v*10 + uint64(text[i]-'0')
	}
	if n > 5 || v > 65535 {
		refused(r, "an index above 65535")
		vx.Reached("refused")
		return
	}
	succeeded(r, "recover")
	opts := &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyType(types[which])}}
	ix := []*uint16{&opts.EncryptionSubkeyIndex, &opts.AuthenticationSubkeyIndex, &opts.SigningSubkeyIndex}
	*ix[which] = uint16(v)
	*ix[other] = 7
	vx.Assert(sameText(r.Stdout, exported(newKey(seed, epochUnix+int64(off), opts), false, true)), "the subkey with that index")
	vx.Reached("ok")
}

func pickN(quick, thorough int) int {
	if vx.Thorough() {
		return thorough
	}
	return quick
}

// C24_OnlyAny: -only arguments of up to 6 (quick) or 10 (thorough) arbitrary bytes.
func C24_OnlyAny() {
	vx.Generic(true)
	arg := vx.Str("only", 1+vx.Choice("len", pickN(6, 10)))
	vx.Assume(noNUL(arg))
	words, seed, off := fixedPhrase()
	r := vx.RunCLI(vx.Run{Args: []string{"recover", "-in-word-file", wordFile, "-only=" + arg}, Files: []vx.File{asFile(words)}})
	known := vx.Or(vx.Or(arg == "master", arg == "signing"), vx.Or(arg == "encryption", arg == "authentication"))
	if !known {
		refused(r, "an unknown key type")
		vx.Reached("refused")
		return
	}
	succeeded(r, "recover")
	opts := &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{}}
	master := arg == "master"
	if !master {
		opts.Subkeys = append(opts.Subkeys, mnemonikey.SubkeyType(arg))
	}
	vx.Assert(sameText(r.Stdout, exported(newKey(seed, epochUnix+int64(off), opts), master, true)), "exactly the selected keys")
	vx.Reached("ok")
}

// longPassword has 150 (quick) or 1200 bytes, of which the first and last are symbolic printable characters.
func longPassword(label string) string {
	p := make([]byte, pickN(150, 1200))
	for i := range p {
		p[i] = byte('A' + i%26)
	}
	s := vx.Bytes(label, 4)
	for i := range s {
		vx.Assume(vx.And(s[i] >= 0x21, s[i] <= 0x7e))
	}
	copy(p, s[:2])
	copy(p[len(p)-2:], s[2:])
	return string(p)
}

// shortPassword has n symbolic characters, among them spaces and bytes outside ASCII.
func shortPassword(label string, n int) string {
	s := vx.Bytes(label, n)
	for i := range s {
		vx.Assume(vx.And(s[i] >= 0x20, s[i] != 0x7f))
	}
	return string(s)
}

func typed(pw string) vx.Item { return vx.Item{Data: pw + "\r"} }

// checkProtected: the armored text is exactly the export for opts, protected with pw.
func checkProtected(out string, seed *mnemonikey.Seed, creation uint32, opts *mnemonikey.KeyOptions, pw string, master, cert bool) {
	bin, ok := unarmor(vx.Trim(out) + "\n")
	vx.Assert(ok, "one armored block")
	ks := newKeySpec(seed.Bytes(), creation, opts)
	ks.checkExport(bin, !master, master || cert, true, openProtected([]byte(pw)))
}

// C24_Protect: -encrypt-keys with a password typed twice.
func C24_Protect() {
	vx.Generic(true)
	pw := longPassword("password")
	words, seed, off := fixedPhrase()
	args := []string{"recover", "-in-word-file", wordFile, "-encrypt-keys", "-only"}
	opts := &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}}
	how := vx.Choice("selected", pickN(3, 4))
	master, cert := how == 0 || how == 3, how < 2
	if master {
		args = append(args, "master")
		opts.Subkeys = []mnemonikey.SubkeyType{}
	} else {
		args = append(args, "signing")
	}
	if !cert {
		args = append(args, "-self-cert=false")
	}
	r := vx.RunCLI(vx.Run{Args: args, Files: []vx.File{asFile(words)}, TTY: true, Width: 80, Stdin: []vx.Item{typed(pw), typed(pw)}})
	succeeded(r, "recover")
	checkProtected(r.Stdout, seed, uint32(epochUnix)+off, opts, pw, master, cert)
	vx.Reached("ok")
}

// C24_Encrypted: encrypted phrases; wrong passwords are asked for again.
func C24_Encrypted() {
	vx.Generic(true)
	pw := shortPassword("password", 3)
	seed := mustSeed(hexInt(aSeed))
	words, err := mnemonikey.EncodeMnemonicEncrypted(seed, aOffset, []byte(pw), &fixedReader{data: vx.Bytes("salt", 8)})
	vx.Assert(err == nil, "encoded")
	dec, err := mnemonikey.DecodeMnemonic(words)
	vx.Assert(err == nil, "decoded")
	run := vx.Run{Args: []string{"recover", "-in-word-file", wordFile, "-only", "signing"}, Files: []vx.File{asFile(words)}, TTY: true, Width: 80}
	wrong := vx.Choice("wrong", 3)
	for i := 0; i < wrong; i++ {
		bad := shortPassword("wrong", 2)
		_, err := dec.DecryptSeed([]byte(bad))
		vx.Assume(err != nil)
		run.Stdin = append(run.Stdin, typed(bad))
	}
	last := vx.Choice("last", 2) == 1
	if last {
		run.Stdin = append(run.Stdin, typed(pw))
	}
	r := vx.RunCLI(run)
	if !last {
		refused(r, "no correct password")
		vx.Reached("refused")
		return
	}
	s2, err := dec.DecryptSeed([]byte(pw))
	vx.Assert(err == nil, "decrypted")
	succeeded(r, "recover")
	m := newKey(s2, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}})
	vx.Assert(sameText(r.Stdout, exported(m, false, true)), "the key of the encrypted phrase")
	vx.Reached("ok")
}

// C24_AnyWords: 14 arbitrary words; recover works exactly when they are a phrase.
func C24_AnyWords() {
	vx.Generic(true)
	n := []int{14, 13, 15, 16}[vx.Choice("n", 4)]
	words := make([]string, n)
	for i := range words {
		words[i] = "abandon"
	}
	words[0] = symWord("word")
	words[1] = symWord("word")
	words[n-1] = symWord("word")
	dec, err := mnemonikey.DecodeMnemonic(words)
	vx.Assume(err != nil || !dec.Encrypted())
	r := vx.RunCLI(vx.Run{Args: []string{"recover", "-in-word-file", wordFile, "-only", "signing"}, Files: []vx.File{asFile(words)}})
	if err != nil {
		refused(r, "a bad phrase")
		vx.Reached("refused")
		return
	}
	seed, err := dec.Seed()
	vx.Assert(err == nil, "seed")
	succeeded(r, "recover")
	m := newKey(seed, dec.Creation().Unix(), &mnemonikey.KeyOptions{Name: "anonymous", Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}})
	vx.Assert(sameText(r.Stdout, exported(m, false, true)), "the key of that phrase")
	vx.Reached("ok")
}

// userText is a name or email of n bytes without white space at its ends.
func userText(label string, n int) string {
	s := vx.Bytes(label, n)
	for i := range s {
		ok := vx.And(s[i] > ' ', s[i] < 0x7f)
		if i > 0 && i < n-1 {
			ok = vx.And(s[i] >= ' ', s[i] < 0x7f)
		}
		vx.Assume(ok)
	}
	return string(s)
}

// C24_UserID: any printable name and email of 0 to 4 bytes.
func C24_UserID() {
	vx.Generic(true)
	name, email := userText("name", []int{4, 1, 0, 2}[vx.Choice("nlen", pickN(3, 4))]), userText("email", []int{3, 0, 1}[vx.Choice("elen", pickN(2, 3))])
	words, seed, off := fixedPhrase()
	r := vx.RunCLI(vx.Run{Args: []string{"recover", "-in-word-file", wordFile, "-only", "signing", "-name=" + name, "-email=" + email}, Files: []vx.File{asFile(words)}})
	m := newKey(seed, epochUnix+int64(off), &mnemonikey.KeyOptions{Name: name, Email: email, Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}})
	if name == "" && email == "" && r.Exit != 0 {
		refused(r, "no user ID")
		return
	}
	succeeded(r, "recover")
	vx.Assert(sameText(r.Stdout, exported(m, false, true)), "the key with exactly that user ID")
	vx.Reached("ok")
}

// C24_Combined: all combinations of name, lifetime, selection, self-certification, index, -verbose and where the words come from.
func C24_Combined() {
	vx.Generic(true)
	// quick: an orthogonal selection of them
	var bit [7]bool
	for i := 0; i < pickN(4, 7); i++ {
		bit[i] = vx.Choice("option", 2) == 1
	}
	if !vx.Thorough() {
		bit[4], bit[5], bit[6] = bit[0] != bit[1], bit[2] != bit[3], bit[1] != bit[2]
	}
	words, seed, off := fixedPhrase()
	run := vx.Run{Args: []string{"recover"}}
	add := func(a ...string) { run.Args = append(run.Args, a...) }
	opts := &mnemonikey.KeyOptions{Name: "anonymous"}
	if bit[0] {
		add("-name", "Bob", "-email", "b@c.d")
		opts.Name, opts.Email = "Bob", "b@c.d"
	}
	if bit[1] {
		add("-ttl", "3w")
		opts.TTL = 3 * 7 * 24 * time.Hour
	}
	sel := selections()[[]int{3, 2, 0, 4}[vx.Choice("only", pickN(3, 4))]]
	if sel.arg != "" {
		add("-only", sel.arg)
	}
	opts.Subkeys = sel.subkeys
	cert := !bit[2]
	if !cert {
		add("-self-cert=false")
	}
	if bit[3] {
		add("-sig-index", "3", "-auth-index=300", "-enc-index", "9")
		opts.SigningSubkeyIndex, opts.AuthenticationSubkeyIndex, opts.EncryptionSubkeyIndex = 3, 300, 9
	}
	if bit[4] {
		add("-verbose")
	}
	if bit[5] {
		run.Stdin = []vx.Item{{Data: strings.Join(words, "\n") + "\n"}}
		if bit[6] {
			add("-simple")
		}
	} else {
		add("-in-word-file", wordFile)
		run.Files = []vx.File{asFile(words)}
	}
	r := vx.RunCLI(run)
	succeeded(r, "recover")
	vx.Assert(sameText(r.Stdout, exported(newKey(seed, epochUnix+int64(off), opts), sel.master, cert)), "exactly the selected keys")
	vx.Reached("ok")
}

// C24_Full: standard output cannot be written.
func C24_Full() {
	vx.Generic(true)
	words, _, _ := fixedPhrase()
	args := []string{"recover", "-in-word-file", wordFile, "-only", []string{"signing", "master", "encryption,authentication"}[vx.Choice("only", 3)]}
	if vx.Choice("verbose", 2) == 1 {
		args = append(args, "-verbose")
	}
	refused(vx.RunCLI(vx.Run{Args: args, Files: []vx.File{asFile(words)}, FullStdout: true}), "the key cannot be written")
	vx.Reached("refused")
}
