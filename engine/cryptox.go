package main

import (
	"crypto/aes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"hash"
	"hash/crc32"
	"math/big"
	mrand "math/rand"
	"strings"
)

// Cryptographic primitives are uninterpreted functions of their exact inputs (computed natively
// when every input is concrete).

func (m *Machine) cat(b []*Term) *Term {
	if len(b) == 0 {
		return m.c.Const(8, 0) // the length is part of the function name
	}
	return m.c.Concat(b...)
}

func (m *Machine) splitBytes(t *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		hi := t.w - 1 - 8*i
		out[i] = m.c.Extract(t, hi, hi-7)
	}
	return out
}

func (m *Machine) ufBytes(name string, n int, args ...*Term) []*Term {
	return m.splitBytes(m.app(name, 8*n, args...), n)
}

func (m *Machine) constBytes(b []byte) []*Term {
	out := make([]*Term, len(b))
	for i := range b {
		out[i] = m.byteT[b[i]]
	}
	return out
}

// generic constrains the first byte of a value that ends up as a multiprecision integer.
func (m *Machine) generic(b []*Term) {
	e := m.path.env
	if !e.generic {
		return
	}
	key := m.cat(b)
	if e.genSeen[key] {
		return
	}
	e.genSeen[key] = true
	j := e.genCount
	e.genCount++
	if b[0].isConst() {
		return
	}
	if e.shortAt == j {
		m.fact(m.c.Eq(b[0], m.byteT[0]))
		if e.shortTwo {
			m.fact(m.c.Eq(b[1], m.byteT[0]))
			m.fact(m.c.BNot(m.c.Eq(b[2], m.byteT[0])))
		} else {
			m.fact(m.c.BNot(m.c.Eq(b[1], m.byteT[0])))
		}
		return
	}
	m.path.notes["derived keys and signature halves: first byte non-zero unless the harness selects a short one"] = true
	m.fact(m.c.BNot(m.c.Eq(b[0], m.byteT[0])))
}

// ---------- hashes ----------

type hrun struct {
	b []*Term
	n int
}

type HashVal struct {
	alg  string
	hm   bool
	key  []*Term
	runs []hrun
	tot  int
	base bool
}

type halg struct {
	size, block int
	mk          func() hash.Hash
}

var halgs = map[string]halg{
	"sha1":       {20, 64, sha1.New},
	"sha224":     {28, 64, sha256.New224},
	"sha256":     {32, 64, sha256.New},
	"sha384":     {48, 128, sha512.New384},
	"sha512":     {64, 128, sha512.New},
	"sha512_224": {28, 128, sha512.New512_224},
	"sha512_256": {32, 128, sha512.New512_256},
}

func (h *HashVal) clone() *HashVal {
	n := *h
	n.runs = append([]hrun(nil), h.runs...)
	return &n
}

func (m *Machine) newHash(alg string) *Value {
	p := new(Value)
	*p = &HashVal{alg: alg, base: m.inBase}
	return p
}

func (m *Machine) hashOf(v Value) (*Value, *HashVal) {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.unsupported("hash method on %T", v)
	}
	h, ok := (*p).(*HashVal)
	if !ok {
		m.unsupported("hash state of unknown origin")
	}
	return p, h
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *Machine) hashWrite(v Value, b []*Term) {
	p, h := m.hashOf(v)
	if len(b) == 0 {
		return
	}
	if h.base && !m.inBase {
		h = h.clone()
		h.base = false
		m.set(p, h)
	}
	h.tot += len(b)
	if k := len(h.runs) - 1; k >= 0 && sameTerms(h.runs[k].b, b) {
		h.runs[k].n++
		return
	}
	h.runs = append(h.runs, hrun{append([]*Term(nil), b...), 1})
}

const flatMax = 20000

func (h *HashVal) flat() []*Term {
	out := make([]*Term, 0, h.tot)
	for _, r := range h.runs {
		for i := 0; i < r.n; i++ {
			out = append(out, r.b...)
		}
	}
	return out
}

// periodic finds the shortest block whose repetition (cut at tot bytes) is the message.
func (h *HashVal) periodic() ([]*Term, bool) {
	if len(h.runs) == 0 {
		return nil, false
	}
	// candidate period: the block of the longest run, starting at the message start
	p := h.runs[0].b
	at := 0
	for _, r := range h.runs {
		// within a run with many repetitions it suffices to compare until phases repeat
		L := len(r.b)
		total := L * r.n
		lim := total
		if l := lcm(L, len(p)); l < lim {
			lim = l
		}
		for i := 0; i < lim; i++ {
			if r.b[i%L] != p[(at+i)%len(p)] {
				return nil, false
			}
		}
		at += total
	}
	for d := 1; d <= len(p); d++ {
		ok := len(p)%d == 0
		for i := d; ok && i < len(p); i++ {
			if p[i] != p[i-d] {
				ok = false
			}
		}
		if ok {
			return p[:d], true
		}
	}
	return p, true
}

func lcm(a, b int) int {
	x, y := a, b
	for y != 0 {
		x, y = y, x%y
	}
	return a / x * b
}

func (m *Machine) hashSum(h *HashVal) []*Term {
	al := halgs[h.alg]
	conc := true
	for _, r := range h.runs {
		if _, ok := m.concBytes(r.b); !ok {
			conc = false
		}
	}
	var kb []byte
	if h.hm {
		k, ok := m.concBytes(h.key)
		conc = conc && ok
		kb = k
	}
	if conc {
		var nh hash.Hash
		if h.hm {
			nh = hmac.New(al.mk, kb)
		} else {
			nh = al.mk()
		}
		for _, r := range h.runs {
			b, _ := m.concBytes(r.b)
			if r.n > 64 && len(b) < 4096 {
				// batch
				rep := 4096 / len(b)
				big := []byte(strings.Repeat(string(b), rep))
				for i := 0; i < r.n/rep; i++ {
					nh.Write(big)
				}
				for i := 0; i < r.n%rep; i++ {
					nh.Write(b)
				}
				continue
			}
			for i := 0; i < r.n; i++ {
				nh.Write(b)
			}
		}
		out := m.constBytes(nh.Sum(nil))
		if h.hm {
			m.native(fmt.Sprintf("hmac_%s_k%d_m%d", h.alg, len(h.key), h.tot), m.cat(out), m.cat(h.key), m.cat(h.flat()))
		} else if h.tot <= flatMax {
			m.native(fmt.Sprintf("%s_m%d", h.alg, h.tot), m.cat(out), m.cat(h.flat()))
		} else if p, ok := h.periodic(); ok {
			m.native(fmt.Sprintf("%s_rep%d_of%d", h.alg, h.tot, len(p)), m.cat(out), m.cat(p))
		}
		return out
	}
	if m.inBase {
		m.unsupported("symbolic hash in initialisation")
	}
	if h.hm {
		if h.tot > flatMax {
			m.unsupported("HMAC of %d symbolic bytes", h.tot)
		}
		out := m.ufBytes(fmt.Sprintf("hmac_%s_k%d_m%d", h.alg, len(h.key), h.tot), al.size, m.cat(h.key), m.cat(h.flat()))
		m.generic(out)
		return out
	}
	if h.tot <= flatMax {
		return m.ufBytes(fmt.Sprintf("%s_m%d", h.alg, h.tot), al.size, m.cat(h.flat()))
	}
	p, ok := h.periodic()
	if !ok {
		m.unsupported("hash of %d symbolic bytes without a short period", h.tot)
	}
	return m.ufBytes(fmt.Sprintf("%s_rep%d_of%d", h.alg, h.tot, len(p)), al.size, m.cat(p))
}

func (m *Machine) appendBytes(dst Value, b []*Term) Value {
	vals := make([]Value, len(b))
	for i := range b {
		vals[i] = b[i]
	}
	return m.appendVals(m.slc(dst), vals, types.Typ[types.Uint8])
}

func (m *Machine) arrayOf(b []*Term) Value {
	a := make(Array, len(b))
	for i := range b {
		a[i] = b[i]
	}
	return a
}

func (m *Machine) nilErr() Value { return Iface{} }

func regHash(typ string, names ...string) {
	reg(func(m *Machine, a []Value) Value {
		sl := m.slc(a[1])
		if _, h := m.hashOf(a[0]); len(sl) > 0 && len(h.runs) > 0 && (m.inBase || !h.base) {
			// the same block as in the last write
			if r := &h.runs[len(h.runs)-1]; len(r.b) == len(sl) {
				same := true
				for i, v := range sl {
					if t, ok := v.(*Term); !ok || t != r.b[i] {
						same = false
						break
					}
				}
				if same {
					r.n++
					h.tot += len(sl)
					return Tuple{m.c.Const(64, uint64(len(sl))), m.nilErr()}
				}
			}
		}
		b := m.sliceBytes(sl)
		m.hashWrite(a[0], b)
		return Tuple{m.c.Const(64, uint64(len(b))), m.nilErr()}
	}, "("+typ+").Write")
	reg(func(m *Machine, a []Value) Value {
		b := m.strBytes(a[1])
		m.hashWrite(a[0], b)
		return Tuple{m.c.Const(64, uint64(len(b))), m.nilErr()}
	}, "("+typ+").WriteString")
	reg(func(m *Machine, a []Value) Value {
		_, h := m.hashOf(a[0])
		return m.appendBytes(a[1], m.hashSum(h))
	}, "("+typ+").Sum")
	reg(func(m *Machine, a []Value) Value {
		p, h := m.hashOf(a[0])
		m.set(p, &HashVal{alg: h.alg, hm: h.hm, key: h.key})
		return nil
	}, "("+typ+").Reset")
	reg(func(m *Machine, a []Value) Value {
		_, h := m.hashOf(a[0])
		return m.c.Const(64, uint64(halgs[h.alg].size))
	}, "("+typ+").Size")
	reg(func(m *Machine, a []Value) Value {
		_, h := m.hashOf(a[0])
		return m.c.Const(64, uint64(halgs[h.alg].block))
	}, "("+typ+").BlockSize")
}

func init() {
	f := "crypto/internal/fips140/"
	regHash("*" + f + "sha256.Digest")
	regHash("*" + f + "sha512.Digest")
	regHash("*crypto/sha1.digest")
	regHash("*" + f + "hmac.HMAC")
	mk := func(alg string) intrinsic { return func(m *Machine, a []Value) Value { return m.newHash(alg) } }
	reg(mk("sha256"), f+"sha256.New")
	reg(mk("sha224"), f+"sha256.New224")
	reg(mk("sha512"), f+"sha512.New")
	reg(mk("sha384"), f+"sha512.New384")
	reg(mk("sha512_224"), f+"sha512.New512_224")
	reg(mk("sha512_256"), f+"sha512.New512_256")
	reg(func(m *Machine, a []Value) Value {
		dt := types.NewPointer(m.prog.pkgs["crypto/sha1"].Type("digest").Type())
		return Iface{dt, m.newHash("sha1")}
	}, "crypto/sha1.New")
	sum := func(alg string) intrinsic {
		return func(m *Machine, a []Value) Value {
			p := m.newHash(alg)
			m.hashWrite(p, m.sliceBytes(m.slc(a[0])))
			return m.arrayOf(m.hashSum((*p).(*HashVal)))
		}
	}
	reg(sum("sha1"), "crypto/sha1.Sum")
	reg(sum("sha256"), "crypto/sha256.Sum256")
	reg(sum("sha224"), "crypto/sha256.Sum224")
	reg(sum("sha512"), "crypto/sha512.Sum512")
	reg(sum("sha384"), "crypto/sha512.Sum384")
	reg(sum("sha512_224"), "crypto/sha512.Sum512_224")
	reg(sum("sha512_256"), "crypto/sha512.Sum512_256")
	newHMAC := func(m *Machine, a []Value) *Value {
		hv := m.callback(a[0])
		if i, ok := hv.(Iface); ok {
			hv = i.v
		}
		_, h := m.hashOf(hv)
		p := new(Value)
		*p = &HashVal{alg: h.alg, hm: true, key: m.sliceBytes(m.slc(a[1])), base: m.inBase}
		return p
	}
	reg(func(m *Machine, a []Value) Value { return newHMAC(m, a) }, f+"hmac.New")
	reg(func(m *Machine, a []Value) Value {
		return Iface{types.NewPointer(m.prog.pkgs[f+"hmac"].Type("HMAC").Type()), newHMAC(m, a)}
	}, "crypto/hmac.New")
	reg(nop, f+"hmac.MarkAsUsedInKDF", f+".RecordApproved", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved",
		"crypto/internal/boring.Unreachable", "crypto/internal/boring.NotBoringRand", "crypto/internal/fips140.PCT", "crypto/internal/fips140.CAST")
	reg(func(m *Machine, a []Value) Value { return m.c.False }, "crypto/internal/fips140only.Enforced",
		"crypto/internal/fips140/alias.InexactOverlap", "crypto/internal/fips140/alias.AnyOverlap", "crypto/internal/alias.InexactOverlap", "crypto/internal/alias.AnyOverlap",
		"golang.org/x/crypto/internal/alias.InexactOverlap", "golang.org/x/crypto/internal/alias.AnyOverlap")

	// CRC-24 of OpenPGP armor
	crc24 := func(m *Machine, crc *Term, b []*Term) Value {
		if len(b) == 0 {
			return crc
		}
		if cb, ok := m.concBytes(b); ok && crc.isConst() {
			return m.c.Const(32, uint64(crc24Native(uint32(crc.u), cb)))
		}
		if crc.op == OpConcat && len(crc.args) == 2 && crc.args[0].isZero() && crc.args[1].op == OpApp && strings.HasPrefix(crc.args[1].name, "crc24_m") {
			app := crc.args[1]
			b = append(m.splitBytes(app.args[1], app.args[1].w/8), b...)
			crc = app.args[0]
		}
		return m.c.ZExt(m.app(fmt.Sprintf("crc24_m%d", len(b)), 24, crc, m.cat(b)), 32)
	}
	reg(func(m *Machine, a []Value) Value { return crc24(m, m.asTerm(a[0]), m.sliceBytes(m.slc(a[1]))) }, "golang.org/x/crypto/openpgp/armor.crc24")
	reg(func(m *Machine, a []Value) Value {
		return crc24(m, m.c.Const(32, 0xb704ce), m.sliceBytes(m.slc(a[0])))
	}, vxPath+".CRC24")

	// CRC-32
	crcUpd := func(m *Machine, crc *Term, b []*Term) Value {
		if len(b) == 0 {
			return crc
		}
		if cb, ok := m.concBytes(b); ok && crc.isConst() {
			out := m.c.Const(32, uint64(crc32.Update(uint32(crc.u), crc32.IEEETable, cb)))
			if crc.isZero() {
				m.native(fmt.Sprintf("crc32ieee_m%d", len(b)), out, m.cat(b))
			}
			return out
		}
		if crc.op == OpApp && strings.HasPrefix(crc.name, "crc32ieee_m") {
			x := crc.args[0]
			b = append(m.splitBytes(x, x.w/8), b...)
		} else if !crc.isZero() {
			return m.app(fmt.Sprintf("crc32upd_m%d", len(b)), 32, crc, m.cat(b))
		}
		return m.app(fmt.Sprintf("crc32ieee_m%d", len(b)), 32, m.cat(b))
	}
	isIEEE := func(m *Machine, tab Value) bool {
		p, ok := tab.(*Value)
		if !ok || p == nil {
			return false
		}
		a, ok := (*p).(Array)
		if !ok || len(a) != 256 {
			return false
		}
		for i := range a {
			t, ok := a[i].(*Term)
			if !ok || !t.isConst() || uint32(t.u) != crc32.IEEETable[i] {
				return false
			}
		}
		return true
	}
	reg(func(m *Machine, a []Value) Value { return crcUpd(m, m.c.Const(32, 0), m.sliceBytes(m.slc(a[0]))) }, "hash/crc32.ChecksumIEEE")
	reg(func(m *Machine, a []Value) Value {
		if !isIEEE(m, a[1]) {
			return notHandled{}
		}
		return crcUpd(m, m.asTerm(a[0]), m.sliceBytes(m.slc(a[2])))
	}, "hash/crc32.Update", "hash/crc32.update")

	// AES
	reg(func(m *Machine, a []Value) Value {
		k := m.sliceBytes(m.slc(a[0]))
		p := new(Value)
		*p = &AESVal{append([]*Term(nil), k...)}
		return Tuple{p, m.nilErr()}
	}, f+"aes.New")
	reg(func(m *Machine, a []Value) Value { return m.c.Const(64, 16) }, "(*"+f+"aes.Block).BlockSize")
	aesop := func(name, inv string, nat func(k, b []byte) []byte) intrinsic {
		return func(m *Machine, a []Value) Value {
			p, _ := a[0].(*Value)
			if p == nil {
				m.targetRuntime("invalid memory address or nil pointer dereference")
			}
			av, ok := (*p).(*AESVal)
			if !ok {
				m.unsupported("AES state of unknown origin")
			}
			dst, src := m.slc(a[1]), m.slc(a[2])
			if len(src) < 16 {
				m.targetRuntime("crypto/aes: input not full block")
			}
			if len(dst) < 16 {
				m.targetRuntime("crypto/aes: output not full block")
			}
			in := m.sliceBytes(src[:16])
			var out []*Term
			kb, ok1 := m.concBytes(av.key)
			ib, ok2 := m.concBytes(in)
			if ok1 && ok2 {
				out = m.constBytes(nat(kb, ib))
				m.native(fmt.Sprintf("%s%d", name, len(av.key)*8), m.cat(out), m.cat(av.key), m.cat(in))
				m.native(fmt.Sprintf("%s%d", inv, len(av.key)*8), m.cat(in), m.cat(av.key), m.cat(out))
			} else {
				x, k := m.cat(in), m.cat(av.key)
				nm := fmt.Sprintf("%s%d", name, len(av.key)*8)
				im := fmt.Sprintf("%s%d", inv, len(av.key)*8)
				if x.op == OpApp && x.name == im && x.args[0] == k {
					out = m.splitBytes(x.args[1], 16)
				} else {
					r := m.app(nm, 128, k, x)
					// the cipher is a permutation for every key
					m.fact(m.c.Eq(m.app(im, 128, k, r), x))
					out = m.splitBytes(r, 16)
				}
			}
			for i := range out {
				m.set(&dst[i], out[i])
			}
			return nil
		}
	}
	reg(aesop("aes_enc", "aes_dec", func(k, b []byte) []byte {
		c, _ := aes.NewCipher(k)
		o := make([]byte, 16)
		c.Encrypt(o, b)
		return o
	}), "(*"+f+"aes.Block).Encrypt")
	reg(aesop("aes_dec", "aes_enc", func(k, b []byte) []byte {
		c, _ := aes.NewCipher(k)
		o := make([]byte, 16)
		c.Decrypt(o, b)
		return o
	}), "(*"+f+"aes.Block).Decrypt")

	// Ed25519
	edPub := func(m *Machine, seed []*Term) []*Term {
		if sb, ok := m.concBytes(seed); ok {
			out := m.constBytes(ed25519.NewKeyFromSeed(sb)[32:])
			m.native("ed25519_pub", m.cat(out), m.cat(seed))
			return out
		}
		return m.ufBytes("ed25519_pub", 32, m.cat(seed))
	}
	reg(func(m *Machine, a []Value) Value {
		priv, seed := m.slc(a[0]), m.sliceBytes(m.slc(a[1]))
		if len(seed) != 32 {
			m.targetRuntime(fmt.Sprintf("ed25519: bad seed length: %d", len(seed)))
		}
		all := append(append([]*Term(nil), seed...), edPub(m, seed)...)
		for i := range all {
			m.set(&priv[i], all[i])
		}
		return nil
	}, "crypto/ed25519.newKeyFromSeed")
	edSign := func(m *Machine, priv, msg []*Term) []*Term {
		if len(priv) != 64 {
			m.targetRuntime(fmt.Sprintf("ed25519: bad private key length: %d", len(priv)))
		}
		pb, ok1 := m.concBytes(priv)
		mb, ok2 := m.concBytes(msg)
		if ok1 && ok2 {
			out := m.constBytes(ed25519.Sign(pb, mb))
			m.native(fmt.Sprintf("ed25519_sign_m%d", len(msg)), m.cat(out), m.cat(priv), m.cat(msg))
			return out
		}
		out := m.ufBytes(fmt.Sprintf("ed25519_sign_m%d", len(msg)), 64, m.cat(priv), m.cat(msg))
		m.generic(out[:32])
		m.generic(out[32:])
		return out
	}
	reg(func(m *Machine, a []Value) Value {
		sig := m.slc(a[0])
		for i, t := range edSign(m, m.sliceBytes(m.slc(a[1])), m.sliceBytes(m.slc(a[2]))) {
			m.set(&sig[i], t)
		}
		return nil
	}, "crypto/ed25519.sign")
	reg(func(m *Machine, a []Value) Value {
		hf := m.callMethod(a[3], "HashFunc")
		if !m.asTerm(hf).isZero() {
			m.unsupported("Ed25519ph")
		}
		return Tuple{termsToSlice(edSign(m, m.sliceBytes(m.slc(a[0])), m.sliceBytes(m.slc(a[2])))), m.nilErr()}
	}, "(crypto/ed25519.PrivateKey).Sign")
	reg(func(m *Machine, a []Value) Value {
		pub, msg, sig := m.sliceBytes(m.slc(a[0])), m.sliceBytes(m.slc(a[1])), m.sliceBytes(m.slc(a[2]))
		if len(sig) != 64 {
			return m.c.False
		}
		t := m.cat(sig)
		if t.op == OpApp && strings.HasPrefix(t.name, "ed25519_sign_m") {
			pk := t.args[0]
			seed := m.c.Extract(pk, 511, 256)
			own := m.app("ed25519_pub", 256, seed)
			pubt := m.cat(pub)
			if pubt == own && m.c.Extract(pk, 255, 0) == own && t.args[1] == m.cat(msg) {
				return m.c.True
			}
		}
		pb, ok1 := m.concBytes(pub)
		mb, ok2 := m.concBytes(msg)
		sb, ok3 := m.concBytes(sig)
		if ok1 && ok2 && ok3 {
			return m.c.Bool(ed25519.Verify(pb, mb, sb))
		}
		return m.app(fmt.Sprintf("ed25519_verify_m%d", len(msg)), 0, m.cat(pub), m.cat(msg), t)
	}, "crypto/ed25519.Verify")

	// Curve25519
	clamp := func(m *Machine, s []*Term) []*Term {
		s = append([]*Term(nil), s...)
		s[0] = m.c.And(s[0], m.byteT[248])
		s[31] = m.c.Or(m.c.And(s[31], m.byteT[127]), m.byteT[64])
		return s
	}
	basePt := make([]byte, 32)
	basePt[0] = 9
	x25519 := func(m *Machine, s, pt []*Term) []*Term {
		sc := m.cat(clamp(m, s))
		if pb, ok := m.concBytes(pt); ok && string(pb) == string(basePt) {
			return m.ufBytes("x25519_base", 32, sc)
		}
		return m.ufBytes("x25519", 32, sc, m.cat(pt))
	}
	arr := func(m *Machine, v Value) []Value {
		p, ok := v.(*Value)
		if !ok || p == nil {
			m.targetRuntime("invalid memory address or nil pointer dereference")
		}
		return (*p).(Array)
	}
	cv := "golang.org/x/crypto/curve25519"
	reg(func(m *Machine, a []Value) Value {
		dst := arr(m, a[0])
		for i, t := range x25519(m, m.sliceBytes(Slice(arr(m, a[1]))), m.constBytes(basePt)) {
			m.set(&dst[i], t)
		}
		return nil
	}, cv+".ScalarBaseMult", cv+"/internal/field.scalarBaseMult")
	reg(func(m *Machine, a []Value) Value {
		dst := arr(m, a[0])
		for i, t := range x25519(m, m.sliceBytes(Slice(arr(m, a[1]))), m.sliceBytes(Slice(arr(m, a[2])))) {
			m.set(&dst[i], t)
		}
		return nil
	}, cv+".ScalarMult")

	// Argon2
	argon := func(mode string) intrinsic {
		return func(m *Machine, a []Value) Value {
			pw, salt := m.sliceBytes(m.slc(a[0])), m.sliceBytes(m.slc(a[1]))
			tm, mem, th := m.asTerm(a[2]), m.asTerm(a[3]), m.asTerm(a[4])
			n := m.concInt(m.asTerm(a[5]))
			if m.decide(m.c.Eq(tm, m.c.Const(32, 0))) {
				m.targetRuntime("argon2: number of rounds too small")
			}
			if m.decide(m.c.Eq(th, m.c.Const(8, 0))) {
				m.targetRuntime("argon2: parallelism degree too low")
			}
			if n == 0 {
				return Slice{}
			}
			out := m.ufBytes(fmt.Sprintf("%s_p%d_s%d_o%d", mode, len(pw), len(salt), n), n, m.cat(pw), m.cat(salt), tm, mem, th)
			return termsToSlice(out)
		}
	}
	reg(argon("argon2id"), "golang.org/x/crypto/argon2.IDKey")
	reg(argon("argon2i"), "golang.org/x/crypto/argon2.Key")

	// math/rand
	rng := func(m *Machine, v Value) (*Value, *RngVal) {
		p, ok := v.(*Value)
		if !ok || p == nil {
			return nil, nil
		}
		r, _ := (*p).(*RngVal)
		return p, r
	}
	reg(func(m *Machine, a []Value) Value {
		p := a[0].(*Value)
		m.set(p, &RngVal{m.asTerm(a[1]), 0})
		return nil
	}, "(*math/rand.rngSource).Seed")
	u64 := func(m *Machine, v Value) *Term {
		p, r := rng(m, v)
		if r == nil {
			m.unsupported("rngSource of unknown origin")
		}
		m.set(p, &RngVal{r.seed, r.k + 1})
		if r.seed.isConst() {
			src := mrand.NewSource(r.seed.sval()).(mrand.Source64)
			var x uint64
			for i := 0; i <= r.k; i++ {
				x = src.Uint64()
			}
			return m.c.Const(64, x)
		}
		return m.app(fmt.Sprintf("rng_%d", r.k), 64, r.seed)
	}
	reg(func(m *Machine, a []Value) Value { return u64(m, a[0]) }, "(*math/rand.rngSource).Uint64")
	reg(func(m *Machine, a []Value) Value { return m.c.And(u64(m, a[0]), m.c.Const(64, 1<<63-1)) }, "(*math/rand.rngSource).Int63")
	bounded := func(meth string) intrinsic {
		return func(m *Machine, a []Value) Value {
			// only when driven by a symbolic seed
			p, ok := a[0].(*Value)
			if !ok || p == nil {
				return notHandled{}
			}
			st, ok := (*p).(Struct)
			if !ok || len(st) == 0 {
				return notHandled{}
			}
			src, ok := st[0].(Iface)
			if !ok {
				return notHandled{}
			}
			cell, r := rng(m, src.v)
			if r == nil || r.seed.isConst() {
				return notHandled{}
			}
			n := m.asTerm(a[1])
			if !n.isConst() || n.sval() <= 0 || n.sval() > 64 {
				return notHandled{}
			}
			m.set(cell, &RngVal{r.seed, r.k + 1})
			v := m.app(fmt.Sprintf("rng_%s_%d_%d", meth, n.u, r.k), n.w, r.seed)
			m.fact(m.c.Ult(v, n))
			return m.c.BigConst(n.w, m.concretize(v))
		}
	}
	for _, k := range []string{"int31n", "Int31n", "Int63n", "Intn"} {
		reg(bounded(k), "(*math/rand.Rand)."+k)
	}
	reg(func(m *Machine, a []Value) Value { return m.nondet("rand", 64) }, "math/rand.runtime_rand", "math/rand/v2.runtime_rand")

	// crypto/rand
	reg(func(m *Machine, a []Value) Value {
		b := m.slc(a[1])
		m.draw(b)
		return Tuple{m.c.Const(64, uint64(len(b))), m.nilErr()}
	}, "(*crypto/rand.reader).Read")
	reg(func(m *Machine, a []Value) Value {
		b := m.slc(a[0])
		m.draw(b)
		return nil
	}, "crypto/internal/sysrand.Read", "crypto/internal/fips140/drbg.Read")
}

// draw fills b from the random source.
func (m *Machine) draw(b Slice) {
	for i, t := range m.nondetBytes("rand", len(b)) {
		if i == 0 && len(b) >= 16 && m.path.env.longRand {
			m.assume(m.c.BNot(m.c.Eq(t, m.c.Const(8, 0))))
		}
		m.set(&b[i], t)
	}
}

type AESVal struct{ key []*Term }

type RngVal struct {
	seed *Term
	k    int
}

// ---------- fresh symbolic inputs ----------

func (m *Machine) nondet(label string, w int) *Term {
	n := m.freshName(label)
	t := m.c.Var("in:"+n, w)
	kind := fmt.Sprintf("u%d", w)
	if w == 0 {
		kind = "bool"
	}
	m.path.nondets = append(m.path.nondets, Nondet{Label: n, Kind: kind, Terms: []*Term{t}})
	return t
}

func (m *Machine) nondetRange(label string, w int, lo, hi int64) *Term {
	n := m.freshName(label)
	t := m.c.RangeVar("in:"+n, w, lo, hi)
	m.fact(m.c.BAnd(m.c.Sle(m.c.Const(w, uint64(lo)), t), m.c.Sle(t, m.c.Const(w, uint64(hi)))))
	m.path.nondets = append(m.path.nondets, Nondet{Label: n, Kind: fmt.Sprintf("u%d", w), Terms: []*Term{t}})
	return t
}

func (m *Machine) nondetBytes(label string, n int) []*Term {
	nm := m.freshName(label)
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = m.c.Var(fmt.Sprintf("in:%s[%d]", nm, i), 8)
	}
	m.path.nondets = append(m.path.nondets, Nondet{Label: nm, Kind: "bytes", Terms: ts})
	return ts
}

var _ = big.NewInt

func crc24Native(crc uint32, d []byte) uint32 {
	for _, b := range d {
		crc ^= uint32(b) << 16
		for i := 0; i < 8; i++ {
			crc <<= 1
			if crc&0x1000000 != 0 {
				crc ^= 0x1864cfb
			}
		}
	}
	return crc
}
