package h

import (
	"math/big"

	"github.com/kklash/mnemonikey/pgp"
	"github.com/kklash/mnemonikey/zzverif/vx"
)

var lens = []int{0, 1, 2, 17, 50, 127, 128, 189, 190, 191, 192, 193, 194, 254, 255, 256, 257, 447, 448, 449, 703, 704, 705, 1000, 4095, 4096, 8126, 8127, 8128,
	8382, 8383, 8384, 8385, 16383, 16384, 65534, 65535, 65536, 70001, 1 << 18}

// symLen is a content length: the interesting ones (quick), all up to 9215 (thorough).
func symLen() int {
	if !vx.Thorough() || vx.Choice("big", 2) == 0 {
		return lens[vx.Choice("len", len(lens))]
	}
	return vx.Choice("hi", 72)*128 + vx.Choice("lo", 128)
}

// payload has n bytes; the first and last are symbolic, those between too for short ones.
func payload(n int) []byte {
	if n <= 300 {
		return vx.Bytes("content", n)
	}
	b := make([]byte, n)
	for i := 16; i < n-16; i += 97 {
		b[i] = byte(i * 7)
	}
	copy(b, vx.Bytes("head", 16))
	copy(b[n-16:], vx.Bytes("tail", 16))
	return b
}

// C13_Packet: new-format packets.
func C13_Packet() {
	n := symLen()
	tag := vx.U8("tag")
	vx.Assume(tag < 64)
	in := payload(n)
	keep := append([]byte(nil), in...)
	out := pgp.EncodePacket(pgp.PacketTag(tag), in)
	vx.Assert(vx.EqBytes(in, keep), "the content is left alone")
	vx.Assert(len(out) >= 2, "a header is present")
	vx.Assert(out[0] == 0xC0|tag, "new-format header with the tag")
	l, hl, ok := parseLen(out[1:])
	vx.Assert(ok && l == n, "the length decodes to the content length")
	vx.Assert(len(out) == 1+hl+n, "the packet ends with the content")
	vx.Assert(vx.EqBytes(out[1+hl:], keep), "the content is unmodified")
	vx.Reached("ok")
}

// C13_Subpacket: signature subpackets.
func C13_Subpacket() {
	n := symLen()
	typ := vx.U8("type")
	in := payload(n)
	keep := append([]byte(nil), in...)
	sp := &pgp.Subpacket{Type: pgp.SubpacketType(typ), Body: in}
	out := sp.Encode()
	vx.Assert(vx.EqBytes(in, keep) && vx.EqBytes(sp.Body, keep) && byte(sp.Type) == typ, "the subpacket is left alone")
	l, hl, ok := parseLen(out)
	vx.Assert(ok && l == n+1, "the length decodes to the type byte and the content")
	vx.Assert(len(out) == hl+1+n, "the subpacket ends with the content")
	vx.Assert(out[hl] == typ, "the type byte follows the length")
	vx.Assert(vx.EqBytes(out[hl+1:], keep), "the content is unmodified")
	vx.Reached("ok")
}

// C14_MPI: all non-negative integers of up to 264 (quick) or 1032 (thorough) bits.
func C14_MPI() {
	w := 264
	if vx.Thorough() {
		w = 1032
	}
	v := vx.Big("v", w)
	orig := new(big.Int).Set(v)
	out := pgp.EncodeMPI(v)
	vx.Assert(v.Cmp(orig) == 0, "the integer is left alone")
	vx.Assert(len(out) >= 2, "two length bytes")
	vx.Assert(int(out[0])<<8|int(out[1]) == orig.BitLen(), "the exact bit length")
	vx.Assert(len(out) == 2+(orig.BitLen()+7)/8, "the minimal number of bytes")
	vx.Assert(new(big.Int).SetBytes(out[2:]).Cmp(orig) == 0, "the big-endian value")
	vx.Reached("ok")
}

// C14_Long: integers of up to 4106 (quick) or 32776 (thorough) bits whose first and last 16 bits are arbitrary.
func C14_Long() {
	ls := []int{270, 508, 1010, 2030, 2040, 4090, 16380, 32760, 65510}
	k := ls[vx.Choice("shift", pickN(6, 8))]
	top := vx.U16("top")
	vx.Assume(top != 0)
	v := new(big.Int).Lsh(big.NewInt(int64(top)), uint(k))
	v.Or(v, big.NewInt(int64(vx.U16("low"))))
	orig := new(big.Int).Set(v)
	out := pgp.EncodeMPI(v)
	vx.Assert(v.Cmp(orig) == 0, "the integer is left alone")
	vx.Assert(len(out) >= 2, "two length bytes")
	vx.Assert(int(out[0])<<8|int(out[1]) == orig.BitLen(), "the exact bit length")
	vx.Assert(len(out) == 2+(orig.BitLen()+7)/8, "the minimal number of bytes")
	vx.Assert(new(big.Int).SetBytes(out[2:]).Cmp(orig) == 0, "the big-endian value")
	vx.Reached("ok")
}

// C14_Signature: the integers in a signature and in a secret key are canonical whatever their length.
func C14_Signature() {
	r, s := vx.Big("r", 256), vx.Big("s", 256)
	// one of the two has any length, the other 32 bytes
	if vx.Choice("short", 2) == 0 {
		vx.Assume(s.BitLen() > 248)
	} else {
		vx.Assume(r.BitLen() > 248)
	}
	sig := &pgp.Signature{Type: 0x13, HashFunction: pgp.HashFuncSHA256, SigHash: vx.Bytes("hash", 32), R: r, S: s}
	out := sig.Encode()
	rb, sb := r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))
	want := cat([]byte{4, 0x13, 22, 8, 0, 0, 0, 0}, sig.SigHash[:2], specMPI(rb), specMPI(sb))
	vx.Assert(vx.EqBytes(out, want), "both integers are encoded canonically")
	vx.Reached("ok")
}
