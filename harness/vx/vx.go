// Package vx is the interface between harnesses and the checker. The engine replaces these functions by
// symbolic ones; the bodies here run when a counterexample is replayed on the natively compiled code.
package vx

import (
	"bytes"
	crand "crypto/rand"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"time"
	"unicode"
)

type Input struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	Hex   string `json:"hex"`
}

type Failure struct{ Msg string }
type Skip struct{}

var (
	inputs    map[string]Input
	counts    map[string]int
	Random    *rand.Rand // when set, byte strings and large integers are drawn at random
	RandomAll bool       // draw everything at random
	Used      []Input
	thorough  bool
)

// SetThorough selects the tier.
func SetThorough(b bool) { thorough = b }

// Reset prepares a native run.
func Reset(in []Input) {
	inputs = map[string]Input{}
	for _, i := range in {
		inputs[i.Label] = i
	}
	counts = map[string]int{}
	Used = nil
	stream = nil
	crand.Reader = randReader{}
}

var stream []byte // everything the random source has handed out

// Drawn is everything the random source has handed out so far.
func Drawn() []byte { return append([]byte(nil), stream...) }

// PossibleSeen counts, per message, how often a Possible condition was evaluated and true.
var PossibleSeen = map[string][2]int{}

// Possible states that cond must be true for some inputs.
func Possible(cond bool, msg string) {
	c := PossibleSeen[msg]
	c[0]++
	if cond {
		c[1]++
	}
	PossibleSeen[msg] = c
}

// Fresh reports whether a and b are independent outputs of the random source.
func Fresh(a, b []byte) bool {
	var pa, pb []int
	for i := 0; i+len(a) <= len(stream); i++ {
		if bytes.Equal(stream[i:i+len(a)], a) {
			pa = append(pa, i)
		}
	}
	for i := 0; i+len(b) <= len(stream); i++ {
		if bytes.Equal(stream[i:i+len(b)], b) {
			pb = append(pb, i)
		}
	}
	if len(pa) > 0 && len(pb) > 0 {
		for _, i := range pa {
			for _, j := range pb {
				if i+len(a) <= j || j+len(b) <= i {
					return true
				}
			}
		}
		return false
	}
	zeros := func(x []byte) int { return bytes.Count(x, []byte{0}) }
	return !bytes.Equal(a, b) && zeros(a) < 4 && zeros(b) < 4
}

type randReader struct{}

func (randReader) Read(p []byte) (int, error) {
	copy(p, Bytes("rand", len(p)))
	stream = append(stream, p...)
	return len(p), nil
}

func next(label string) (string, Input, bool) {
	n := fmt.Sprintf("%s#%d", label, counts[label])
	counts[label]++
	i, ok := inputs[n]
	return n, i, ok
}

func num(label string, w int) uint64 {
	n, i, ok := next(label)
	v := new(big.Int)
	if ok {
		v.SetString(i.Hex, 16)
	}
	u := v.Uint64()
	if Random != nil && w >= 16 && Random.Intn(4) == 0 {
		// numbers usually steer the path: perturb them rarely
		u = Random.Uint64() >> (64 - w) >> Random.Intn(w)
	}
	Used = append(Used, Input{n, fmt.Sprintf("u%d", w), fmt.Sprintf("%x", u)})
	return u
}

func U8(label string) uint8   { return uint8(num(label, 8)) }
func U16(label string) uint16 { return uint16(num(label, 16)) }
func U31(label string) uint32 { return uint32(num(label, 31)) }
func U32(label string) uint32 { return uint32(num(label, 32)) }
func U64(label string) uint64 { return num(label, 64) }
func I64(label string) int64  { return int64(num(label, 64)) }
func Bool(label string) bool  { return num(label, 1) == 1 }

// Range is an integer in [lo,hi].
func Range(label string, lo, hi int) int {
	v := int(num(label, 8))
	if v < lo {
		v = lo
	}
	if v > hi {
		v = hi
	}
	return v
}

// Choice is an integer in [0,n), explored value by value.
func Choice(label string, n int) int { return Range(label, 0, n-1) }

func Bytes(label string, n int) []byte {
	nm, i, ok := next(label)
	b := make([]byte, n)
	if ok {
		h, _ := hex.DecodeString(i.Hex)
		copy(b, h)
	}
	if Random != nil && (RandomAll || Random.Intn(4) != 0) {
		Random.Read(b)
		for i := range b {
			if Random.Intn(8) == 0 {
				b[i] = 0
			}
		}
	}
	Used = append(Used, Input{nm, "bytes", hex.EncodeToString(b)})
	return b
}

func Str(label string, n int) string { return string(Bytes(label, n)) }

// Big is a non-negative integer of at most bits bits.
func Big(label string, bits int) *big.Int {
	nm, i, ok := next(label)
	v := new(big.Int)
	if ok {
		v.SetString(i.Hex, 16)
	}
	if Random != nil && bits > 0 && Random.Intn(4) != 0 {
		v.Rand(Random, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
		v.Rsh(v, uint(Random.Intn(bits)&Random.Intn(bits)))
	}
	Used = append(Used, Input{nm, "big", v.Text(16)})
	return v
}

// OneOf is one of the strings, chosen symbolically.
func OneOf(label string, vals []string) string {
	nm, i, ok := next(label)
	v := new(big.Int)
	if ok {
		v.SetString(i.Hex, 16)
	}
	k := int(v.Int64())
	if Random != nil && Random.Intn(2) == 0 {
		k = Random.Intn(len(vals))
	}
	if k >= len(vals) {
		k = 0
	}
	Used = append(Used, Input{nm, "u64", fmt.Sprintf("%x", k)})
	return vals[k]
}

// Time is the instant sec seconds and nsec nanoseconds after the epoch, in UTC.
func Time(sec, nsec int64) time.Time { return time.Unix(sec, nsec).UTC() }

func Assume(b bool) {
	if !b {
		panic(Skip{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		panic(Failure{msg})
	}
}

func Reached(string)           {}
func Thorough() bool           { return thorough }
func Symbolic() bool           { return false }
func Generic(bool)             {}
func LongRand(bool)            {}
func ShortAt(j int, two bool)  {}
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func Iff(a, b bool) bool       { return a == b }
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func Debug(v any)              { fmt.Fprintln(os.Stderr, v) }

// Try reports whether f panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Failure, Skip:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return
}

// Trim removes white space at both ends.
func Trim(s string) string { return strings.Trim(s, " \t\n\v\f\r") }

// Tokens splits text into words after removing terminal colour codes.
func Tokens(s string) []string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			i += 2
			for i < len(s) && (s[i] < '@' || s[i] > '~') {
				i++
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return strings.FieldsFunc(b.String(), unicode.IsSpace)
}

var _ io.Reader = randReader{}

// CRC24 is the OpenPGP armor checksum.
func CRC24(d []byte) uint32 {
	crc := uint32(0xb704ce)
	for _, b := range d {
		crc ^= uint32(b) << 16
		for i := 0; i < 8; i++ {
			crc <<= 1
			if crc&0x1000000 != 0 {
				crc ^= 0x1864cfb
			}
		}
	}
	return crc & 0xFFFFFF
}
