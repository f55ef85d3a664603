package vt

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"

	"blsverif/model"

	"pgregory.net/rapid"
)

type I = big.Int

var (
	one  = big.NewInt(1)
	two  = big.NewInt(2)
	r384 = new(I).Lsh(one, 384)
	r256 = new(I).Lsh(one, 256)
)

var (
	genU64  = rapid.Uint64()
	genBool = rapid.Bool()
)

// Int draws from [lo, hi].
func (c *Case) Int(label string, lo, hi int) int {
	v := c.int(lo, hi)
	c.Log(label, v)
	return v
}

// uniform generators of [0, n), made once. rapid.IntRange prefers small
// numbers, which starves the later alternatives of a choice.
var uniform [4096]*rapid.Generator[int]

func (c *Case) int(lo, hi int) int {
	n := hi - lo + 1
	if n >= len(uniform) {
		return rapid.IntRange(lo, hi).Draw(c.R, "")
	}
	g := uniform[n]
	if g == nil {
		v := make([]int, n)
		for i := range v {
			v[i] = i
		}
		g = rapid.SampledFrom(v)
		uniform[n] = g
	}
	return lo + g.Draw(c.R, "")
}

// Bool draws a flag.
func (c *Case) Bool(label string) bool {
	v := genBool.Draw(c.R, label)
	c.Log(label, v)
	return v
}

// U64 draws a word, often an extreme one.
func (c *Case) U64(label string) uint64 {
	v := c.word()
	c.Log(label, fmt.Sprintf("%#x", v))
	return v
}

var edgeWords = []uint64{0, 1, 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}

func (c *Case) word() uint64 {
	switch c.int(0, 5) {
	case 0:
		return genU64.Draw(c.R, "")
	case 1, 2:
		return edgeWords[c.int(0, len(edgeWords)-1)]
	default:
		s := c.seed()
		return binary.LittleEndian.Uint64(s[:])
	}
}

// seed draws 32 bytes that are as good as uniform, shrinking towards a fixed
// value.
func (c *Case) seed() [32]byte {
	var b [32]byte
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(b[8*i:], genU64.Draw(c.R, ""))
	}
	return sha256.Sum256(b[:])
}

// stream expands a seed to n bytes.
func stream(seed [32]byte, n int) []byte {
	var out []byte
	for i := uint64(0); len(out) < n; i++ {
		b := sha256.Sum256(binary.LittleEndian.AppendUint64(seed[:], i))
		out = append(out, b[:]...)
	}
	return out[:n]
}

// Uniform draws n bytes.
func (c *Case) uniform(n int) []byte {
	s := c.seed()
	return stream(s, n)
}

// limbs draws a number of n words, each often extreme, or that of a modulus or
// one off it.
func (c *Case) limbs(n int, p *I) *I {
	v := new(I)
	mask := new(I).SetUint64(1<<64 - 1)
	for i := n - 1; i >= 0; i-- {
		var w uint64
		if k := c.int(0, 3); k == 0 {
			w = new(I).And(new(I).Rsh(p, uint(64*i)), mask).Uint64() + uint64(c.int(0, 2)) - 1
		} else {
			w = c.word()
		}
		v.Lsh(v, 64)
		v.Or(v, new(I).SetUint64(w))
	}
	return v
}

// inField draws an element of [0, p) in one of several ways. mont is 2^384 or
// 2^256: elements whose Montgomery form has a pattern are drawn as well.
func (c *Case) inField(p *I, words int) *I {
	mod := func(v *I) *I { return v.Mod(v, p) }
	pat := func() *I {
		switch c.int(0, 3) {
		case 0: // small
			return new(I).SetUint64(uint64(c.int(0, 20)))
		case 1: // near a power of two
			v := new(I).Lsh(one, uint(c.int(0, p.BitLen())))
			return mod(v.Add(v, big.NewInt(int64(c.int(-2, 2)))))
		case 2: // near p or its fractions
			d := []int64{1, 1, 2, 3, 4}[c.int(0, 4)]
			v := new(I).Div(p, big.NewInt(d))
			return mod(v.Add(v, big.NewInt(int64(c.int(-3, 3)))))
		default:
			return mod(c.limbs(words, p))
		}
	}
	switch c.int(0, 7) {
	case 0, 1:
		return pat()
	case 2: // the Montgomery form is the pattern
		r := new(I).Lsh(one, uint(64*words))
		return mod(new(I).Mul(pat(), new(I).ModInverse(r, p)))
	case 3: // negative of a pattern
		return mod(new(I).Neg(pat()))
	case 4: // square or inverse of a small number, +-
		v := big.NewInt(int64(c.int(1, 50)))
		if c.int(0, 1) == 0 {
			v = new(I).ModInverse(v, p)
		} else {
			v.Mul(v, v)
		}
		return mod(v)
	default:
		return mod(new(I).SetBytes(c.uniform(8*words + 16)))
	}
}

// Fq draws an element of the base field.
func (c *Case) Fq(label string) *I {
	v := c.inField(model.Q, 6)
	c.Log(label, fmt.Sprintf("%#x", v))
	return v
}

// Fr draws a scalar in [0, r).
func (c *Case) Fr(label string) *I {
	v := c.inField(model.R, 4)
	c.Log(label, fmt.Sprintf("%#x", v))
	return v
}

// FrNZ draws a scalar in [1, r).
func (c *Case) FrNZ(label string) *I {
	v := c.inField(model.R, 4)
	if v.Sign() == 0 {
		v.SetInt64(1)
	}
	c.Log(label, fmt.Sprintf("%#x", v))
	return v
}

// Fq2 draws an element of the quadratic extension. Coordinates are often zero
// or related.
func (c *Case) Fq2(label string) model.F2 {
	v := c.fq2()
	c.Log(label, v)
	return v
}

func (c *Case) fq2() model.F2 {
	a := c.inField(model.Q, 6)
	switch c.int(0, 9) {
	case 0:
		return model.E2(a, big.NewInt(0))
	case 1:
		return model.E2(big.NewInt(0), a)
	case 2:
		return model.E2(a, a)
	case 3:
		return model.E2(a, new(I).Neg(a))
	}
	return model.E2(a, c.inField(model.Q, 6))
}

// F12 draws an element of the degree 12 extension; some coefficients are
// often zero.
func (c *Case) F12(label string) model.F12 {
	v := model.Tower([2][3]model.F2{c.fq6(), c.fq6()})
	c.Log(label, v)
	return v
}

func (c *Case) fq6() (e [3]model.F2) {
	mask := c.int(0, 15)
	s := c.seed()
	for i := range e {
		switch {
		case mask < 8 && mask>>i&1 == 1:
			e[i] = model.Fq2.Zero()
		case mask >= 12: // fast uniform
			b := stream(s, 128*3)[128*i:]
			e[i] = model.E2(new(I).SetBytes(b[:64]), new(I).SetBytes(b[64:128]))
		default:
			e[i] = c.fq2()
		}
	}
	return
}

// Fq6 draws three Fq2 elements.
func (c *Case) Fq6(label string) [3]model.F2 {
	v := c.fq6()
	c.Log(label, v)
	return v
}

// UInt draws any number below 2^(64 words).
func (c *Case) UInt(label string, words int, p *I) *I {
	v := c.uint(words, p)
	c.Log(label, fmt.Sprintf("%#x", v))
	return v
}

func (c *Case) uint(words int, p *I) *I {
	lim := new(I).Lsh(one, uint(64*words))
	switch c.int(0, 6) {
	case 0:
		return big.NewInt(int64(c.int(0, 20)))
	case 1:
		v := new(I).Lsh(one, uint(c.int(0, 64*words)))
		v.Add(v, big.NewInt(int64(c.int(-2, 2))))
		return v.Mod(v, lim)
	case 2:
		v := new(I).Mul(p, big.NewInt(int64(c.int(1, 3))))
		v.Add(v, big.NewInt(int64(c.int(-3, 3))))
		return v.Mod(v, lim)
	case 3, 4:
		return c.limbs(words, p)
	case 5: // a shorter number
		n := c.int(1, 8*words)
		return new(I).SetBytes(c.uniform(n))
	default:
		return new(I).SetBytes(c.uniform(8 * words))
	}
}

var msgLens = []int{0, 1, 2, 3, 7, 8, 16, 20, 31, 32, 33, 48, 54, 55, 56, 57, 63, 64, 65, 96, 118, 119, 120, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 70000, 131073, 1<<20 + 1}

// Msg draws a message.
func (c *Case) Msg(label string) []byte {
	m := c.msg()
	if len(m) > 80 {
		c.Log(label, fmt.Sprintf("%d bytes %x...%x", len(m), m[:40], m[len(m)-20:]))
	} else {
		c.Log(label, fmt.Sprintf("%d bytes %x", len(m), m))
	}
	return m
}

func (c *Case) msg() []byte {
	n := 0
	switch c.int(0, 7) {
	case 0, 1, 2:
		n = c.int(0, 40)
	case 3, 4:
		n = msgLens[c.int(0, len(msgLens)-1)]
	case 5:
		n = c.int(0, 300)
	default:
		n = 32
	}
	switch c.int(0, 5) {
	case 0:
		b := make([]byte, n)
		f := byte(c.int(0, 2) * 0x7f) // 0, 7f, fe
		for i := range b {
			b[i] = f
		}
		return b
	case 1:
		b := make([]byte, n)
		if n > 0 {
			b[c.int(0, n-1)] = byte(c.int(0, 255))
		}
		return b
	default:
		return c.uniform(n)
	}
}

// Bytes32 draws 32 bytes.
func (c *Case) Bytes32(label string) (b [32]byte) {
	switch c.int(0, 4) {
	case 0:
		c.uint(4, model.R).FillBytes(b[:])
	case 1:
		copy(b[:], c.uniform(c.int(0, 32)))
	default:
		copy(b[:], c.uniform(32))
	}
	c.Log(label, fmt.Sprintf("%x", b))
	return
}

// Bytes8 draws 8 bytes.
func (c *Case) Bytes8(label string) (b [8]byte) {
	binary.BigEndian.PutUint64(b[:], c.word())
	c.Log(label, fmt.Sprintf("%x", b))
	return
}

// Uniform draws n bytes.
func (c *Case) Uniform(label string, n int) []byte {
	b := c.uniform(n)
	c.Log(label, fmt.Sprintf("%x", b))
	return b
}

// RelatedMsg draws a message close to another: the same, a prefix, one bit
// off, one byte longer, alike by some fingerprint, or unrelated. It returns what
// it did.
func (c *Case) RelatedMsg(label string, m []byte) ([]byte, string) {
	n := append([]byte{}, m...)
	how := ""
	switch c.int(0, 8) {
	case 0:
		how = "same"
	case 1:
		if len(n) > 0 {
			n, how = n[:c.int(0, len(n)-1)], "prefix"
		} else {
			n, how = []byte{0}, "longer"
		}
	case 2:
		n, how = append(n, byte(c.int(0, 255))), "longer"
	case 3:
		n, how = append([]byte{byte(c.int(0, 1))}, n...), "longer in front"
	case 4, 5:
		if len(n) > 0 {
			n[c.int(0, len(n)-1)] ^= 1 << c.int(0, 7)
			how = "one bit off"
		} else {
			n, how = []byte{1}, "longer"
		}
	case 6, 7:
		if how = c.alike(n); how == "" {
			n, how = append(n, 0), "longer"
		}
	default:
		n, how = c.msg(), "unrelated"
	}
	c.Log(label, fmt.Sprintf("%s: %d bytes", how, len(n)))
	return n, how
}

// AlikeMsg draws a message that differs from another and has the same
// fingerprint of some cheap kind, if the message is long enough for that.
func (c *Case) AlikeMsg(label string, m []byte) []byte {
	n := append([]byte{}, m...)
	how := c.alike(n)
	if how == "" {
		n, how = append(n, 0), "longer"
	}
	c.Log(label, how)
	return n
}

// Pick draws a number below n without logging it.
func (c *Case) Pick(n int) int { return c.int(0, n-1) }

// Stream expands a seed to n bytes.
func Stream(seed [32]byte, n int) []byte { return stream(seed, n) }

// Detached runs f with a case of its own, whose draws depend on the seed alone.
func Detached[T any](seed int, f func(c *Case) T) T {
	return rapid.Custom(func(t *rapid.T) T { return f(&Case{R: t}) }).Example(seed)
}

// Alike draws a change of bytes that cheap fingerprints do not see.
func (c *Case) Alike(m []byte) []byte {
	n := append([]byte{}, m...)
	if c.alike(n) == "" {
		n = append(n, 0)
	}
	return n
}
