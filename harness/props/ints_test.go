package props

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"math/big"
	"strings"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// uint is what the two fixed-width integer types have in common.
type fixed[T any] struct {
	name    string
	words   int
	p       *I
	make    func(*I) T
	get     func(T) *I
	cp      func(T) T
	fromStr func(string, uint) (T, error)
	fromBig func(*I) (T, error)
	toBig   func(T) *I
	fromB   func([]byte) T
	bytes   func(T) []byte
	rsh     func(T, uint) T
	lsh     func(T, uint) T
	div2    func(T) T
	mul2    func(T) T
	add     func(a, b T) T
	sub     func(a, b T) T
	addSelf func(a T) T
	subSelf func(a T) T
	eq      func(a, b T) bool
	cmp     func(a, b T) int
	bitlen  func(T) uint
	bit     func(T, uint) bool
	odd     func(T) bool
	even    func(T) bool
	zero    func(T) bool
	str     func(T) string
	new     func(uint64) T
}

var fixedQ = fixed[bls.FQRepr]{
	name: "384 bit", words: 6, p: Q,
	make: lib.QRepr, get: lib.FromQR,
	cp:      func(f bls.FQRepr) bls.FQRepr { return f.Copy() },
	fromStr: bls.FQReprFromString,
	fromBig: func(n *I) (bls.FQRepr, error) { return bls.FQReprFromBigInt(n) },
	toBig:   func(f bls.FQRepr) *I { return f.ToBig() },
	fromB:   func(b []byte) bls.FQRepr { return bls.FQReprFromBytes([48]byte(b)) },
	bytes:   func(f bls.FQRepr) []byte { b := f.Bytes(); return b[:] },
	rsh:     func(f bls.FQRepr, n uint) bls.FQRepr { f.Rsh(n); return f },
	lsh:     func(f bls.FQRepr, n uint) bls.FQRepr { f.Lsh(n); return f },
	div2:    func(f bls.FQRepr) bls.FQRepr { f.Div2(); return f },
	mul2:    func(f bls.FQRepr) bls.FQRepr { f.Mul2(); return f },
	add:     func(f, g bls.FQRepr) bls.FQRepr { f.AddNoCarry(g); return f },
	sub:     func(f, g bls.FQRepr) bls.FQRepr { f.SubNoBorrow(g); return f },
	addSelf: func(f bls.FQRepr) bls.FQRepr { f.AddNoCarry(f); return f },
	subSelf: func(f bls.FQRepr) bls.FQRepr { f.SubNoBorrow(f); return f },
	eq:      func(f, g bls.FQRepr) bool { return f.Equals(g) },
	cmp:     func(f, g bls.FQRepr) int { return f.Cmp(g) },
	bitlen:  func(f bls.FQRepr) uint { return f.BitLen() },
	bit:     func(f bls.FQRepr, n uint) bool { return f.Bit(n) },
	odd:     func(f bls.FQRepr) bool { return f.IsOdd() },
	even:    func(f bls.FQRepr) bool { return f.IsEven() },
	zero:    func(f bls.FQRepr) bool { return f.IsZero() },
	str:     func(f bls.FQRepr) string { return f.String() },
	new:     bls.NewFQRepr,
}

type frp = *bls.FRRepr

var fixedR = fixed[frp]{
	name: "256 bit", words: 4, p: R,
	make: lib.RRepr, get: lib.FromRR,
	cp:      func(f frp) frp { return f.Copy() },
	fromStr: bls.FRReprFromString,
	fromBig: func(n *I) (frp, error) { return bls.FRReprFromBigInt(n) },
	toBig:   func(f frp) *I { return f.ToBig() },
	fromB:   func(b []byte) frp { return bls.FRReprFromBytes([32]byte(b)) },
	bytes:   func(f frp) []byte { b := f.Bytes(); return b[:] },
	rsh:     func(f frp, n uint) frp { f = ptr(*f); f.Rsh(n); return f },
	lsh:     func(f frp, n uint) frp { f = ptr(*f); f.Lsh(n); return f },
	div2:    func(f frp) frp { f = ptr(*f); f.Div2(); return f },
	mul2:    func(f frp) frp { f = ptr(*f); f.Mul2(); return f },
	add:     func(f, g frp) frp { f = ptr(*f); f.AddNoCarry(g); return f },
	sub:     func(f, g frp) frp { f = ptr(*f); f.SubNoBorrow(g); return f },
	addSelf: func(f frp) frp { f = ptr(*f); f.AddNoCarry(f); return f },
	subSelf: func(f frp) frp { f = ptr(*f); f.SubNoBorrow(f); return f },
	eq:      func(f, g frp) bool { return f.Equals(g) },
	cmp:     func(f, g frp) int { return f.Cmp(g) },
	bitlen:  func(f frp) uint { return f.BitLen() },
	bit:     func(f frp, n uint) bool { return f.Bit(n) },
	odd:     func(f frp) bool { return f.IsOdd() },
	even:    func(f frp) bool { return f.IsEven() },
	zero:    func(f frp) bool { return f.IsZero() },
	str:     func(f frp) string { return f.String() },
	new:     bls.NewFRRepr,
}

func runFixed[T any](p *vt.P, x *fixed[T]) {
	bits := uint(64 * x.words)
	lim := new(I).Lsh(one, bits)
	wrap := func(n *I) *I { return mod(n, lim) }
	p.Check(x.name+" arithmetic", 30000, func(c *vt.Case) {
		a, b := c.UInt("a", x.words, x.p), c.UInt("b", x.words, x.p)
		switch c.Pick(6) {
		case 0:
			b = new(I).Set(a)
		case 1:
			b = wrap(new(I).Neg(a))
		case 2: // differ in one bit
			b = new(I).Set(a)
			n := c.Pick(int(bits))
			b.SetBit(b, n, b.Bit(n)^1)
		}
		c.Log("b'", hexn(b))
		n := uint(c.Int("n", 0, int(bits)+70))
		c.Count(!isTriv(a) && !isTriv(b), a, b, n)
		A, B := x.make(a), x.make(b)
		w := func(what string, got T, m *I) { wantNum(c, what, x.get(got), m) }
		w("a + b", x.add(A, B), wrap(new(I).Add(a, b)))
		w("a - b", x.sub(A, B), wrap(new(I).Sub(a, b)))
		w("a + a", x.addSelf(A), wrap(new(I).Add(a, a)))
		w("a - a", x.subSelf(A), num(0))
		w("a >> n", x.rsh(A, n), new(I).Rsh(a, n))
		w("a << n", x.lsh(A, n), wrap(new(I).Lsh(a, n)))
		w("a / 2", x.div2(A), new(I).Rsh(a, 1))
		w("2 a", x.mul2(A), wrap(new(I).Lsh(a, 1)))
		w("the copy", x.cp(A), a)
		want(c, x.eq(A, B) == (a.Cmp(b) == 0), "Equals: %v", x.eq(A, B))
		want(c, x.eq(A, x.make(a)), "a does not equal itself")
		want(c, x.cmp(A, B) == a.Cmp(b), "Cmp: %d, want %d", x.cmp(A, B), a.Cmp(b))
		want(c, x.cmp(A, x.make(a)) == 0, "Cmp with itself: not 0")
		want(c, x.bitlen(A) == uint(a.BitLen()), "BitLen: %d, want %d", x.bitlen(A), a.BitLen())
		for i := uint(0); i < bits; i++ {
			want(c, x.bit(A, i) == (a.Bit(int(i)) == 1), "Bit(%d): %v", i, x.bit(A, i))
		}
		want(c, x.odd(A) == (a.Bit(0) == 1) && x.even(A) == (a.Bit(0) == 0), "IsOdd or IsEven")
		want(c, x.zero(A) == (a.Sign() == 0), "IsZero: %v", x.zero(A))
		w("a afterwards", A, a)
		w("b afterwards", B, b)
	})
	p.Each(x.name+" shifts", int(bits)+140, func(c *vt.Case, i int) {
		n := uint(i)
		if i > int(bits)+130 {
			n = 1<<uint(i%32) + uint(i%3) // far too many
		}
		c.Log("n", n)
		c.Count(i > 0, i)
		for _, a := range []*I{new(I).Sub(lim, one), mod(new(I).Mul(lim, num(2)), x.p), one, new(I).Lsh(one, bits-1), new(I).Div(lim, num(3)), x.p} {
			wantNum(c, fmt.Sprintf("%#x >> n", a), x.get(x.rsh(x.make(a), n)), new(I).Rsh(a, n))
			l := num(0)
			if n < 1000 {
				l = wrap(new(I).Lsh(a, n))
			}
			wantNum(c, fmt.Sprintf("%#x << n", a), x.get(x.lsh(x.make(a), n)), l)
		}
	})
	p.Check(x.name+" encodings", 15000, func(c *vt.Case) {
		a := c.UInt("a", x.words, x.p)
		base := c.Int("base", 2, 36)
		c.Count(!isTriv(a), a, base)
		A := x.make(a)
		full := make([]byte, 8*x.words)
		a.FillBytes(full)
		wantBytes(c, "Bytes", x.bytes(A), full)
		wantNum(c, "from bytes", x.get(x.fromB(full)), a)
		wantNum(c, "ToBig", x.toBig(A), a)
		b, err := x.fromBig(new(I).Set(a))
		want(c, err == nil, "from big.Int: %v", err)
		wantNum(c, "from big.Int", x.get(b), a)
		in := new(I).Set(a)
		x.fromBig(in)
		wantNum(c, "the big.Int afterwards", in, a)
		s := a.Text(base)
		if c.Bool("zeros") {
			s = strings.Repeat("0", c.Pick(100)) + s
		}
		if c.Bool("upper") {
			s = strings.ToUpper(s)
		}
		b, err = x.fromStr(s, uint(base))
		want(c, err == nil, "from %q in base %d: %v", s, base, err)
		wantNum(c, "from a string", x.get(b), a)
		want(c, x.str(A) == fmt.Sprintf("%0*x", 16*x.words, a), "String: %s", x.str(A))
		b, err = x.fromStr(x.str(A), 16)
		want(c, err == nil, "String does not parse: %v", err)
		wantNum(c, "String, parsed", x.get(b), a)
		// the copies are independent of the original
		B := x.cp(A)
		x.toBig(A).Add(x.toBig(A), one)
		wantNum(c, "the copy", x.get(B), a)
		wantNum(c, "a afterwards", x.get(A), a)
	})
	p.Check(x.name+" rejected", 5000, func(c *vt.Case) {
		// too large, negative, or not a number
		var n *I
		switch c.Int("kind", 0, 2) {
		case 0:
			n = new(I).Add(lim, c.UInt("excess", x.words, x.p))
			if c.Pick(2) == 0 {
				n.Lsh(n, uint(c.Pick(400)))
			}
		case 1:
			n = c.UInt("negated", x.words, x.p)
			n = new(I).Neg(n.Add(n, one))
		case 2:
			s := c.UInt("digits", x.words, x.p).Text(10)
			bad := []string{"g", "z", " ", "-", ".", "x", "\x00", "0x", "A"}[c.Pick(9)]
			i := c.Pick(len(s) + 1)
			s = s[:i] + bad + s[i:]
			if c.Pick(8) == 0 {
				s = ""
			}
			if _, ok := new(I).SetString(s, 10); ok {
				s += "g" // a leading minus
			}
			c.Log("string", s)
			c.Count(true, s)
			_, err := x.fromStr(s, 10)
			want(c, err != nil, "accepted the string %q", s)
			return
		}
		c.Log("n", hexn(n))
		c.Count(true, n)
		_, err := x.fromBig(new(I).Set(n))
		want(c, err != nil, "accepted %#x", n)
		_, err = x.fromStr(n.Text(10), 10)
		want(c, err != nil, "accepted the string %v", n)
		_, err = x.fromStr(n.Text(16), 16)
		want(c, err != nil, "accepted the string %#x", n)
	})
	p.Check(x.name+" small", 3000, func(c *vt.Case) {
		w := c.U64("w")
		c.Count(w > 1, w)
		wantNum(c, "New", x.get(x.new(w)), new(I).SetUint64(w))
	})
	p.Each(x.name+" words", 1<<x.words, func(c *vt.Case, i int) {
		// comparison and length for every pattern of zero words
		c.Count(i > 0, i)
		n := new(I)
		for k := 0; k < x.words; k++ {
			if i>>k&1 == 1 {
				n.SetBit(n, 64*k+i%64, 1)
			}
		}
		c.Log("n", hexn(n))
		A := x.make(n)
		want(c, x.bitlen(A) == uint(n.BitLen()), "BitLen: %d, want %d", x.bitlen(A), n.BitLen())
		want(c, x.zero(A) == (i == 0), "IsZero")
		for j := 0; j < 1<<x.words; j++ {
			m := new(I)
			for k := 0; k < x.words; k++ {
				if j>>k&1 == 1 {
					m.SetBit(m, 64*k+i%64, 1)
				}
			}
			B := x.make(m)
			want(c, x.cmp(A, B) == n.Cmp(m), "Cmp with %#x: %d", m, x.cmp(A, B))
			want(c, x.eq(A, B) == (n.Cmp(m) == 0), "Equals with %#x: %v", m, x.eq(A, B))
		}
	})
}

// TestC22 checks the fixed-width integers.
func TestC22(t *testing.T) {
	p := vt.Prop(t, "C22")
	runFixed(p, &fixedQ)
	runFixed(p, &fixedR)
	p.Check("widen", 5000, func(c *vt.Case) {
		a := c.UInt("a", 4, R)
		c.Count(!isTriv(a), a)
		A := lib.RRepr(a)
		wantNum(c, "ToFQ", lib.FromQR(A.ToFQ()), a)
		wantNum(c, "a afterwards", lib.FromRR(A), a)
	})
	p.Check("bits", 5000, func(c *vt.Case) {
		n := c.Int("words", 0, 10)
		w := make([]uint64, n)
		for i := range w {
			w[i] = c.U64("w")
		}
		c.Count(n > 1, fmt.Sprint(w))
		m := lib.FromWords(w)
		it := bls.NewBitIterator(w)
		for i := 64*n - 1; i >= 0; i-- {
			b, done := it.Next()
			want(c, !done, "finished %d bits early", i+1)
			want(c, b == (m.Bit(i) == 1), "bit %d: %v", i, b)
		}
		for i := 0; i < 3; i++ {
			b, done := it.Next()
			want(c, done && !b, "not finished after the last bit")
		}
		wantNum(c, "the words afterwards", lib.FromWords(w), m)
	})
}

// The primitives as values: a call through a value leaves other things in the
// registers than a direct call.
var (
	addWithCarry   = bls.AddWithCarry
	subWithBorrow  = bls.SubWithBorrow
	macWithCarry   = bls.MACWithCarry
	multiplyFQRepr = bls.MultiplyFQRepr
	montReduce     = bls.MontReduce
	addNoCarry     = bls.AddNoCarry
	subNoBorrow    = bls.SubNoBorrow
)

// TestC23 checks the limb primitives, in whichever form this build has them.
func TestC23(t *testing.T) {
	p := vt.Prop(t, "C23")
	two64 := new(I).Lsh(one, 64)
	two384 := new(I).Lsh(one, 384)
	u := func(w uint64) *I { return new(I).SetUint64(w) }
	full := func(lo, hi uint64) *I { return new(I).Add(u(lo), new(I).Mul(u(hi), two64)) }

	words := func(c *vt.Case, a, b, d uint64) {
		lo, hi := bls.AddWithCarry(a, b, d)
		wantNum(c, "a + b + carry", full(lo, hi), new(I).Add(u(a), new(I).Add(u(b), u(d))))
		lo, hi = bls.MACWithCarry(a, b, d, 0)
		m := new(I).Add(u(a), new(I).Mul(u(b), u(d)))
		wantNum(c, "a + b c", full(lo, hi), m)
		lo, hi = bls.SubWithBorrow(a, b, d&1)
		m = new(I).Sub(u(a), u(b))
		m.Sub(m, u(d&1))
		br := uint64(0)
		if m.Sign() < 0 {
			br = 1
		}
		wantNum(c, "a - b - borrow", u(lo), mod(m, two64))
		want(c, hi == br, "a - b - borrow: borrow %d, want %d", hi, br)
		l2, h2 := subWithBorrow(a, b, d&1)
		want(c, l2 == lo && h2 == hi, "a - b - borrow, called through a value: %#x, %#x", l2, h2)
		lo, hi = addWithCarry(a, b, d)
		wantNum(c, "a + b + carry, called through a value", full(lo, hi), new(I).Add(u(a), new(I).Add(u(b), u(d))))
		lo, hi = macWithCarry(a, b, d, 0)
		wantNum(c, "a + b c, called through a value", full(lo, hi), new(I).Add(u(a), new(I).Mul(u(b), u(d))))
	}
	edge := []uint64{0, 1, 2, 3, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 3, 1<<64 - 2, 1<<64 - 1}
	ne := len(edge)
	p.Each("edge words", ne*ne*ne, func(c *vt.Case, i int) {
		a, b, d := edge[i%ne], edge[i/ne%ne], edge[i/ne/ne]
		c.Log("a, b, c", fmt.Sprintf("%#x %#x %#x", a, b, d))
		c.Count(a|b|d > 1, i)
		words(c, a, b, d)
		for _, k := range edge {
			lo, hi := bls.MACWithCarry(a, b, d, k)
			m := new(I).Add(u(a), new(I).Mul(u(b), u(d)))
			m.Add(m, u(k))
			wantNum(c, fmt.Sprintf("a + b c + %#x", k), full(lo, hi), m)
		}
	})
	p.Check("words", 40000, func(c *vt.Case) {
		a, b, d, k := c.U64("a"), c.U64("b"), c.U64("c"), c.U64("carry")
		c.Count(a > 1 && b > 1 && d > 1, a, b, d, k)
		words(c, a, b, d)
		lo, hi := bls.MACWithCarry(a, b, d, k)
		m := new(I).Add(u(a), new(I).Mul(u(b), u(d)))
		m.Add(m, u(k))
		wantNum(c, "a + b c + carry", full(lo, hi), m)
	})

	limbs := func(c *vt.Case, a, b *I) {
		A, B := lib.U6(a), lib.U6(b)
		hi, lo := bls.MultiplyFQRepr(A, B)
		wantNum(c, "a * b", new(I).Add(lib.From6(lo), new(I).Mul(lib.From6(hi), two384)), new(I).Mul(a, b))
		wantNum(c, "a + b", lib.From6(bls.AddNoCarry(A, B)), mod(new(I).Add(a, b), two384))
		wantNum(c, "a - b", lib.From6(bls.SubNoBorrow(A, B)), mod(new(I).Sub(a, b), two384))
		h2, l2 := multiplyFQRepr(A, B)
		want(c, h2 == hi && l2 == lo, "a * b, called through a value")
		want(c, addNoCarry(A, B) == bls.AddNoCarry(A, B), "a + b, called through a value")
		want(c, subNoBorrow(A, B) == bls.SubNoBorrow(A, B), "a - b, called through a value")
		wantNum(c, "a afterwards", lib.From6(A), a)
		wantNum(c, "b afterwards", lib.From6(B), b)
	}
	p.Check("limbs", 60000, func(c *vt.Case) {
		a, b := c.UInt("a", 6, Q), c.UInt("b", 6, Q)
		switch c.Pick(8) {
		case 0:
			b = mod(new(I).Neg(a), two384)
		case 1:
			b = new(I).Set(a)
		}
		c.Log("b'", hexn(b))
		c.Count(!isTriv(a) && !isTriv(b), a, b)
		limbs(c, a, b)
	})
	rinv := new(I).ModInverse(two384, Q)
	limQ := new(I).Mul(Q, two384)
	reduce := func(c *vt.Case, t *I) {
		lo, hi := mod(t, two384), new(I).Rsh(t, 384)
		H, L := lib.U6(hi), lib.U6(lo)
		out := lib.From6(bls.MontReduce(H, L))
		want(c, lib.From6(montReduce(H, L)).Cmp(out) == 0, "MontReduce, called through a value")
		want(c, out.Cmp(new(I).Lsh(Q, 1)) < 0, "MontReduce: %#x is not below 2q", out)
		wantNum(c, "MontReduce mod q", mod(out, Q), mod(new(I).Mul(t, rinv), Q))
		wantNum(c, "lo afterwards", lib.From6(L), lo)
		wantNum(c, "hi afterwards", lib.From6(H), hi)
	}
	p.Check("reduce", 60000, func(c *vt.Case) {
		var t *I
		switch c.Int("form", 0, 5) {
		case 0: // a product of field elements
			t = new(I).Mul(c.Fq("a"), c.Fq("b"))
		case 1: // a converted element
			t = c.UInt("a", 6, Q)
		case 2: // anything below the limit
			hi, lo := c.Fq("hi"), c.UInt("lo", 6, Q)
			t = new(I).Add(lo, new(I).Mul(hi, two384))
		case 3: // near a multiple of q: intermediate sums near zero
			t = new(I).Mul(Q, c.UInt("k", 6, Q))
			t.Add(t, num(int64(c.Int("d", -3, 3))))
			t = mod(t, limQ)
		case 4: // near the limit
			t = new(I).Sub(limQ, new(I).Add(one, c.UInt("below", c.Int("w", 1, 6), Q)))
		case 5: // chosen so that the result is near 0, q or 2^384 - ...: t = k 2^384 - m q
			k, m := c.Fq("k"), c.UInt("m", 6, Q)
			t = new(I).Sub(new(I).Mul(k, two384), new(I).Mul(m, Q))
			t = mod(t, limQ)
		}
		c.Log("t", hexn(t))
		c.Count(t.BitLen() > 64, t)
		reduce(c, t)
	})
	// Carries that ripple through every limb: words of ones and zeros.
	p.Each("ripple", 1<<12, func(c *vt.Case, i int) {
		pat := func(m int, d int64) *I {
			n := new(I)
			for k := 0; k < 6; k++ {
				if m>>k&1 == 1 {
					n.Or(n, new(I).Lsh(new(I).SetUint64(1<<64-1), uint(64*k)))
				}
			}
			return mod(n.Add(n, num(d)), two384)
		}
		a, b := i&63, i>>6
		c.Log("ones in a, b", fmt.Sprintf("%06b %06b", a, b))
		c.Count(a != 0 && b != 0, i)
		for da := int64(-1); da <= 1; da++ {
			for db := int64(-1); db <= 1; db++ {
				limbs(c, pat(a, da), pat(b, db))
				h := mod(pat(a, da), Q)
				reduce(c, new(I).Add(pat(b, db), new(I).Mul(h, two384)))
			}
		}
	})
}

// TestC28 checks orderings and the choice of a y coordinate.
func TestC28(t *testing.T) {
	p := vt.Prop(t, "C28")
	related := func(c *vt.Case, a, m *I) *I {
		switch c.Pick(5) {
		case 0:
			return new(I).Set(a)
		case 1:
			return mod(new(I).Neg(a), m)
		case 2:
			return mod(new(I).Add(a, num(int64(c.Pick(3)-1))), m)
		case 3: // agrees in all limbs but one
			b := new(I).Set(a)
			n := c.Pick(m.BitLen())
			b.SetBit(b, n, b.Bit(n)^1)
			return mod(b, m)
		}
		return nil
	}
	p.Check("fq", 20000, func(c *vt.Case) {
		a, b := c.Fq("a"), c.Fq("b")
		if d := related(c, a, Q); d != nil {
			b = d
		}
		c.Log("b'", hexn(b))
		c.Count(!isTriv(a) && !isTriv(b), a, b)
		A, B := lib.FQ(a), lib.FQ(b)
		want(c, A.Cmp(B) == a.Cmp(b), "Cmp: %d, want %d", A.Cmp(B), a.Cmp(b))
		want(c, B.Cmp(A) == b.Cmp(a), "Cmp, swapped: %d", B.Cmp(A))
		g := model.Greater[*I](model.Fq, a)
		want(c, A.Parity() == g, "Parity: %v, want %v", A.Parity(), g)
	})
	p.Check("fr", 20000, func(c *vt.Case) {
		a, b := c.Fr("a"), c.Fr("b")
		if d := related(c, a, R); d != nil {
			b = d
		}
		c.Log("b'", hexn(b))
		c.Count(!isTriv(a) && !isTriv(b), a, b)
		A, B := lib.FR(a), lib.FR(b)
		want(c, A.Cmp(B) == a.Cmp(b), "Cmp: %d, want %d", A.Cmp(B), a.Cmp(b))
		want(c, B.Cmp(A) == b.Cmp(a), "Cmp, swapped: %d", B.Cmp(A))
		g := model.Greater[*I](model.Fr, a)
		want(c, A.Parity() == g, "Parity: %v, want %v", A.Parity(), g)
		lib.WantFR(c, "a afterwards", A, a)
	})
	p.Check("fq2", 20000, func(c *vt.Case) {
		a, b := c.Fq2("a"), c.Fq2("b")
		if c.Bool("same imaginary part") {
			b.B = a.B
		}
		if d := related(c, a.A, Q); d != nil {
			b.A = d
		}
		if c.Pick(3) == 0 {
			if d := related(c, a.B, Q); d != nil {
				b.B = d
			}
		}
		if c.Pick(10) == 0 {
			b = model.Fq2.Neg(a)
		}
		c.Log("b'", b)
		c.Count(!isTriv2(a) && !isTriv2(b), a, b)
		A, B := q2(a), q2(b)
		m := model.Fq2.Cmp(a, b)
		want(c, A.Cmp(B) == m, "Cmp: %d, want %d", A.Cmp(B), m)
		want(c, B.Cmp(A) == -m, "Cmp, swapped: %d", B.Cmp(A))
		g := model.Greater[model.F2](model.Fq2, a)
		want(c, A.Parity() == g, "Parity: %v, want %v", A.Parity(), g)
	})
	lift1 := func(c *vt.Case, x *I) { liftCase(c, lib.G1, x) }
	lift2 := func(c *vt.Case, x model.F2) { liftCase(c, lib.G2, x) }
	p.Check("g1 from x", 1500, func(c *vt.Case) {
		x := c.Fq("x")
		c.Count(!isTriv(x), x)
		lift1(c, x)
	})
	p.Check("g2 from x", 800, func(c *vt.Case) {
		x := c.Fq2("x")
		c.Count(!isTriv2(x), x)
		lift2(c, x)
	})
	o1, o2 := lib.G1.Pool, lib.G2.Pool
	p1 := append(append([]model.P1{}, o1.Special...), o1.Tors...)
	p2 := append(append([]model.P2{}, o2.Special...), o2.Tors...)
	p.Each("g1 special", len(p1), func(c *vt.Case, i int) {
		c.Log("x", p1[i].X)
		c.Count(true, i)
		lift1(c, p1[i].X)
	})
	p.Each("g2 special", len(p2), func(c *vt.Case, i int) {
		c.Log("x", p2[i].X)
		c.Count(true, i)
		lift2(c, p2[i].X)
	})
}

func liftCase[E, A, P any](c *vt.Case, g *lib.Grp[E, A, P], x E) {
	for _, greatest := range []bool{false, true} {
		m, ok := g.C.Lift(x, greatest)
		a, err := g.Lift(x, greatest)
		if !ok {
			want(c, err != nil, "%s: a point with x = %v though there is none", g.Name, x)
			c.Label("no point")
			continue
		}
		want(c, err == nil, "%s: no point with x = %v: %v", g.Name, x, err)
		g.WantA(c, fmt.Sprintf("from x, greatest=%v", greatest), a, m)
	}
}

// digest is a hash whose digest is given.
type digest []byte

func (d digest) Write(b []byte) (int, error) { return len(b), nil }
func (d digest) Sum(b []byte) []byte         { return append(b, d...) }
func (d digest) Reset()                      {}
func (d digest) Size() int                   { return len(d) }
func (d digest) BlockSize() int              { return 64 }

// mulBytes is the scalar that the library multiplies by for some bytes: the
// first byte is the most significant, the bits of a byte are reversed.
func mulBytes(b []byte) *I {
	n := new(I)
	for _, x := range b {
		for i := 0; i < 8; i++ {
			n.Lsh(n, 1)
			if x>>i&1 == 1 {
				n.Or(n, one)
			}
		}
	}
	return n
}

// TestC29 checks multiplication by numbers and bytes, and hashing to fields.
func TestC29(t *testing.T) {
	p := vt.Prop(t, "C29")
	p.Check("fq bits", 4000, func(c *vt.Case) {
		a, n := c.Fq("a"), c.UInt("n", 6, Q)
		c.Count(!isTriv(a) && !isTriv(n), a, n)
		N := lib.QRepr(n)
		lib.WantFQ(c, "n a", lib.FQ(a).MulBits(&N), model.Fq.Mul(a, n))
		wantNum(c, "n afterwards", lib.FromQR(N), n)
	})
	p.Check("fr bits", 4000, func(c *vt.Case) {
		a, n := c.Fr("a"), c.UInt("n", 4, R)
		c.Count(!isTriv(a) && !isTriv(n), a, n)
		N, A := lib.RRepr(n), lib.FR(a)
		lib.WantFR(c, "n a", A.MulBits(N), model.Fr.Mul(a, n))
		wantNum(c, "n afterwards", lib.FromRR(N), n)
		lib.WantFR(c, "a afterwards", A, a)
	})
	p.Check("fq2 bits", 3000, func(c *vt.Case) {
		a := c.Fq2("a")
		n := new(I).SetBytes(c.Uniform("n", c.Int("len", 0, 100)))
		if c.Bool("edge") {
			n = c.UInt("n", c.Int("words", 1, 9), Q)
		}
		c.Count(!isTriv2(a) && !isTriv(n), a, n)
		N := new(I).Set(n)
		lib.WantFQ2(c, "n a", q2(a).MulBits(N), model.Fq2.Mul(a, model.E2(n, num(0))))
		wantNum(c, "n afterwards", N, n)
	})
	p.Check("bytes", 4000, func(c *vt.Case) {
		a, s := c.Fq("a"), c.Fr("s")
		b := c.Msg("bytes")
		if len(b) > 300 {
			b = b[:300]
		}
		c.Count(len(b) > 1, a, b)
		in := bytes.Clone(b)
		n := mulBytes(b)
		lib.WantFQ(c, "Fq", lib.FQ(a).MulBytes(b), model.Fq.Of(new(I).Mul(a, n)))
		lib.WantFR(c, "Fr", lib.FR(s).MulBytes(b), model.Fr.Of(new(I).Mul(s, n)))
		wantBytes(c, "the bytes afterwards", b, in)
	})
	p.Check("hash", 4000, func(c *vt.Case) {
		b := c.Msg("message")
		var h hash.Hash
		switch c.Int("hash", 0, 3) {
		case 0:
			h = sha256.New()
		case 1:
			h = sha512.New()
		case 2:
			h = sha512.New384()
		case 3:
			if len(b) > 200 {
				b = b[:200]
			}
			h = digest(b)
		}
		h.Write(b)
		d := h.Sum(nil)
		c.Count(len(b) > 0, b, len(d))
		// in any order and repeatedly, the hash is only read
		for i := 0; i < 2; i++ {
			lib.WantFQ(c, "HashFQ", bls.HashFQ(h), model.Fq.Of(mulBytes(d)))
			lib.WantFR(c, "HashFR", bls.HashFR(h), model.Fr.Of(mulBytes(d)))
			lib.WantFQ2(c, "HashFQ2", bls.HashFQ2(h), model.E2(new(I).SetBytes(d), num(0)))
		}
		wantBytes(c, "the digest afterwards", h.Sum(nil), d)
	})
	p.Each("small", 256, func(c *vt.Case, i int) {
		c.Log("n", i)
		c.Count(i > 1, i)
		n := num(int64(i))
		N := lib.QRepr(n)
		lib.WantFQ(c, "Fq bits", bls.FQOne.MulBits(&N), n)
		lib.WantFR(c, "Fr bits", lib.FR(one).MulBits(lib.RRepr(n)), n)
		lib.WantFQ2(c, "Fq2 bits", bls.FQ2One.MulBits(big.NewInt(int64(i))), model.S2(int64(i), 0))
		lib.WantFQ(c, "Fq bytes", bls.FQOne.MulBytes([]byte{byte(i)}), mulBytes([]byte{byte(i)}))
		lib.WantFR(c, "Fr bytes", lib.FR(one).MulBytes([]byte{byte(i), 1}), mulBytes([]byte{byte(i), 1}))
	})
}
