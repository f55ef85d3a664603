// Package model is a reference implementation of everything the BLS library
// computes. It is written with math/big from the mathematical definitions, and
// shares no code, representation or algorithm with the library: no Montgomery
// form, no limbs, no projective coordinates, no tower for Fq12.
package model

import (
	"fmt"
	"math/big"
)

// I is a shorthand for big.Int.
type I = big.Int

// Int makes a number.
func Int(n int64) *I { return big.NewInt(n) }

// Hex makes a number from hexadecimal digits.
func Hex(s string) *I {
	n, ok := new(I).SetString(s, 16)
	if !ok {
		panic("bad hex " + s)
	}
	return n
}

// X is the absolute value of the curve parameter, which is negative.
var X = Hex("d201000000010000")

// R is the group order and Q the field characteristic, both from the curve
// parameter x = -X:  r = x^4 - x^2 + 1,  q = (x-1)^2 r / 3 + x.
var R, Q = params()

func params() (*I, *I) {
	x := new(I).Neg(X)
	x2 := new(I).Mul(x, x)
	r := new(I).Mul(x2, x2)
	r.Sub(r, x2)
	r.Add(r, Int(1))
	q := new(I).Sub(x, Int(1))
	q.Mul(q, q)
	q.Mul(q, r)
	q.Div(q, Int(3))
	q.Add(q, x)
	return r, q
}

// H1 and H2 are the cofactors of the two curves.
var H1, H2 = cofactors()

func cofactors() (*I, *I) {
	x := new(I).Neg(X)
	h1 := new(I).Sub(x, Int(1))
	h1.Mul(h1, h1)
	h1.Div(h1, Int(3))
	// (x^8 - 4x^7 + 5x^6 - 4x^4 + 6x^3 - 4x^2 - 4x + 13) / 9
	c := []int64{13, -4, -4, 6, -4, 0, 5, -4, 1}
	h2 := new(I)
	for i := len(c) - 1; i >= 0; i-- {
		h2.Mul(h2, x)
		h2.Add(h2, Int(c[i]))
	}
	h2.Div(h2, Int(9))
	return h1, h2
}

// Field has the operations curve arithmetic needs.
type Field[E any] interface {
	Zero() E
	One() E
	Add(a, b E) E
	Sub(a, b E) E
	Mul(a, b E) E
	Neg(a E) E
	Inv(a E) E // of a nonzero element
	Eq(a, b E) bool
	IsZero(a E) bool
	// Sqrt returns some square root.
	Sqrt(a E) (E, bool)
	// Cmp is the order of the encodings.
	Cmp(a, b E) int
}

// Prime is the field of integers modulo P.
type Prime struct{ P *I }

// Fq and Fr are the two prime fields.
var (
	Fq = Prime{Q}
	Fr = Prime{R}
)

// Of reduces an integer.
func (f Prime) Of(a *I) *I     { return new(I).Mod(a, f.P) }
func (f Prime) Zero() *I       { return Int(0) }
func (f Prime) One() *I        { return Int(1) }
func (f Prime) Add(a, b *I) *I { return f.Of(new(I).Add(a, b)) }
func (f Prime) Sub(a, b *I) *I { return f.Of(new(I).Sub(a, b)) }
func (f Prime) Mul(a, b *I) *I { return f.Of(new(I).Mul(a, b)) }
func (f Prime) Neg(a *I) *I    { return f.Of(new(I).Neg(a)) }
func (f Prime) Inv(a *I) *I {
	if a.Sign() == 0 {
		panic("model: inverse of zero")
	}
	return new(I).ModInverse(a, f.P)
}
func (f Prime) Eq(a, b *I) bool  { return a.Cmp(b) == 0 }
func (f Prime) IsZero(a *I) bool { return a.Sign() == 0 }
func (f Prime) Cmp(a, b *I) int  { return a.Cmp(b) }
func (f Prime) Pow(a, n *I) *I   { return new(I).Exp(a, n, f.P) }

// Jacobi is 0, 1 or -1.
func (f Prime) Jacobi(a *I) int { return big.Jacobi(f.Of(a), f.P) }

// Sqrt returns some square root.
func (f Prime) Sqrt(a *I) (*I, bool) {
	s := new(I).ModSqrt(f.Of(a), f.P)
	return s, s != nil
}

// F2 is A + B u, with u^2 = -1.
type F2 struct{ A, B *I }

func (a F2) String() string { return fmt.Sprintf("(%#x + %#x u)", a.A, a.B) }

// Quad is the field Fq2.
type Quad struct{}

// Fq2 is the quadratic extension.
var Fq2 Quad

// E2 makes an element from any two integers.
func E2(a, b *I) F2 { return F2{Fq.Of(a), Fq.Of(b)} }

// S2 makes an element from two small integers.
func S2(a, b int64) F2 { return E2(Int(a), Int(b)) }

func (Quad) Zero() F2         { return S2(0, 0) }
func (Quad) One() F2          { return S2(1, 0) }
func (Quad) Add(a, b F2) F2   { return F2{Fq.Add(a.A, b.A), Fq.Add(a.B, b.B)} }
func (Quad) Sub(a, b F2) F2   { return F2{Fq.Sub(a.A, b.A), Fq.Sub(a.B, b.B)} }
func (Quad) Neg(a F2) F2      { return F2{Fq.Neg(a.A), Fq.Neg(a.B)} }
func (Quad) Eq(a, b F2) bool  { return a.A.Cmp(b.A) == 0 && a.B.Cmp(b.B) == 0 }
func (Quad) IsZero(a F2) bool { return a.A.Sign() == 0 && a.B.Sign() == 0 }
func (Quad) Conj(a F2) F2     { return F2{a.A, Fq.Neg(a.B)} }
func (Quad) Mul(a, b F2) F2 {
	re := new(I).Mul(a.A, b.A)
	re.Sub(re, new(I).Mul(a.B, b.B))
	im := new(I).Mul(a.A, b.B)
	im.Add(im, new(I).Mul(a.B, b.A))
	return E2(re, im)
}

// Norm is A^2 + B^2.
func (Quad) Norm(a F2) *I {
	n := new(I).Mul(a.A, a.A)
	return Fq.Of(n.Add(n, new(I).Mul(a.B, a.B)))
}

func (Quad) Inv(a F2) F2 {
	n := Fq.Inv(Fq2.Norm(a))
	return F2{Fq.Mul(a.A, n), Fq.Mul(Fq.Neg(a.B), n)}
}

// Pow raises to a nonnegative power.
func (Quad) Pow(a F2, n *I) F2 {
	res := Fq2.One()
	for i := n.BitLen() - 1; i >= 0; i-- {
		res = Fq2.Mul(res, res)
		if n.Bit(i) == 1 {
			res = Fq2.Mul(res, a)
		}
	}
	return res
}

// Cmp compares the imaginary parts first.
func (Quad) Cmp(a, b F2) int {
	if c := a.B.Cmp(b.B); c != 0 {
		return c
	}
	return a.A.Cmp(b.A)
}

// Sqrt solves (s + t u)^2 = a + b u over the rationals of Fq: s^2 is one of
// (a +- sqrt(a^2+b^2)) / 2, and t = b / 2s, or s = 0 and t^2 = -a.
func (Quad) Sqrt(a F2) (F2, bool) {
	n, ok := Fq.Sqrt(Fq2.Norm(a))
	if !ok {
		return F2{}, false
	}
	half := Fq.Inv(Int(2))
	for _, m := range []*I{n, Fq.Neg(n)} {
		s, ok := Fq.Sqrt(Fq.Mul(Fq.Add(a.A, m), half))
		if !ok {
			continue
		}
		var c F2
		if s.Sign() == 0 {
			t, ok := Fq.Sqrt(Fq.Neg(a.A))
			if !ok {
				continue
			}
			c = F2{s, t}
		} else {
			c = F2{s, Fq.Mul(a.B, Fq.Inv(Fq.Add(s, s)))}
		}
		if Fq2.Eq(Fq2.Mul(c, c), a) {
			return c, true
		}
	}
	return F2{}, false
}
