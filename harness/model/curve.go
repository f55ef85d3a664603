package model

import "fmt"

// Pt is a point in affine coordinates.
type Pt[E any] struct {
	X, Y E
	Inf  bool
}

// P1 and P2 are the points of the two groups' curves.
type (
	P1 = Pt[*I]
	P2 = Pt[F2]
)

func (p Pt[E]) String() string {
	if p.Inf {
		return "O"
	}
	return fmt.Sprintf("(%v, %v)", p.X, p.Y)
}

// Curve is y^2 = x^3 + A x + B.
type Curve[E any] struct {
	F    Field[E]
	A, B E
}

// G1 and G2 are the curves, Gen1 and Gen2 their standard generators.
var (
	G1 = &Curve[*I]{Fq, Int(0), Int(4)}
	G2 = &Curve[F2]{Fq2, S2(0, 0), S2(4, 4)}

	Gen1 = P1{
		X: Hex("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
		Y: Hex("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"),
	}
	Gen2 = P2{
		X: F2{
			Hex("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
			Hex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e"),
		},
		Y: F2{
			Hex("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
			Hex("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"),
		},
	}
)

// O is the point at infinity.
func (c *Curve[E]) O() Pt[E] { return Pt[E]{c.F.Zero(), c.F.One(), true} }

// RHS is x^3 + A x + B.
func (c *Curve[E]) RHS(x E) E {
	f := c.F
	return f.Add(f.Mul(f.Add(f.Mul(x, x), c.A), x), c.B)
}

func (c *Curve[E]) On(p Pt[E]) bool {
	return p.Inf || c.F.Eq(c.F.Mul(p.Y, p.Y), c.RHS(p.X))
}

func (c *Curve[E]) Eq(p, q Pt[E]) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return c.F.Eq(p.X, q.X) && c.F.Eq(p.Y, q.Y)
}

func (c *Curve[E]) Neg(p Pt[E]) Pt[E] {
	if p.Inf {
		return c.O()
	}
	return Pt[E]{p.X, c.F.Neg(p.Y), false}
}

// Add is the chord and tangent rule.
func (c *Curve[E]) Add(p, q Pt[E]) Pt[E] {
	f := c.F
	switch {
	case p.Inf:
		return q
	case q.Inf:
		return p
	}
	var l E
	if f.Eq(p.X, q.X) {
		if !f.Eq(p.Y, q.Y) || f.IsZero(p.Y) {
			return c.O()
		}
		xx := f.Mul(p.X, p.X)
		l = f.Mul(f.Add(f.Add(f.Add(xx, xx), xx), c.A), f.Inv(f.Add(p.Y, p.Y)))
	} else {
		l = f.Mul(f.Sub(q.Y, p.Y), f.Inv(f.Sub(q.X, p.X)))
	}
	x := f.Sub(f.Sub(f.Mul(l, l), p.X), q.X)
	return Pt[E]{x, f.Sub(f.Mul(l, f.Sub(p.X, x)), p.Y), false}
}

func (c *Curve[E]) Sub(p, q Pt[E]) Pt[E] { return c.Add(p, c.Neg(q)) }

// Mul is the n-th multiple, for any integer n.
func (c *Curve[E]) Mul(p Pt[E], n *I) Pt[E] {
	if n.Sign() < 0 {
		return c.Mul(c.Neg(p), new(I).Neg(n))
	}
	r := c.O()
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = c.Add(r, r)
		if n.Bit(i) == 1 {
			r = c.Add(r, p)
		}
	}
	return r
}

// InSub tells whether an on-curve point has order dividing r.
func (c *Curve[E]) InSub(p Pt[E]) bool { return c.Mul(p, R).Inf }

// Lift finds the point with the given x-coordinate and the greater or smaller
// y-coordinate of the two.
func (c *Curve[E]) Lift(x E, greatest bool) (Pt[E], bool) {
	y, ok := c.F.Sqrt(c.RHS(x))
	if !ok {
		return Pt[E]{}, false
	}
	if (c.F.Cmp(y, c.F.Neg(y)) > 0) != greatest {
		y = c.F.Neg(y)
	}
	return Pt[E]{x, y, false}, true
}

// Greater tells whether e is the greater of e and -e.
func Greater[E any](f Field[E], e E) bool { return f.Cmp(e, f.Neg(e)) > 0 }

// --- encodings ---

func put48(b []byte, n *I) { n.FillBytes(b[:48]) }

// Compress1 is the 48-byte encoding.
func Compress1(p P1) (b [48]byte) {
	if p.Inf {
		b[0] = 0xc0
		return
	}
	put48(b[:], p.X)
	b[0] |= 0x80
	if Greater[*I](Fq, p.Y) {
		b[0] |= 0x20
	}
	return
}

// Compress2 is the 96-byte encoding.
func Compress2(p P2) (b [96]byte) {
	if p.Inf {
		b[0] = 0xc0
		return
	}
	put48(b[:48], p.X.B)
	put48(b[48:], p.X.A)
	b[0] |= 0x80
	if Greater[F2](Fq2, p.Y) {
		b[0] |= 0x20
	}
	return
}

// flags takes the three flag bits off a copy of the encoding.
func flags(b []byte) (comp, inf, big bool, rest []byte) {
	rest = append([]byte{}, b...)
	comp, inf, big = b[0]&0x80 != 0, b[0]&0x40 != 0, b[0]&0x20 != 0
	rest[0] &= 0x1f
	return
}

func allZero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// Decompress1 accepts exactly the encodings Compress1 makes of points on the
// curve (not only those in the subgroup).
func Decompress1(b [48]byte) (P1, bool) {
	comp, inf, greatest, rest := flags(b[:])
	if !comp {
		return P1{}, false
	}
	if inf {
		return G1.O(), !greatest && allZero(rest)
	}
	x := new(I).SetBytes(rest)
	if x.Cmp(Q) >= 0 {
		return P1{}, false
	}
	return G1.Lift(x, greatest)
}

// Decompress2 is the same on the other curve.
func Decompress2(b [96]byte) (P2, bool) {
	comp, inf, greatest, rest := flags(b[:])
	if !comp {
		return P2{}, false
	}
	if inf {
		return G2.O(), !greatest && allZero(rest)
	}
	x := F2{B: new(I).SetBytes(rest[:48]), A: new(I).SetBytes(rest[48:])}
	if x.A.Cmp(Q) >= 0 || x.B.Cmp(Q) >= 0 {
		return P2{}, false
	}
	return G2.Lift(x, greatest)
}

// Raw1 is the uncompressed form of a finite point.
func Raw1(p P1) (b [96]byte) {
	put48(b[:], p.X)
	put48(b[48:], p.Y)
	return
}

// Raw2 is the uncompressed form of a finite point.
func Raw2(p P2) (b [192]byte) {
	put48(b[:], p.X.A)
	put48(b[48:], p.X.B)
	put48(b[96:], p.Y.A)
	put48(b[144:], p.Y.B)
	return
}
