// Package lib joins the library under test to the reference model: conversions
// both ways, and generators of curve points and library values.
package lib

import (
	"fmt"
	"math/big"

	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

type I = big.Int

var mask64 = new(I).SetUint64(1<<64 - 1)

// Words splits a nonnegative number into little-endian words.
func Words(n *I, w []uint64) {
	t := new(I).Set(n)
	for i := range w {
		w[i] = new(I).And(t, mask64).Uint64()
		t.Rsh(t, 64)
	}
	if t.Sign() != 0 {
		panic("harness: number too large")
	}
}

// FromWords is the inverse of Words.
func FromWords(w []uint64) *I {
	n := new(I)
	for i := len(w) - 1; i >= 0; i-- {
		n.Lsh(n, 64)
		n.Or(n, new(I).SetUint64(w[i]))
	}
	return n
}

// QRepr and RRepr make the fixed-width integers.
func QRepr(n *I) (r bls.FQRepr)  { Words(n, r[:]); return }
func RRepr(n *I) *bls.FRRepr     { var r bls.FRRepr; Words(n, r[:]); return &r }
func FromQR(r bls.FQRepr) *I     { return FromWords(r[:]) }
func FromRR(r *bls.FRRepr) *I    { return FromWords(r[:]) }
func U6(n *I) (r [6]uint64)      { Words(n, r[:]); return }
func From6(r [6]uint64) *I       { return FromWords(r[:]) }
func FQ(n *I) bls.FQ             { return bls.FQReprToFQ(QRepr(n)) }
func FromFQ(f bls.FQ) *I         { return FromQR(f.ToRepr()) }
func FR(n *I) *bls.FR            { return bls.FRReprToFR(RRepr(n)) }
func FromFR(f *bls.FR) *I        { return FromRR(f.ToRepr()) }
func FQ2(e model.F2) bls.FQ2     { return bls.NewFQ2(FQ(e.A), FQ(e.B)) }
func FQ6(e [3]model.F2) *bls.FQ6 { return bls.NewFQ6(FQ2(e[0]), FQ2(e[1]), FQ2(e[2])) }
func FQ12(f model.F12) *bls.FQ12 {
	c := f.Untower()
	return bls.NewFQ12(FQ6(c[0]), FQ6(c[1]))
}

// FromFQ2 reads the coordinates through the uncompressed point encoding.
func FromFQ2(f bls.FQ2) model.F2 {
	b := bls.NewG2Affine(f, f).SerializeBytes()
	return model.F2{A: new(I).SetBytes(b[:48]), B: new(I).SetBytes(b[48:96])}
}

// WantFQ fails the case unless got is the element want, in all observable ways.
func WantFQ(c *vt.Case, what string, got bls.FQ, want *I) {
	if v := FromFQ(got); v.Cmp(want) != 0 {
		c.Failf("%s: got %#x, want %#x", what, v, want)
	}
	w := FQ(want)
	if !got.Equals(w) || !w.Equals(got) || got.IsZero() != (want.Sign() == 0) {
		c.Failf("%s: the result %#x is not in canonical form", what, want)
	}
}

// WantFR is the same for scalars.
func WantFR(c *vt.Case, what string, got *bls.FR, want *I) {
	if got == nil {
		c.Failf("%s: got nil, want %#x", what, want)
	}
	if v := FromFR(got); v.Cmp(want) != 0 {
		c.Failf("%s: got %#x, want %#x", what, v, want)
	}
	w := FR(want)
	if !got.Equals(w) || !w.Equals(got) || got.IsZero() != (want.Sign() == 0) {
		c.Failf("%s: the result %#x is not in canonical form", what, want)
	}
}

// WantFQ2 is the same for Fq2.
func WantFQ2(c *vt.Case, what string, got bls.FQ2, want model.F2) {
	if v := FromFQ2(got); !model.Fq2.Eq(v, want) {
		c.Failf("%s: got %v, want %v", what, v, want)
	}
	w := FQ2(want)
	if !got.Equals(w) || !w.Equals(got) || got.IsZero() != model.Fq2.IsZero(want) {
		c.Failf("%s: the result %v is not in canonical form", what, want)
	}
}

// WantFQ6 is the same for Fq6. There is no accessor for the coefficients: the
// result has to equal the expected element, and their difference zero.
func WantFQ6(c *vt.Case, what string, got *bls.FQ6, want [3]model.F2) {
	w := FQ6(want)
	d := got.Copy()
	d.SubAssign(w)
	if !got.Equals(w) || !w.Equals(got) || !d.IsZero() {
		c.Failf("%s: got %v, want %v", what, got, w)
	}
}

// WantFQ12 is the same for Fq12.
func WantFQ12(c *vt.Case, what string, got *bls.FQ12, want model.F12) {
	if got == nil {
		c.Failf("%s: got nil, want %v", what, want)
	}
	w := FQ12(want)
	d := got.Copy()
	d.SubAssign(w)
	if !got.Equals(w) || !w.Equals(got) || !d.IsZero() {
		c.Failf("%s: got %v, want %v", what, got, w)
	}
}

// Grp has the library's operations on one of the two groups, and the model's.
type Grp[E, A, P any] struct {
	Name string
	C    *model.Curve[E]
	Gen  model.Pt[E]
	H    *I // cofactor
	Pool *Pool[E]

	Elem  func(c *vt.Case, label string) E
	scale func(E) E // by a cube root of unity
	Small func(n int64) E

	Aff  func(p model.Pt[E]) A // to the library
	Read func(a A) model.Pt[E] // and back
	Proj func(x, y, z E) P

	ToAff    func(P) A
	ToProj   func(A) P
	ZeroA    func() A
	ZeroP    func() P
	OneA     func() A
	OneP     func() P
	Add      func(a, b P) P
	AddAff   func(a P, b A) P
	Double   func(P) P
	NegP     func(P) // nil on G2
	NegA     func(A)
	Eq       func(a, b P) bool
	EqA      func(a, b A) bool
	IsZeroP  func(P) bool
	IsZeroA  func(A) bool
	CopyP    func(P) P
	CopyA    func(A) A
	Mul      func(P, bls.FQRepr) P
	MulFR    func(P, *bls.FRRepr) P
	AMul     func(A, bls.FQRepr) P
	AMulFR   func(A, *bls.FRRepr) P
	AMulBig  func(A, big.Int) P // nil on G1
	Cofactor func(A) P
	On       func(A) bool
	InSub    func(A) bool
	Lift     func(x E, greatest bool) (A, error)
	StrA     func(A) string
	StrP     func(P) string

	Size        int // of the compressed encoding
	Compress    func(A) []byte
	Decompress  func([]byte) (A, error)
	DecompressU func([]byte) (A, error)
	RawBytes    func(A) []byte
	SetRaw      func(A, []byte) error
	MCompress   func(model.Pt[E]) []byte
	MDecompress func([]byte) (model.Pt[E], bool)
	MRaw        func(model.Pt[E]) []byte
}

// The two groups' types.
type (
	Grp1 = Grp[*I, *bls.G1Affine, *bls.G1Projective]
	Grp2 = Grp[model.F2, *bls.G2Affine, *bls.G2Projective]
)

// Finite1 makes a finite library point from coordinates.
func Finite1(x, y *I) *bls.G1Affine       { return bls.NewG1Affine(FQ(x), FQ(y)) }
func Finite2(x, y model.F2) *bls.G2Affine { return bls.NewG2Affine(FQ2(x), FQ2(y)) }

// A1 and A2 make affine library points; R1 and R2 read them.
func A1(p model.P1) *bls.G1Affine {
	if p.Inf {
		return bls.G1AffineZero.Copy()
	}
	return Finite1(p.X, p.Y)
}

func A2(p model.P2) *bls.G2Affine {
	if p.Inf {
		return bls.G2AffineZero.Copy()
	}
	return Finite2(p.X, p.Y)
}

func R1(a *bls.G1Affine) model.P1 {
	if a.IsZero() {
		return model.G1.O()
	}
	b := a.SerializeBytes()
	return model.P1{X: new(I).SetBytes(b[:48]), Y: new(I).SetBytes(b[48:])}
}

func R2(a *bls.G2Affine) model.P2 {
	if a.IsZero() {
		return model.G2.O()
	}
	b := a.SerializeBytes()
	n := func(i int) *I { return new(I).SetBytes(b[48*i : 48*i+48]) }
	return model.P2{X: model.F2{A: n(0), B: n(1)}, Y: model.F2{A: n(2), B: n(3)}}
}

func arr48(b []byte) (a [48]byte)   { mustLen(b, 48); copy(a[:], b); return }
func arr96(b []byte) (a [96]byte)   { mustLen(b, 96); copy(a[:], b); return }
func arr192(b []byte) (a [192]byte) { mustLen(b, 192); copy(a[:], b); return }
func mustLen(b []byte, n int) {
	if len(b) != n {
		panic(fmt.Sprintf("harness: %d bytes instead of %d", len(b), n))
	}
}

// beta is a cube root of unity.
var beta = model.Fq.Pow(big.NewInt(2), new(I).Div(new(I).Sub(model.Q, big.NewInt(1)), big.NewInt(3)))

// G1 and G2 are the two groups.
var (
	G1 = &Grp1{
		Name: "G1", C: model.G1, Gen: model.Gen1, H: model.H1,
		Elem: (*vt.Case).Fq, scale: func(e *I) *I { return model.Fq.Mul(e, beta) }, Small: model.Int,
		Aff: A1, Read: R1,
		Proj:   func(x, y, z *I) *bls.G1Projective { return bls.NewG1Projective(FQ(x), FQ(y), FQ(z)) },
		ToAff:  func(p *bls.G1Projective) *bls.G1Affine { return p.ToAffine() },
		ToProj: func(a *bls.G1Affine) *bls.G1Projective { return a.ToProjective() },
		ZeroA:  func() *bls.G1Affine { return bls.G1AffineZero }, ZeroP: func() *bls.G1Projective { return bls.G1ProjectiveZero },
		OneA: func() *bls.G1Affine { return bls.G1AffineOne }, OneP: func() *bls.G1Projective { return bls.G1ProjectiveOne },
		Add:      func(a, b *bls.G1Projective) *bls.G1Projective { return a.Add(b) },
		AddAff:   func(a *bls.G1Projective, b *bls.G1Affine) *bls.G1Projective { return a.AddAffine(b) },
		Double:   func(a *bls.G1Projective) *bls.G1Projective { return a.Double() },
		NegP:     func(a *bls.G1Projective) { a.NegAssign() },
		NegA:     func(a *bls.G1Affine) { a.NegAssign() },
		Eq:       func(a, b *bls.G1Projective) bool { return a.Equal(b) },
		EqA:      func(a, b *bls.G1Affine) bool { return a.Equals(b) },
		IsZeroP:  func(a *bls.G1Projective) bool { return a.IsZero() },
		IsZeroA:  func(a *bls.G1Affine) bool { return a.IsZero() },
		CopyP:    func(a *bls.G1Projective) *bls.G1Projective { return a.Copy() },
		CopyA:    func(a *bls.G1Affine) *bls.G1Affine { return a.Copy() },
		Mul:      func(a *bls.G1Projective, n bls.FQRepr) *bls.G1Projective { return a.Mul(n) },
		MulFR:    func(a *bls.G1Projective, n *bls.FRRepr) *bls.G1Projective { return a.MulFR(n) },
		AMul:     func(a *bls.G1Affine, n bls.FQRepr) *bls.G1Projective { return a.Mul(n) },
		AMulFR:   func(a *bls.G1Affine, n *bls.FRRepr) *bls.G1Projective { return a.MulFR(n) },
		Cofactor: func(a *bls.G1Affine) *bls.G1Projective { return a.ScaleByCofactor() },
		On:       func(a *bls.G1Affine) bool { return a.IsOnCurve() },
		InSub:    func(a *bls.G1Affine) bool { return a.IsInCorrectSubgroupAssumingOnCurve() },
		Lift:     func(x *I, g bool) (*bls.G1Affine, error) { return bls.GetG1PointFromX(FQ(x), g) },
		StrA:     func(a *bls.G1Affine) string { return a.String() },
		StrP:     func(a *bls.G1Projective) string { return a.String() },

		Size:        48,
		Compress:    func(a *bls.G1Affine) []byte { b := bls.CompressG1(a); return b[:] },
		Decompress:  func(b []byte) (*bls.G1Affine, error) { return bls.DecompressG1(arr48(b)) },
		DecompressU: func(b []byte) (*bls.G1Affine, error) { return bls.DecompressG1Unchecked(arr48(b)) },
		RawBytes:    func(a *bls.G1Affine) []byte { b := a.SerializeBytes(); return b[:] },
		SetRaw:      func(a *bls.G1Affine, b []byte) error { a.SetRawBytes(arr96(b)); return nil },
		MCompress:   func(p model.P1) []byte { b := model.Compress1(p); return b[:] },
		MDecompress: func(b []byte) (model.P1, bool) { return model.Decompress1(arr48(b)) },
		MRaw:        func(p model.P1) []byte { b := model.Raw1(p); return b[:] },
	}
	G2 = &Grp2{
		Name: "G2", C: model.G2, Gen: model.Gen2, H: model.H2,
		Elem: (*vt.Case).Fq2, scale: func(e model.F2) model.F2 { return model.Fq2.Mul(e, model.F2{A: beta, B: new(I)}) }, Small: func(n int64) model.F2 { return model.S2(n, 0) },
		Aff: A2, Read: R2,
		Proj:   func(x, y, z model.F2) *bls.G2Projective { return bls.NewG2Projective(FQ2(x), FQ2(y), FQ2(z)) },
		ToAff:  func(p *bls.G2Projective) *bls.G2Affine { return p.ToAffine() },
		ToProj: func(a *bls.G2Affine) *bls.G2Projective { return a.ToProjective() },
		ZeroA:  func() *bls.G2Affine { return bls.G2AffineZero }, ZeroP: func() *bls.G2Projective { return bls.G2ProjectiveZero },
		OneA: func() *bls.G2Affine { return bls.G2AffineOne }, OneP: func() *bls.G2Projective { return bls.G2ProjectiveOne },
		Add:      func(a, b *bls.G2Projective) *bls.G2Projective { return a.Add(b) },
		AddAff:   func(a *bls.G2Projective, b *bls.G2Affine) *bls.G2Projective { return a.AddAffine(b) },
		Double:   func(a *bls.G2Projective) *bls.G2Projective { return a.Double() },
		NegA:     func(a *bls.G2Affine) { a.NegAssign() },
		Eq:       func(a, b *bls.G2Projective) bool { return a.Equals(b) },
		EqA:      func(a, b *bls.G2Affine) bool { return a.Equals(b) },
		IsZeroP:  func(a *bls.G2Projective) bool { return a.IsZero() },
		IsZeroA:  func(a *bls.G2Affine) bool { return a.IsZero() },
		CopyP:    func(a *bls.G2Projective) *bls.G2Projective { return a.Copy() },
		CopyA:    func(a *bls.G2Affine) *bls.G2Affine { return a.Copy() },
		Mul:      func(a *bls.G2Projective, n bls.FQRepr) *bls.G2Projective { return a.Mul(n) },
		MulFR:    func(a *bls.G2Projective, n *bls.FRRepr) *bls.G2Projective { return a.MulFR(n) },
		AMul:     func(a *bls.G2Affine, n bls.FQRepr) *bls.G2Projective { return a.Mul(n) },
		AMulFR:   func(a *bls.G2Affine, n *bls.FRRepr) *bls.G2Projective { return a.MulFR(n) },
		AMulBig:  func(a *bls.G2Affine, n big.Int) *bls.G2Projective { return a.MulBig(n) },
		Cofactor: func(a *bls.G2Affine) *bls.G2Projective { return a.ScaleByCofactor() },
		On:       func(a *bls.G2Affine) bool { return a.IsOnCurve() },
		InSub:    func(a *bls.G2Affine) bool { return a.IsInCorrectSubgroupAssumingOnCurve() },
		Lift:     func(x model.F2, g bool) (*bls.G2Affine, error) { return bls.GetG2PointFromX(FQ2(x), g) },
		StrA:     func(a *bls.G2Affine) string { return a.String() },
		StrP:     func(a *bls.G2Projective) string { return a.String() },

		Size:        96,
		Compress:    func(a *bls.G2Affine) []byte { b := bls.CompressG2(a); return b[:] },
		Decompress:  func(b []byte) (*bls.G2Affine, error) { return bls.DecompressG2(arr96(b)) },
		DecompressU: func(b []byte) (*bls.G2Affine, error) { return bls.DecompressG2Unchecked(arr96(b)) },
		RawBytes:    func(a *bls.G2Affine) []byte { b := a.SerializeBytes(); return b[:] },
		SetRaw:      func(a *bls.G2Affine, b []byte) error { return a.SetRawBytes(arr192(b)) },
		MCompress:   func(p model.P2) []byte { b := model.Compress2(p); return b[:] },
		MDecompress: func(b []byte) (model.P2, bool) { return model.Decompress2(arr96(b)) },
		MRaw:        func(p model.P2) []byte { b := model.Raw2(p); return b[:] },
	}
)

func init() {
	G1.Pool = newPool(G1.C, G1.Gen, G1.H, primes1, special1(), func(r *stream) *I { return r.fq() })
	G2.Pool = newPool(G2.C, G2.Gen, G2.H, primes2, special2(), func(r *stream) model.F2 { return model.F2{A: r.fq(), B: r.fq()} })
	makeSchemes()
}

// WantA fails the case unless the library's affine point is want.
func (g *Grp[E, A, P]) WantA(c *vt.Case, what string, got A, want model.Pt[E]) {
	r := g.Read(got)
	if !g.C.Eq(r, want) {
		c.Failf("%s on %s: got %v, want %v", what, g.Name, r, want)
	}
	w := g.Aff(want)
	if !g.EqA(got, w) || !g.EqA(w, got) || g.IsZeroA(got) != want.Inf {
		c.Failf("%s on %s: the result %v does not compare equal to the same point", what, g.Name, r)
	}
}

// WantP is the same for a projective point. The representative is free.
func (g *Grp[E, A, P]) WantP(c *vt.Case, what string, got P, want model.Pt[E]) {
	g.WantA(c, what, g.ToAff(got), want)
	w := g.ToProj(g.Aff(want))
	if !g.Eq(got, w) || !g.Eq(w, got) || g.IsZeroP(got) != want.Inf {
		c.Failf("%s on %s: the result %v does not compare equal to the same point", what, g.Name, want)
	}
}

// Rep makes a projective representative with the given z. The point at
// infinity gets coordinates (z^2, z^3, 0).
func (g *Grp[E, A, P]) Rep(p model.Pt[E], z E) P {
	f := g.C.F
	if f.IsZero(z) {
		z = f.One()
	}
	z2 := f.Mul(z, z)
	if p.Inf {
		return g.Proj(z2, f.Mul(z, z2), f.Zero())
	}
	return g.Proj(f.Mul(p.X, z2), f.Mul(p.Y, f.Mul(z, z2)), z)
}

// Endo is an automorphism of the curve: it changes x and keeps y.
func (g *Grp[E, A, P]) Endo(p model.Pt[E]) model.Pt[E] {
	if p.Inf {
		return p
	}
	return model.Pt[E]{X: g.scale(p.X), Y: p.Y}
}

// Related draws a point related to p; ok is false for none.
func (g *Grp[E, A, P]) Related(c *vt.Case, p model.Pt[E]) (q model.Pt[E], how string) {
	switch c.Pick(12) {
	case 0, 1:
		return p, "same"
	case 2, 3:
		return g.C.Neg(p), "opposite"
	case 4:
		return g.C.Add(p, p), "double"
	case 5:
		return g.C.Neg(g.C.Add(p, p)), "minus double"
	case 6:
		return g.Endo(p), "same y"
	case 7:
		return g.C.Neg(g.Endo(p)), "opposite y"
	}
	return q, ""
}

// DrawRep draws a representative of a point.
func (g *Grp[E, A, P]) DrawRep(c *vt.Case, label string, p model.Pt[E]) P {
	switch c.Int(label+".rep", 0, 3) {
	case 0:
		return g.ToProj(g.Aff(p))
	case 1:
		return g.Rep(p, g.Small(int64(c.Int(label+".z", 1, 5))))
	default:
		return g.Rep(p, g.Elem(c, label+".z"))
	}
}
