package model

import "crypto/sha256"

// toField is hash_to_field of the draft the library follows: counter ctr,
// component i of the element, 512 bits of output.
func toField(p *I, msg []byte, ctr []byte, i byte) *I {
	h := sha256.Sum256(msg)
	var t []byte
	for j := byte(1); j <= 2; j++ {
		in := append(append(append([]byte{}, h[:]...), ctr...), i, j)
		d := sha256.Sum256(in)
		t = append(t, d[:]...)
	}
	return new(I).Mod(new(I).SetBytes(t), p)
}

// DeriveKey is the secret key derived from 32 bytes.
func DeriveKey(b [32]byte) *I { return toField(R, b[:], []byte{0}, 1) }

// E1 and E3 are the curves isogenous to G1 and G2 that the simplified SWU map
// goes to.
var (
	E1 = &Curve[*I]{Fq,
		Hex("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"),
		Hex("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")}
	E3 = &Curve[F2]{Fq2, S2(0, 240), S2(1012, 1012)}
)

// SWU is the simplified SWU map. neg tells the sign of a field element.
func SWU[E any](c *Curve[E], xi, t E, neg func(E) bool) Pt[E] {
	f := c.F
	xt2 := f.Mul(xi, f.Mul(t, t))
	den := f.Add(f.Mul(xt2, xt2), xt2)
	var x E
	if f.IsZero(den) {
		x = f.Mul(c.B, f.Inv(f.Mul(xi, c.A)))
	} else {
		x = f.Mul(f.Neg(f.Mul(c.B, f.Inv(c.A))), f.Add(f.One(), f.Inv(den)))
	}
	y, ok := f.Sqrt(c.RHS(x))
	if !ok {
		x = f.Mul(xt2, x)
		y, ok = f.Sqrt(c.RHS(x))
		if !ok {
			panic("model: SWU")
		}
	}
	if neg(y) != neg(t) {
		y = f.Neg(y)
	}
	return Pt[E]{x, y, false}
}

// Neg1 and Neg2 tell the signs used by the map: an element is negative if it
// is greater than its negative.
func Neg1(e *I) bool { return Greater[*I](Fq, e) }
func Neg2(e F2) bool { return Greater[F2](Fq2, e) }

// SWU1 and SWU2 are the maps to E1 and E3.
func SWU1(t *I) P1 { return SWU(E1, Fq.Neg(Int(1)), t, Neg1) }
func SWU2(t F2) P2 { return SWU(E3, S2(1, 1), t, Neg2) }

func horner[E any](f Field[E], c []E, x E) E {
	r := f.Zero()
	for i := len(c) - 1; i >= 0; i-- {
		r = f.Add(f.Mul(r, x), c[i])
	}
	return r
}

func iso[E any](f Field[E], xn, xd, yn, yd []E, p Pt[E]) Pt[E] {
	if p.Inf {
		return p
	}
	return Pt[E]{
		f.Mul(horner(f, xn, p.X), f.Inv(horner(f, xd, p.X))),
		f.Mul(p.Y, f.Mul(horner(f, yn, p.X), f.Inv(horner(f, yd, p.X)))),
		false,
	}
}

// Iso1 and Iso2 are the isogenies from E1 to G1 and from E3 to G2.
func Iso1(p P1) P1 { return iso[*I](Fq, xNum11, xDen11, yNum11, yDen11, p) }
func Iso2(p P2) P2 { return iso[F2](Fq2, xNum3, xDen3, yNum3, yDen3, p) }

// HEff1 and HEff2 are the multiples that clear the cofactors.
var (
	HEff1 = new(I).Add(X, Int(1))
	HEff2 = Hex("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551")
)

// Hash1 and Hash2 hash a message to the groups.
func Hash1(msg []byte) P1 {
	m := append([]byte{1}, msg...)
	a := SWU1(toField(Q, m, []byte{0}, 1))
	b := SWU1(toField(Q, m, []byte{1}, 1))
	return G1.Mul(Iso1(E1.Add(a, b)), HEff1)
}

func Hash2(msg []byte) P2 {
	m := append([]byte{1}, msg...)
	a := SWU2(F2{toField(Q, m, []byte{0}, 1), toField(Q, m, []byte{0}, 2)})
	b := SWU2(F2{toField(Q, m, []byte{1}, 1), toField(Q, m, []byte{1}, 2)})
	return G2.Mul(Iso2(E3.Add(a, b)), HEff2)
}

// HashDomain hashes a message hash and a domain to G2 by trying x-coordinates.
func HashDomain(m [32]byte, d [8]byte) P2 {
	md := append(append([]byte{}, m[:]...), d[:]...)
	re := sha256.Sum256(append(append([]byte{}, md...), 1))
	im := sha256.Sum256(append(append([]byte{}, md...), 2))
	x := E2(new(I).SetBytes(re[:]), new(I).SetBytes(im[:]))
	for {
		if p, ok := G2.Lift(x, true); ok {
			return G2.Mul(p, H2)
		}
		x = Fq2.Add(x, Fq2.One())
	}
}

// SWEncode is the Shallue-van de Woestijne encoding to the curve of G2. It
// picks the greater y-coordinate if t is the greater of t and -t.
func SWEncode(t F2) P2 {
	if Fq2.IsZero(t) {
		return G2.O()
	}
	g := Neg2(t)
	one := Fq2.One()
	den := Fq2.Add(Fq2.Add(Fq2.Mul(t, t), G2.B), one)
	if Fq2.IsZero(den) {
		if g {
			return G2.Neg(Gen2)
		}
		return Gen2
	}
	w := Fq2.Mul(Fq2.Mul(F2{sqrtM3, Int(0)}, t), Fq2.Inv(den))
	half := Fq.Inv(Int(2))
	x1 := Fq2.Sub(F2{Fq.Mul(Fq.Sub(sqrtM3, Int(1)), half), Int(0)}, Fq2.Mul(w, t))
	x2 := Fq2.Sub(Fq2.Neg(one), x1)
	x3 := Fq2.Add(one, Fq2.Inv(Fq2.Mul(w, w)))
	for _, x := range []F2{x1, x2, x3} {
		if p, ok := G2.Lift(x, g); ok {
			return p
		}
	}
	panic("model: SWEncode")
}

// sqrtM3 is the square root of -3 the encoding uses, the smaller one.
var sqrtM3 = func() *I {
	s, _ := Fq.Sqrt(Fq.Of(Int(-3)))
	if Greater[*I](Fq, s) {
		s = Fq.Neg(s)
	}
	return s
}()
