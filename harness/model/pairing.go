package model

import "sync"

// HardExp is 3 (q^4 - q^2 + 1) / r: the library's pairing is the cube of the
// reduced ate pairing, as is usual for this family of curves.
var HardExp = func() *I {
	q2 := new(I).Mul(Q, Q)
	e := new(I).Mul(q2, q2)
	e.Sub(e, q2)
	e.Add(e, Int(1))
	e.Div(e, R)
	return e.Mul(e, Int(3))
}()

// FinalExp raises a nonzero f to the power 3 (q^12 - 1) / r.
func FinalExp(f F12) F12 {
	inv, ok := f.Inv()
	if !ok {
		panic("model: final exponentiation of zero")
	}
	f = f.Frob(6).Mul(inv) // q^6 - 1
	f = f.Frob(2).Mul(f)   // q^2 + 1
	return f.Pow(HardExp)
}

// Miller is the ate Miller function f_{x,Q}(P), up to factors that the final
// exponentiation removes. Q is mapped to the curve over Fq12 by
// (x/w^2, y/w^3); a line of slope l on the twist, times w^3, is there
// (l xT - yT) - l xP w^2 + yP w^3.
func Miller(p P1, q P2) F12 {
	if p.Inf || q.Inf {
		return One12()
	}
	f := One12()
	t := q
	line := func(l F2) F12 {
		r := Zero12()
		r.addF2(Fq2.Sub(Fq2.Mul(l, t.X), t.Y), 0)
		r.addF2(Fq2.Neg(Fq2.Mul(l, F2{p.X, Int(0)})), 2)
		r.addF2(F2{p.Y, Int(0)}, 3)
		return r
	}
	for i := X.BitLen() - 2; i >= 0; i-- {
		xx := Fq2.Mul(t.X, t.X)
		l := Fq2.Mul(Fq2.Add(Fq2.Add(xx, xx), xx), Fq2.Inv(Fq2.Add(t.Y, t.Y)))
		f = f.Mul(f).Mul(line(l))
		t = G2.Add(t, t)
		if X.Bit(i) == 1 {
			l := Fq2.Mul(Fq2.Sub(q.Y, t.Y), Fq2.Inv(Fq2.Sub(q.X, t.X)))
			f = f.Mul(line(l))
			t = G2.Add(t, q)
		}
	}
	return f.Frob(6) // x is negative
}

// Pairing is the reference pairing, for points in the subgroups.
func Pairing(p P1, q P2) F12 {
	if p.Inf || q.Inf {
		return One12()
	}
	return FinalExp(Miller(p, q))
}

// GT is the pairing of the two generators.
var GT = sync.OnceValue(func() F12 { return Pairing(Gen1, Gen2) })

// ET is the pairing of a Gen1 and b Gen2.
func ET(ab *I) F12 { return GT().Pow(Fr.Of(ab)) }
