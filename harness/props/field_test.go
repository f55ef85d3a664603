package props

import (
	"fmt"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// edges are numbers around which things break, reduced modulo p.
func edges(p *I, words int) []*I {
	var r []*I
	seen := map[string]bool{}
	add := func(n *I) {
		n = mod(n, p)
		if s := n.String(); !seen[s] {
			seen[s] = true
			r = append(r, n)
		}
	}
	for i := int64(0); i <= 4; i++ {
		add(num(i))
		add(num(-i))
	}
	half := new(I).Rsh(p, 1)
	for i := int64(-1); i <= 2; i++ {
		add(new(I).Add(half, num(i)))
	}
	for w := 1; w <= words; w++ {
		b := new(I).Lsh(one, uint(64*w))
		for i := int64(-1); i <= 1; i++ {
			add(new(I).Add(b, num(i)))
		}
		// the same as an internal representation
		inv := new(I).ModInverse(new(I).Lsh(one, uint(64*words)), p)
		add(inv)
		for i := int64(-1); i <= 1; i++ {
			n := new(I).Add(b, num(i))
			n.Mod(n, p)
			add(n.Mul(n, inv))
		}
	}
	return r
}

// TestC18 checks the base field.
func TestC18(t *testing.T) {
	p := vt.Prop(t, "C18")
	f := model.Fq

	two := func(c *vt.Case, a, b *I) {
		A, B := lib.FQ(a), lib.FQ(b)
		bin := func(what string, op func(x *bls.FQ, y bls.FQ), m *I) {
			x := A
			op(&x, B)
			lib.WantFQ(c, what, x, m)
		}
		bin("a + b", (*bls.FQ).AddAssign, f.Add(a, b))
		bin("a - b", (*bls.FQ).SubAssign, f.Sub(a, b))
		bin("a * b", (*bls.FQ).MulAssign, f.Mul(a, b))
		if b.Sign() != 0 {
			bin("a / b", (*bls.FQ).DivAssign, f.Mul(a, f.Inv(b)))
		}
		self := func(what string, op func(x *bls.FQ, y bls.FQ), m *I) {
			x := A
			op(&x, x)
			lib.WantFQ(c, what, x, m)
		}
		self("a + a", (*bls.FQ).AddAssign, f.Add(a, a))
		self("a - a", (*bls.FQ).SubAssign, num(0))
		self("a * a", (*bls.FQ).MulAssign, f.Mul(a, a))
		un := func(what string, op func(x *bls.FQ), m *I) {
			x := A
			op(&x)
			lib.WantFQ(c, what, x, m)
		}
		un("-a", (*bls.FQ).NegAssign, f.Neg(a))
		un("2a", (*bls.FQ).DoubleAssign, f.Add(a, a))
		un("a^2", (*bls.FQ).SquareAssign, f.Mul(a, a))
		if a.Sign() != 0 {
			x, ok := A.Inverse()
			want(c, ok, "1/a: not found")
			lib.WantFQ(c, "1/a", x, f.Inv(a))
			x.MulAssign(A)
			lib.WantFQ(c, "a/a", x, one)
			un("a / a", func(x *bls.FQ) { x.DivAssign(*x) }, one)
		} else if _, ok := A.Inverse(); ok {
			c.Failf("0 has an inverse")
		}
		want(c, A.Equals(B) == (a.Cmp(b) == 0), "Equals: %v", A.Equals(B))
		want(c, A.IsZero() == (a.Sign() == 0), "IsZero: %v", A.IsZero())
		want(c, A.IsValid(), "IsValid: false")
		want(c, A.Cmp(B) == a.Cmp(b) && B.Cmp(A) == b.Cmp(a), "Cmp: %d and %d", A.Cmp(B), B.Cmp(A))
		lib.WantFQ(c, "the copy", A.Copy(), a)
		lib.WantFQ(c, "a after all that", A, a)
	}

	e := edges(Q, 6)
	p.Each("edges", len(e)*len(e), func(c *vt.Case, i int) {
		a, b := e[i/len(e)], e[i%len(e)]
		c.Log("a", hexn(a))
		c.Log("b", hexn(b))
		c.Count(!isTriv(a) && !isTriv(b), a, b)
		two(c, a, b)
	})
	p.Check("ops", 40000, func(c *vt.Case) {
		a, b := c.Fq("a"), c.Fq("b")
		switch c.Pick(8) { // often related: sums and differences at the edge
		case 0:
			b = f.Neg(a)
		case 1:
			b = f.Add(f.Neg(a), num(int64(c.Pick(5)-2)))
		case 2:
			b = f.Add(a, num(int64(c.Pick(3)-1)))
		}
		c.Log("b'", hexn(b))
		c.Count(!isTriv(a) && !isTriv(b), a, b)
		two(c, a, b)
		switch c.Pick(4) { // neighbours of the same elements
		case 0:
			a = neighbour(c, "next a", a, Q, 6)
			two(c, a, b)
		case 1:
			b = neighbour(c, "next b", b, Q, 6)
			two(c, a, b)
		}
	})
	p.Check("laws", 8000, func(c *vt.Case) {
		a, b, d := c.Fq("a"), c.Fq("b"), c.Fq("d")
		c.Count(!isTriv(a) && !isTriv(b) && !isTriv(d), a, b, d)
		A, B, D := lib.FQ(a), lib.FQ(b), lib.FQ(d)
		x := A // (a+b)d = ad + bd
		x.AddAssign(B)
		x.MulAssign(D)
		y, z := A, B
		y.MulAssign(D)
		z.MulAssign(D)
		y.AddAssign(z)
		want(c, x.Equals(y), "(a+b)d != ad+bd")
		x, y = A, B // (ab)d = a(bd)
		x.MulAssign(B)
		x.MulAssign(D)
		y.MulAssign(D)
		z = A
		z.MulAssign(y)
		want(c, x.Equals(z), "(ab)d != a(bd)")
	})
	p.Check("exp", 3000, func(c *vt.Case) {
		a, n := c.Fq("a"), c.UInt("n", 6, Q)
		c.Count(!isTriv(a) && !isTriv(n), a, n)
		lib.WantFQ(c, "a^n", lib.FQ(a).Exp(lib.QRepr(n)), f.Pow(a, n))
		switch c.Pick(4) {
		case 0:
			a = neighbour(c, "next a", a, Q, 6)
			lib.WantFQ(c, "a^n", lib.FQ(a).Exp(lib.QRepr(n)), f.Pow(a, n))
		case 1:
			n = neighbour(c, "next n", n, Q, 6)
			lib.WantFQ(c, "a^n", lib.FQ(a).Exp(lib.QRepr(n)), f.Pow(a, n))
		}
	})
	p.Check("convert", 10000, func(c *vt.Case) {
		a := c.Fq("a")
		c.Count(!isTriv(a), a)
		A := bls.FQReprToFQ(lib.QRepr(a))
		wantNum(c, "a read back", lib.FromQR(A.ToRepr()), a)
		// a representation taken over as it is stands for itself over 2^384
		raw := bls.FQReprToFQRaw(lib.QRepr(a))
		lib.WantFQ(c, "raw a", raw, f.Mul(a, f.Inv(new(I).Lsh(one, 384))))
		want(c, A.String() == fmt.Sprintf("Fq(0x%096x)", a), "String: %s", A.String())
		// numbers that are no elements
		n := c.UInt("n", 6, Q)
		x := bls.FQReprToFQ(lib.QRepr(n))
		raw = bls.FQReprToFQRaw(lib.QRepr(n))
		want(c, raw.IsValid() == (n.Cmp(Q) < 0), "IsValid of %#x: %v", n, raw.IsValid())
		if n.Cmp(Q) >= 0 {
			want(c, x.IsZero() && x.IsValid(), "%#x taken as the element %v", n, x)
		} else {
			lib.WantFQ(c, "the element of n", x, n)
		}
	})
	p.Check("history", 1500, func(c *vt.Case) {
		var m [3]*I
		var x [3]bls.FQ
		for i := range m {
			m[i] = c.Fq("r")
			x[i] = lib.FQ(m[i])
		}
		n := c.Int("steps", 1, 40)
		type step struct{ op, i, j int }
		var ops []step
		for k := 0; k < n; k++ {
			ops = append(ops, step{c.Pick(8), c.Pick(3), c.Pick(3)})
		}
		c.Log("ops", ops)
		c.Count(n > 3, fmt.Sprint(m, ops))
		for k, o := range ops {
			i, j := o.i, o.j
			switch o.op {
			case 0:
				x[i].AddAssign(x[j])
				m[i] = f.Add(m[i], m[j])
			case 1:
				x[i].SubAssign(x[j])
				m[i] = f.Sub(m[i], m[j])
			case 2, 3:
				x[i].MulAssign(x[j])
				m[i] = f.Mul(m[i], m[j])
			case 4:
				x[i].NegAssign()
				m[i] = f.Neg(m[i])
			case 5:
				x[i].DoubleAssign()
				m[i] = f.Add(m[i], m[i])
			case 6:
				x[i].SquareAssign()
				m[i] = f.Mul(m[i], m[i])
			case 7:
				if m[j].Sign() != 0 {
					x[i].DivAssign(x[j])
					m[i] = f.Mul(m[i], f.Inv(m[j]))
				}
			}
			for i := range m {
				lib.WantFQ(c, fmt.Sprintf("r%d after step %d", i, k), x[i], m[i])
			}
		}
	})
	p.Each("constants", 3, func(c *vt.Case, i int) {
		c.Count(true, i)
		switch i {
		case 0:
			wantNum(c, "the modulus", lib.FromQR(bls.QFieldModulus), Q)
		case 1:
			lib.WantFQ(c, "zero", bls.FQZero, num(0))
		case 2:
			lib.WantFQ(c, "one", bls.FQOne, one)
		}
	})
}

// TestC19 checks the scalar field.
func TestC19(t *testing.T) {
	p := vt.Prop(t, "C19")
	f := model.Fr

	two := func(c *vt.Case, a, b *I) {
		A, B := lib.FR(a), lib.FR(b)
		bin := func(what string, op func(x *bls.FR, y *bls.FR), m *I) {
			x := A.Copy()
			op(x, B)
			lib.WantFR(c, what, x, m)
			lib.WantFR(c, "b after "+what, B, b)
		}
		add := func(x, y *bls.FR) { x.AddAssign(y) }
		sub := func(x, y *bls.FR) { x.SubAssign(y) }
		mul := func(x, y *bls.FR) { x.MulAssign(y) }
		bin("a + b", add, f.Add(a, b))
		bin("a - b", sub, f.Sub(a, b))
		bin("a * b", mul, f.Mul(a, b))
		self := func(what string, op func(x *bls.FR, y *bls.FR), m *I) {
			x := A.Copy()
			op(x, x)
			lib.WantFR(c, what, x, m)
		}
		self("a + a", add, f.Add(a, a))
		self("a - a", sub, num(0))
		self("a * a", mul, f.Mul(a, a))
		un := func(what string, op func(x *bls.FR), m *I) {
			x := A.Copy()
			op(x)
			lib.WantFR(c, what, x, m)
		}
		un("-a", (*bls.FR).NegAssign, f.Neg(a))
		un("2a", (*bls.FR).DoubleAssign, f.Add(a, a))
		un("a^2", (*bls.FR).SquareAssign, f.Mul(a, a))
		x := A.Inverse()
		if a.Sign() != 0 {
			lib.WantFR(c, "1/a", x, f.Inv(a))
			x.MulAssign(A)
			lib.WantFR(c, "a/a", x, one)
		} else if x != nil {
			c.Failf("0 has an inverse")
		}
		want(c, A.Equals(B) == (a.Cmp(b) == 0), "Equals: %v", A.Equals(B))
		want(c, A.IsZero() == (a.Sign() == 0), "IsZero: %v", A.IsZero())
		want(c, A.IsValid(), "IsValid: false")
		want(c, A.Cmp(B) == a.Cmp(b) && B.Cmp(A) == b.Cmp(a), "Cmp: %d and %d", A.Cmp(B), B.Cmp(A))
		lib.WantFR(c, "the copy", A.Copy(), a)
		lib.WantFR(c, "a after all that", A, a)
	}
	e := edges(R, 4)
	p.Each("edges", len(e)*len(e), func(c *vt.Case, i int) {
		a, b := e[i/len(e)], e[i%len(e)]
		c.Log("a", hexn(a))
		c.Log("b", hexn(b))
		c.Count(!isTriv(a) && !isTriv(b), a, b)
		two(c, a, b)
	})
	p.Check("ops", 40000, func(c *vt.Case) {
		a, b := c.Fr("a"), c.Fr("b")
		switch c.Pick(8) {
		case 0:
			b = f.Neg(a)
		case 1:
			b = f.Add(f.Neg(a), num(int64(c.Pick(5)-2)))
		case 2:
			b = f.Add(a, num(int64(c.Pick(3)-1)))
		}
		c.Log("b'", hexn(b))
		c.Count(!isTriv(a) && !isTriv(b), a, b)
		two(c, a, b)
		switch c.Pick(4) { // neighbours of the same elements
		case 0:
			a = neighbour(c, "next a", a, R, 4)
			two(c, a, b)
		case 1:
			b = neighbour(c, "next b", b, R, 4)
			two(c, a, b)
		}
	})
	p.Check("exp", 4000, func(c *vt.Case) {
		a, n := c.Fr("a"), c.UInt("n", 4, R)
		c.Count(!isTriv(a) && !isTriv(n), a, n)
		N := lib.RRepr(n)
		lib.WantFR(c, "a^n", lib.FR(a).Exp(N), f.Pow(a, n))
		wantNum(c, "n afterwards", lib.FromRR(N), n)
		switch c.Pick(4) {
		case 0:
			a = neighbour(c, "next a", a, R, 4)
			lib.WantFR(c, "a^n", lib.FR(a).Exp(N), f.Pow(a, n))
		case 1:
			n = neighbour(c, "next n", n, R, 4)
			lib.WantFR(c, "a^n", lib.FR(a).Exp(lib.RRepr(n)), f.Pow(a, n))
		}
	})
	p.Check("convert", 10000, func(c *vt.Case) {
		a := c.UInt("a", 4, R)
		c.Count(!isTriv(a), a)
		rep := lib.RRepr(a)
		A := bls.FRReprToFR(rep)
		wantNum(c, "the number afterwards", lib.FromRR(rep), a)
		if a.Cmp(R) >= 0 {
			want(c, A == nil, "%#x taken as a scalar", a)
			return
		}
		wantNum(c, "a read back", lib.FromRR(A.ToRepr()), a)
		b := A.Bytes()
		wantNum(c, "the bytes", new(I).SetBytes(b[:]), a)
		want(c, A.String() == fmt.Sprintf("FR(0x%064x)", a), "String: %s", A.String())
		// the copy is independent
		B := A.Copy()
		B.AddAssign(A)
		B.DoubleAssign()
		B.NegAssign()
		lib.WantFR(c, "a after its copy changed", A, a)
	})
	p.Check("history", 1500, func(c *vt.Case) {
		var m [3]*I
		var x [3]*bls.FR
		for i := range m {
			m[i] = c.Fr("r")
			x[i] = lib.FR(m[i])
		}
		n := c.Int("steps", 1, 40)
		type step struct{ op, i, j int }
		var ops []step
		for k := 0; k < n; k++ {
			ops = append(ops, step{c.Pick(9), c.Pick(3), c.Pick(3)})
		}
		c.Log("ops", ops)
		c.Count(n > 3, fmt.Sprint(m, ops))
		for k, o := range ops {
			i, j := o.i, o.j
			switch o.op {
			case 0:
				x[i].AddAssign(x[j])
				m[i] = f.Add(m[i], m[j])
			case 1:
				x[i].SubAssign(x[j])
				m[i] = f.Sub(m[i], m[j])
			case 2, 3:
				x[i].MulAssign(x[j])
				m[i] = f.Mul(m[i], m[j])
			case 4:
				x[i].NegAssign()
				m[i] = f.Neg(m[i])
			case 5:
				x[i].DoubleAssign()
				m[i] = f.Add(m[i], m[i])
			case 6:
				x[i].SquareAssign()
				m[i] = f.Mul(m[i], m[i])
			case 7:
				if m[j].Sign() != 0 {
					x[i] = x[j].Inverse()
					m[i] = f.Inv(m[j])
				}
			case 8:
				x[i] = x[j].Copy()
				m[i] = m[j]
			}
			for i := range m {
				lib.WantFR(c, fmt.Sprintf("r%d after step %d", i, k), x[i], m[i])
			}
		}
	})
	p.Each("constants", 3, func(c *vt.Case, i int) {
		c.Count(true, i)
		switch i {
		case 0:
			wantNum(c, "the modulus", lib.FromRR(bls.RFieldModulus), R)
		case 1:
			wantNum(c, "2^256 mod r", lib.FromRR(bls.FRR), f.Of(new(I).Lsh(one, 256)))
		case 2:
			wantNum(c, "2^512 mod r", lib.FromRR(bls.FRR2), f.Of(new(I).Lsh(one, 512)))
		}
	})
}

// TestC20 checks the tower of extensions.
func TestC20(t *testing.T) {
	p := vt.Prop(t, "C20")
	f := model.Fq2
	xi := model.S2(1, 1)

	p.Check("fq2", 16000, func(c *vt.Case) {
		a, b := c.Fq2("a"), c.Fq2("b")
		n := c.UInt("n", 6, Q)
		pw := c.Int("power", 0, 255)
		switch c.Pick(6) {
		case 0:
			b = f.Neg(a)
		case 1:
			b = f.Conj(a)
		}
		c.Count(!isTriv2(a) && !isTriv2(b), a, b)
		for more := true; more; {
			A, B := q2(a), q2(b)
			bin := func(what string, op func(x *bls.FQ2, y bls.FQ2), m model.F2) {
				x := A
				op(&x, B)
				lib.WantFQ2(c, what, x, m)
			}
			bin("a + b", (*bls.FQ2).AddAssign, f.Add(a, b))
			bin("a - b", (*bls.FQ2).SubAssign, f.Sub(a, b))
			bin("a * b", (*bls.FQ2).MulAssign, f.Mul(a, b))
			if !f.IsZero(b) {
				bin("a / b", (*bls.FQ2).DivAssign, f.Mul(a, f.Inv(b)))
			}
			un := func(what string, op func(x *bls.FQ2), m model.F2) {
				x := A
				op(&x)
				lib.WantFQ2(c, what, x, m)
			}
			un("a + a", func(x *bls.FQ2) { x.AddAssign(*x) }, f.Add(a, a))
			un("a * a", func(x *bls.FQ2) { x.MulAssign(*x) }, f.Mul(a, a))
			un("a - a", func(x *bls.FQ2) { x.SubAssign(*x) }, f.Zero())
			un("-a", (*bls.FQ2).NegAssign, f.Neg(a))
			un("2a", (*bls.FQ2).DoubleAssign, f.Add(a, a))
			un("a^2", (*bls.FQ2).SquareAssign, f.Mul(a, a))
			un("(1+u) a", (*bls.FQ2).MultiplyByNonresidueAssign, f.Mul(a, xi))
			fr := a
			if pw%2 == 1 {
				fr = f.Conj(a)
			}
			un(fmt.Sprintf("a^(q^%d)", pw), func(x *bls.FQ2) { x.FrobeniusMapAssign(uint8(pw)) }, fr)
			lib.WantFQ(c, "the norm", A.Norm(), f.Norm(a))
			if f.IsZero(a) {
				x := A
				want(c, !x.InverseAssign(), "0 has an inverse")
			} else {
				un("1/a", func(x *bls.FQ2) { want(c, x.InverseAssign(), "1/a: not found") }, f.Inv(a))
			}
			if c.Pick(8) == 0 {
				lib.WantFQ2(c, "a^n", A.Exp(lib.QRepr(n)), f.Pow(a, n))
			}
			want(c, A.Equals(B) == f.Eq(a, b), "Equals: %v", A.Equals(B))
			want(c, A.IsZero() == f.IsZero(a), "IsZero: %v", A.IsZero())
			lib.WantFQ2(c, "a after all that", A, a)
			lib.WantFQ2(c, "b after all that", B, b)
			more = false
			switch c.Pick(4) { // neighbours of the same elements
			case 0:
				a, more = neighbour2(c, "next a", a), true
			case 1:
				b, more = neighbour2(c, "next b", b), true
			}
		}
	})

	p.Check("fq6", 3000, func(c *vt.Case) {
		a, b := c.Fq6("a"), c.Fq6("b")
		d, e := c.Fq2("d"), c.Fq2("e")
		n := c.UInt("n", 6, Q)
		pw := c.Int("power", 0, 255)
		c.Count(!isTriv6(a) && !isTriv6(b), str6(a), str6(b))
		for more := true; more; {
			z := f.Zero()
			a12, b12 := six(a), six(b)
			A, B := lib.FQ6(a), lib.FQ6(b)
			bin := func(what string, op func(x, y *bls.FQ6), m model.F12) {
				x := A.Copy()
				op(x, B)
				lib.WantFQ6(c, what, x, unsix(m))
			}
			bin("a + b", (*bls.FQ6).AddAssign, a12.Add(b12))
			bin("a - b", (*bls.FQ6).SubAssign, a12.Sub(b12))
			bin("a * b", (*bls.FQ6).MulAssign, a12.Mul(b12))
			un := func(what string, op func(x *bls.FQ6), m model.F12) {
				x := A.Copy()
				op(x)
				lib.WantFQ6(c, what, x, unsix(m))
			}
			sq := a12.Mul(a12)
			un("a + a", func(x *bls.FQ6) { x.AddAssign(x) }, a12.Add(a12))
			un("a - a", func(x *bls.FQ6) { x.SubAssign(x) }, model.Zero12())
			un("a * a", func(x *bls.FQ6) { x.MulAssign(x) }, sq)
			un("-a", (*bls.FQ6).NegAssign, a12.Neg())
			un("2a", (*bls.FQ6).DoubleAssign, a12.Add(a12))
			un("a^2", (*bls.FQ6).SquareAssign, sq)
			un("v a", (*bls.FQ6).MulByNonresidueAssign, a12.Mul(six([3]model.F2{z, f.One(), z})))
			un("d v a", func(x *bls.FQ6) { x.MulBy1Assign(q2(d)) }, a12.Mul(six([3]model.F2{z, d, z})))
			un("(d + e v) a", func(x *bls.FQ6) { x.MulBy01Assign(q2(d), q2(e)) }, a12.Mul(six([3]model.F2{d, e, z})))
			un(fmt.Sprintf("a^(q^%d)", pw), func(x *bls.FQ6) { x.FrobeniusMapAssign(uint8(pw)) }, a12.Frob(pw%12))
			if eq6(a, zero6()) {
				x := A.Copy()
				want(c, !x.InverseAssign(), "0 has an inverse")
			} else {
				x := A.Copy()
				want(c, x.InverseAssign(), "1/a: not found")
				inv, _ := a12.Inv()
				lib.WantFQ6(c, "1/a", x, unsix(inv))
			}
			if c.Pick(8) == 0 {
				N := lib.QRepr(n)
				lib.WantFQ6(c, "a^n", A.Exp(&N), unsix(a12.Pow(n)))
				wantNum(c, "n afterwards", lib.FromQR(N), n)
			}
			want(c, A.Equals(B) == eq6(a, b), "Equals: %v", A.Equals(B))
			want(c, A.IsZero() == eq6(a, zero6()), "IsZero: %v", A.IsZero())
			lib.WantFQ6(c, "a after all that", A, a)
			lib.WantFQ6(c, "b after all that", B, b)
			more = false
			switch c.Pick(4) { // neighbours of the same elements
			case 0:
				a, more = neighbour6(c, "next a", a), true
			case 1:
				b, more = neighbour6(c, "next b", b), true
			}
		}
	})

	p.Check("fq12", 2000, func(c *vt.Case) {
		a, b := c.F12("a"), c.F12("b")
		d, e, g := c.Fq2("d"), c.Fq2("e"), c.Fq2("g")
		n := c.UInt("n", 6, Q)
		pw := c.Int("power", 0, 255)
		c.Count(!isTriv12(a) && !isTriv12(b), str12(a), str12(b))
		for more := true; more; {
			z := f.Zero()
			A, B := lib.FQ12(a), lib.FQ12(b)
			bin := func(what string, op func(x, y *bls.FQ12), m model.F12) {
				x := A.Copy()
				op(x, B)
				lib.WantFQ12(c, what, x, m)
			}
			bin("a + b", (*bls.FQ12).AddAssign, a.Add(b))
			bin("a - b", (*bls.FQ12).SubAssign, a.Sub(b))
			bin("a * b", (*bls.FQ12).MulAssign, a.Mul(b))
			un := func(what string, op func(x *bls.FQ12), m model.F12) {
				x := A.Copy()
				op(x)
				lib.WantFQ12(c, what, x, m)
			}
			sq := a.Mul(a)
			un("a + a", func(x *bls.FQ12) { x.AddAssign(x) }, a.Add(a))
			un("a - a", func(x *bls.FQ12) { x.SubAssign(x) }, model.Zero12())
			un("a * a", func(x *bls.FQ12) { x.MulAssign(x) }, sq)
			un("-a", (*bls.FQ12).NegAssign, a.Neg())
			un("2a", (*bls.FQ12).DoubleAssign, a.Add(a))
			un("a^2", (*bls.FQ12).SquareAssign, sq)
			un("the conjugate", (*bls.FQ12).ConjugateAssign, a.Frob(6))
			sparse := model.Tower([2][3]model.F2{{d, e, z}, {z, g, z}})
			un("(d + e v + g v w) a", func(x *bls.FQ12) { x.MulBy014Assign(q2(d), q2(e), q2(g)) }, a.Mul(sparse))
			un(fmt.Sprintf("a^(q^%d)", pw), func(x *bls.FQ12) { x.FrobeniusMapAssign(uint8(pw)) }, a.Frob(pw%12))
			x := A.Copy()
			inv, ok := a.Inv()
			want(c, x.InverseAssign() == ok, "1/a: found %v", !ok)
			if ok {
				lib.WantFQ12(c, "1/a", x, inv)
			}
			if c.Pick(8) == 0 {
				lib.WantFQ12(c, "a^n", A.Exp(lib.QRepr(n)), a.Pow(n))
			}
			want(c, A.Equals(B) == a.Eq(b), "Equals: %v", A.Equals(B))
			want(c, A.IsZero() == a.IsZero(), "IsZero: %v", A.IsZero())
			lib.WantFQ12(c, "a after all that", A, a)
			lib.WantFQ12(c, "b after all that", B, b)
			more = false
			switch c.Pick(4) { // neighbours of the same elements
			case 0:
				a, more = neighbour12(c, "next a", a), true
			case 1:
				b, more = neighbour12(c, "next b", b), true
			}
		}
	})

	// Elements that differ in one coefficient are different.
	p.Check("different", 3000, func(c *vt.Case) {
		a := c.F12("a")
		k := c.Int("coefficient", 0, 11)
		d := c.Fq("delta")
		if d.Sign() == 0 {
			d = num(1)
		}
		c.Count(true, str12(a), k, d)
		t := a.Untower()
		e := &t[k/6][k%6/2]
		if k%2 == 0 {
			*e = f.Add(*e, model.F2{A: d, B: num(0)})
		} else {
			*e = f.Add(*e, model.F2{A: num(0), B: d})
		}
		b := model.Tower(t)
		A, B := lib.FQ12(a), lib.FQ12(b)
		want(c, !A.Equals(B) && !B.Equals(A), "Fq12: equal though coefficient %d differs", k)
		D := A.Copy()
		D.SubAssign(B)
		want(c, !D.IsZero(), "Fq12: zero though coefficient %d is not", k)
		A6, B6 := lib.FQ6(a.Untower()[k/6]), lib.FQ6(t[k/6])
		want(c, !A6.Equals(B6) && !B6.Equals(A6), "Fq6: equal though coefficient %d differs", k%6)
		A6.SubAssign(B6)
		want(c, !A6.IsZero(), "Fq6: zero though coefficient %d is not", k%6)
		A2, B2 := q2(a.Untower()[k/6][k%6/2]), q2(*e)
		want(c, !A2.Equals(B2) && !B2.Equals(A2), "Fq2: equal though coordinate %d differs", k%2)
		A2.SubAssign(B2)
		want(c, !A2.IsZero(), "Fq2: zero though coordinate %d is not", k%2)
	})

	// Every power of the Frobenius map, on a basis over Fq.
	p.Each("frobenius", 12*256, func(c *vt.Case, i int) {
		k, pw := i%12, i/12
		var cf [12]int64
		cf[k] = 1
		t := [2][3]model.F2{}
		for j := 0; j < 6; j++ {
			t[j/3][j%3] = model.S2(cf[2*j], cf[2*j+1])
		}
		c.Log("basis element", k)
		c.Log("power", pw)
		c.Count(k > 0, i)
		a := model.Tower(t)
		want12 := a.Frob(pw % 12)
		x := lib.FQ12(a)
		x.FrobeniusMapAssign(uint8(pw))
		lib.WantFQ12(c, "Fq12", x, want12)
		if k < 6 {
			y := lib.FQ6(t[0])
			y.FrobeniusMapAssign(uint8(pw))
			lib.WantFQ6(c, "Fq6", y, unsix(want12))
		}
	})

	// Small exponents exhaust the loop boundaries.
	p.Each("exponents", 100, func(c *vt.Case, i int) {
		n := num(int64(i / 2))
		if i >= 80 {
			n = new(I).Lsh(one, uint(384*(i-79)/21))
			n.Sub(n, one)
		}
		c.Log("n", hexn(n))
		c.Count(i > 2, i)
		a := model.Tower([2][3]model.F2{{model.S2(1, 2), model.S2(3, -1), model.S2(0, 5)}, {model.S2(2, 2), model.S2(7, 1), model.S2(1, 0)}})
		N := lib.QRepr(n)
		lib.WantFQ12(c, "Fq12", lib.FQ12(a).Exp(N), a.Pow(n))
		s := a.Untower()[0]
		lib.WantFQ6(c, "Fq6", lib.FQ6(s).Exp(&N), unsix(six(s).Pow(n)))
		lib.WantFQ2(c, "Fq2", q2(s[0]).Exp(N), f.Pow(s[0], n))
		lib.WantFQ(c, "Fq", lib.FQ(num(3)).Exp(N), model.Fq.Pow(num(3), n))
	})
	p.Each("constants", 6, func(c *vt.Case, i int) {
		c.Count(true, i)
		o6 := zero6()
		o6[0] = f.One()
		switch i {
		case 0:
			lib.WantFQ2(c, "zero", bls.FQ2Zero, f.Zero())
		case 1:
			lib.WantFQ2(c, "one", bls.FQ2One, f.One())
		case 2:
			lib.WantFQ6(c, "zero", bls.FQ6Zero, zero6())
		case 3:
			lib.WantFQ6(c, "one", bls.FQ6One, o6)
		case 4:
			lib.WantFQ12(c, "zero", bls.FQ12Zero, model.Zero12())
		case 5:
			lib.WantFQ12(c, "one", bls.FQ12One, model.One12())
		}
	})
}

// TestC21 checks square roots and quadratic characters.
func TestC21(t *testing.T) {
	p := vt.Prop(t, "C21")
	fq := func(c *vt.Case, a *I) {
		j := model.Fq.Jacobi(a)
		A := lib.FQ(a)
		s, ok := A.Sqrt()
		want(c, ok == (j >= 0), "Fq.Sqrt: found %v, quadratic character %d", ok, j)
		if ok {
			x := s
			x.SquareAssign()
			lib.WantFQ(c, "sqrt(a)^2", x, a)
		}
		want(c, cmpLegendre(A.Legendre(), j), "Fq.Legendre: %d, want %d", A.Legendre(), j)
		lib.WantFQ(c, "a afterwards", A, a)
	}
	fr := func(c *vt.Case, a *I) {
		j := model.Fr.Jacobi(a)
		A := lib.FR(a)
		s := A.Sqrt()
		want(c, (s != nil) == (j >= 0), "Fr.Sqrt: found %v, quadratic character %d", s != nil, j)
		if s != nil {
			x := s.Copy()
			x.SquareAssign()
			lib.WantFR(c, "sqrt(a)^2", x, a)
		}
		want(c, cmpLegendre(A.Legendre(), j), "Fr.Legendre: %d, want %d", A.Legendre(), j)
		lib.WantFR(c, "a afterwards", A, a)
	}
	fq2 := func(c *vt.Case, a model.F2) {
		_, sq := model.Fq2.Sqrt(a)
		j := model.Fq.Jacobi(model.Fq2.Norm(a))
		if sq != (j >= 0) {
			panic("harness: model")
		}
		A := q2(a)
		s, ok := A.Sqrt()
		want(c, ok == sq, "Fq2.Sqrt: found %v, should be %v", ok, sq)
		if ok {
			x := s
			x.SquareAssign()
			lib.WantFQ2(c, "sqrt(a)^2", x, a)
		}
		want(c, cmpLegendre(A.Legendre(), j), "Fq2.Legendre: %d, want %d", A.Legendre(), j)
		lib.WantFQ2(c, "a afterwards", A, a)
	}
	p.Check("fq", 2500, func(c *vt.Case) {
		a := c.Fq("a")
		if c.Bool("square") {
			a = model.Fq.Mul(a, a)
		}
		c.Count(!isTriv(a), a)
		fq(c, a)
		if c.Pick(3) == 0 {
			fq(c, neighbour(c, "next", a, Q, 6))
		}
	})
	p.Check("fr", 3000, func(c *vt.Case) {
		a := c.Fr("a")
		if c.Bool("square") {
			a = model.Fr.Mul(a, a)
		}
		c.Count(!isTriv(a), a)
		fr(c, a)
		if c.Pick(3) == 0 {
			fr(c, neighbour(c, "next", a, R, 4))
		}
	})
	// elements of every 2-power order, times an element of odd order
	g := model.Fr.Pow(num(7), new(I).Rsh(R, 32))
	p.Each("fr orders", 33*8, func(c *vt.Case, i int) {
		k := i % 33
		a := g
		for n := 0; n < k; n++ {
			a = model.Fr.Mul(a, a)
		}
		odd := num(int64(1 + i/33))
		for n := 0; n < 32; n++ {
			odd = model.Fr.Mul(odd, odd)
		}
		a = model.Fr.Mul(a, odd)
		c.Log("a", hexn(a))
		c.Count(true, i)
		fr(c, a)
	})
	p.Check("fq2", 1500, func(c *vt.Case) {
		a := c.Fq2("a")
		switch c.Int("form", 0, 3) {
		case 0:
			a = model.Fq2.Mul(a, a)
		case 1: // in the base field: the special branches
			a.B = num(0)
		case 2: // the square of an imaginary element
			b := model.F2{A: num(0), B: a.A}
			a = model.Fq2.Mul(b, b)
		}
		c.Count(!isTriv2(a), a)
		fq2(c, a)
		if c.Pick(3) == 0 {
			fq2(c, neighbour2(c, "next", a))
		}
	})
	p.Each("small", 120, func(c *vt.Case, i int) {
		n := num(int64(i/2) - 10)
		c.Log("n", n)
		c.Count(i > 5, i)
		if i%2 == 0 {
			fq(c, model.Fq.Of(n))
			fr(c, model.Fr.Of(n))
			fq2(c, model.E2(n, num(0)))
		} else {
			fq2(c, model.E2(num(0), n))
			fq2(c, model.E2(n, n))
			fq2(c, model.E2(n, num(int64(i%7))))
		}
	})
}
