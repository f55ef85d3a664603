package props

import (
	"fmt"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// pairOf draws subgroup points with their logarithms.
func pairOf(c *vt.Case, n string) (p model.P1, a *I, q model.P2, b *I) {
	p, a = lib.G1.SubPt(c, "P"+n)
	q, b = lib.G2.SubPt(c, "Q"+n)
	c.Log("logarithms", fmt.Sprintf("%#x, %#x", a, b))
	return
}

func item(p model.P1, q model.P2) bls.MillerLoopItem {
	return bls.MillerLoopItem{P: lib.A1(p), Q: bls.G2AffineToPrepared(lib.A2(q))}
}

// TestC13 checks the pairing.
func TestC13(t *testing.T) {
	p := vt.Prop(t, "C13")
	wantE := func(c *vt.Case, what string, got *bls.FQ12, want model.F12) { lib.WantFQ12(c, what, got, want) }
	p.Check("reference", 120, func(c *vt.Case) {
		P, a, Q, b := pairOf(c, "")
		c.Count(!P.Inf && !Q.Inf, P, Q)
		e := model.Pairing(P, Q)
		if !e.Eq(model.ET(model.Fr.Mul(a, b))) {
			panic("harness: the reference pairing is not bilinear")
		}
		wantE(c, "e(P, Q)", bls.Pairing(lib.G1.DrawRep(c, "P", P), lib.G2.DrawRep(c, "Q", Q)), e)
	})
	p.Check("bilinear", 900, func(c *vt.Case) {
		P, a, Q, b := pairOf(c, "")
		c.Count(!P.Inf && !Q.Inf, P, Q)
		ab := model.Fr.Mul(a, b)
		e := model.ET(ab)
		PP, QQ := lib.G1.DrawRep(c, "P", P), lib.G2.DrawRep(c, "Q", Q)
		got := bls.Pairing(PP, QQ)
		wantE(c, "e(aG, bH)", got, e)
		want(c, got.Equals(bls.FQ12One) == (ab.Sign() == 0), "degenerate: %v", ab)
		if c.Pick(2) == 0 {
			wantE(c, "by Miller loop and final exponentiation", bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{item(P, Q)})), e)
		} else { // move a scalar from one side to the other
			k := c.Fr("k")
			wantE(c, "e(kP, Q)", bls.Pairing(PP.MulFR(lib.RRepr(k)), QQ), model.ET(model.Fr.Mul(ab, k)))
			wantE(c, "e(P, kQ)", bls.Pairing(PP, QQ.MulFR(lib.RRepr(k))), model.ET(model.Fr.Mul(ab, k)))
		}
		lib.G1.WantP(c, "P afterwards", PP, P)
		lib.G2.WantP(c, "Q afterwards", QQ, Q)
		switch c.Pick(4) { // with the same coordinates but one
		case 0:
			c.Log("next", "-P")
			wantE(c, "e(-P, Q)", bls.Pairing(lib.G1.DrawRep(c, "P", model.G1.Neg(P)), QQ), model.ET(model.Fr.Neg(ab)))
		case 1:
			c.Log("next", "-Q")
			wantE(c, "e(P, -Q)", bls.Pairing(PP, lib.G2.DrawRep(c, "Q", model.G2.Neg(Q))), model.ET(model.Fr.Neg(ab)))
		}
	})
	p.Check("additive", 200, func(c *vt.Case) {
		P, a, Q, b := pairOf(c, "")
		P2, a2, Q2, b2 := pairOf(c, "'")
		c.Count(!P.Inf && !Q.Inf && !P2.Inf && !Q2.Inf, P, Q, P2, Q2)
		x, y := lib.G1.ToProj(lib.A1(P)), lib.G2.ToProj(lib.A2(Q))
		x2, y2 := lib.G1.ToProj(lib.A1(P2)), lib.G2.ToProj(lib.A2(Q2))
		wantE(c, "e(P + P', Q)", bls.Pairing(x.Add(x2), y), model.ET(model.Fr.Mul(model.Fr.Add(a, a2), b)))
		wantE(c, "e(P, Q + Q')", bls.Pairing(x, y.Add(y2)), model.ET(model.Fr.Mul(a, model.Fr.Add(b, b2))))
		l, r := bls.Pairing(x, y), bls.Pairing(x2, y)
		l.MulAssign(r)
		want(c, l.Equals(bls.Pairing(x.Add(x2), y)), "e(P, Q) e(P', Q) differs from e(P + P', Q)")
	})
	p.Each("infinity", 16, func(c *vt.Case, i int) {
		P, Q := model.Gen1, model.Gen2
		if i&1 == 1 {
			P = model.G1.O()
		}
		if i&2 == 2 {
			Q = model.G2.O()
		}
		z := num(int64(1 + i/4))
		c.Log("P", P)
		c.Log("Q", Q)
		c.Count(true, i)
		e := model.One12()
		if i&3 == 0 {
			e = model.GT()
		}
		wantE(c, "e(P, Q)", bls.Pairing(lib.G1.Rep(P, z), lib.G2.Rep(Q, model.F2{A: z, B: new(I)})), e)
		q := bls.G2AffineToPrepared(lib.A2(Q))
		want(c, q.IsZero() == Q.Inf, "prepared infinity")
	})
	p.Check("final exponentiation", 250, func(c *vt.Case) {
		f := c.F12("f")
		c.Count(!isTriv12(f), f)
		F := lib.FQ12(f)
		got := bls.FinalExponentiation(F)
		if f.IsZero() {
			want(c, got == nil, "the final exponentiation of 0 is %v", got)
			return
		}
		wantE(c, "final exponentiation", got, model.FinalExp(f))
		wantE(c, "f afterwards", F, f)
	})
	p.Each("final exponentiation of zero", 1, func(c *vt.Case, i int) {
		c.Count(true, i)
		want(c, bls.FinalExponentiation(lib.FQ12(model.Zero12())) == nil, "not nil")
		wantE(c, "of one", bls.FinalExponentiation(lib.FQ12(model.One12())), model.One12())
	})
}

// TestC14 checks products of pairings and their comparison.
func TestC14(t *testing.T) {
	p := vt.Prop(t, "C14")
	lengthsC14(p)
	p.Check("product", 700, func(c *vt.Case) {
		n := c.Int("n", 0, 5)
		if c.Pick(10) == 0 {
			n = c.Int("n", 6, 12)
			if c.Pick(4) == 0 {
				n = c.Int("n", 13, 70)
			}
		}
		var items []bls.MillerLoopItem
		var ps []model.P1
		var qs []model.P2
		var prep []*bls.G2Prepared
		sum := new(I)
		var as, bs []*I
		fin := 0
		for i := 0; i < n; i++ {
			P, a, Q, b := pairOf(c, fmt.Sprint(i))
			pr := bls.G2AffineToPrepared(lib.A2(Q))
			if i > 0 && c.Pick(4) == 0 { // an earlier prepared point again
				j := c.Pick(i)
				Q, pr, b = qs[j], prep[j], bs[j]
				c.Log(fmt.Sprintf("Q%d", i), fmt.Sprintf("that of %d", j))
			}
			it := bls.MillerLoopItem{P: lib.A1(P), Q: pr}
			if i > 0 && c.Pick(5) == 0 { // an earlier P again, or an earlier pair
				j := c.Pick(i)
				if c.Pick(2) == 0 {
					j = i - 1
				}
				P, a, it.P = ps[j], as[j], items[j].P
				c.Log(fmt.Sprintf("P%d", i), fmt.Sprintf("that of %d", j))
				if c.Pick(2) == 0 {
					Q, pr, b, it.Q = qs[j], prep[j], bs[j], items[j].Q
					c.Log(fmt.Sprintf("Q%d", i), fmt.Sprintf("that of %d", j))
				}
			}
			ps, qs, prep, bs, as = append(ps, P), append(qs, Q), append(prep, pr), append(bs, b), append(as, a)
			items = append(items, it)
			sum = model.Fr.Add(sum, model.Fr.Mul(a, b))
			if !P.Inf && !Q.Inf {
				fin++
			}
		}
		if n > 0 && c.Pick(3) == 0 { // cancel everything
			P := model.G1.Mul(model.Gen1, model.Fr.Neg(sum))
			c.Log("P", P)
			ps, qs = append(ps, P), append(qs, model.Gen2)
			items = append(items, item(P, model.Gen2))
			sum = new(I)
			c.Label("product 1")
		}
		c.Count(fin > 1, ps, qs)
		e := model.ET(sum)
		lib.WantFQ12(c, "product", bls.FinalExponentiation(bls.MillerLoop(items)), e)
		// again, in another order, and with more infinities
		if len(items) > 0 && c.Pick(2) == 0 {
			k := c.Pick(len(items))
			r := append(append([]bls.MillerLoopItem{}, items[k:]...), items[:k]...)
			r = append(r, item(model.G1.O(), model.Gen2), item(model.Gen1, model.G2.O()))
			j := c.Pick(len(r))
			r[0], r[j] = r[j], r[0]
			lib.WantFQ12(c, "product in another order", bls.FinalExponentiation(bls.MillerLoop(r)), e)
		}
		for i, x := range items {
			lib.G1.WantA(c, fmt.Sprintf("P%d afterwards", i), x.P, ps[i])
			want(c, x.Q.IsZero() == qs[i].Inf, "Q%d afterwards", i)
		}
	})
	p.Check("compare", 1200, func(c *vt.Case) {
		P, a, Q, b := pairOf(c, "1")
		P2, a2, Q2, b2 := pairOf(c, "2")
		m1, m2 := func(k *I) model.P1 { return model.G1.Mul(model.Gen1, k) }, func(k *I) model.P2 { return model.G2.Mul(model.Gen2, k) }
		ab := model.Fr.Mul(a, b)
		switch c.Int("relation", 0, 10) {
		case 0: // the same
			P2, a2, Q2, b2 = P, a, Q, b
		case 1, 2: // solve for the fourth
			if a2.Sign() != 0 {
				b2 = model.Fr.Mul(ab, model.Fr.Inv(a2))
				Q2 = m2(b2)
			}
		case 3, 4:
			if b2.Sign() != 0 {
				a2 = model.Fr.Mul(ab, model.Fr.Inv(b2))
				P2 = m1(a2)
			}
		case 5: // the inverse
			P2, a2, Q2, b2 = model.G1.Neg(P), model.Fr.Neg(a), Q, b
		case 6: // signs on both
			P2, a2, Q2, b2 = model.G1.Neg(P), model.Fr.Neg(a), model.G2.Neg(Q), model.Fr.Neg(b)
		case 7: // one off
			P2, a2, Q2, b2 = model.G1.Add(P, model.Gen1), model.Fr.Add(a, one), Q, b
		case 8:
			P2, a2, Q2, b2 = P, a, model.G2.Add(Q, model.Gen2), model.Fr.Add(b, one)
		case 9: // with infinity
			if c.Pick(2) == 0 {
				P2, a2 = model.G1.O(), new(I)
			} else {
				Q2, b2 = model.G2.O(), new(I)
			}
		}
		c.Log("P2", P2)
		c.Log("Q2", Q2)
		ok := ab.Cmp(model.Fr.Mul(a2, b2)) == 0
		if ok {
			c.Label("equal")
		}
		c.Count(!P.Inf && !Q.Inf && !P2.Inf && !Q2.Inf, P, Q, P2, Q2)
		x, y := lib.G1.DrawRep(c, "P1", P), lib.G2.DrawRep(c, "Q1", Q)
		x2, y2 := lib.G1.DrawRep(c, "P2", P2), lib.G2.DrawRep(c, "Q2", Q2)
		want(c, bls.CompareTwoPairings(x, y, x2, y2) == ok, "compare equal: %v, should be %v", !ok, ok)
		if c.Pick(3) == 0 {
			want(c, bls.CompareTwoPairings(x2, y2, x, y) == ok, "compare equal the other way: %v, should be %v", !ok, ok)
			want(c, bls.Pairing(x, y).Equals(bls.Pairing(x2, y2)) == ok, "pairings equal: %v, should be %v", !ok, ok)
		}
		lib.G1.WantP(c, "P1 afterwards", x, P)
		lib.G1.WantP(c, "P2 afterwards", x2, P2)
		lib.G2.WantP(c, "Q1 afterwards", y, Q)
		lib.G2.WantP(c, "Q2 afterwards", y2, Q2)
	})
	p.Each("compare infinities", 16, func(c *vt.Case, i int) {
		P, Q := [2]model.P1{model.Gen1, model.Gen1}, [2]model.P2{model.Gen2, model.Gen2}
		one := [2]bool{i&3 == 0, i&12 == 0}
		for j := 0; j < 2; j++ {
			if i>>(2*j)&1 == 1 {
				P[j] = model.G1.O()
			}
			if i>>(2*j)&2 == 2 {
				Q[j] = model.G2.O()
			}
		}
		c.Log("P", P)
		c.Log("Q", Q)
		c.Count(true, i)
		got := bls.CompareTwoPairings(lib.A1(P[0]).ToProjective(), lib.A2(Q[0]).ToProjective(), lib.A1(P[1]).ToProjective(), lib.A2(Q[1]).ToProjective())
		want(c, got == (one[0] == one[1]), "compare equal: %v", got)
	})
}
