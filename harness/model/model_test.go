package model

import (
	"math/rand"
	"testing"
	"time"
)

func rq(r *rand.Rand) *I { return new(I).Rand(r, Q) }

func TestSelf(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	if !Q.ProbablyPrime(20) || !R.ProbablyPrime(20) || Q.BitLen() != 381 || R.BitLen() != 255 {
		t.Fatal("params")
	}
	if !G1.On(Gen1) || !G2.On(Gen2) || !G1.InSub(Gen1) || !G2.InSub(Gen2) {
		t.Fatal("generators")
	}
	// x + y = q + 1 - #E: the orders are h r
	for i := 0; i < 10; i++ {
		a := rq(r)
		if p, ok := G1.Lift(a, i%2 == 0); ok {
			if !G1.Mul(p, new(I).Mul(H1, R)).Inf {
				t.Fatal("h1")
			}
		}
		if p, ok := G2.Lift(F2{a, rq(r)}, i%2 == 0); ok {
			if !G2.Mul(p, new(I).Mul(H2, R)).Inf {
				t.Fatal("h2")
			}
		}
	}
	for i := 0; i < 10; i++ {
		a, b := SWU1(rq(r)), SWU1(rq(r))
		if !E1.On(a) || !G1.On(Iso1(a)) || !G1.Eq(Iso1(E1.Add(a, b)), G1.Add(Iso1(a), Iso1(b))) {
			t.Fatal("iso1")
		}
		if !G1.InSub(G1.Mul(Iso1(a), HEff1)) {
			t.Fatal("heff1")
		}
		c, d := SWU2(F2{rq(r), rq(r)}), SWU2(F2{rq(r), rq(r)})
		if !E3.On(c) || !G2.On(Iso2(c)) || !G2.Eq(Iso2(E3.Add(c, d)), G2.Add(Iso2(c), Iso2(d))) {
			t.Fatal("iso2")
		}
		if !G2.InSub(G2.Mul(Iso2(c), HEff2)) {
			t.Fatal("heff2")
		}
	}
	var f F12
	for i := range f {
		f[i] = rq(r)
	}
	if !Tower(f.Untower()).Eq(f) {
		t.Fatal("tower")
	}
	g, _ := f.Inv()
	if !f.Mul(g).Eq(One12()) || !f.Frob(1).Eq(f.Pow(Q)) {
		t.Fatal("f12")
	}
	e := GT()
	if e.Eq(One12()) || !e.Pow(R).Eq(One12()) {
		t.Fatal("gt order")
	}
	a, b := new(I).Rand(r, R), new(I).Rand(r, R)
	if !Pairing(G1.Mul(Gen1, a), G2.Mul(Gen2, b)).Eq(ET(new(I).Mul(a, b))) {
		t.Fatal("bilinear")
	}
	tm := func(n string, k int, f func()) {
		s := time.Now()
		for i := 0; i < k; i++ {
			f()
		}
		t.Log(n, time.Since(s)/time.Duration(k))
	}
	tm("g1mul", 20, func() { G1.Mul(Gen1, a) })
	tm("g2mul", 20, func() { G2.Mul(Gen2, a) })
	tm("hash1", 20, func() { Hash1([]byte("a")) })
	tm("hash2", 20, func() { Hash2([]byte("a")) })
	tm("miller", 5, func() { Miller(Gen1, Gen2) })
	tm("finalexp", 5, func() { FinalExp(f) })
	tm("inv12", 20, func() { f.Inv() })
	tm("mul12", 100, func() { f.Mul(f) })
}
