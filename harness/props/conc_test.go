package props

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// A task is a call on values that all goroutines share. It returns what is
// wrong with the result. Expected values were computed before, from the model.
type task struct {
	name string
	run  func() string
}

func differ(what string, got, want any) string {
	g, w := fmt.Sprint(got), fmt.Sprint(want)
	if g == w {
		return ""
	}
	return fmt.Sprintf("%s: got %s, want %s", what, g, w)
}

func hx(b []byte) string { return fmt.Sprintf("%x", b) }

// shared makes tasks about one group.
func groupTasks[E, A, P any](c *vt.Case, g *lib.Grp[E, A, P]) []task {
	cv := g.C
	type V struct {
		a A
		p P
		m model.Pt[E]
	}
	draw := func(l string) V {
		m, _ := g.SubPt(c, g.Name+l)
		switch c.Pick(8) {
		case 0:
			return V{g.OneA(), g.OneP(), g.Gen}
		case 1:
			return V{g.ZeroA(), g.ZeroP(), cv.O()}
		}
		return V{g.Aff(m), g.Rep(m, g.Small(int64(1+c.Pick(9)))), m}
	}
	x, y := draw(" x"), draw(" y")
	k := c.Fr("k")
	kr, kq := lib.RRepr(k), lib.QRepr(k)
	enc := g.MCompress(x.m)
	bad := g.Damage(c, x.m)
	badP, badOK := g.MDecompress(bad)
	badOK = badOK && cv.InSub(badP)
	raw := g.MRaw(x.m)
	sum, dbl, kx := cv.Add(x.m, y.m), cv.Add(x.m, x.m), cv.Mul(x.m, k)
	cof := cv.Mul(x.m, g.H)
	aff := func(what string, got A, want model.Pt[E]) string {
		if r := g.Read(got); !cv.Eq(r, want) {
			return differ(g.Name+" "+what, r, want)
		}
		return ""
	}
	proj := func(what string, got P, want model.Pt[E]) string { return aff(what, g.ToAff(got), want) }
	l := []task{
		{"add", func() string { return proj("x + y", g.Add(x.p, y.p), sum) }},
		{"add affine", func() string { return proj("x + y", g.AddAff(x.p, y.a), sum) }},
		{"double", func() string { return proj("2 x", g.Double(x.p), dbl) }},
		{"multiply", func() string {
			return proj("k x", g.Mul(x.p, kq), kx) + proj("k x", g.MulFR(x.p, kr), kx) + proj("k x", g.AMulFR(x.a, kr), kx)
		}},
		{"cofactor", func() string { return proj("h x", g.Cofactor(x.a), cof) }},
		{"to affine", func() string { return aff("x", g.ToAff(x.p), x.m) + proj("x", g.ToProj(x.a), x.m) }},
		{"compress", func() string { return differ(g.Name+" encoding", hx(g.Compress(x.a)), hx(enc)) }},
		{"decompress", func() string {
			z, err := g.Decompress(enc)
			if err != nil {
				return g.Name + " refused: " + err.Error()
			}
			return aff("decoded", z, x.m)
		}},
		{"decompress damaged", func() string {
			z, err := g.Decompress(bad)
			if (err == nil) != badOK {
				return differ(g.Name+" decoded", err == nil, badOK)
			}
			if badOK {
				return aff("decoded", z, badP)
			}
			return ""
		}},
		{"check", func() string {
			return differ(g.Name+" on curve, in subgroup", fmt.Sprint(g.On(x.a), g.InSub(x.a)), "true true") +
				differ(g.Name+" equal", fmt.Sprint(g.Eq(x.p, y.p), g.EqA(x.a, y.a)), fmt.Sprint(cv.Eq(x.m, y.m), cv.Eq(x.m, y.m)))
		}},
		{"copy and change", func() string {
			z := g.CopyA(x.a)
			g.NegA(z)
			w := g.CopyP(x.p)
			overwrite(w, g.Double(w))
			return aff("-x", z, cv.Neg(x.m)) + proj("2 x", w, dbl)
		}},
		{"string", func() string { _, _ = g.StrA(x.a), g.StrP(x.p); return "" }},
	}
	if !x.m.Inf {
		gr := model.Greater(cv.F, x.m.Y)
		l = append(l, task{"uncompressed", func() string {
			z := g.CopyA(g.OneA())
			if err := g.SetRaw(z, raw); err != nil {
				return g.Name + " refused: " + err.Error()
			}
			return differ(g.Name+" bytes", hx(g.RawBytes(x.a)), hx(raw)) + aff("decoded", z, x.m)
		}}, task{"from x", func() string {
			z, err := g.Lift(x.m.X, gr)
			if err != nil {
				return g.Name + " no point: " + err.Error()
			}
			return aff("from x", z, x.m)
		}})
	}
	for i := range l {
		l[i].name = g.Name + " " + l[i].name
	}
	return l
}

func fieldTasks(c *vt.Case) []task {
	a, b := c.Fr("a"), c.FrNZ("b")
	A, B := lib.FR(a), lib.FR(b)
	ar := lib.RRepr(a)
	ab, ib, pw, sq := model.Fr.Mul(a, b), model.Fr.Inv(b), model.Fr.Pow(b, a), model.Fr.Mul(a, a)
	x, y := c.Fq("x"), c.Fq2("y")
	X, Y := lib.FQ(x), lib.FQ2(y)
	xx, yy := model.Fq.Mul(x, x), model.Fq2.Mul(y, y)
	f, e := c.F12("f"), c.Fq6("e")
	F, E := lib.FQ12(f), lib.FQ6(e)
	fi, fok := f.Inv()
	ei, eok := six(e).Inv()
	ff := f.Mul(f)
	ee := six(e).Mul(six(e))
	n := c.Int("frobenius", 1, 11)
	fn := f.Frob(n)
	fr := func(what string, got *bls.FR, want *I) string {
		return differ(what, hexn(lib.FromFR(got)), hexn(want))
	}
	q := func(what string, got bls.FQ, want *I) string { return differ(what, hexn(lib.FromFQ(got)), hexn(want)) }
	q2s := func(what string, got bls.FQ2, want model.F2) string { return differ(what, lib.FromFQ2(got), want) }
	f12 := func(what string, got *bls.FQ12, want model.F12) string {
		if !got.Equals(lib.FQ12(want)) {
			return what + " is wrong"
		}
		return ""
	}
	f6 := func(what string, got *bls.FQ6, want model.F12) string {
		if !got.Equals(lib.FQ6(unsix(want))) {
			return what + " is wrong"
		}
		return ""
	}
	l := []task{
		{"Fr product", func() string { z := A.Copy(); z.MulAssign(B); return fr("a b", z, ab) }},
		{"Fr inverse", func() string { return fr("1/b", B.Inverse(), ib) }},
		{"Fr power", func() string { return fr("b^a", B.Exp(ar), pw) }},
		{"Fr conversions", func() string {
			return fr("a", bls.FRReprToFR(ar), a) + differ("a", hexn(lib.FromRR(A.ToRepr())), hexn(a)) + differ("a", hexn(ar.ToBig()), hexn(a))
		}},
		{"Fr root", func() string {
			s := A.Copy()
			s.SquareAssign()
			t := s.Sqrt()
			if t == nil {
				return "a^2 has no root"
			}
			t.SquareAssign()
			return fr("a^2", t, sq)
		}},
		{"Fq square and root", func() string {
			z := X.Copy()
			z.SquareAssign()
			r := q("x^2", z, xx)
			t, ok := z.Sqrt()
			if !ok {
				return "x^2 has no root"
			}
			t.SquareAssign()
			return r + q("root squared", t, xx)
		}},
		{"Fq2 square and root", func() string {
			z := Y
			z.SquareAssign()
			r := q2s("y^2", z, yy)
			t, ok := z.Sqrt()
			if !ok {
				return "y^2 has no root"
			}
			t.SquareAssign()
			return r + q2s("root squared", t, yy)
		}},
		{"Fq6", func() string {
			z := E.Copy()
			z.MulAssign(E)
			r := f6("e^2", z, ee)
			z = E.Copy()
			if z.InverseAssign() != eok {
				return r + "inverse exists: " + fmt.Sprint(!eok)
			}
			if eok {
				r += f6("1/e", z, ei)
			}
			return r
		}},
		{"Fq12", func() string {
			z := F.Copy()
			z.MulAssign(F)
			r := f12("f^2", z, ff)
			z = F.Copy()
			z.FrobeniusMapAssign(uint8(n))
			r += f12("Frobenius of f", z, fn)
			z = F.Copy()
			if z.InverseAssign() != fok {
				return r + "inverse exists: " + fmt.Sprint(!fok)
			}
			if fok {
				r += f12("1/f", z, fi)
			}
			return r
		}},
		{"strings", func() string { _, _, _, _ = A.String(), X.String(), Y.String(), F.String(); return "" }},
	}
	return l
}

func pairingTasks(c *vt.Case) []task {
	P, a := lib.G1.SubPt(c, "P")
	Q, b := lib.G2.SubPt(c, "Q")
	ab := model.Fr.Mul(a, b)
	e := model.ET(ab)
	e2 := e.Mul(e)
	PP, QQ := lib.G1.ToProj(lib.A1(P)), lib.G2.ToProj(lib.A2(Q))
	PA := lib.A1(P)
	prep := bls.G2AffineToPrepared(lib.A2(Q))
	N := lib.G1.ToProj(lib.A1(model.G1.Neg(P)))
	eq := func(what string, got *bls.FQ12, want model.F12) string {
		if got == nil || !got.Equals(lib.FQ12(want)) {
			return what + " is wrong"
		}
		return ""
	}
	return []task{
		{"pairing", func() string { return eq("e(P, Q)", bls.Pairing(PP, QQ), e) }},
		{"prepared", func() string {
			it := bls.MillerLoopItem{P: PA, Q: prep}
			return eq("e(P, Q)^2", bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{it, it})), e2)
		}},
		{"prepare", func() string {
			it := bls.MillerLoopItem{P: PA, Q: bls.G2AffineToPrepared(QQ.ToAffine())}
			return eq("e(P, Q)", bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{it})), e)
		}},
		{"compare pairings", func() string {
			return differ("compared", fmt.Sprint(bls.CompareTwoPairings(PP, QQ, PP, QQ), bls.CompareTwoPairings(PP, QQ, N, QQ)), fmt.Sprint(true, ab.Sign() == 0))
		}},
	}
}

func hashTasks(c *vt.Case) []task {
	m, m32 := lib.PoolMsg(c), lib.PoolMsg32(c)
	if c.Pick(3) == 0 {
		m = c.Uniform("m", 24)
	}
	d := lib.DrawDomain(c)
	c.Log("messages", fmt.Sprintf("%x, %x in %x", m, m32, d))
	h1, h2, hd := lib.Hash1(m), lib.Hash2(m), lib.HashD([32]byte(m32), d)
	dig := sha256.Sum256(m)
	fr := model.Fr.Of(mulBytes(dig[:]))
	return []task{
		{"hash to G1", func() string { return differ("HashG1", lib.R1(bls.HashG1(m)), h1) }},
		{"hash to G2", func() string { return differ("HashG2", lib.R2(bls.HashG2(m)), h2) }},
		{"hash to G2 in a domain", func() string {
			return differ("HashG2WithDomain", lib.R2(bls.HashG2WithDomain([32]byte(m32), d).ToAffine()), hd)
		}},
		{"hash to field", func() string {
			h := sha256.New()
			h.Write(m)
			return differ("HashFR", hexn(lib.FromFR(bls.HashFR(h))), hexn(fr))
		}},
	}
}

func schemeTasks(c *vt.Case, s *lib.Scheme) []task {
	k1, P1 := s.PoolKey(c)
	k2, P2 := s.PoolKey(c)
	m1, m2 := s.DrawMsg(c, s.Name+" message"), lib.Msg{M: lib.PoolMsg(c)}
	m3 := lib.Msg{M: lib.PoolMsg(c)}
	sk1, sk2 := s.Key(k1), s.Key(k2)
	p1, p2 := s.PubAt(P1), s.PubAt(P2)
	E1 := s.Sig.Mul(s.Hash(m1), k1)
	E12 := s.Sig.Add(E1, s.Sig.Mul(s.Hash(m1), k2))
	E23 := s.Sig.Add(s.Sig.Mul(s.Hash(m2), k1), s.Sig.Mul(s.Hash(m3), k2))
	dist := !bytes.Equal(m2.M, m3.M)
	if bytes.Equal(m2.M, m3.M) {
		E23 = s.Sig.Mul(s.Hash(m2), model.Fr.Add(k1, k2))
	}
	room := func(m []byte) []byte { return append(make([]byte, 0, len(m)+c0), m...) }
	m1.M, m2.M, m3.M = room(m1.M), room(m2.M), room(m3.M)
	g1, g12, g23, gbad := s.SigOf(E1), s.SigOf(E12), s.SigOf(E23), s.SigOf(s.Sig.Add(E1, s.Sig.Gen))
	P12 := s.Pub.Add(P1, P2)
	seed := c.Bytes32("seed")
	dk := model.DeriveKey(seed)
	rs := vt.Stream(seed, 4096)
	pubBad := s.Pub.Damage(c, P1)
	bp, bok := s.Pub.Decompress(pubBad)
	bok = bok && s.Pub.InSub(bp)
	enc := func(what string, g *lib.EG, got []byte, want lib.Point) string {
		return differ(what, hx(got), hx(g.Compress(want)))
	}
	ps, gs, only, msgs := []any{p1, p2}, []any{g1, g23}, []any{p1}, [][]byte{m2.M, m3.M}
	lib.Share(ps, gs, only)
	b32 := func(k *I) []byte { return k.FillBytes(make([]byte, 32)) }
	l := []task{
		{"sign", func() string { return enc("signature", s.Sig, s.SigBytes(s.Sign(m1, sk1)), E1) }},
		{"sign and verify", func() string {
			return differ("accepted", s.Verify(m1, s.PubOf(sk1), s.Sign(m1, sk1)), true)
		}},
		{"verify", func() string { return differ("accepted", s.Verify(m1, p1, g1), true) }},
		{"verify bad", func() string { return differ("accepted", s.Verify(m1, p1, gbad), false) }},
		{"public key", func() string { return enc("public key", s.Pub, s.PubBytes(s.PubOf(sk2)), P2) }},
		{"serialize", func() string {
			b := s.KeyBytes(sk1)
			return enc("public key", s.Pub, s.PubBytes(p1), P1) + enc("signature", s.Sig, s.SigBytes(g12), E12) + differ("secret key", hx(b[:]), hx(b32(k1)))
		}},
		{"deserialize", func() string {
			p, err := s.PubFrom(s.Pub.Compress(P1))
			if err != nil {
				return "refused: " + err.Error()
			}
			g, err := s.SigFrom(s.Sig.Compress(E1))
			if err != nil {
				return "refused: " + err.Error()
			}
			return enc("public key", s.Pub, s.PubBytes(p), P1) + enc("signature", s.Sig, s.SigBytes(g), E1)
		}},
		{"deserialize damaged", func() string {
			p, err := s.PubFrom(pubBad)
			r := differ("accepted", err == nil, bok)
			if err == nil && bok {
				r += enc("public key", s.Pub, s.PubBytes(p), bp)
			}
			return r
		}},
		{"sums", func() string {
			a := s.SigBlank()
			s.SigAdd(a, g1)
			s.SigAdd(a, g23)
			return enc("sum of keys", s.Pub, s.PubBytes(s.PubSum(ps)), P12) +
				enc("sum of signatures", s.Sig, s.SigBytes(a), s.Sig.Add(E1, E23)) +
				enc("sum of signatures", s.Sig, s.SigBytes(s.SigSum(gs)), s.Sig.Add(E1, E23))
		}},
		{"copies", func() string {
			p, g := s.PubCopy(p1), s.SigCopy(g1)
			s.PubAdd(p, p2)
			s.SigAdd(g, g1)
			return enc("changed copy", s.Pub, s.PubBytes(p), P12) + enc("changed copy", s.Sig, s.SigBytes(g), s.Sig.Add(E1, E1))
		}},
		{"keys equal", func() string {
			return differ("equal", fmt.Sprint(s.PubEq(p1, p1), s.PubEq(p1, p2)), fmt.Sprint(true, s.Pub.Eq(P1, P2)))
		}},
		{"verify aggregate", func() string {
			return differ("accepted", s.VerifyAgg(g23, ps, msgs), dist)
		}},
		{"verify common", func() string {
			return differ("accepted", fmt.Sprint(s.VerifyOne(g12, ps, m1), s.VerifyOne(gbad, only, m1)), "true false")
		}},
		{"derive key", func() string {
			b := s.KeyBytes(s.DeriveKey(seed))
			return differ("derived key", hx(b[:]), hx(b32(dk)))
		}},
		{"random key", func() string {
			x, e1 := s.RandKey(bytes.NewReader(rs))
			y, e2 := s.RandKey(bytes.NewReader(rs))
			if e1 != nil || e2 != nil {
				return fmt.Sprint("no key: ", e1, e2)
			}
			a, b := s.KeyBytes(x), s.KeyBytes(y)
			return differ("second key", hx(a[:]), hx(b[:]))
		}},
		{"taken points", func() string {
			return differ("points", fmt.Sprint(s.SigPoint(g1), s.PubPoint(p1)), fmt.Sprint(E1, P1))
		}},
	}
	if s.Domains {
		d := lib.DrawDomain(c)
		a, b := lib.PoolMsg32(c), lib.PoolMsg32(c)
		E := s.Sig.Add(s.Sig.Mul(s.Hash(lib.Msg{M: a, Domain: &d}), k1), s.Sig.Mul(s.Hash(lib.Msg{M: b, Domain: &d}), k2))
		g := s.SigOf(E)
		if !bytes.Equal(a, b) {
			ms := [][32]byte{[32]byte(a), [32]byte(b)}
			l = append(l, task{"verify aggregate in a domain", func() string {
				return differ("accepted", s.VerifyAggD(g, ps, ms, d), true)
			}})
		}
	}
	for i := range l {
		l[i].name = s.Name + " " + l[i].name
	}
	return l
}

// together runs the tasks in several goroutines at once, each in its own
// order, and returns what went wrong.
// In step, all begin a call together; the race detector remembers long enough
// then.
func together(tasks []task, order [][]int, procs int, step bool) string {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	n := 1
	if step {
		n = len(order[0])
	}
	start := make([]chan struct{}, n)
	done := make([]sync.WaitGroup, n)
	for i := range start {
		start[i] = make(chan struct{})
		done[i].Add(len(order))
	}
	bad := make([]string, len(order))
	var wg sync.WaitGroup
	for g := range order {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := ""
			call := func(i int) {
				defer func() {
					if e := recover(); e != nil {
						bad[g] += fmt.Sprintf("goroutine %d, %s: panic: %v\n%.3000s", g, name, e, debug.Stack())
					}
				}()
				name = tasks[i].name
				if s := tasks[i].run(); s != "" {
					bad[g] += fmt.Sprintf("goroutine %d, %s: %s; ", g, name, s)
				}
			}
			debug.SetPanicOnFault(true)
			for j, i := range order[g] {
				if j < n {
					<-start[j]
				}
				call(i)
				if step {
					done[j].Done()
				}
			}
		}()
	}
	for j := range start {
		close(start[j])
		if step {
			done[j].Wait()
		}
	}
	wg.Wait()
	return strings.Join(bad, "")
}

// TestC25 checks that calls on shared values may be made concurrently.
func TestC25(t *testing.T) {
	p := vt.Prop(t, "C25")
	lib.Reuse = false
	defer func() { lib.Reuse = true }()
	run := func(c *vt.Case, tasks []task, limit int) {
		n := c.Int("goroutines", 2, 8)
		procs := c.Int("procs", 2, 8)
		var use []task
		for i := c.Int("tasks", 1, limit); i > 0; i-- {
			use = append(use, tasks[c.Pick(len(tasks))])
		}
		order := make([][]int, n)
		rot, step := c.Bool("rotated"), c.Bool("in step")
		for g := range order {
			o := make([]int, len(use))
			for i := range o {
				o[i] = i
				if rot {
					o[i] = (i + g) % len(use)
				}
			}
			order[g] = o
		}
		var names []string
		for _, x := range use {
			names = append(names, x.name)
		}
		c.Log("calls", strings.Join(names, ", "))
		c.Count(n > 1, fmt.Sprint(c.Lines()))
		_, before := vt.RaceLog()
		bad := together(use, order, procs, step)
		text, after := vt.RaceLog()
		want(c, after == before, "data race during concurrent calls:\n%.4000s", text)
		want(c, bad == "", "during concurrent calls: %.4000s", bad)
		constants(c, "afterwards")
	}
	kinds := []struct {
		name  string
		n     int
		limit int
		f     func(c *vt.Case) []task
	}{
		// The first case of a process finds everything cold, so the parts come in
		// different orders in different shards.
		{"g1pubs", 30, 6, func(c *vt.Case) []task { return schemeTasks(c, lib.Schemes[0]) }},
		{"g2pubs", 40, 6, func(c *vt.Case) []task { return schemeTasks(c, lib.Schemes[1]) }},
		{"hashing", 60, 5, hashTasks},
		{"pairing", 50, 4, pairingTasks},
		{"G1", 160, 12, func(c *vt.Case) []task { return groupTasks(c, lib.G1) }},
		{"G2", 160, 12, func(c *vt.Case) []task { return groupTasks(c, lib.G2) }},
		{"fields", 240, 12, fieldTasks},
		{"everything", 40, 6, func(c *vt.Case) []task {
			l := append(schemeTasks(c, lib.Schemes[c.Pick(2)]), groupTasks(c, lib.G1)...)
			l = append(l, groupTasks(c, lib.G2)...)
			l = append(l, fieldTasks(c)...)
			l = append(l, pairingTasks(c)...)
			return append(l, hashTasks(c)...)
		}},
	}
	for i := range kinds {
		k := kinds[(i+vt.Shard())%len(kinds)]
		p.Check(k.name, k.n, func(c *vt.Case) { run(c, k.f(c), k.limit) })
	}
}
