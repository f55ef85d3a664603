package props

import (
	"bytes"
	"fmt"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// pair draws two points, often related.
func pair[E, A, P any](c *vt.Case, g *lib.Grp[E, A, P]) (p, q model.Pt[E]) {
	p = g.AnyPt(c, "p")
	q, how := g.Related(c, p)
	if how == "" {
		q = g.AnyPt(c, "q")
	} else {
		c.Log("q", how)
	}
	return
}

func groupLaw[E, A, P any](p *vt.P, g *lib.Grp[E, A, P], n int) {
	cv := g.C
	law := func(c *vt.Case, a, b model.Pt[E], A, B P) {
		BA, AA := g.Aff(b), g.Aff(a)
		sum := cv.Add(a, b)
		g.WantP(c, "p + q", g.Add(A, B), sum)
		g.WantP(c, "q + p", g.Add(B, A), sum)
		g.WantP(c, "p + affine q", g.AddAff(A, BA), sum)
		g.WantP(c, "p + p", g.Add(A, A), cv.Add(a, a))
		g.WantP(c, "p + affine p", g.AddAff(A, AA), cv.Add(a, a))
		g.WantP(c, "2p", g.Double(A), cv.Add(a, a))
		na := g.CopyA(AA)
		g.NegA(na)
		g.WantA(c, "-p", na, cv.Neg(a))
		g.WantP(c, "p + affine -p", g.AddAff(A, na), cv.O())
		g.WantP(c, "p - p", g.Add(A, g.ToProj(na)), cv.O())
		if g.NegP != nil {
			np := g.CopyP(A)
			g.NegP(np)
			g.WantP(c, "-p, projective", np, cv.Neg(a))
			g.WantP(c, "p - p, projective", g.Add(A, np), cv.O())
			g.WantP(c, "q - p", g.Add(B, np), cv.Add(b, cv.Neg(a)))
		}
		g.WantP(c, "p + O", g.Add(A, g.ZeroP()), a)
		g.WantP(c, "O + p", g.Add(g.ZeroP(), A), a)
		g.WantP(c, "p + affine O", g.AddAff(A, g.ZeroA()), a)
		g.WantP(c, "O + affine p", g.AddAff(g.ZeroP(), AA), a)
		same := cv.Eq(a, b)
		want(c, g.Eq(A, B) == same && g.Eq(B, A) == same, "%s: p equals q: %v, should be %v", g.Name, !same, same)
		want(c, g.EqA(AA, BA) == same && g.EqA(BA, AA) == same, "%s: affine p equals q: %v, should be %v", g.Name, !same, same)
		want(c, g.IsZeroP(A) == a.Inf && g.IsZeroA(AA) == a.Inf, "%s: IsZero", g.Name)
		// conversions and copies
		g.WantA(c, "p to affine", g.ToAff(A), a)
		g.WantP(c, "affine p to projective", g.ToProj(AA), a)
		g.WantP(c, "the copy of p", g.CopyP(A), a)
		g.WantA(c, "the copy of affine p", g.CopyA(AA), a)
		want(c, a.Inf || g.StrA(AA) == g.StrP(A), "%s: String differs: %s and %s", g.Name, g.StrA(AA), g.StrP(A))
		// the operands are as before
		g.WantP(c, "p afterwards", A, a)
		g.WantP(c, "q afterwards", B, b)
		g.WantA(c, "affine p afterwards", AA, a)
		g.WantA(c, "affine q afterwards", BA, b)
	}
	p.Check("law", n, func(c *vt.Case) {
		a, b := pair(c, g)
		A, B := g.DrawRep(c, "p", a), g.DrawRep(c, "q", b)
		c.Count(!a.Inf && !b.Inf, a, b)
		law(c, a, b, A, B)
		if c.Pick(4) == 0 {
			n := neighbourPt(c, "next p", g, a)
			law(c, n, b, g.DrawRep(c, "p", n), B)
		}
	})
	o := g.Pool
	pts := append(append(append([]model.Pt[E]{cv.O()}, o.Sub[:8]...), o.Tors...), o.Special[:12]...)
	p.Each("all pairs", len(pts)*len(pts), func(c *vt.Case, i int) {
		a, b := pts[i%len(pts)], pts[i/len(pts)]
		c.Log("p", a)
		c.Log("q", b)
		c.Count(!a.Inf && !b.Inf, i)
		z := g.Small(int64(2 + i%3))
		law(c, a, b, g.Rep(a, z), g.Rep(b, g.Small(1)))
		law(c, a, b, g.Rep(a, z), g.Rep(b, z))
	})
	p.Check("associative", n/4, func(c *vt.Case) {
		a, b := pair(c, g)
		d, how := g.Related(c, b)
		if how == "" {
			d = g.AnyPt(c, "r")
		} else {
			c.Log("r", how)
		}
		c.Count(!a.Inf && !b.Inf && !d.Inf, a, b, d)
		A, B, D := g.DrawRep(c, "p", a), g.DrawRep(c, "q", b), g.DrawRep(c, "r", d)
		l, r := g.Add(g.Add(A, B), D), g.Add(A, g.Add(B, D))
		want(c, g.Eq(l, r), "%s: (p+q)+r differs from p+(q+r)", g.Name)
		g.WantP(c, "(p+q)+r", l, cv.Add(cv.Add(a, b), d))
	})
	// Sequences of operations on a few registers, in whatever coordinates the
	// library leaves behind.
	p.Check("history", n/8, func(c *vt.Case) {
		var m [3]model.Pt[E]
		var x [3]P
		for i := range m {
			m[i] = g.AnyPt(c, "r")
			x[i] = g.DrawRep(c, "r", m[i])
		}
		k := c.Int("steps", 1, 15)
		type step struct{ Op, I, J, K int }
		var ops []step
		for i := 0; i < k; i++ {
			ops = append(ops, step{c.Pick(6), c.Pick(3), c.Pick(3), c.Pick(3)})
		}
		c.Log("ops", ops)
		c.Count(k > 2, fmt.Sprint(m, ops))
		for i, s := range ops {
			switch s.Op {
			case 0, 1:
				x[s.I], m[s.I] = g.Add(x[s.J], x[s.K]), cv.Add(m[s.J], m[s.K])
			case 2:
				x[s.I], m[s.I] = g.AddAff(x[s.J], g.ToAff(x[s.K])), cv.Add(m[s.J], m[s.K])
			case 3:
				x[s.I], m[s.I] = g.Double(x[s.J]), cv.Add(m[s.J], m[s.J])
			case 4:
				if g.NegP != nil {
					x[s.I], m[s.I] = g.CopyP(x[s.J]), cv.Neg(m[s.J])
					g.NegP(x[s.I])
				} else {
					a := g.ToAff(x[s.J])
					g.NegA(a)
					x[s.I], m[s.I] = g.ToProj(a), cv.Neg(m[s.J])
				}
			case 5:
				x[s.I], m[s.I] = g.CopyP(x[s.J]), m[s.J]
			}
			for j := range m {
				g.WantP(c, fmt.Sprintf("r%d after step %d", j, i), x[j], m[j])
			}
		}
	})
	// Equality must look at both coordinates.
	p.Check("different", n/2, func(c *vt.Case) {
		a := g.AnyPt(c, "p")
		var b model.Pt[E]
		switch c.Int("how", 0, 4) {
		case 0:
			b = cv.Neg(a)
		case 1:
			b = g.Endo(a)
		case 2:
			b = cv.Neg(g.Endo(a))
		case 3:
			b = cv.O()
		case 4:
			b = g.AnyPt(c, "q")
		}
		same := cv.Eq(a, b)
		c.Count(!same, a, b)
		A, B := g.DrawRep(c, "p", a), g.DrawRep(c, "q", b)
		want(c, g.Eq(A, B) == same && g.Eq(B, A) == same, "%s: %v equals %v: should be %v", g.Name, a, b, same)
		AA, BA := g.Aff(a), g.Aff(b)
		want(c, g.EqA(AA, BA) == same && g.EqA(BA, AA) == same, "%s: affine %v equals %v: should be %v", g.Name, a, b, same)
	})
	p.Each("constants", 4, func(c *vt.Case, i int) {
		c.Count(true, i)
		switch i {
		case 0:
			g.WantA(c, "zero", g.ZeroA(), cv.O())
		case 1:
			g.WantP(c, "zero", g.ZeroP(), cv.O())
		case 2:
			g.WantA(c, "the generator", g.OneA(), g.Gen)
		case 3:
			g.WantP(c, "the generator", g.OneP(), g.Gen)
		}
	})
}

// TestC15 checks the group law on the first curve, TestC16 on the second.
func TestC15(t *testing.T) { groupLaw(vt.Prop(t, "C15"), lib.G1, 16000) }
func TestC16(t *testing.T) { groupLaw(vt.Prop(t, "C16"), lib.G2, 8000) }

func scalars[E, A, P any](p *vt.P, g *lib.Grp[E, A, P], n int) {
	cv := g.C
	r384 := new(I).Lsh(one, 384)
	r256 := new(I).Lsh(one, 256)
	mul := func(c *vt.Case, a model.Pt[E], k *I, rep P) {
		A := g.Aff(a)
		w := cv.Mul(a, k)
		if k.Cmp(r384) < 0 {
			g.WantP(c, "k p, affine", g.AMul(A, lib.QRepr(k)), w)
			g.WantP(c, "k p", g.Mul(rep, lib.QRepr(k)), w)
		}
		if k.Cmp(r256) < 0 {
			K := lib.RRepr(k)
			g.WantP(c, "k p, affine, short k", g.AMulFR(A, K), w)
			g.WantP(c, "k p, short k", g.MulFR(rep, K), w)
			wantNum(c, "k afterwards", lib.FromRR(K), k)
		}
		if g.AMulBig != nil {
			K := new(I).Set(k)
			g.WantP(c, "k p, affine, big k", g.AMulBig(A, *K), w)
			wantNum(c, "k afterwards", K, k)
		}
		g.WantA(c, "p afterwards", A, a)
		g.WantP(c, "p afterwards", rep, a)
	}
	p.Check(g.Name, n, func(c *vt.Case) {
		a := g.AnyPt(c, "p")
		var k *I
		switch c.Int("kind", 0, 4) {
		case 0:
			k = c.UInt("k", 6, R)
		case 1, 2:
			k = c.UInt("k", 4, R)
		case 3: // near a multiple of the order
			k = new(I).Mul(R, num(int64(c.Int("m", 1, 4))))
			k.Add(k, num(int64(c.Int("d", -3, 3))))
		case 4: // small, or a run of ones
			k = num(int64(c.Int("k", 0, 300)))
			if c.Bool("run") {
				k = new(I).Lsh(one, uint(c.Int("hi", 1, 256)))
				k.Sub(k, new(I).Lsh(one, uint(c.Pick(k.BitLen()))))
			}
		}
		c.Log("k", hexn(k))
		c.Count(!a.Inf && !isTriv(k), a, k)
		mul(c, a, k, g.DrawRep(c, "p", a))
		switch c.Pick(4) { // neighbours right after
		case 0:
			a = neighbourPt(c, "next p", g, a)
			mul(c, a, k, g.DrawRep(c, "p", a))
		case 1:
			k = nearNum(1+c.Pick(48), k, r384, R, 6)
			c.Log("next k", hexn(k))
			mul(c, a, k, g.DrawRep(c, "p", a))
		}
	})
	if g.AMulBig != nil {
		p.Check(g.Name+" long", n/8, func(c *vt.Case) {
			a := g.AnyPt(c, "p")
			k := new(I).SetBytes(c.Uniform("k", c.Int("len", 30, 100)))
			c.Count(!a.Inf && !isTriv(k), a, k)
			mul(c, a, k, g.ToProj(g.Aff(a)))
		})
	}
	p.Check(g.Name+" cofactor", n/4, func(c *vt.Case) {
		a := g.AnyPt(c, "p")
		c.Count(!a.Inf, a)
		q := g.Cofactor(g.Aff(a))
		g.WantP(c, "h p", q, cv.Mul(a, g.H))
	})
	p.Check(g.Name+" laws", n/4, func(c *vt.Case) {
		// (k + l) p = k p + l p and k (l p) = (k l) p, for p in the subgroup
		a, _ := g.SubPt(c, "p")
		k, l := c.Fr("k"), c.Fr("l")
		c.Count(!a.Inf && !isTriv(k) && !isTriv(l), a, k, l)
		A := g.DrawRep(c, "p", a)
		m := func(p P, k *I) P { return g.MulFR(p, lib.RRepr(model.Fr.Of(k))) }
		want(c, g.Eq(m(A, new(I).Add(k, l)), g.Add(m(A, k), m(A, l))), "%s: (k+l)p differs from kp + lp", g.Name)
		want(c, g.Eq(m(m(A, l), k), m(A, new(I).Mul(k, l))), "%s: k(lp) differs from (kl)p", g.Name)
	})
	// every small scalar and every power of two
	p.Each(g.Name+" all", 64+256, func(c *vt.Case, i int) {
		k := num(int64(i))
		if i >= 64 {
			k = new(I).Lsh(one, uint(i-64))
			k.Sub(k, num(int64(i%2)))
		}
		o := g.Pool
		a := o.Sub[i%len(o.Sub)]
		if i%4 == 0 {
			a = o.Tors[i%len(o.Tors)]
		}
		c.Log("p", a)
		c.Log("k", hexn(k))
		c.Count(i > 1, i)
		mul(c, a, k, g.Rep(a, g.Small(3)))
		a = g.Near(1+i%5, a)
		c.Log("next p", a)
		mul(c, a, k, g.Rep(a, g.Small(3)))
	})
}

// TestC17 checks scalar multiplication.
func TestC17(t *testing.T) {
	p := vt.Prop(t, "C17")
	scalars(p, lib.G1, 1600)
	scalars(p, lib.G2, 800)
}

func membership[E, A, P any](p *vt.P, g *lib.Grp[E, A, P], n int) {
	cv := g.C
	f := cv.F
	on := func(c *vt.Case, a model.Pt[E]) {
		A := g.Aff(a)
		m := cv.On(a)
		want(c, g.On(A) == m, "%s: %v is on the curve: %v", g.Name, a, !m)
		if m {
			c.Label("on curve")
		}
	}
	sub := func(c *vt.Case, a model.Pt[E]) {
		m := cv.InSub(a)
		A := g.Aff(a)
		want(c, g.InSub(A) == m, "%s: %v is in the subgroup: %v", g.Name, a, !m)
		// the same through the checked decoder
		q, err := g.Decompress(g.MCompress(a))
		want(c, (err == nil) == m, "%s: the checked decoder accepts %v: %v", g.Name, a, err == nil)
		if err == nil {
			g.WantA(c, "decoded", q, a)
		}
		g.WantA(c, "p afterwards", A, a)
	}
	p.Check(g.Name+" on curve", 10*n, func(c *vt.Case) {
		a := g.AnyPt(c, "p")
		how := c.Int("change", 0, 7)
		if !a.Inf {
			d := g.Elem(c, "d")
			switch how {
			case 0:
				a.X = f.Add(a.X, d)
			case 1:
				a.Y = f.Add(a.Y, d)
			case 2: // a point on another curve y^2 = x^3 + b'
				z2 := f.Mul(d, d)
				a.X, a.Y = f.Mul(a.X, z2), f.Mul(a.Y, f.Mul(z2, d))
			case 3:
				a.X, a.Y = a.Y, a.X
			case 4:
				a.X = f.Zero()
			case 5:
				a.Y = f.Zero()
			case 6:
				a.X, a.Y = d, g.Elem(c, "e")
			}
		}
		c.Count(!a.Inf, a)
		on(c, a)
	})
	p.Check(g.Name+" subgroup", n, func(c *vt.Case) {
		a := g.AnyPt(c, "p")
		if c.Bool("-") {
			a = cv.Neg(a)
		}
		c.Count(!a.Inf, a)
		sub(c, a)
		if c.Pick(3) == 0 {
			a = neighbourPt(c, "next p", g, a)
			if c.Bool("moved") {
				a = cv.Add(a, g.Pool.Tors[c.Pick(len(g.Pool.Tors))])
				c.Log("next p", a)
			}
			sub(c, a)
		}
	})
	o := g.Pool
	var pts []model.Pt[E]
	pts = append(append(append(append(pts, cv.O()), o.Tors...), o.Special...), o.Sub...)
	for i, t := range o.Tors { // outside by the smallest margin
		pts = append(pts, cv.Add(o.Sub[i], t), cv.Add(o.Curve[i], t))
	}
	p.Each(g.Name+" special", len(pts), func(c *vt.Case, i int) {
		c.Log("p", pts[i])
		c.Count(i > 0, i)
		on(c, pts[i])
		sub(c, pts[i])
	})
	// multiples of torsion points: every point of the smallest orders
	p.Each(g.Name+" torsion", 40, func(c *vt.Case, i int) {
		t := o.Tors[i%4]
		a := cv.Mul(t, num(int64(1+i/4)))
		c.Log("p", a)
		c.Count(!a.Inf, i)
		sub(c, a)
		sub(c, cv.Add(a, g.Gen))
	})
}

// TestC07 checks the curve and subgroup tests.
func TestC07(t *testing.T) {
	p := vt.Prop(t, "C07")
	membership(p, lib.G1, 2400)
	membership(p, lib.G2, 1200)
}

func codec[E, A, P any](p *vt.P, g *lib.Grp[E, A, P], n int) {
	cv := g.C
	size := g.Size
	encode := func(c *vt.Case, a model.Pt[E]) {
		A := g.Aff(a)
		b := g.Compress(A)
		wantBytes(c, g.Name+": encoded", b, g.MCompress(a))
		g.WantA(c, "p afterwards", A, a)
		q, err := g.DecompressU(b)
		want(c, err == nil, "%s: its own encoding %x is refused: %v", g.Name, b, err)
		g.WantA(c, "encoded and decoded", q, a)
		q, err = g.Decompress(b)
		in := cv.InSub(a)
		want(c, (err == nil) == in, "%s: checked decoding of %v accepts: %v, in the subgroup: %v", g.Name, a, err == nil, in)
		if in {
			g.WantA(c, "encoded, decoded and checked", q, a)
		}
	}
	decode := func(c *vt.Case, b []byte) {
		in := bytes.Clone(b)
		m, ok := g.MDecompress(b)
		a, err := g.DecompressU(b)
		want(c, (err == nil) == ok, "%s: %x accepted: %v, should be %v (%v)", g.Name, b, err == nil, ok, err)
		a2, err2 := g.Decompress(b)
		if ok {
			g.WantA(c, "decoded", a, m)
			wantBytes(c, g.Name+": decoded and encoded again", g.Compress(a), b)
			sub := cv.InSub(m)
			want(c, (err2 == nil) == sub, "%s: %x accepted with checks: %v, should be %v (%v)", g.Name, b, err2 == nil, sub, err2)
			if sub {
				g.WantA(c, "decoded with checks", a2, m)
				c.Label("in subgroup")
			} else {
				c.Label("outside subgroup")
			}
		} else {
			want(c, err2 != nil, "%s: %x accepted with checks only", g.Name, b)
			c.Label("malformed")
		}
		wantBytes(c, "the bytes afterwards", b, in)
	}
	p.Check(g.Name+" encode", n, func(c *vt.Case) {
		a := g.AnyPt(c, "p")
		if c.Bool("-") {
			a = cv.Neg(a)
		}
		c.Count(!a.Inf, a)
		encode(c, a)
		if c.Pick(3) == 0 {
			encode(c, neighbourPt(c, "next p", g, a))
		}
	})
	o := g.Pool
	pts := append(append(append([]model.Pt[E]{cv.O()}, o.Special...), o.Tors...), o.Sub...)
	p.Each(g.Name+" encode special", len(pts), func(c *vt.Case, i int) {
		c.Log("p", pts[i])
		c.Count(i > 0, i)
		encode(c, pts[i])
		encode(c, cv.Neg(pts[i]))
	})
	p.Check(g.Name+" decode", 3*n, func(c *vt.Case) {
		a := g.AnyPt(c, "p")
		b := g.Damage(c, a)
		c.Count(!bytes.Equal(b, g.MCompress(a)), b)
		decode(c, b)
		if c.Pick(3) == 0 {
			b = bytes.Clone(b)
			if c.Bool("flag") {
				b[0] ^= 1 << c.Int("flag", 5, 7)
			} else {
				b[c.Pick(len(b))] ^= 1 << c.Pick(8)
			}
			c.Log("next bytes", fmt.Sprintf("%x", b))
			decode(c, b)
		}
	})
	// Every combination of flags on every special point, and every low bit
	// pattern of the first byte of infinity.
	p.Each(g.Name+" flags", 8*24+256, func(c *vt.Case, i int) {
		var b []byte
		if i < 8*24 {
			b = g.MCompress(pts[i/8])
			b[0] = b[0]&0x1f | byte(i%8)<<5
		} else {
			b = make([]byte, size)
			b[0] = byte(i - 8*24)
		}
		c.Log("bytes", fmt.Sprintf("%x", b))
		c.Count(true, i)
		decode(c, b)
	})
	// One bit set in an encoding of infinity, or the unreduced forms of small x.
	p.Each(g.Name+" edge", 8*size+72, func(c *vt.Case, i int) {
		b := make([]byte, size)
		if i < 8*size {
			b[0] = 0xc0
			b[i/8] ^= 0x80 >> (i % 8)
		} else {
			j := i - 8*size
			x := new(I).Add(Q, num(int64(j/4%9)-4))
			off := j % 2 * (size - 48)
			x.FillBytes(b[off : off+48])
			if j >= 36 { // both coordinates
				x.FillBytes(b[size-48:])
			}
			b[0] |= 0x80 | byte(j>>1&1)<<5
		}
		c.Log("bytes", fmt.Sprintf("%x", b))
		c.Count(true, i)
		decode(c, b)
	})
}

// TestC06 checks the compressed encoding.
func TestC06(t *testing.T) {
	p := vt.Prop(t, "C06")
	codec(p, lib.G1, 1600)
	codec(p, lib.G2, 800)
}

func rawCodec[E, A, P any](p *vt.P, g *lib.Grp[E, A, P], n int) {
	cv := g.C
	p.Check(g.Name, n, func(c *vt.Case) {
		a, b := g.AnyPt(c, "p"), g.AnyPt(c, "previous")
		if a.Inf { // has no such encoding
			a = g.Gen
		}
		if b.Inf {
			b = g.Gen
		}
		if c.Bool("arbitrary") { // the encoding knows nothing of the curve
			a.X = g.Elem(c, "x")
			a.Y = g.Elem(c, "y")
		}
		c.Count(!cv.Eq(a, b), a, b)
		A, B := g.Aff(a), g.Aff(b)
		raw := g.RawBytes(A)
		wantBytes(c, g.Name+": encoded", raw, g.MRaw(a))
		keep := bytes.Clone(raw)
		want(c, g.SetRaw(B, raw) == nil, "%s: refused", g.Name)
		want(c, g.EqA(A, B) && g.EqA(B, A), "%s: decoded to another point", g.Name)
		wantBytes(c, g.Name+": decoded and encoded again", g.RawBytes(B), keep)
		wantBytes(c, g.Name+": the bytes afterwards", raw, keep)
		want(c, g.On(B) == cv.On(a), "%s: on the curve: %v", g.Name, g.On(B))
		if cv.On(a) { // usable like the original
			D := g.Add(g.ToProj(B), g.ToProj(A))
			g.WantP(c, "decoded + p", D, cv.Add(a, a))
			wantBytes(c, g.Name+": decoded and compressed", g.Compress(B), g.MCompress(a))
		}
		wantBytes(c, g.Name+": p afterwards", g.RawBytes(A), keep)
	})
	o := g.Pool
	pts := append(append(append([]model.Pt[E]{}, o.Special...), o.Tors...), o.Sub...)
	p.Each(g.Name+" special", len(pts), func(c *vt.Case, i int) {
		a := pts[i]
		c.Log("p", a)
		c.Count(true, i)
		wantBytes(c, g.Name+": encoded", g.RawBytes(g.Aff(a)), g.MRaw(a))
		B := g.CopyA(g.OneA())
		want(c, g.SetRaw(B, g.MRaw(a)) == nil, "%s: refused", g.Name)
		g.WantA(c, "decoded", B, a)
		g.WantA(c, "the generator afterwards", g.OneA(), g.Gen)
	})
}

// TestC09 checks the uncompressed encoding.
func TestC09(t *testing.T) {
	p := vt.Prop(t, "C09")
	rawCodec(p, lib.G1, 10000)
	rawCodec(p, lib.G2, 6000)
}

var _ = bls.G1AffineOne
