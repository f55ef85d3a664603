package props

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// val is a library value together with what it is worth.
type val[L, M any] struct {
	v L
	m M
	// shared values belong to the library (exported constants); they are used as
	// arguments and never changed.
	shared bool
}

// world is a pool of library values that a history of calls works on.
type world struct {
	c    *vt.Case
	fr   []val[*bls.FR, *I]
	rr   []val[*bls.FRRepr, *I]
	f6   []val[*bls.FQ6, [3]model.F2]
	f12  []val[*bls.FQ12, model.F12]
	a1   []val[*bls.G1Affine, model.P1]
	p1   []val[*bls.G1Projective, model.P1]
	a2   []val[*bls.G2Affine, model.P2]
	p2   []val[*bls.G2Projective, model.P2]
	prep []val[*bls.G2Prepared, *I] // of a multiple of the generator
	big  []val[*big.Int, *I]
	buf  []byte // messages are written here
	sch  [2]struct {
		sk []val[any, *I]
		pk []val[any, lib.Point]
		sg []val[any, lib.Point]
	}
	hist []string

	// A narrow world makes few kinds of calls on few values, so that what one
	// call leaves behind is met by another.
	narrow bool
	max    int
	op     string
	menu   map[string][]int
	msgs   [][]byte
	doms   [][8]byte
	nums   []*I
}

// kind draws which call an operation makes, of n.
func (w *world) kind(n int) int {
	if !w.narrow {
		return w.c.Pick(n)
	}
	k := fmt.Sprint(w.op, n)
	if w.menu[k] == nil {
		m := 1 + w.c.Pick(4)
		if n == 2 {
			m = 1
		}
		for i := 0; i < m; i++ {
			w.menu[k] = append(w.menu[k], w.c.Pick(n))
		}
	}
	return w.menu[k][w.c.Pick(len(w.menu[k]))]
}

func (w *world) domain() [8]byte {
	if w.narrow {
		return w.doms[w.c.Pick(len(w.doms))]
	}
	return lib.DrawDomain(w.c)
}

func put[L, M any](w *world, l *[]val[L, M], v L, m M) {
	x := val[L, M]{v: v, m: m}
	if len(*l) < w.max {
		*l = append(*l, x)
		return
	}
	i := w.c.Pick(len(*l))
	if (*l)[i].shared {
		i = len(*l) - 1
	}
	(*l)[i] = x
}

func any1[L, M any](w *world, l []val[L, M]) *val[L, M] { return &l[w.c.Pick(len(l))] }

// own draws a value that may be changed, or copies one.
func own[L, M any](w *world, l *[]val[L, M], copyOf func(L) L) *val[L, M] {
	i := w.c.Pick(len(*l))
	if (*l)[i].shared {
		x := (*l)[i]
		put(w, l, copyOf(x.v), x.m)
		for j := range *l {
			if !(*l)[j].shared && w.c.Pick(2) == 0 || j == len(*l)-1 {
				i = j
			}
		}
		if (*l)[i].shared {
			panic("harness: shared")
		}
	}
	return &(*l)[i]
}

func newWorld(c *vt.Case, narrow bool) *world {
	w := &world{c: c, max: 10, narrow: narrow}
	if narrow {
		w.max = 6
		w.menu = map[string][]int{}
		m := lib.PoolMsg32(c)
		w.msgs = [][]byte{m}
		for i := 0; i < 2; i++ {
			m, _ := c.RelatedMsg("message", m)
			w.msgs = append(w.msgs, m)
		}
		d := lib.DrawDomain(c)
		w.doms = append(w.doms, d)
		d[c.Pick(8)] ^= byte(1 << c.Pick(8))
		w.doms = append(w.doms, d)
		w.nums = []*I{num(int64(c.Pick(5))), c.UInt("multiplier", 6, R)}
	}
	w.f6 = append(w.f6, val[*bls.FQ6, [3]model.F2]{bls.FQ6Zero, zero6(), true}, val[*bls.FQ6, [3]model.F2]{bls.FQ6One, unsix(model.One12()), true})
	w.f12 = append(w.f12, val[*bls.FQ12, model.F12]{bls.FQ12Zero, model.Zero12(), true}, val[*bls.FQ12, model.F12]{bls.FQ12One, model.One12(), true})
	w.a1 = append(w.a1, val[*bls.G1Affine, model.P1]{bls.G1AffineZero, model.G1.O(), true}, val[*bls.G1Affine, model.P1]{bls.G1AffineOne, model.Gen1, true})
	w.p1 = append(w.p1, val[*bls.G1Projective, model.P1]{bls.G1ProjectiveZero, model.G1.O(), true}, val[*bls.G1Projective, model.P1]{bls.G1ProjectiveOne, model.Gen1, true})
	w.a2 = append(w.a2, val[*bls.G2Affine, model.P2]{bls.G2AffineZero, model.G2.O(), true}, val[*bls.G2Affine, model.P2]{bls.G2AffineOne, model.Gen2, true})
	w.p2 = append(w.p2, val[*bls.G2Projective, model.P2]{bls.G2ProjectiveZero, model.G2.O(), true}, val[*bls.G2Projective, model.P2]{bls.G2ProjectiveOne, model.Gen2, true})
	for i := 0; i < 2; i++ {
		k := c.Fr("scalar")
		// the second values are often neighbours of the first
		near := i * c.Pick(2) * (1 + c.Pick(48))
		if near > 0 {
			k = nearNum(near, w.fr[0].m, R, R, 4)
		}
		w.fr = append(w.fr, val[*bls.FR, *I]{lib.FR(k), k, false})
		n := c.UInt("number", 4, R)
		if near > 0 {
			n = nearNum(near, w.rr[0].m, nil, R, 4)
		}
		w.rr = append(w.rr, val[*bls.FRRepr, *I]{lib.RRepr(n), n, false})
		e := c.Fq6("sextic")
		if near > 0 {
			e = w.f6[2].m
			e[near%3] = nearF2(near, e[near%3])
		}
		w.f6 = append(w.f6, val[*bls.FQ6, [3]model.F2]{lib.FQ6(e), e, false})
		f := c.F12("dodecic")
		if near > 0 {
			f = nearF12(near, w.f12[2].m)
		}
		w.f12 = append(w.f12, val[*bls.FQ12, model.F12]{lib.FQ12(f), f, false})
		p, _ := lib.G1.SubPt(c, "P")
		if near > 0 {
			p = lib.G1.Near(near, w.a1[2].m)
		}
		w.a1 = append(w.a1, val[*bls.G1Affine, model.P1]{lib.A1(p), p, false})
		w.p1 = append(w.p1, val[*bls.G1Projective, model.P1]{lib.G1.DrawRep(c, "P", p), p, false})
		q, _ := lib.G2.SubPt(c, "Q")
		if near > 0 {
			q = lib.G2.Near(near, w.a2[2].m)
		}
		w.a2 = append(w.a2, val[*bls.G2Affine, model.P2]{lib.A2(q), q, false})
		w.p2 = append(w.p2, val[*bls.G2Projective, model.P2]{lib.G2.DrawRep(c, "Q", q), q, false})
		b := c.UInt("big", 9, Q)
		w.big = append(w.big, val[*big.Int, *I]{new(I).Set(b), b, false})
	}
	// the order of r as an argument is a constant of the library
	w.rr = append(w.rr, val[*bls.FRRepr, *I]{bls.RFieldModulus, R, true})
	w.buf = make([]byte, 200)
	for i, s := range lib.Schemes {
		z := &w.sch[i]
		for j := 0; j < 2; j++ {
			k, pub := s.PoolKey(c)
			z.sk = append(z.sk, val[any, *I]{s.Key(k), k, false})
			z.pk = append(z.pk, val[any, lib.Point]{s.PubAt(pub), pub, false})
			e, _ := s.Sig.Sub(c, "signature")
			z.sg = append(z.sg, val[any, lib.Point]{s.SigOf(e), e, false})
		}
		z.sg = append(z.sg, val[any, lib.Point]{s.SigBlank(), s.Sig.O, false})
		z.pk = append(z.pk, val[any, lib.Point]{s.PubBlank(), s.Pub.O, false})
	}
	return w
}

func (w *world) log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	w.hist = append(w.hist, s)
	w.c.Log(fmt.Sprintf("call %d", len(w.hist)), s)
}

// check compares all values with what they are worth. full also compares what
// costs more.
func (w *world) check(when string) {
	c := w.c
	for i, x := range w.fr {
		lib.WantFR(c, fmt.Sprintf("%s: scalar %d", when, i), x.v, x.m)
	}
	for i, x := range w.rr {
		wantNum(c, fmt.Sprintf("%s: number %d", when, i), lib.FromRR(x.v), x.m)
	}
	for i, x := range w.f6 {
		lib.WantFQ6(c, fmt.Sprintf("%s: sextic %d", when, i), x.v, x.m)
	}
	for i, x := range w.f12 {
		lib.WantFQ12(c, fmt.Sprintf("%s: dodecic %d", when, i), x.v, x.m)
	}
	for i, x := range w.a1 {
		lib.G1.WantA(c, fmt.Sprintf("%s: affine %d", when, i), x.v, x.m)
	}
	for i, x := range w.p1 {
		lib.G1.WantP(c, fmt.Sprintf("%s: projective %d", when, i), x.v, x.m)
	}
	for i, x := range w.a2 {
		lib.G2.WantA(c, fmt.Sprintf("%s: affine %d", when, i), x.v, x.m)
	}
	for i, x := range w.p2 {
		lib.G2.WantP(c, fmt.Sprintf("%s: projective %d", when, i), x.v, x.m)
	}
	for i, x := range w.big {
		wantNum(c, fmt.Sprintf("%s: big number %d", when, i), x.v, x.m)
	}
	for i, s := range lib.Schemes {
		z := &w.sch[i]
		for j, x := range z.sk {
			b := s.KeyBytes(x.v)
			wantBytes(c, fmt.Sprintf("%s: %s secret key %d", when, s.Name, j), b[:], x.m.FillBytes(make([]byte, 32)))
		}
		for j, x := range z.pk {
			wantBytes(c, fmt.Sprintf("%s: %s public key %d", when, s.Name, j), s.PubBytes(x.v), s.Pub.Compress(x.m))
		}
		for j, x := range z.sg {
			wantBytes(c, fmt.Sprintf("%s: %s signature %d", when, s.Name, j), s.SigBytes(x.v), s.Sig.Compress(x.m))
		}
	}
	constants(c, when)
}

// constants checks the exported constants.
func constants(c *vt.Case, when string) {
	lib.WantFQ(c, when+": FQZero", bls.FQZero, num(0))
	lib.WantFQ(c, when+": FQOne", bls.FQOne, num(1))
	wantNum(c, when+": QFieldModulus", lib.FromQR(bls.QFieldModulus), Q)
	wantNum(c, when+": FQR2", lib.FromQR(bls.FQR2), mod(new(I).Lsh(one, 768), Q))
	wantNum(c, when+": RFieldModulus", lib.FromRR(bls.RFieldModulus), R)
	wantNum(c, when+": FRR", lib.FromRR(bls.FRR), mod(new(I).Lsh(one, 256), R))
	wantNum(c, when+": FRR2", lib.FromRR(bls.FRR2), mod(new(I).Lsh(one, 512), R))
	lib.WantFQ2(c, when+": FQ2Zero", bls.FQ2Zero, model.S2(0, 0))
	lib.WantFQ2(c, when+": FQ2One", bls.FQ2One, model.S2(1, 0))
	lib.WantFQ(c, when+": BCoeff", bls.BCoeff, num(4))
	lib.WantFQ2(c, when+": BCoeffFQ2", bls.BCoeffFQ2, model.S2(4, 4))
	lib.WantFQ6(c, when+": FQ6Zero", bls.FQ6Zero, zero6())
	lib.WantFQ6(c, when+": FQ6One", bls.FQ6One, unsix(model.One12()))
	lib.WantFQ12(c, when+": FQ12Zero", bls.FQ12Zero, model.Zero12())
	lib.WantFQ12(c, when+": FQ12One", bls.FQ12One, model.One12())
	lib.G1.WantA(c, when+": G1AffineZero", bls.G1AffineZero, model.G1.O())
	lib.G1.WantA(c, when+": G1AffineOne", bls.G1AffineOne, model.Gen1)
	lib.G1.WantP(c, when+": G1ProjectiveZero", bls.G1ProjectiveZero, model.G1.O())
	lib.G1.WantP(c, when+": G1ProjectiveOne", bls.G1ProjectiveOne, model.Gen1)
	lib.G2.WantA(c, when+": G2AffineZero", bls.G2AffineZero, model.G2.O())
	lib.G2.WantA(c, when+": G2AffineOne", bls.G2AffineOne, model.Gen2)
	lib.G2.WantP(c, when+": G2ProjectiveZero", bls.G2ProjectiveZero, model.G2.O())
	lib.G2.WantP(c, when+": G2ProjectiveOne", bls.G2ProjectiveOne, model.Gen2)
}

// msg writes a message to the buffer and returns it there.
func (w *world) msg(n int) []byte {
	var m []byte
	switch {
	case w.narrow:
		m = w.msgs[w.c.Pick(len(w.msgs))]
		if n > 0 {
			m = append(append([]byte{}, m...), make([]byte, n)...)[:n]
		}
	case n == 32:
		m = lib.PoolMsg32(w.c)
	default:
		m = lib.PoolMsg(w.c)
	}
	if len(m) > len(w.buf) {
		m = m[:len(w.buf)]
	}
	copy(w.buf, m)
	return w.buf[:len(m)]
}

// step makes one call.
func (w *world) step() {
	c := w.c
	op := ops[c.Pick(len(ops))]
	w.op = op.name
	op.f(w)
}

type op struct {
	name string
	f    func(w *world)
}

func cpFR(f *bls.FR) *bls.FR                     { return f.Copy() }
func cpRR(f *bls.FRRepr) *bls.FRRepr             { return f.Copy() }
func cp6(f *bls.FQ6) *bls.FQ6                    { return f.Copy() }
func cp12(f *bls.FQ12) *bls.FQ12                 { return f.Copy() }
func cpA1(f *bls.G1Affine) *bls.G1Affine         { return f.Copy() }
func cpP1(f *bls.G1Projective) *bls.G1Projective { return f.Copy() }
func cpA2(f *bls.G2Affine) *bls.G2Affine         { return f.Copy() }
func cpP2(f *bls.G2Projective) *bls.G2Projective { return f.Copy() }

// qrepr draws a multiplier for points.
func (w *world) qrepr() (bls.FQRepr, *I) {
	var n *I
	switch {
	case w.narrow:
		n = w.nums[w.c.Pick(len(w.nums))]
	case w.c.Pick(4) == 0:
		n = num(int64(w.c.Pick(5)))
	default:
		n = mod(any1(w, w.big).m, new(I).Lsh(one, uint(1+w.c.Pick(384))))
	}
	return lib.QRepr(n), n
}

var ops []op

func init() {
	ops = []op{
		{"fr arith", func(w *world) {
			a := own(w, &w.fr, cpFR)
			b := any1(w, w.fr)
			switch w.kind(7) {
			case 0:
				w.log("%v += %v", a.m, b.m)
				m := model.Fr.Add(a.m, b.m)
				a.v.AddAssign(b.v)
				a.m = m
			case 1:
				w.log("%v -= %v", a.m, b.m)
				m := model.Fr.Sub(a.m, b.m)
				a.v.SubAssign(b.v)
				a.m = m
			case 2:
				w.log("%v *= %v", a.m, b.m)
				m := model.Fr.Mul(a.m, b.m)
				a.v.MulAssign(b.v)
				a.m = m
			case 3:
				w.log("negate %v", a.m)
				a.v.NegAssign()
				a.m = model.Fr.Neg(a.m)
			case 4:
				w.log("square %v", a.m)
				a.v.SquareAssign()
				a.m = model.Fr.Mul(a.m, a.m)
			case 5:
				w.log("double %v", a.m)
				a.v.DoubleAssign()
				a.m = model.Fr.Add(a.m, a.m)
			case 6:
				w.log("assign %v", b.m)
				*a.v = *b.v.Copy()
				a.m = b.m
			}
		}},
		{"fr functions", func(w *world) {
			a := any1(w, w.fr)
			n := any1(w, w.rr)
			switch w.kind(8) {
			case 0:
				w.log("copy %v", a.m)
				put(w, &w.fr, a.v.Copy(), a.m)
			case 1:
				w.log("%v ^ %v", a.m, n.m)
				put(w, &w.fr, a.v.Exp(n.v), model.Fr.Pow(a.m, n.m))
			case 2:
				if a.m.Sign() != 0 {
					w.log("1 / %v", a.m)
					put(w, &w.fr, a.v.Inverse(), model.Fr.Inv(a.m))
				}
			case 3:
				w.log("number of %v", a.m)
				put(w, &w.rr, a.v.ToRepr(), a.m)
			case 4:
				if n.m.Cmp(R) < 0 {
					w.log("scalar of %v", n.m)
					put(w, &w.fr, bls.FRReprToFR(n.v), n.m)
				} else {
					w.log("scalar of %v: not in the field", n.m)
					want(w.c, bls.FRReprToFR(n.v) == nil, "a scalar from %v", n.m)
				}
			case 5:
				w.log("%v * %v by bits", a.m, n.m)
				put(w, &w.fr, a.v.MulBits(n.v), model.Fr.Mul(a.m, n.m))
			case 6:
				w.log("square root of %v", a.m)
				r := a.v.Sqrt()
				_, ok := model.Fr.Sqrt(a.m)
				want(w.c, (r != nil) == ok, "the square root of %v is %v", a.m, r)
				if ok {
					s := lib.FromFR(r)
					wantNum(w.c, "root squared", model.Fr.Mul(s, s), a.m)
					put(w, &w.fr, r, s)
				}
			case 7:
				w.log("compare %v, Legendre symbol", a.m)
				b := any1(w, w.fr)
				want(w.c, sgn(a.v.Cmp(b.v)) == a.m.Cmp(b.m), "comparison")
				want(w.c, cmpLegendre(a.v.Legendre(), model.Fr.Jacobi(a.m)), "Legendre symbol")
				a.v.Parity()
				_ = a.v.String()
			}
		}},
		{"numbers", func(w *world) {
			a := own(w, &w.rr, cpRR)
			b := any1(w, w.rr)
			lim := new(I).Lsh(one, 256)
			switch w.kind(6) {
			case 0:
				w.log("number %v + %v", a.m, b.m)
				m := mod(new(I).Add(a.m, b.m), lim)
				a.v.AddNoCarry(b.v)
				a.m = m
			case 1:
				w.log("number %v - %v", a.m, b.m)
				m := mod(new(I).Sub(a.m, b.m), lim)
				a.v.SubNoBorrow(b.v)
				a.m = m
			case 2:
				n := uint(w.c.Pick(260))
				w.log("number %v >> %d", a.m, n)
				a.v.Rsh(n)
				a.m = new(I).Rsh(a.m, n)
			case 3:
				n := uint(w.c.Pick(260))
				w.log("number %v << %d", a.m, n)
				a.v.Lsh(n)
				a.m = mod(new(I).Lsh(a.m, n), lim)
			case 4:
				w.log("copy number %v", b.m)
				put(w, &w.rr, b.v.Copy(), b.m)
			case 5:
				w.log("number of %v", b.m)
				x := bls.FRReprFromBytes(b.v.Bytes())
				put(w, &w.rr, x, b.m)
				g, err := bls.FRReprFromBigInt(b.v.ToBig())
				want(w.c, err == nil, "%v", err)
				put(w, &w.rr, g, b.m)
			}
		}},
		{"big numbers", func(w *world) {
			a := any1(w, w.big)
			w.log("use big number %v", a.m)
			if x, err := bls.FQReprFromBigInt(a.v); err == nil {
				wantNum(w.c, "number", lib.FromQR(x), mod(a.m, new(I).Lsh(one, 384)))
			}
			if x, err := bls.FRReprFromBigInt(a.v); err == nil {
				put(w, &w.rr, x, mod(a.m, new(I).Lsh(one, 256)))
			}
			lib.WantFQ2(w.c, "multiple", bls.FQ2One.MulBits(a.v), model.E2(a.m, num(0)))
		}},
		{"fq6", func(w *world) {
			a := own(w, &w.f6, cp6)
			b := any1(w, w.f6)
			A, B := six(a.m), six(b.m)
			switch w.kind(9) {
			case 0:
				w.log("sextic +=")
				a.v.AddAssign(b.v)
				a.m = unsix(A.Add(B))
			case 1:
				w.log("sextic -=")
				a.v.SubAssign(b.v)
				a.m = unsix(A.Sub(B))
			case 2:
				w.log("sextic *=")
				a.v.MulAssign(b.v)
				a.m = unsix(A.Mul(B))
			case 3:
				w.log("sextic square")
				a.v.SquareAssign()
				a.m = unsix(A.Mul(A))
			case 4:
				w.log("sextic inverse")
				i, ok := A.Inv()
				want(w.c, a.v.InverseAssign() == ok, "inverse exists: %v", !ok)
				if ok {
					a.m = unsix(i)
				}
			case 5:
				w.log("sextic copy")
				put(w, &w.f6, b.v.Copy(), b.m)
			case 6:
				n := w.c.Pick(6)
				w.log("sextic Frobenius %d", n)
				a.v.FrobeniusMapAssign(uint8(n))
				a.m = unsix(A.Frob(n))
			case 7:
				w.log("sextic negate")
				a.v.NegAssign()
				a.m = unsix(A.Neg())
			case 8:
				w.log("sextic power")
				n, m := w.qrepr()
				put(w, &w.f6, b.v.Exp(&n), unsix(B.Pow(m)))
				wantNum(w.c, "exponent afterwards", lib.FromQR(n), m)
			}
		}},
		{"fq12", func(w *world) {
			a := own(w, &w.f12, cp12)
			b := any1(w, w.f12)
			A, B := a.m, b.m
			switch w.kind(13) {
			case 0:
				w.log("dodecic +=")
				a.v.AddAssign(b.v)
				a.m = A.Add(B)
			case 1:
				w.log("dodecic -=")
				a.v.SubAssign(b.v)
				a.m = A.Sub(B)
			case 2:
				w.log("dodecic *=")
				a.v.MulAssign(b.v)
				a.m = A.Mul(B)
			case 3:
				w.log("dodecic square")
				a.v.SquareAssign()
				a.m = A.Mul(A)
			case 4:
				w.log("dodecic inverse")
				i, ok := A.Inv()
				want(w.c, a.v.InverseAssign() == ok, "inverse exists: %v", !ok)
				if ok {
					a.m = i
				}
			case 5:
				w.log("dodecic copy")
				put(w, &w.f12, b.v.Copy(), b.m)
			case 6:
				n := w.c.Pick(12)
				w.log("dodecic Frobenius %d", n)
				a.v.FrobeniusMapAssign(uint8(n))
				a.m = A.Frob(n)
			case 7:
				w.log("dodecic negate")
				a.v.NegAssign()
				a.m = A.Neg()
			case 8:
				w.log("dodecic conjugate")
				a.v.ConjugateAssign()
				a.m = A.Frob(6)
			case 9:
				n := mod(any1(w, w.rr).m, new(I).Lsh(one, uint(1+w.c.Pick(20))))
				w.log("dodecic power %v", n)
				put(w, &w.f12, b.v.Exp(lib.QRepr(n)), B.Pow(n))
			case 10:
				w.log("dodecic from sextics")
				x, y := any1(w, w.f6), any1(w, w.f6)
				v := bls.NewFQ12(x.v.Copy(), y.v.Copy())
				put(w, &w.f12, v, model.Tower([2][3]model.F2{x.m, y.m}))
			case 11:
				w.log("dodecic assign")
				*a.v = *b.v.Copy()
				a.m = B
			case 12:
				if !B.IsZero() {
					w.log("final exponentiation")
					put(w, &w.f12, bls.FinalExponentiation(b.v), model.FinalExp(B))
				}
			}
		}},
		{"g1", func(w *world) { points(w, lib.G1, &w.a1, &w.p1) }},
		{"g2", func(w *world) { points(w, lib.G2, &w.a2, &w.p2) }},
		{"g1", func(w *world) { points(w, lib.G1, &w.a1, &w.p1) }},
		{"g2", func(w *world) { points(w, lib.G2, &w.a2, &w.p2) }},
		{"hash", func(w *world) {
			switch w.kind(4) {
			case 0:
				m := w.msg(0)
				w.log("hash %x to G1", m)
				put(w, &w.a1, bls.HashG1(m), lib.Hash1(m))
			case 1:
				m := w.msg(0)
				w.log("hash %x to G2", m)
				put(w, &w.a2, bls.HashG2(m), lib.Hash2(m))
			case 2:
				m, d := w.msg(32), w.domain()
				w.log("hash %x to G2 in domain %x", m, d)
				put(w, &w.p2, bls.HashG2WithDomain([32]byte(m), d), lib.HashD([32]byte(m), d))
			case 3:
				m := w.msg(0)
				w.log("hash %x to fields", m)
				h := sha256.New()
				h.Write(m)
				d := h.Sum(nil)
				lib.WantFQ(w.c, "HashFQ", bls.HashFQ(h), model.Fq.Of(mulBytes(d)))
				put(w, &w.fr, bls.HashFR(h), model.Fr.Of(mulBytes(d)))
				wantBytes(w.c, "digest afterwards", h.Sum(nil), d)
			}
		}},
		{"pairing", func(w *world) {
			p, q := any1(w, w.p1), any1(w, w.p2)
			if !lib.E1.InSub(p.m) || !lib.E2.InSub(q.m) {
				return
			}
			switch w.kind(3) {
			case 0:
				w.log("pairing")
				put(w, &w.f12, bls.Pairing(p.v, q.v), model.Pairing(p.m, q.m))
			case 1:
				a, b := any1(w, w.a1), any1(w, w.a2)
				if !lib.E1.InSub(a.m) || !lib.E2.InSub(b.m) {
					return
				}
				w.log("product of pairings")
				pr := bls.G2AffineToPrepared(b.v)
				f := bls.MillerLoop([]bls.MillerLoopItem{{P: a.v, Q: pr}, {P: a.v, Q: pr}})
				e := model.Pairing(a.m, b.m)
				lib.WantFQ12(w.c, "the product", bls.FinalExponentiation(f), e.Mul(e))
				f = bls.MillerLoop([]bls.MillerLoopItem{{P: a.v, Q: pr}})
				put(w, &w.f12, bls.FinalExponentiation(f), e)
			case 2:
				w.log("compare a pairing with itself and its opposite")
				want(w.c, bls.CompareTwoPairings(p.v, q.v, p.v, q.v), "a pairing differs from itself")
				z := p.m.Inf || q.m.Inf
				n := p.v.Copy()
				n.NegAssign()
				want(w.c, bls.CompareTwoPairings(p.v, q.v, n, q.v) == z, "a pairing compared with its opposite: %v", !z)
			}
		}},
		{"scheme", scheme},
		{"scheme", scheme},
		{"scheme", scheme},
	}
}

// points makes a call about points of one group.
func points[E, A, P any](w *world, g *lib.Grp[E, A, P], as *[]val[A, model.Pt[E]], ps *[]val[P, model.Pt[E]]) {
	c, cv := w.c, g.C
	a, p, p2 := any1(w, *as), any1(w, *ps), any1(w, *ps)
	switch w.kind(20) {
	case 0:
		w.log("%s: projective + projective", g.Name)
		put(w, ps, g.Add(p.v, p2.v), cv.Add(p.m, p2.m))
	case 1:
		w.log("%s: projective + affine", g.Name)
		put(w, ps, g.AddAff(p.v, a.v), cv.Add(p.m, a.m))
	case 2:
		w.log("%s: double", g.Name)
		put(w, ps, g.Double(p.v), cv.Add(p.m, p.m))
	case 3:
		w.log("%s: to affine", g.Name)
		put(w, as, g.ToAff(p.v), p.m)
	case 4:
		w.log("%s: to projective", g.Name)
		put(w, ps, g.ToProj(a.v), a.m)
	case 5:
		w.log("%s: copy affine", g.Name)
		put(w, as, g.CopyA(a.v), a.m)
	case 6:
		w.log("%s: copy projective", g.Name)
		put(w, ps, g.CopyP(p.v), p.m)
	case 7:
		w.log("%s: negate affine", g.Name)
		x := own(w, as, g.CopyA)
		g.NegA(x.v)
		x.m = cv.Neg(x.m)
	case 8:
		if g.NegP != nil {
			w.log("%s: negate projective", g.Name)
			x := own(w, ps, g.CopyP)
			g.NegP(x.v)
			x.m = cv.Neg(x.m)
		}
	case 9:
		k, n := w.qrepr()
		w.log("%s: projective times %v", g.Name, n)
		put(w, ps, g.Mul(p.v, k), cv.Mul(p.m, n))
	case 10:
		k := any1(w, w.rr)
		w.log("%s: projective times %v", g.Name, k.m)
		put(w, ps, g.MulFR(p.v, k.v), cv.Mul(p.m, k.m))
	case 11:
		k := any1(w, w.rr)
		w.log("%s: affine times %v", g.Name, k.m)
		put(w, ps, g.AMulFR(a.v, k.v), cv.Mul(a.m, k.m))
	case 12:
		w.log("%s: compress and decompress", g.Name)
		b := g.Compress(a.v)
		wantBytes(c, "compressed", b, g.MCompress(a.m))
		x, err := g.Decompress(b)
		want(c, err == nil, "refused: %v", err)
		put(w, as, x, a.m)
		x, err = g.DecompressU(b)
		want(c, err == nil, "refused: %v", err)
		put(w, as, x, a.m)
	case 13:
		if !a.m.Inf {
			w.log("%s: uncompressed and back", g.Name)
			b := g.RawBytes(a.v)
			x := g.CopyA(g.OneA())
			want(c, g.SetRaw(x, b) == nil, "refused")
			put(w, as, x, a.m)
		}
	case 14:
		w.log("%s: cofactor", g.Name)
		put(w, ps, g.Cofactor(a.v), cv.Mul(a.m, g.H))
	case 15:
		w.log("%s: on curve, in subgroup, equal, zero", g.Name)
		want(c, g.On(a.v), "not on the curve")
		want(c, g.InSub(a.v), "not in the subgroup")
		a2 := any1(w, *as)
		want(c, g.EqA(a.v, a2.v) == cv.Eq(a.m, a2.m), "affine equal")
		want(c, g.Eq(p.v, p2.v) == cv.Eq(p.m, p2.m), "projective equal")
		want(c, g.IsZeroA(a.v) == a.m.Inf && g.IsZeroP(p.v) == p.m.Inf, "zero")
		_, _ = g.StrA(a.v), g.StrP(p.v)
	case 16:
		w.log("%s: bring up infinity", g.Name)
		x := g.Add(p.v, g.ToProj(func() A { y := g.CopyA(g.ToAff(p.v)); g.NegA(y); return y }()))
		put(w, ps, x, cv.O())
		put(w, as, g.ToAff(x), cv.O())
	case 17:
		if !a.m.Inf {
			w.log("%s: from x", g.Name)
			gr := model.Greater(cv.F, a.m.Y)
			x, err := g.Lift(a.m.X, gr)
			want(c, err == nil, "no point")
			put(w, as, x, a.m)
		}
	case 19:
		k, n := w.qrepr()
		w.log("%s: affine times %v", g.Name, n)
		put(w, ps, g.AMul(a.v, k), cv.Mul(a.m, n))
		if g.AMulBig != nil {
			b := any1(w, w.big)
			w.log("%s: affine times %v", g.Name, b.m)
			put(w, ps, g.AMulBig(a.v, *b.v), cv.Mul(a.m, b.m))
		}
	case 18: // overwrite a value that belongs to us
		w.log("%s: overwrite", g.Name)
		x, y := own(w, as, g.CopyA), own(w, ps, g.CopyP)
		overwrite(x.v, g.CopyA(g.OneA()))
		x.m = g.Gen
		overwrite(y.v, g.CopyP(g.OneP()))
		y.m = g.Gen
	}
}

// overwrite assigns to what the pointer points at.
func overwrite(dst, src any) {
	switch d := dst.(type) {
	case *bls.G1Affine:
		*d = *src.(*bls.G1Affine)
	case *bls.G2Affine:
		*d = *src.(*bls.G2Affine)
	case *bls.G1Projective:
		*d = *src.(*bls.G1Projective)
	case *bls.G2Projective:
		*d = *src.(*bls.G2Projective)
	default:
		panic("harness: overwrite")
	}
}

// scheme makes a call about keys and signatures.
func scheme(w *world) {
	c := w.c
	i := w.kind(2)
	s, z := lib.Schemes[i], &w.sch[i]
	k, pk, sg := any1(w, z.sk), any1(w, z.pk), any1(w, z.sg)
	draw := func() lib.Msg {
		var m lib.Msg
		if s.Domains && c.Pick(2) == 0 {
			d := w.domain()
			m.Domain = &d
			m.M = w.msg(32)
		} else {
			m.M = w.msg(0)
		}
		return m
	}
	switch w.kind(12) {
	case 0, 1, 2:
		m := draw()
		w.log("%s: sign %v with %#x", s.Name, m, k.m)
		sig := s.Sign(m, k.v)
		e := s.Sig.Mul(s.Hash(m), k.m)
		put(w, &z.sg, sig, e)
		want(c, s.Verify(m, s.PubOf(k.v), sig), "%s: the signature does not verify", s.Name)
	case 3:
		m := draw()
		w.log("%s: verify some signature for %v", s.Name, m)
		e := s.Sig.Mul(s.Hash(m), k.m)
		ok := s.Sig.Eq(e, sg.m)
		want(c, s.Verify(m, s.PubOf(k.v), sg.v) == ok, "%s: verified: %v", s.Name, !ok)
	case 4:
		w.log("%s: public key of %#x", s.Name, k.m)
		put(w, &z.pk, s.PubOf(k.v), s.Pub.Mul(s.Pub.Gen, k.m))
	case 5:
		b := c.Bytes32("seed")
		w.log("%s: derive from %x", s.Name, b)
		put(w, &z.sk, s.DeriveKey(b), model.DeriveKey(b))
	case 6:
		w.log("%s: keys and signatures through bytes", s.Name)
		x, err := s.SigFrom(s.SigBytes(sg.v))
		want(c, err == nil, "refused: %v", err)
		put(w, &z.sg, x, sg.m)
		y, err := s.PubFrom(s.PubBytes(pk.v))
		want(c, err == nil, "refused: %v", err)
		put(w, &z.pk, y, pk.m)
		put(w, &z.sk, s.KeyFrom(s.KeyBytes(k.v)), k.m)
	case 7:
		w.log("%s: copies", s.Name)
		x, y, p, q := s.SigCopy(sg.v), s.PubCopy(pk.v), sg.m, pk.m
		put(w, &z.sg, x, p)
		put(w, &z.pk, y, q)
	case 8:
		w.log("%s: aggregate", s.Name)
		sg2, pk2 := any1(w, z.sg), any1(w, z.pk)
		m, n := s.Sig.Add(sg.m, sg2.m), s.Pub.Add(pk.m, pk2.m)
		s.SigAdd(sg.v, sg2.v)
		s.PubAdd(pk.v, pk2.v)
		sg.m, pk.m = m, n
	case 9:
		w.log("%s: aggregate all", s.Name)
		var a, b []any
		A, B := s.Sig.O, s.Pub.O
		for _, x := range z.sg {
			a, A = append(a, x.v), s.Sig.Add(A, x.m)
		}
		for _, x := range z.pk {
			b, B = append(b, x.v), s.Pub.Add(B, x.m)
		}
		x, y := s.SigSum(a), s.PubSum(b)
		put(w, &z.sg, x, A)
		put(w, &z.pk, y, B)
	case 10:
		w.log("%s: change taken points, blanks", s.Name)
		s.SigScramble(sg.v)
		s.PubScramble(pk.v)
		put(w, &z.sg, s.SigBlank(), s.Sig.O)
		put(w, &z.pk, s.PubBlank(), s.Pub.O)
	case 11:
		w.log("%s: verify an aggregate", s.Name)
		m1, m2 := bytes.Clone(w.msg(0)), bytes.Clone(w.msg(0))
		k2 := any1(w, z.sk)
		msgs, keys := [][]byte{m1, m2}, []any{k.v, k2.v}
		ok := !bytes.Equal(m1, m2)
		sig := s.SigBlank()
		var pubs []any
		for j := range keys {
			s.SigAdd(sig, s.Sign(lib.Msg{M: msgs[j]}, keys[j]))
			pubs = append(pubs, s.PubOf(keys[j]))
		}
		want(c, s.VerifyAgg(sig, pubs, msgs) == ok, "%s: aggregate for %x, %x verified: %v", s.Name, m1, m2, !ok)
		sig = s.SigBlank()
		for j := range keys {
			s.SigAdd(sig, s.Sign(lib.Msg{M: m1}, keys[j]))
		}
		want(c, s.VerifyOne(sig, pubs, lib.Msg{M: m1}), "%s: aggregate for %x does not verify", s.Name, m1)
	}
}

// TestC24 checks that calls leave alone what is not theirs to change.
func TestC24(t *testing.T) {
	p := vt.Prop(t, "C24")
	p.Check("history", 700, func(c *vt.Case) {
		w := newWorld(c, false)
		n := c.Int("calls", 1, 30)
		if c.Pick(4) == 0 {
			n = c.Int("calls", 30, 60)
		}
		for i := 0; i < n; i++ {
			w.step()
			if c.Pick(6) == 0 {
				w.check(fmt.Sprintf("after call %d", len(w.hist)))
			}
		}
		c.Count(len(w.hist) > 3, fmt.Sprint(w.hist))
		w.check("at the end")
	})
	// The same few calls again and again, on few values.
	p.Check("narrow history", 900, func(c *vt.Case) {
		w := newWorld(c, true)
		var l []op
		for i, k := 0, 1+c.Pick(2); i < k; i++ {
			l = append(l, ops[c.Pick(len(ops))])
		}
		n := c.Int("calls", 2, 24)
		for i := 0; i < n; i++ {
			o := l[c.Pick(len(l))]
			w.op = o.name
			o.f(w)
			if c.Pick(4) == 0 {
				w.check(fmt.Sprintf("after call %d", len(w.hist)))
			}
		}
		c.Count(len(w.hist) > 2, fmt.Sprint(w.hist))
		w.check("at the end")
	})
	// The same function again, with its results and arguments changed between.
	p.Check("call again", 9000, func(c *vt.Case) {
		f := calls[c.Pick(len(calls))]
		if f.rare && c.Pick(3) > 0 {
			f = calls[c.Pick(len(calls))]
		}
		again(c, f)
	})
	// The same calls in two orders.
	p.Check("order of calls", 80, func(c *vt.Case) { orders(c, 16, 24) })
	// Every kind of call right after every other, on fresh values.
	p.Check("pairs of calls", 1200, func(c *vt.Case) {
		w := newWorld(c, false)
		ops[c.Pick(len(ops))].f(w)
		w.check("after the first call")
		ops[c.Pick(len(ops))].f(w)
		w.check("after the second call")
		c.Count(len(w.hist) > 1, fmt.Sprint(w.hist))
	})
	// A message buffer is used again and again.
	p.Check("message buffer", 240, func(c *vt.Case) {
		s := lib.Schemes[c.Pick(2)]
		c.Log("scheme", s.Name)
		buf := make([]byte, 0, 128)
		k, pub := s.PoolKey(c)
		sk, pk := s.Key(k), s.PubAt(pub)
		n := c.Int("n", 2, 5)
		var sigs []lib.SG
		var ms []lib.Msg
		var hs []string
		for i := 0; i < n; i++ {
			m := s.DrawMsg(c, "message")
			if len(m.M) > 128 {
				m.M = m.M[:128]
			}
			if i > 0 && m.Domain == nil && ms[i-1].Domain == nil && c.Pick(2) == 0 {
				m.M, _ = c.RelatedMsg("message", ms[i-1].M)
			}
			in := lib.Msg{M: append(buf[:0], m.M...), Domain: m.Domain}
			sigs = append(sigs, s.Sign(in, sk))
			want(c, s.Verify(in, pk, sigs[i]), "%s: signature %d does not verify", s.Name, i)
			ms = append(ms, lib.Msg{M: bytes.Clone(m.M), Domain: m.Domain})
			hs = append(hs, msgKey(m))
		}
		c.Count(true, k, fmt.Sprint(hs))
		for i := range ms {
			wantBytes(c, fmt.Sprintf("signature %d", i), s.SigBytes(sigs[i]), s.Sig.Compress(s.Sig.Mul(s.Hash(ms[i]), k)))
			j := c.Pick(n)
			in := lib.Msg{M: append(buf[:0], ms[j].M...), Domain: ms[j].Domain}
			ok := msgKey(ms[i]) == msgKey(ms[j]) || k.Sign() == 0
			want(c, s.Verify(in, pk, sigs[i]) == ok, "%s: signature %d for message %d: %v", s.Name, i, j, !ok)
		}
	})
}
