package lib

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"

	"blsverif/model"
	"blsverif/vt"
)

// The small prime factors of the cofactors, with multiplicity 1 or 2.
var (
	primes1 = []int64{3, 11, 10177, 859267, 52437899}
	primes2 = []int64{13, 23, 2713, 11953, 262069}
)

// stream makes fixed pseudo-random numbers.
type stream struct {
	tag string
	n   uint64
}

func (s *stream) bytes() []byte {
	s.n++
	a := sha256.Sum256(binary.BigEndian.AppendUint64([]byte(s.tag), s.n))
	b := sha256.Sum256(a[:])
	return append(a[:], b[:]...)
}

func (s *stream) fq() *I { return model.Fq.Of(new(I).SetBytes(s.bytes())) }

// Pool holds points to build others from.
type Pool[E any] struct {
	c       *model.Curve[E]
	Scalars []*I          // of Sub
	Sub     []model.Pt[E] // multiples of the generator
	Tors    []model.Pt[E] // of small order, or of order dividing the cofactor
	Curve   []model.Pt[E] // anywhere on the curve
	Special []model.Pt[E] // with coordinates of a special form
}

func newPool[E any](c *model.Curve[E], gen model.Pt[E], h *I, primes []int64, special []model.Pt[E], elem func(*stream) E) *Pool[E] {
	p := &Pool[E]{c: c, Special: special}
	s := &stream{tag: "pool"}
	for i := int64(1); i <= 6; i++ {
		p.Scalars = append(p.Scalars, big.NewInt(i), model.Fr.Of(big.NewInt(-i)))
	}
	p.Scalars = append(p.Scalars, new(I).Rsh(model.R, 1), new(I).Lsh(big.NewInt(1), 128), model.X)
	for i := 0; i < 24; i++ {
		p.Scalars = append(p.Scalars, model.Fr.Of(new(I).SetBytes(s.bytes())))
	}
	for _, k := range p.Scalars {
		p.Sub = append(p.Sub, c.Mul(gen, k))
	}
	for len(p.Curve) < 16 {
		if q, ok := c.Lift(elem(s), s.bytes()[0]&1 == 0); ok {
			p.Curve = append(p.Curve, q)
		}
	}
	// torsion: clear the r part, then all but one prime of the cofactor
	for i, l := range primes {
		n := new(I).Set(h)
		L := big.NewInt(l)
		for new(I).Mod(n, L).Sign() == 0 {
			n.Div(n, L)
		}
		t := c.Mul(c.Mul(p.Curve[i%len(p.Curve)], model.R), n)
		for k := 0; !t.Inf && k < 3; k++ {
			p.Tors = append(p.Tors, t)
			t = c.Mul(t, L)
		}
	}
	for i := 0; i < 3; i++ {
		p.Tors = append(p.Tors, c.Mul(p.Curve[i], model.R))
	}
	for _, q := range p.Special {
		if !c.On(q) {
			panic("harness: special point")
		}
	}
	return p
}

// Order tells the class of a drawn point.
type Order string

const (
	Infinity Order = "infinity"
	InSub    Order = "subgroup"
	Torsion  Order = "torsion"
	Mixed    Order = "mixed"
	OnCurve  Order = "curve"
)

// SubPt draws a point of the subgroup and its discrete logarithm.
func (g *Grp[E, A, P]) SubPt(c *vt.Case, label string) (model.Pt[E], *I) {
	p, k := g.subPt(c)
	c.Log(label, p)
	return p, k
}

func idx(c *vt.Case, n int) int { return c.Pick(n) }

func (g *Grp[E, A, P]) subPt(c *vt.Case) (model.Pt[E], *I) {
	o := g.Pool
	switch c.Pick(10) {
	case 0:
		return g.C.O(), big.NewInt(0)
	case 1, 2:
		i := idx(c, len(o.Sub))
		return o.Sub[i], o.Scalars[i]
	case 3:
		k := c.Fr("k")
		return g.C.Mul(g.Gen, k), k
	default: // sums of two or three pool points
		i, j, n := idx(c, len(o.Sub)), idx(c, len(o.Sub)), idx(c, 2*len(o.Sub))
		p := g.C.Add(o.Sub[i], o.Sub[j])
		k := model.Fr.Add(o.Scalars[i], o.Scalars[j])
		if n < len(o.Sub) {
			p, k = g.C.Add(p, o.Sub[n]), model.Fr.Add(k, o.Scalars[n])
		}
		return p, k
	}
}

// FiniteSubPt draws a point of the subgroup that is not infinity.
func (g *Grp[E, A, P]) FiniteSubPt(c *vt.Case, label string) (model.Pt[E], *I) {
	p, k := g.subPt(c)
	if p.Inf {
		p, k = g.Gen, big.NewInt(1)
	}
	c.Log(label, p)
	return p, k
}

// AnyPt draws any point on the curve, inside or outside the subgroup.
func (g *Grp[E, A, P]) AnyPt(c *vt.Case, label string) model.Pt[E] {
	p, k := g.anyPt(c)
	c.Log(label, p)
	c.Label(string(k))
	return p
}

func (g *Grp[E, A, P]) anyPt(c *vt.Case) (model.Pt[E], Order) {
	o := g.Pool
	tors := func() model.Pt[E] {
		t := o.Tors[idx(c, len(o.Tors))]
		if c.Pick(2) == 0 {
			t = g.C.Mul(t, big.NewInt(int64(1+c.Pick(12))))
		}
		return t
	}
	name := func(p model.Pt[E], k Order) (model.Pt[E], Order) {
		if p.Inf {
			k = Infinity
		}
		return p, k
	}
	switch c.Pick(12) {
	case 0:
		return g.C.O(), Infinity
	case 1, 2, 3:
		p, _ := g.subPt(c)
		return name(p, InSub)
	case 4, 5:
		return name(tors(), Torsion)
	case 6, 7:
		p, _ := g.subPt(c)
		return name(g.C.Add(p, tors()), Mixed)
	case 8:
		return o.Special[idx(c, len(o.Special))], OnCurve
	case 9:
		x := g.Elem(c, "x")
		if p, ok := g.C.Lift(x, c.Pick(2) == 0); ok {
			return p, OnCurve
		}
		fallthrough
	default:
		return name(g.C.Add(o.Curve[idx(c, len(o.Curve))], o.Curve[idx(c, len(o.Curve))]), OnCurve)
	}
}

// --- points with coordinates of a special form ---

func special1() []model.P1 {
	var r []model.P1
	for _, x := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, -1, -2, -3, -4, -5, -6, -7, -8} {
		for _, g := range []bool{false, true} {
			if p, ok := model.G1.Lift(model.Fq.Of(big.NewInt(x)), g); ok {
				r = append(r, p)
			}
		}
	}
	// small y: x is a cube root of y^2 - 4, in Fq
	n := 0
	for y := int64(3); n < 4; y++ {
		if x, ok := cbrt2(model.S2(y*y-4, 0)); ok && x.B.Sign() == 0 {
			p := model.P1{X: x.A, Y: big.NewInt(y)}
			r = append(r, p, model.G1.Neg(p))
			n++
		}
	}
	return r
}

func special2() []model.P2 {
	var r []model.P2
	add := func(x model.F2) {
		for _, g := range []bool{false, true} {
			if p, ok := model.G2.Lift(x, g); ok {
				r = append(r, p)
			}
		}
	}
	for _, v := range []int64{0, 1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -5, -6} {
		add(model.S2(v, 0))
		add(model.S2(0, v))
		add(model.S2(v, v))
	}
	// y with one coordinate zero: x is a cube root of y^2 - 4 - 4u
	for _, im := range []bool{false, true} {
		n := 0
		for v := int64(1); n < 3; v++ {
			y := model.S2(v, 0)
			if im {
				y = model.S2(0, v)
			}
			y2 := model.Fq2.Mul(y, y)
			if x, ok := cbrt2(model.Fq2.Sub(y2, model.G2.B)); ok {
				p := model.P2{X: x, Y: y}
				r = append(r, p, model.G2.Neg(p))
				n++
			}
		}
	}
	return r
}

// cbrt2 finds a cube root in Fq2, one in Fq if there is one for an element of Fq.
func cbrt2(a model.F2) (model.F2, bool) {
	if model.Fq2.IsZero(a) {
		return a, true
	}
	m := new(I).Mul(model.Q, model.Q)
	m.Sub(m, big.NewInt(1))
	three := big.NewInt(3)
	s := 0
	for new(I).Mod(m, three).Sign() == 0 {
		m.Div(m, three)
		s++
	}
	e := new(I).ModInverse(three, m)
	r := model.Fq2.Pow(a, e)
	// r^3 = a z with z of order a power of three: try all such factors
	g := model.F2{}
	for i := int64(1); ; i++ {
		g = model.Fq2.Pow(model.S2(i, 1), m)
		t := g
		for k := 0; k < s-1; k++ {
			t = model.Fq2.Mul(model.Fq2.Mul(t, t), t)
		}
		if !model.Fq2.Eq(t, model.Fq2.One()) {
			break // g has order 3^s
		}
	}
	best, found := model.F2{}, false
	n := 1
	for k := 0; k < s; k++ {
		n *= 3
	}
	for k := 0; k < n; k++ {
		if model.Fq2.Eq(model.Fq2.Mul(model.Fq2.Mul(r, r), r), a) {
			if !found || r.B.Sign() == 0 {
				best, found = r, true
			}
		}
		r = model.Fq2.Mul(r, g)
	}
	return best, found
}

// Damage draws bytes that are the compressed encoding of the point, or nearly.
func (g *Grp[E, A, P]) Damage(c *vt.Case, a model.Pt[E]) []byte {
	size := g.Size
	b := g.MCompress(a)
	switch c.Int("damage", 0, 9) {
	case 0:
	case 1: // flip a flag
		b[0] ^= 1 << c.Int("flag", 5, 7)
	case 2: // any flags
		b[0] = b[0]&0x1f | byte(c.Int("flags", 0, 7))<<5
	case 3: // flip a bit
		i := c.Int("bit", 0, 8*size-1)
		b[i/8] ^= 0x80 >> (i % 8)
	case 4, 5: // x not reduced, if that fits
		off := 48 * c.Pick(size/48)
		fl := b[off] & 0xe0
		if off > 0 {
			fl = 0
		}
		x := new(I).SetBytes(b[off : off+48])
		if off == 0 {
			x = new(I).SetBytes(append([]byte{b[0] & 0x1f}, b[1:48]...))
		}
		times := 1 // mostly all that fits
		if off > 0 || c.Pick(6) == 0 {
			times = c.Int("times", 1, 8)
		}
		x.Add(x, new(I).Mul(model.Q, big.NewInt(int64(times))))
		lim := 384
		if off == 0 {
			lim = 381
		}
		if x.BitLen() <= lim {
			x.FillBytes(b[off : off+48])
			b[off] |= fl
		}
	case 6: // infinity with something in it
		b = make([]byte, size)
		b[0] = 0xc0 | byte(c.Int("low", 0, 63))
		if c.Bool("tail") {
			b[c.Pick(size)] ^= byte(c.Int("value", 0, 255))
		}
	case 7: // x at the edge of the field
		for off := 0; off < size; off += 48 {
			x := new(I).Add(model.Q, big.NewInt(int64(c.Int("d", -4, 4))))
			if c.Pick(3) == 0 {
				x = c.Fq("x")
			}
			x.FillBytes(b[off : off+48])
		}
		b[0] |= byte(c.Int("flags", 4, 7)) << 5
	case 8: // any x
		for off := 0; off < size; off += 48 {
			c.Fq("x").FillBytes(b[off : off+48])
		}
		b[0] |= byte(c.Int("flags", 4, 5)) << 5
	case 9:
		b = c.Uniform("bytes", size)
		if c.Bool("flagged") {
			b[0] = b[0]&0x1f | 0x80
		}
	}
	c.Log("bytes", fmt.Sprintf("%x", b))
	return b
}

// Near is a neighbour of a point: one with the same x or y, or its double.
func (g *Grp[E, A, P]) Near(n int, p model.Pt[E]) model.Pt[E] {
	if n == 0 || p.Inf {
		return p
	}
	switch n % 6 {
	case 0:
		return g.C.Add(p, g.Gen)
	case 1, 2:
		return g.C.Neg(p)
	case 3:
		return g.Endo(p)
	case 4:
		return g.C.Neg(g.Endo(p))
	}
	return g.C.Add(p, p)
}
