package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// hashTo checks a hash of messages to a group: the reference value, for every
// message, whatever was hashed before, and however the message lies in memory.
func hashTo[E, A, P any](p *vt.P, g *lib.Grp[E, A, P], n int, hash func([]byte) A, ref func([]byte) model.Pt[E]) {
	same := func(c *vt.Case, what string, m []byte) {
		keep := bytes.Clone(m)
		e := ref(m)
		a := hash(m)
		g.WantA(c, "hash of "+what, a, e)
		wantBytes(c, "encoded hash of "+what, g.Compress(a), g.MCompress(e))
		wantBytes(c, "the message afterwards", m, keep)
	}
	p.Check(g.Name, n, func(c *vt.Case) {
		m := c.Msg("message")
		if c.Pick(3) == 0 {
			m = lib.PoolMsg(c)
			c.Log("message", fmt.Sprintf("%x", m))
		}
		c.Count(len(m) > 0, m)
		// inside a larger buffer, whose rest is not to be touched
		buf := append(bytes.Repeat([]byte{0xa5}, 8), m...)
		buf = append(buf, bytes.Repeat([]byte{0x5a}, 70)...)
		in := bytes.Clone(buf)
		same(c, "the message", buf[8:8+len(m)])
		wantBytes(c, "the buffer around the message afterwards", buf, in)
		// a related message at the same address
		o, how := c.RelatedMsg("other message", m)
		copy(buf[8:], o)
		if len(o) <= len(m)+70 {
			same(c, "the other message ("+how+")", buf[8:8+len(o)])
		}
		if c.Pick(4) == 0 {
			same(c, "the message again", m)
		}
	})
	p.Each(g.Name+" lengths", 260, func(c *vt.Case, i int) {
		m := bytes.Repeat([]byte{byte(i)}, i)
		c.Log("message", fmt.Sprintf("%d bytes %#x", i, byte(i)))
		c.Count(i > 0, i)
		same(c, "the message", m)
		if i == 0 {
			same(c, "nil", nil)
		}
	})
	p.Each(g.Name+" one byte", 256, func(c *vt.Case, i int) {
		c.Log("message", fmt.Sprintf("%#x", byte(i)))
		c.Count(true, i)
		same(c, "the message", []byte{byte(i)})
	})
}

// TestC10 checks hashing to the groups.
func TestC10(t *testing.T) {
	p := vt.Prop(t, "C10")
	hashTo(p, lib.G1, 2400, bls.HashG1, lib.Hash1)
	hashTo(p, lib.G2, 1000, bls.HashG2, lib.Hash2)
	// The reference lies in the subgroup; that is checked on the library's points too.
	p.Check("subgroup", 400, func(c *vt.Case) {
		m := c.Msg("message")
		c.Count(len(m) > 0, m)
		a, b := bls.HashG1(m), bls.HashG2(m)
		want(c, !a.IsZero() && model.G1.InSub(lib.R1(a)) && model.G1.On(lib.R1(a)), "hash to G1 outside the subgroup")
		want(c, !b.IsZero() && model.G2.InSub(lib.R2(b)) && model.G2.On(lib.R2(b)), "hash to G2 outside the subgroup")
	})
}

// TestC11 checks hashing with a domain.
func TestC11(t *testing.T) {
	p := vt.Prop(t, "C11")
	g := lib.G2
	same := func(c *vt.Case, m [32]byte, d [8]byte) {
		e := lib.HashD(m, d)
		q := bls.HashG2WithDomain(m, d)
		g.WantP(c, fmt.Sprintf("hash of %x in domain %x", m, d), q, e)
	}
	p.Check("g2", 2400, func(c *vt.Case) {
		m := c.Bytes32("message")
		d := lib.DrawDomain(c)
		c.Log("domain", fmt.Sprintf("%x", d))
		c.Count(true, m[:], d[:])
		same(c, m, d)
		switch c.Int("other", 0, 4) {
		case 0:
			d[c.Pick(8)] ^= 1 << c.Pick(8)
		case 1:
			m[c.Pick(32)] ^= 1 << c.Pick(8)
		case 2: // move the domain into the message
			var all [40]byte
			copy(all[:], m[:])
			copy(all[32:], d[:])
			k := c.Pick(40)
			all2 := append(append([]byte{}, all[k:]...), all[:k]...)
			copy(m[:], all2)
			copy(d[:], all2[32:])
		case 3:
			d = [8]byte{}
		}
		same(c, m, d)
	})
	p.Each("small", 64, func(c *vt.Case, i int) {
		var m [32]byte
		var d [8]byte
		m[31-i%4] = byte(i)
		d[7-i%8] = byte(i / 8)
		c.Log("message", fmt.Sprintf("%x", m))
		c.Log("domain", fmt.Sprintf("%x", d))
		c.Count(true, i)
		same(c, m, d)
		e := lib.R2(bls.HashG2WithDomain(m, d).ToAffine())
		want(c, model.G2.On(e) && model.G2.InSub(e) && !e.Inf, "outside the subgroup")
	})
}

// broken is a reader that fails after some bytes, and hands out at most step
// bytes at a time. It may pause by returning no bytes and no error, and return
// its error together with the last bytes, as io.Reader allows.
type broken struct {
	b     []byte
	step  int
	pause int // return nothing at every pause-th call
	early bool
	read  int
	calls int
}

var errBroken = errors.New("broken reader")

func (r *broken) Read(p []byte) (int, error) {
	r.calls++
	if r.read >= len(r.b) {
		return 0, errBroken
	}
	if r.pause > 0 && r.calls%r.pause == 0 {
		return 0, nil
	}
	if r.step > 0 && len(p) > r.step {
		p = p[:r.step]
	}
	n := copy(p, r.b[r.read:])
	r.read += n
	if r.early && r.read == len(r.b) {
		return n, errBroken
	}
	return n, nil
}

// endless expands a prefix by a stream, so that no rejection loop runs dry.
func endless(prefix []byte, seed [32]byte, step int) *broken {
	b := append([]byte{}, prefix...)
	b = append(b, vt.Stream(seed, 6000)...)
	return &broken{b: b, step: step}
}

// TestC12 checks key derivation and generation.
func TestC12(t *testing.T) {
	p := vt.Prop(t, "C12")
	p.Check("derive", 20000, func(c *vt.Case) {
		b := c.Bytes32("seed")
		c.Count(true, b[:])
		k := model.DeriveKey(b)
		lib.WantFR(c, "derived", bls.HashSecretKey(b), k)
		s := lib.Schemes[c.Pick(2)]
		sk := s.DeriveKey(b)
		lib.WantFR(c, s.Name+": derived key", s.KeyElement(sk), k)
		x := s.KeyBytes(sk)
		wantBytes(c, s.Name+": encoded derived key", x[:], k.FillBytes(make([]byte, 32)))
		// one bit off, and the same again
		o := b
		o[c.Pick(32)] ^= 1 << c.Pick(8)
		lib.WantFR(c, "derived from another seed", s.KeyElement(s.DeriveKey(o)), model.DeriveKey(o))
		lib.WantFR(c, "the first key afterwards", s.KeyElement(sk), k)
	})
	p.Check("use", 200, func(c *vt.Case) {
		b := c.Bytes32("seed")
		s := lib.Schemes[c.Pick(2)]
		c.Log("scheme", s.Name)
		m := lib.PoolMsg(c)
		c.Log("message", fmt.Sprintf("%x", m))
		c.Count(true, b[:], m)
		sk := s.DeriveKey(b)
		k := model.DeriveKey(b)
		wantBytes(c, "public key", s.PubBytes(s.PubOf(sk)), s.Pub.Compress(s.Pub.Mul(s.Pub.Gen, k)))
		sig := s.Sign(lib.Msg{M: m}, sk)
		wantBytes(c, "signature", s.SigBytes(sig), s.Sig.Compress(s.Sig.Mul(s.Hash(lib.Msg{M: m}), k)))
		want(c, s.Verify(lib.Msg{M: m}, s.PubOf(sk), sig), "the signature does not verify")
	})
	gen := func(c *vt.Case) source {
		s := lib.Schemes[c.Pick(2)]
		c.Log("scheme", s.Name)
		return source{s.Name + ".RandKey", 32, 1, 7, ones(32), func(r io.Reader) (any, error) {
			k, err := s.RandKey(r)
			if err != nil {
				return k, err
			}
			b := s.KeyBytes(k)
			n := new(I).SetBytes(b[:])
			want(c, n.Cmp(R) < 0, "the key %#x is not below r", n)
			lib.WantFR(c, "the key", s.KeyElement(k), n)
			return string(b[:]), nil
		}}
	}
	p.Check("generate", 6000, func(c *vt.Case) { randomSource(c, gen(c)) })
	p.Check("all bytes matter", 300, func(c *vt.Case) { allMatter(c, gen(c)) })
}

// source is a function that reads random bytes. It returns a value that
// identifies the result.
type source struct {
	name string
	size int // how many bytes an attempt takes
	n    int // how many elements they are for
	bits int // how many bits of the first byte of an element count
	// bytes of an attempt that gives nothing, so that another is made
	refused []byte
	f       func(io.Reader) (any, error)
}

// ones is n bytes of ones, above any modulus.
func ones(n int) []byte { return bytes.Repeat([]byte{0xff}, n) }

// noPoint is what RandG1 or RandG2 reads when there is no point with the
// coordinate.
func noPoint(group int) []byte {
	for v := int64(1); ; v++ {
		x := num(v)
		if group == 1 {
			if _, ok := model.G1.Lift(x, false); !ok {
				return append([]byte{0}, x.FillBytes(make([]byte, 48))...)
			}
		} else if _, ok := model.G2.Lift(model.F2{A: x, B: num(0)}, false); !ok {
			b := append([]byte{0}, x.FillBytes(make([]byte, 48))...)
			return append(b, make([]byte, 48)...)
		}
	}
}

// allMatter checks that every byte of the accepted attempt matters: changing a
// bit of it changes the result, but for the unused high bits of each element's
// first byte and, in the byte that chooses the sign of a point, all but one.
func allMatter(c *vt.Case, s source) {
	b := vt.Stream([32]byte(c.Uniform("seed", 32)), 6000)
	for i := s.size % 2; i < len(b); i += s.size { // no element is above the modulus
		for k := 0; k < s.n && i+k*(s.size/s.n) < len(b); k++ {
			b[i+k*(s.size/s.n)] &= 1<<(s.bits-1) - 1
		}
	}
	c.Count(true, b[:64], s.name)
	r := &broken{b: b}
	x, err := s.f(r)
	want(c, err == nil, "%s: %v", s.name, err)
	bit := c.Int("bit", 0, 7)
	least := s.size
	if bit >= s.bits {
		least -= s.n
	}
	if s.size%2 == 1 && bit > 0 {
		least--
	}
	n := 0
	for i := max(0, r.read-s.size); i < r.read; i++ {
		d := bytes.Clone(b)
		d[i] ^= 1 << bit
		if y, err := s.f(&broken{b: d}); err != nil || x != y {
			n++
		}
	}
	want(c, n >= least, "%s: of the last %d bytes read only %d matter", s.name, s.size, n)
}

// randomSource checks a source: in range (by f), a function of the bytes read,
// and failing when the reader fails.
func randomSource(c *vt.Case, s source) {
	b := vt.Stream([32]byte(c.Uniform("seed", 32)), 6000)
	if c.Pick(6) == 0 { // an unusual start
		n := c.Int("prefix", 1, s.size)
		v := []byte{0, 0xff, 1}[c.Pick(3)]
		for i := 0; i < n; i++ {
			b[i] = v
		}
	}
	if c.Pick(8) == 0 { // many attempts
		n := c.Int("refused", 1, 12)
		if c.Pick(2) == 0 {
			n = c.Int("refused", 1, 300)
		}
		x := s.refused
		if s.size%48 == 1 && c.Pick(2) == 0 { // a point's coordinate above the modulus
			x = ones(48)
		}
		b = append(bytes.Repeat(x, n), b...)
	}
	step := c.Int("step", 0, 3)
	if step == 3 {
		step = 17
	}
	r := &broken{b: b, step: step, pause: []int{0, 0, 2, 3}[c.Pick(4)]}
	c.Log("reader", fmt.Sprintf("at most %d bytes at a time, empty every %d", step, r.pause))
	c.Count(true, b[:64], s.name)
	x, err := s.f(r)
	want(c, err == nil, "%s: %v", s.name, err)
	used := r.read
	y, err := s.f(&broken{b: bytes.Clone(b)})
	want(c, err == nil && x == y, "%s: the same bytes gave another result", s.name)
	// just enough bytes, the last of them along with an error
	y, err = s.f(&broken{b: bytes.Clone(b[:used]), early: c.Pick(2) == 0})
	want(c, err == nil && x == y, "%s: the same bytes and no more gave another result (error %v)", s.name, err)
	// an error after any number of bytes is passed on
	k := c.Pick(used)
	v, err := s.f(&broken{b: b[:k], step: step, early: c.Pick(2) == 0})
	want(c, err != nil, "%s: the reader failed after %d of %d bytes, without an error", s.name, k, used)
	want(c, errors.Is(err, errBroken), "%s: the reader's error became %v", s.name, err)
	want(c, v == nil, "%s: an error with a result", s.name)
}

// TestC27 checks the generation of random elements and points.
func TestC27(t *testing.T) {
	p := vt.Prop(t, "C27")
	var c *vt.Case
	// nothing tells whether a result is nil, if it comes with an error
	isNil := func(nilp bool, err error) (any, error) {
		want(c, nilp, "an error with a result")
		return nil, err
	}
	sources := []source{
		{"RandFQ", 48, 1, 5, ones(48), func(r io.Reader) (any, error) {
			f, err := bls.RandFQ(r)
			if err != nil {
				return nil, err
			}
			n := lib.FromFQ(f)
			want(c, n.Cmp(Q) < 0, "%#x is not below q", n)
			lib.WantFQ(c, "the element", f, n)
			return string(n.Bytes()), nil
		}},
		{"RandFR", 32, 1, 7, ones(32), func(r io.Reader) (any, error) {
			f, err := bls.RandFR(r)
			if err != nil {
				return isNil(f == nil, err)
			}
			n := lib.FromFR(f)
			want(c, n.Cmp(R) < 0, "%#x is not below r", n)
			lib.WantFR(c, "the element", f, n)
			return string(n.Bytes()), nil
		}},
		{"RandFQ2", 96, 2, 5, ones(48), func(r io.Reader) (any, error) {
			f, err := bls.RandFQ2(r)
			if err != nil {
				return nil, err
			}
			n := lib.FromFQ2(f)
			lib.WantFQ2(c, "the element", f, n)
			return n.String(), nil
		}},
		{"RandFQ6", 288, 6, 5, ones(48), func(r io.Reader) (any, error) {
			f, err := bls.RandFQ6(r)
			if err != nil {
				return isNil(f == nil, err)
			}
			return f.String(), nil
		}},
		{"RandFQ12", 576, 12, 5, ones(48), func(r io.Reader) (any, error) {
			f, err := bls.RandFQ12(r)
			if err != nil {
				return isNil(f == nil, err)
			}
			return f.String(), nil
		}},
		{"RandG1", 49, 1, 5, noPoint(1), func(r io.Reader) (any, error) {
			f, err := bls.RandG1(r)
			if err != nil {
				return isNil(f == nil, err)
			}
			a := lib.R1(f.ToAffine())
			want(c, !a.Inf && model.G1.On(a) && model.G1.InSub(a), "%v is not a finite point of the subgroup", a)
			return a.String(), nil
		}},
		{"RandG2", 97, 2, 5, noPoint(2), func(r io.Reader) (any, error) {
			f, err := bls.RandG2(r)
			if err != nil {
				return isNil(f == nil, err)
			}
			a := lib.R2(f.ToAffine())
			want(c, !a.Inf && model.G2.On(a) && model.G2.InSub(a), "%v is not a finite point of the subgroup", a)
			return a.String(), nil
		}},
	}
	for i, s := range sources {
		n := 3000
		if i == 5 {
			n = 400
		} else if i == 6 {
			n = 160
		}
		p.Check(s.name, n, func(k *vt.Case) {
			c = k
			randomSource(k, s)
		})
		p.Check(s.name+", all bytes matter", []int{300, 300, 200, 60, 40, 24, 16}[i], func(k *vt.Case) {
			c = k
			allMatter(k, s)
		})
	}
	// Bytes that lead to points of small order: x = 0 and others.
	small := func(x int64) []byte {
		var b [48]byte
		binary.BigEndian.PutUint64(b[40:], uint64(x))
		return b[:]
	}
	p.Each("small order", 48, func(k *vt.Case, i int) {
		c = k
		pre := append([]byte{byte(i)}, small(int64(i/4))...)
		if i%4 >= 2 {
			pre = append(pre, small(int64(i/4))...)
		}
		k.Log("prefix", fmt.Sprintf("%x", pre))
		k.Count(true, i)
		for _, s := range sources[5:] {
			_, err := s.f(endless(pre, [32]byte{byte(i)}, 0))
			want(k, err == nil, "%s: %v", s.name, err)
		}
	})
}

// TestC26 checks the maps from field elements to curves.
func TestC26(t *testing.T) {
	p := vt.Prop(t, "C26")
	one2 := model.Fq2.One()
	// t whose maps meet a zero denominator or numerator
	var edge []model.F2
	addRoot := func(e model.F2) {
		if s, ok := model.Fq2.Sqrt(e); ok {
			edge = append(edge, s, model.Fq2.Neg(s))
		}
	}
	xi := model.S2(1, 1)
	addRoot(model.Fq2.Neg(model.Fq2.Inv(xi)))                              // SWU
	addRoot(model.Fq2.Neg(model.Fq2.Add(model.G2.B, one2)))                // SWEncode
	addRoot(model.Fq2.Neg(model.G2.B))                                     // t^2 = -b
	addRoot(model.Fq2.Mul(model.Fq2.Neg(one2), model.Fq2.Inv(model.G2.B))) // t^2 = -1/b
	addRoot(model.Fq2.Inv(xi))
	for _, v := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4, -5, -6, -7, -8} {
		edge = append(edge, model.S2(v, 0), model.S2(0, v), model.S2(v, v), model.S2(v, -v), model.S2(v, 1), model.S2(1, v))
	}
	h := new(I).Rsh(Q, 1) // (q-1)/2
	h1 := new(I).Add(h, one)
	for _, a := range []*I{num(0), num(1), h, h1, new(I).Sub(Q, one)} {
		for _, b := range []*I{num(0), num(1), h, h1, new(I).Sub(Q, one)} {
			edge = append(edge, model.F2{A: a, B: b})
		}
	}
	on3 := func(c *vt.Case, a *bls.G2Affine) {
		want(c, a != nil && !a.IsZero(), "no point")
		q := lib.R2(a)
		want(c, model.E3.On(q), "%v is not on the isogenous curve", q)
	}
	swu := func(c *vt.Case, t model.F2) {
		T := lib.FQ2(t)
		e := model.SWU2(t)
		a := bls.OptimizedSWU2MapHelper(T)
		on3(c, a)
		q := lib.R2(a)
		want(c, model.Fq2.Eq(q.X, e.X) && model.Fq2.Eq(q.Y, e.Y), "SWU of %v: got %v, want %v", t, q, e)
		lib.WantFQ2(c, "t afterwards", T, t)
	}
	enc := func(c *vt.Case, t model.F2) {
		T := lib.FQ2(t)
		e := model.SWEncode(t)
		a := bls.SWEncodeG2(T)
		want(c, a != nil, "no point")
		want(c, a.IsOnCurve() && model.G2.On(lib.R2(a)), "not on the curve")
		lib.G2.WantA(c, "encoding", a, e)
		lib.WantFQ2(c, "t afterwards", T, t)
	}
	trivial := func(t model.F2) bool { return isTriv2(t) }
	p.Check("swu", 6000, func(c *vt.Case) {
		t := c.Fq2("t")
		c.Count(!trivial(t), t)
		swu(c, t)
		if c.Pick(3) == 0 {
			swu(c, model.Fq2.Neg(t))
		} else if c.Pick(3) == 0 {
			swu(c, neighbour2(c, "next", t))
		}
	})
	p.Check("encode", 3000, func(c *vt.Case) {
		t := c.Fq2("t")
		c.Count(!trivial(t), t)
		enc(c, t)
		if c.Pick(3) == 0 {
			enc(c, model.Fq2.Neg(t))
		} else if c.Pick(3) == 0 {
			enc(c, neighbour2(c, "next", t))
		}
	})
	p.Each("edge", len(edge), func(c *vt.Case, i int) {
		c.Log("t", edge[i])
		c.Count(!trivial(edge[i]), i)
		swu(c, edge[i])
		enc(c, edge[i])
	})
	// The maps to the first curve and its isogenies are not exported; they are
	// seen through the hashes.
	p.Check("through the hashes", 1200, func(c *vt.Case) {
		m := c.Msg("message")
		c.Count(len(m) > 0, m)
		lib.G1.WantA(c, "hash to the first group", bls.HashG1(m), lib.Hash1(m))
		if c.Pick(3) == 0 {
			lib.G2.WantA(c, "hash to the second group", bls.HashG2(m), lib.Hash2(m))
		}
	})
	p.Check("clear", 300, func(c *vt.Case) {
		a := lib.G1.AnyPt(c, "p")
		c.Count(!a.Inf, a)
		lib.G1.WantA(c, "cofactor cleared", bls.ClearH(lib.A1(a)), model.G1.Mul(a, model.HEff1))
	})
}
