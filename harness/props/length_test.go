package props

import (
	"fmt"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// Lists of every length up to a bound, and of some beyond it: their contents
// come from the seed.

// lengths are the lengths of lists looked at.
func lengths(fast, slow int, more ...int) []int {
	if !vt.Fast() {
		fast, more = slow, nil
	}
	var l []int
	for i := 1; i <= fast; i++ {
		l = append(l, i)
	}
	return append(l, more...)
}

// signedRow is one entry of a list: a key, a message and the signature.
type signedRow struct {
	pk  lib.PK
	sig lib.SG
	m   []byte
}

// rows makes the first n entries of a list that the seed determines.
type rows struct {
	s      *lib.Scheme
	domain *[8]byte
	run    int // so many successive entries share a message
	l      []signedRow
}

func (r *rows) upTo(n int) []signedRow {
	for i := len(r.l); i < n; i++ {
		tag := vt.Stream([32]byte{byte(vt.Seed()), byte(vt.Seed() >> 8), byte(i / r.run), byte(i / r.run >> 8), byte(r.run)}, 32)
		k, p := r.s.PoolKeyAt(int(tag[0]) + i*i)
		m := tag
		if j := i / r.run; r.domain == nil {
			m = tag[:2+j%31]
			m[0], m[1] = byte(j), byte(j>>8)
		}
		r.l = append(r.l, signedRow{r.s.PubAt(p), r.s.Sign(lib.Msg{M: m, Domain: r.domain}, r.s.Key(k)), m})
	}
	return r.l[:n]
}

// everyLength verifies, for one length, the right sum and the sum without one.
func everyLength(c *vt.Case, r *rows, n int, verify func(lib.SG, []lib.PK, [][]byte) bool) {
	l := r.upTo(n)
	var pubs []lib.PK
	var sigs []lib.SG
	var msgs [][]byte
	for _, x := range l {
		pubs, sigs, msgs = append(pubs, x.pk), append(sigs, x.sig), append(msgs, x.m)
	}
	c.Log("n", n)
	c.Count(true, n)
	want(c, verify(r.s.SigSum(sigs), pubs, msgs), "%s: the sum of %d honest signatures is refused", r.s.Name, n)
	i := n - 1
	if n%3 == 0 {
		i = int(vt.Stream([32]byte{byte(n), byte(vt.Seed()), 1}, 1)[0]) * n / 256
	}
	c.Log("left out", i)
	sigs = append(append([]lib.SG{}, sigs[:i]...), sigs[i+1:]...)
	want(c, !verify(r.s.SigSum(sigs), pubs, msgs), "%s: %d keys and messages: accepted without the signature of %d", r.s.Name, n, i)
}

// lengthsC03 runs aggregates over distinct messages.
func lengthsC03(p *vt.P) {
	each(func(s *lib.Scheme) {
		r := &rows{s: s, run: 1}
		l := lengths(66, 9, 97, 129)
		p.Each(s.Name+" every length", len(l), func(c *vt.Case, i int) {
			everyLength(c, r, l[i], s.VerifyAgg)
		})
	})
}

// lengthsC04 runs those with a domain, and those over one message.
func lengthsC04(p *vt.P) {
	each(func(s *lib.Scheme) {
		one := &rows{s: s, run: 1 << 16}
		if s.Domains {
			d := [8]byte(vt.Stream([32]byte{byte(vt.Seed()), 2}, 8))
			for _, run := range []int{1, 1 << 16} {
				r := &rows{s: s, run: run, domain: &d}
				name, l := " every length with a domain", lengths(66, 9, 97, 129)
				if run > 1 {
					name, l, one = " every length, one message with a domain", lengths(40, 9, 65), r
				}
				p.Each(s.Name+name, len(l), func(c *vt.Case, i int) {
					everyLength(c, r, l[i], func(sig lib.SG, pubs []lib.PK, msgs [][]byte) bool {
						var ms [][32]byte
						for _, m := range msgs {
							ms = append(ms, [32]byte(m))
						}
						return s.VerifyAggD(sig, pubs, ms, d)
					})
				})
			}
		}
		l := lengths(140, 20, 255, 256, 257, 258, 511, 512, 513, 514, 1023, 1025)
		p.Each(s.Name+" every length, common", len(l), func(c *vt.Case, i int) {
			everyLength(c, one, l[i], func(sig lib.SG, pubs []lib.PK, msgs [][]byte) bool {
				return s.VerifyOne(sig, pubs, lib.Msg{M: msgs[0], Domain: one.domain})
			})
		})
	})
}

// lengthsC05 sums lists of every length.
func lengthsC05(p *vt.P) {
	each(func(s *lib.Scheme) {
		l := lengths(300, 70, 511, 512, 513, 514, 767, 769, 1023, 1024, 1025)
		var pubs, sigs []any
		sp, ss := []lib.Point{s.Pub.O}, []lib.Point{s.Sig.O}
		p.Each(s.Name+" every length", len(l), func(c *vt.Case, i int) {
			n := l[i]
			for j := len(pubs); j < n; j++ {
				_, q := s.PoolKeyAt(j*j + vt.Seed())
				pubs, sp = append(pubs, s.PubAt(q)), append(sp, s.Pub.Add(sp[j], q))
				g := s.Sig.PoolAt(j*j + 3*j + vt.Seed())
				sigs, ss = append(sigs, s.SigOf(g)), append(ss, s.Sig.Add(ss[j], g))
			}
			c.Log("n", n)
			c.Count(n > 1, n)
			wantBytes(c, fmt.Sprintf("the sum of %d public keys", n), s.PubBytes(s.PubSum(pubs[:n])), s.Pub.Compress(sp[n]))
			wantBytes(c, fmt.Sprintf("the sum of %d signatures", n), s.SigBytes(s.SigSum(sigs[:n])), s.Sig.Compress(ss[n]))
		})
	})
}

func scalarAt[P any](ks []*I, ps []P, i int) (P, *I) { return ps[i%len(ks)], ks[i%len(ks)] }

// lengthsC14 runs products of every number of pairs.
func lengthsC14(p *vt.P) {
	l := lengths(100, 12, 127, 128, 129, 130, 255, 257)
	var items []bls.MillerLoopItem
	sums := []*I{new(I)}
	p.Each("every number of pairs", len(l), func(c *vt.Case, i int) {
		n := l[i]
		for j := len(items); j < n; j++ {
			P, a := scalarAt(lib.G1.Pool.Scalars, lib.G1.Pool.Sub, j*j+vt.Seed())
			Q, b := scalarAt(lib.G2.Pool.Scalars, lib.G2.Pool.Sub, j*j+2*j+5*vt.Seed())
			items = append(items, item(P, Q))
			sums = append(sums, model.Fr.Add(sums[j], model.Fr.Mul(a, b)))
		}
		c.Log("n", n)
		c.Count(n > 1, n)
		lib.WantFQ12(c, fmt.Sprintf("product of %d pairs", n), bls.FinalExponentiation(bls.MillerLoop(items[:n:n])), model.ET(sums[n]))
	})
}
