package props

import (
	"bytes"
	"fmt"
	"slices"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

// countMsg is what identifies a message to Count.
func msgKey(m lib.Msg) string { return fmt.Sprintf("%x/%v", m.M, m.Domain) }

func each(f func(s *lib.Scheme)) {
	for _, s := range lib.Schemes {
		f(s)
	}
}

// complete checks that an honest signature is the expected point and verifies,
// also after everything went through bytes.
func complete(c *vt.Case, s *lib.Scheme, k *I, pub lib.Point, m lib.Msg) {
	keep := bytes.Clone(m.M)
	sk := s.Key(k)
	pk := s.PubOf(sk)
	wantBytes(c, "public key", s.PubBytes(pk), s.Pub.Compress(pub))
	sig := s.Sign(m, sk)
	e := s.Sig.Compress(s.Sig.Mul(s.Hash(m), k))
	wantBytes(c, "signature", s.SigBytes(sig), e)
	want(c, s.Verify(m, pk, sig), "%s: the signature does not verify", s.Name)

	pk2, err := s.PubFrom(s.PubBytes(pk))
	want(c, err == nil, "%s: public key refused: %v", s.Name, err)
	sig2, err := s.SigFrom(s.SigBytes(sig))
	want(c, err == nil, "%s: signature refused: %v", s.Name, err)
	sk2 := s.KeyFrom(s.KeyBytes(sk))
	want(c, s.Verify(m, pk2, sig2), "%s: the signature does not verify after transport", s.Name)
	switch c2 := len(m.M) % 3; c2 {
	case 0:
		wantBytes(c, "public key of the stored key", s.PubBytes(s.PubOf(sk2)), s.Pub.Compress(pub))
	case 1:
		wantBytes(c, "signature of the stored key", s.SigBytes(s.Sign(m, sk2)), e)
	case 2:
		wantBytes(c, "second signature", s.SigBytes(s.Sign(m, sk)), e)
	}
	wantBytes(c, "the message afterwards", m.M, keep)
	wantNum(c, "the key afterwards", lib.FromFR(s.KeyElement(sk)), k)
}

// TestC01 checks that honest signatures verify.
func TestC01(t *testing.T) {
	p := vt.Prop(t, "C01")
	each(func(s *lib.Scheme) {
		p.Check(s.Name, 700, func(c *vt.Case) {
			k, pub := s.DrawKey(c, "key")
			m := s.DrawMsg(c, "message")
			c.Count(!isTriv(k), k, msgKey(m))
			if m.Domain != nil {
				c.Label("domain")
			}
			complete(c, s, k, pub, m)
		})
		ks := []*I{num(0), num(1), num(2), num(3), new(I).Sub(R, num(1)), new(I).Sub(R, num(2)), new(I).Rsh(R, 1),
			new(I).Lsh(one, 64), new(I).Lsh(one, 128), new(I).Lsh(one, 192), new(I).Lsh(one, 254), new(I).Sub(new(I).Lsh(one, 128), one)}
		ms := []lib.Msg{{M: nil}, {M: []byte{}}, {M: []byte{0}}, {M: make([]byte, 32)}, {M: bytes.Repeat([]byte{0xff}, 65)}}
		if s.Domains {
			ms = append(ms, lib.Msg{M: make([]byte, 32), Domain: &[8]byte{}}, lib.Msg{M: bytes.Repeat([]byte{0xff}, 32), Domain: &[8]byte{255, 255, 255, 255, 255, 255, 255, 255}})
		}
		p.Each(s.Name+" edge", len(ks)*len(ms), func(c *vt.Case, i int) {
			k, m := ks[i/len(ms)], ms[i%len(ms)]
			c.Log("key", hexn(k))
			c.Log("message", m)
			c.Count(k.Sign() > 0, i)
			complete(c, s, k, s.Pub.Mul(s.Pub.Gen, k), m)
		})
	})
}

// forge draws a candidate signature for key k and message m, whose valid
// signature is e.
func forge(c *vt.Case, s *lib.Scheme, k *I, m lib.Msg, e lib.Point) (lib.Point, string) {
	g := s.Sig
	h := s.Hash(m)
	switch c.Int("candidate", 0, 12) {
	case 0:
		return e, "valid"
	case 1:
		return g.Neg(e), "negated"
	case 2:
		return g.Add(e, g.Mul(g.Gen, num(int64(c.Int("n", -3, 3))))), "shifted"
	case 3:
		return g.Endo(e), "same y"
	case 4:
		return g.O, "infinity"
	case 5:
		return h, "the hash"
	case 6:
		return g.Add(e, h), "key plus one"
	case 7:
		return g.Add(e, g.Neg(h)), "key minus one"
	case 8:
		return g.Add(e, e), "doubled"
	case 9, 10: // for a related message or domain
		n := lib.Msg{M: m.M, Domain: m.Domain}
		if m.Domain == nil {
			n.M, _ = c.RelatedMsg("signed", m.M)
			if len(n.M) == 32 && s.Domains && c.Pick(3) == 0 {
				n.Domain = &[8]byte{}
			}
		} else {
			d := *m.Domain
			switch c.Int("how", 0, 3) {
			case 0:
				d[c.Pick(8)] ^= 1 << c.Pick(8)
			case 1:
				d[c.Pick(8)] ^= 0x80
			case 2:
				n.M = bytes.Clone(m.M)
				n.M[c.Pick(32)] ^= 1 << c.Pick(8)
			case 3: // no domain
				return g.Mul(s.Hash(lib.Msg{M: m.M}), k), "without a domain"
			}
			n.Domain = &d
		}
		c.Log("signed", n)
		return g.Mul(s.Hash(n), k), "for another message"
	case 11:
		p, _ := g.Sub(c, "point")
		return p, "a point"
	default:
		k2, _ := s.PoolKey(c)
		return g.Mul(h, k2), "by another key"
	}
}

// TestC02 checks that a signature verifies exactly if it is the right one.
func TestC02(t *testing.T) {
	p := vt.Prop(t, "C02")
	each(func(s *lib.Scheme) {
		p.Check(s.Name, 1200, func(c *vt.Case) {
			g := s.Sig
			k, pub := s.DrawKey(c, "key")
			m := s.DrawMsg(c, "message")
			e := g.Mul(s.Hash(m), k)
			S, how := forge(c, s, k, m, e)
			c.Label(how)
			// verify with the key, or one related to it
			switch c.Int("verifier", 0, 9) {
			case 0:
				k, pub, e = model.Fr.Neg(k), s.Pub.Neg(pub), g.Neg(e)
			case 1:
				k, pub, e = new(I), s.Pub.O, g.O
			case 2:
				k, pub = s.DrawKey(c, "verifier's key")
				e = g.Mul(s.Hash(m), k)
			}
			ok := g.Eq(S, e)
			c.Count(!g.Inf(S) && !s.Pub.Inf(pub), k, msgKey(m), fmt.Sprint(S))
			if ok {
				c.Label("accepted")
			} else {
				c.Label("rejected")
			}
			pk, sig := s.DrawPub(c, pub), s.DrawSig(c, S)
			c.Log("signature", S)
			got := s.Verify(m, pk, sig)
			want(c, got == ok, "%s: a signature (%s) is accepted: %v, should be %v", s.Name, how, got, ok)
			wantBytes(c, "the signature afterwards", s.SigBytes(sig), g.Compress(S))
			wantBytes(c, "the public key afterwards", s.PubBytes(pk), s.Pub.Compress(pub))
		})
		alike(p, s, " one after another", single, 400)
		// infinity in either place
		p.Each(s.Name+" infinity", 4*3, func(c *vt.Case, i int) {
			pub, S := s.Pub.O, s.Sig.O
			if i&1 == 1 {
				pub = s.Pub.Gen
			}
			if i&2 == 2 {
				S = s.Sig.Gen
			}
			m := lib.Msg{M: make([]byte, 32)}
			if i/4 == 1 && s.Domains {
				m.Domain = &[8]byte{1}
			} else if i/4 == 2 {
				m.M = nil
			}
			c.Log("message", m)
			c.Log("public key", pub)
			c.Log("signature", S)
			c.Count(true, i)
			got := s.Verify(m, s.PubAt(pub), s.SigOf(S))
			want(c, got == (i&3 == 0), "%s: accepted: %v", s.Name, got)
			if i&1 == 0 { // blank aggregates too
				got := s.Verify(m, s.PubBlank(), s.SigOf(S))
				want(c, got == (i&3 == 0), "%s: with a blank key, accepted: %v", s.Name, got)
			}
			if i&2 == 0 {
				got := s.Verify(m, s.PubAt(pub), s.SigBlank())
				want(c, got == (i&3 == 0), "%s: a blank signature, accepted: %v", s.Name, got)
			}
		})
	})
}

// worth is the encodings of some keys and a signature.
func worth(s *lib.Scheme, pubs []lib.PK, sig lib.SG) string {
	l := [][]byte{s.SigBytes(sig)}
	for i, p := range pubs {
		if i < 6 || i == len(pubs)-1 {
			l = append(l, s.PubBytes(p))
		}
	}
	return fmt.Sprintf("%x", l)
}

type signer struct {
	k   *I
	pub lib.Point
	m   []byte
}

// freshMsg is distinct from the others with high probability.
func someMsg(c *vt.Case) []byte {
	if c.Pick(12) == 0 {
		return c.Msg("message")
	}
	return lib.PoolMsg(c)
}

func distinct(l []signer) bool {
	seen := map[string]bool{}
	for _, x := range l {
		if seen[string(x.m)] {
			return false
		}
		seen[string(x.m)] = true
	}
	return true
}

func aggSize(c *vt.Case) int {
	switch c.Pick(12) {
	case 0:
		return c.Int("n", 0, 1)
	case 1:
		return c.Int("n", 8, 16)
	case 2, 3:
		return c.Int("n", 4, 8)
	}
	return c.Int("n", 1, 4)
}

// longSize draws the length of a long list.
func longSize(c *vt.Case) int {
	switch c.Pick(10) {
	case 0:
		return c.Int("n", 126, 300)
	case 1, 2, 3:
		return c.Int("n", 41, 132)
	}
	return c.Int("n", 13, 40)
}

// sumOf is the sum of the valid signatures.
func sumOf(s *lib.Scheme, l []signer) lib.Point {
	e := s.Sig.O
	for _, x := range l {
		e = s.Sig.Add(e, s.Sig.Mul(s.Hash(lib.Msg{M: x.m}), x.k))
	}
	return e
}

// TestC03 checks aggregates over distinct messages.
func TestC03(t *testing.T) {
	p := vt.Prop(t, "C03")
	lengthsC03(p)
	run := func(c *vt.Case, s *lib.Scheme, sig lib.SG, pubs []lib.PK, msgs [][]byte, ok bool, how string) {
		k1, k2 := append([]lib.PK{}, pubs...), make([][]byte, len(msgs))
		kb := make([][]byte, len(msgs))
		copy(k2, msgs)
		for i := range msgs {
			kb[i] = bytes.Clone(msgs[i])
		}
		was := worth(s, pubs, sig)
		got := s.VerifyAgg(sig, pubs, msgs)
		want(c, got == ok, "%s: %d keys, %d messages, %s: accepted: %v, should be %v", s.Name, len(pubs), len(msgs), how, got, ok)
		want(c, worth(s, pubs, sig) == was, "%s: verification changed a key or the signature", s.Name)
		for i := range msgs {
			same := len(msgs[i]) == len(k2[i]) && (len(k2[i]) == 0 || &msgs[i][0] == &k2[i][0])
			want(c, same && bytes.Equal(msgs[i], kb[i]), "%s: the caller's message %d was changed or moved", s.Name, i)
		}
		for i := range pubs {
			want(c, pubs[i] == k1[i], "%s: the caller's key %d was moved", s.Name, i)
		}
	}
	each(func(s *lib.Scheme) {
		g := s.Sig
		p.Check(s.Name, 560, func(c *vt.Case) {
			n := aggSize(c)
			var l []signer
			for i := 0; i < n; i++ {
				k, pub := s.PoolKey(c)
				if c.Pick(20) == 0 {
					k, pub = new(I), s.Pub.O
				}
				m := someMsg(c)
				if i > 0 && c.Pick(5) == 0 { // the key of another signer, or its opposite
					x := l[c.Pick(i)]
					k, pub = x.k, x.pub
					if c.Pick(2) == 0 {
						k, pub = model.Fr.Neg(k), s.Pub.Neg(pub)
					}
				}
				if i > 0 && c.Pick(5) == 0 { // almost the message of another
					if c.Pick(2) == 0 {
						m, _ = c.RelatedMsg("message", l[c.Pick(i)].m)
					} else {
						m = c.AlikeMsg("message", l[c.Pick(i)].m)
					}
				}
				l = append(l, signer{k, pub, m})
			}
			// usually distinct
			for i := 0; i < 30 && !distinct(l); i++ {
				for j := range l {
					for h := range l[:j] {
						if bytes.Equal(l[j].m, l[h].m) {
							l[j].m = someMsg(c)
						}
					}
				}
			}
			S := sumOf(s, l)
			how := "valid"
			at := func() int { return c.Pick(len(l)) }
			sw := c.Int("change", 0, 16)
			if n == 0 && sw >= 6 && sw < 16 {
				sw = 0
			}
			switch sw {
			case 0, 1:
			case 2:
				S, how = g.Add(S, g.Mul(g.Gen, num(int64(c.Int("d", 1, 3))))), "shifted signature"
			case 3:
				S, how = g.Neg(S), "negated signature"
			case 4:
				S, how = g.O, "blank signature"
			case 5:
				S, how = g.Add(S, S), "doubled signature"
			case 6:
				x := l[at()]
				S, how = g.Add(S, g.Neg(sumOf(s, []signer{x}))), "one left out"
			case 7:
				x := l[at()]
				S, how = g.Add(S, sumOf(s, []signer{x})), "one added twice"
			case 8:
				i, j := at(), at()
				l[i].m, l[j].m = l[j].m, l[i].m
				how = "messages swapped"
			case 9:
				i := at()
				l[i].m, how = c.RelatedMsg("message", l[i].m)
			case 10:
				i := at()
				l[i].k, l[i].pub = s.PoolKey(c)
				how = "another key"
			case 11:
				i, j := at(), at()
				d, D := s.PoolKey(c)
				l[i].k, l[i].pub = model.Fr.Add(l[i].k, d), s.Pub.Add(l[i].pub, D)
				l[j].k, l[j].pub = model.Fr.Sub(l[j].k, d), s.Pub.Add(l[j].pub, s.Pub.Neg(D))
				how = "keys with the same sum"
			case 12, 13: // the same message twice, signed accordingly
				i := at()
				k, pub := s.PoolKey(c)
				x := signer{k, pub, bytes.Clone(l[i].m)}
				S = g.Add(S, sumOf(s, []signer{x}))
				j := c.Pick(len(l) + 1)
				l = append(l[:j:j], append([]signer{x}, l[j:]...)...)
				how = "repeated message"
				if len(x.m) == 0 {
					how = "repeated empty message"
				}
			case 14: // a signer that cancels itself
				i := at()
				x := signer{model.Fr.Neg(l[i].k), s.Pub.Neg(l[i].pub), bytes.Clone(l[i].m)}
				l = append(l, x)
				S = g.Add(S, sumOf(s, []signer{x}))
				how = "repeated message that cancels"
			case 15:
				l[0].m = nil
				S = sumOf(s, l)
				how = "with an empty message"
			}
			c.Label(how)
			// in any order
			for i := range l {
				j := i + c.Pick(len(l)-i)
				l[i], l[j] = l[j], l[i]
			}
			ok := distinct(l) && g.Eq(S, sumOf(s, l))
			var pubs []lib.PK
			var msgs [][]byte
			var key []any
			for i, x := range l {
				c.Log(fmt.Sprintf("key %d", i), hexn(x.k))
				c.Log(fmt.Sprintf("message %d", i), lib.Msg{M: x.m})
				pubs = append(pubs, s.DrawPub(c, x.pub))
				if len(x.m) == 0 {
					x.m = [][]byte{nil, {}}[c.Pick(2)]
				}
				msgs = append(msgs, x.m)
				key = append(key, x.k, x.m)
			}
			if sw == 1 || sw == 16 {
				// different numbers of keys and messages, whatever the sum
				switch {
				case c.Bool("fewer keys") && n > 0:
					i := c.Pick(n)
					if c.Pick(2) == 0 { // the rest matches
						S = g.Add(S, g.Neg(sumOf(s, l[n-1:])))
						i = n - 1
					}
					pubs = append(pubs[:i:i], pubs[i+1:]...)
				case c.Bool("more keys"):
					for i := c.Int("more", 1, 3); i > 0; i-- {
						_, P := s.PoolKey(c)
						if c.Pick(2) == 0 {
							P = s.Pub.O
						}
						pubs = append(pubs, s.PubAt(P))
					}
				default:
					msgs = append(msgs, someMsg(c))
				}
				ok, how = false, "different numbers"
				c.Label(how)
			}
			c.Count(len(l) > 1, append(key, how, fmt.Sprint(S), len(pubs), len(msgs))...)
			c.Log("signature", S)
			if ok {
				c.Label("accepted")
			}
			run(c, s, s.DrawSig(c, S), pubs, msgs, ok, how)
		})
		alike(p, s, " one after another", listed, 160)
		// Long lists, with one message repeated at two places, another change, or none.
		p.Check(s.Name+" long", 40, func(c *vt.Case) {
			n := longSize(c)
			var pubs []lib.PK
			var sigs []lib.SG
			var msgs [][]byte
			i, j := c.Int("i", 0, n-1), c.Int("j", 0, n-1)
			ch := c.Int("change", 0, 8)
			tag := c.Uniform("tag", 8)
			same := c.Int("length", 0, 40)
			for x := 0; x < n; x++ {
				m := append(bytes.Repeat([]byte{7}, same), tag...)
				y := x
				if x == j && ch < 3 {
					y = i
				}
				m = append(m, byte(y), byte(y>>8))
				k, pub := s.PoolKey(c)
				pubs = append(pubs, s.PubAt(pub))
				sigs = append(sigs, s.Sign(lib.Msg{M: m}, s.Key(k)))
				msgs = append(msgs, m)
			}
			sig := s.SigSum(sigs)
			ok, how := true, "long"
			switch ch {
			case 0, 1, 2:
				ok, how = i == j, "long, message repeated"
			case 3:
				_, q := s.PoolKey(c)
				ok, how = bytes.Equal(s.PubBytes(pubs[i]), s.Pub.Compress(q)), "long, another key"
				pubs[i] = s.PubAt(q)
			case 4:
				ok = i == j || bytes.Equal(s.PubBytes(pubs[i]), s.PubBytes(pubs[j]))
				msgs[i], msgs[j] = msgs[j], msgs[i]
				how = "long, messages swapped"
			case 5:
				msgs[i] = bytes.Clone(msgs[i])
				msgs[i][c.Pick(len(msgs[i])-2)] ^= 1
				ok, how = false, "long, another message"
			case 6:
				sigs[i] = s.SigOf(g.Gen)
				sig, ok, how = s.SigSum(sigs), false, "long, another signature"
			}
			c.Label(how)
			c.Count(true, tag, i, j, n)
			run(c, s, sig, pubs, msgs, ok, how)
		})
		p.Each(s.Name+" nothing", 4, func(c *vt.Case, i int) {
			c.Count(true, i)
			sig := s.SigBlank()
			if i&1 == 1 {
				sig = s.SigOf(g.Gen)
			}
			if i&2 == 2 {
				run(c, s, sig, []lib.PK{}, [][]byte{}, i&1 == 0, "empty lists")
			} else {
				run(c, s, sig, nil, nil, i&1 == 0, "nil lists")
			}
		})
	})
}

// TestC04 checks aggregates over one message, and those with a domain.
func TestC04(t *testing.T) {
	p := vt.Prop(t, "C04")
	lengthsC04(p)
	each(func(s *lib.Scheme) {
		g := s.Sig
		p.Check(s.Name+" common", 1000, func(c *vt.Case) {
			n := 0
			switch c.Pick(6) {
			case 0:
				n = c.Int("n", 0, 1)
			case 1:
				n = c.Int("n", 10, 100)
			case 2:
				switch c.Pick(12) {
				case 0, 1, 2:
					n = c.Int("n", 200, 300)
				case 3:
					n = c.Int("n", 301, 1100)
				}
			default:
				n = c.Int("n", 2, 9)
			}
			var ks []*I
			var pts []lib.Point
			for i := 0; i < n; i++ {
				k, pub := s.PoolKey(c)
				if c.Pick(15) == 0 {
					k, pub = new(I), s.Pub.O
				}
				if i > 0 && c.Pick(6) == 0 { // one of the others again, or its opposite
					j := c.Pick(i)
					k, pub = ks[j], pts[j]
					if c.Pick(2) == 0 {
						k, pub = model.Fr.Neg(k), s.Pub.Neg(pub)
					}
				}
				ks, pts = append(ks, k), append(pts, pub)
			}
			m := s.DrawMsg(c, "message")
			sum := func() *I {
				t := new(I)
				for _, k := range ks {
					t.Add(t, k)
				}
				return model.Fr.Of(t)
			}
			K := sum()
			S, how := forge(c, s, K, m, g.Mul(s.Hash(m), K))
			// changes of the keys
			switch x := c.Int("change", 0, 9); {
			case x == 0 && n > 0:
				i := c.Pick(n)
				ks, pts = append(ks[:i:i], ks[i+1:]...), append(pts[:i:i], pts[i+1:]...)
				how += ", a key left out"
			case x == 1 && n > 0:
				i := c.Pick(n)
				ks, pts = append(ks, ks[i]), append(pts, pts[i])
				how += ", a key twice"
			case x == 2 && n > 0:
				i := c.Pick(n)
				ks[i], pts[i] = model.Fr.Neg(ks[i]), s.Pub.Neg(pts[i])
				how += ", a key negated"
			case x == 3 && n > 1:
				d, D := s.PoolKey(c)
				ks[0], pts[0] = model.Fr.Add(ks[0], d), s.Pub.Add(pts[0], D)
				ks[1], pts[1] = model.Fr.Sub(ks[1], d), s.Pub.Add(pts[1], s.Pub.Neg(D))
				how += ", keys with the same sum"
			}
			K = sum()
			ok := g.Eq(S, g.Mul(s.Hash(m), K))
			c.Label(how)
			if ok {
				c.Label("accepted")
			}
			var pubs []lib.PK
			for i := range pts {
				if i < 10 {
					pubs = append(pubs, s.DrawPub(c, pts[i]))
				} else {
					pubs = append(pubs, s.PubAt(pts[i]))
				}
				c.Log(fmt.Sprintf("key %d", i), hexn(ks[i]))
			}
			c.Log("signature", S)
			c.Count(n > 1, K, n, msgKey(m), fmt.Sprint(S))
			if c.Bool("backwards") {
				for i, j := 0, len(pubs)-1; i < j; i, j = i+1, j-1 {
					pubs[i], pubs[j], pts[i], pts[j] = pubs[j], pubs[i], pts[j], pts[i]
				}
			}
			sig, list := s.DrawSig(c, S), append([]lib.PK{}, pubs...)
			got := s.VerifyOne(sig, pubs, m)
			want(c, got == ok, "%s: %d keys, %s: accepted: %v, should be %v", s.Name, len(pubs), how, got, ok)
			for i := range pubs {
				want(c, pubs[i] == list[i], "%s: the caller's key %d was moved", s.Name, i)
				if i < 6 || i == len(pubs)-1 {
					wantBytes(c, fmt.Sprintf("key %d afterwards", i), s.PubBytes(pubs[i]), s.Pub.Compress(pts[i]))
				}
			}
			wantBytes(c, "the signature afterwards", s.SigBytes(sig), g.Compress(S))
		})
		alike(p, s, " common, one after another", common, 200)
		if !s.Domains {
			return
		}
		alike(p, s, " with a domain, one after another", listedD, 160)
		p.Check(s.Name+" messages with a domain", 560, func(c *vt.Case) {
			n := c.Int("n", 0, 5)
			if c.Pick(10) == 0 {
				n = c.Int("n", 6, 12)
			}
			d := lib.DrawDomain(c)
			sum := func(l []signer, d [8]byte) lib.Point {
				e := g.O
				for _, x := range l {
					e = g.Add(e, g.Mul(s.Hash(lib.Msg{M: x.m, Domain: &d}), x.k))
				}
				return e
			}
			var l []signer
			for i := 0; i < n; i++ {
				k, pub := s.PoolKey(c)
				if c.Pick(20) == 0 {
					k, pub = new(I), s.Pub.O
				}
				m := lib.PoolMsg32(c)
				if i > 0 && c.Pick(5) == 0 { // the key of another signer, or its opposite
					x := l[c.Pick(i)]
					k, pub = x.k, x.pub
					if c.Pick(2) == 0 {
						k, pub = model.Fr.Neg(k), s.Pub.Neg(pub)
					}
				}
				if i > 0 && c.Pick(6) == 0 { // almost the message of another
					m = bytes.Clone(l[c.Pick(i)].m)
					m[c.Pick(32)] ^= 1 << c.Pick(8)
				}
				l = append(l, signer{k, pub, m})
			}
			for tries := 0; tries < 40 && !distinct(l); tries++ {
				for j := range l {
					for h := range l[:j] {
						if bytes.Equal(l[j].m, l[h].m) {
							l[j].m = append([]byte{}, c.Uniform("message", 32)...)
						}
					}
				}
			}
			S, how, e := sum(l, d), "valid", d
			ch := c.Int("change", 0, 13)
			if n == 0 && ch >= 5 {
				ch = 0
			}
			switch ch {
			case 0, 1:
			case 2:
				S, how = g.Add(S, g.Mul(g.Gen, num(int64(c.Int("d", 1, 3))))), "shifted signature"
			case 3:
				S, how = g.Neg(S), "negated signature"
			case 4:
				S, how = g.O, "blank signature"
			case 5:
				e[c.Pick(8)] ^= 1 << c.Pick(8)
				how = "another domain"
			case 6:
				i, j := c.Pick(n), c.Pick(n)
				l[i].m, l[j].m = l[j].m, l[i].m
				how = "messages swapped"
			case 7:
				i := c.Pick(n)
				l[i].m[c.Pick(32)] ^= 1 << c.Pick(8)
				how = "another message"
			case 8:
				i := c.Pick(n)
				l[i].k, l[i].pub = s.PoolKey(c)
				how = "another key"
			case 9:
				i, j := c.Pick(n), c.Pick(n)
				t, T := s.PoolKey(c)
				l[i].k, l[i].pub = model.Fr.Add(l[i].k, t), s.Pub.Add(l[i].pub, T)
				l[j].k, l[j].pub = model.Fr.Sub(l[j].k, t), s.Pub.Add(l[j].pub, s.Pub.Neg(T))
				how = "keys with the same sum"
			case 10:
				i := c.Pick(n)
				S, how = g.Add(S, g.Neg(sum(l[i:i+1], d))), "one left out"
			case 11, 12, 13:
				how = "different numbers"
			}
			for i := range l {
				j := i + c.Pick(len(l)-i)
				l[i], l[j] = l[j], l[i]
			}
			ok := g.Eq(S, sum(l, e))
			if !distinct(l) && ok {
				// nothing is promised about repeated messages
				S = g.Add(S, g.Gen)
				ok = g.Eq(S, sum(l, e))
			}
			var pubs []lib.PK
			var msgs [][32]byte
			var key []any
			for i, x := range l {
				c.Log(fmt.Sprintf("key %d", i), hexn(x.k))
				c.Log(fmt.Sprintf("message %d", i), fmt.Sprintf("%x", x.m))
				pubs = append(pubs, s.DrawPub(c, x.pub))
				msgs = append(msgs, [32]byte(x.m))
				key = append(key, x.k, x.m)
			}
			switch {
			case ch == 11 && n > 0:
				i := c.Pick(n)
				S, ok = g.Add(S, g.Neg(sum(l[n-1:], d))), false
				if c.Pick(2) == 0 {
					i = n - 1
				}
				pubs = append(pubs[:i:i], pubs[i+1:]...)
			case ch == 12:
				P := s.Pub.O
				if c.Pick(2) == 0 {
					_, P = s.PoolKey(c)
				}
				pubs, ok = append(pubs, s.PubAt(P)), false
			case ch == 13:
				msgs, ok = append(msgs, [32]byte{}), false
			}
			c.Label(how)
			if ok {
				c.Label("accepted")
			}
			c.Log("domain", fmt.Sprintf("%x", e))
			c.Log("signature", S)
			c.Count(n > 1, append(key, e, fmt.Sprint(S), how)...)
			sig := s.DrawSig(c, S)
			was, list, mlist := worth(s, pubs, sig), append([]lib.PK{}, pubs...), append([][32]byte{}, msgs...)
			got := s.VerifyAggD(sig, pubs, msgs, e)
			want(c, got == ok, "%s: %d keys, %d messages, %s: accepted: %v, should be %v", s.Name, len(pubs), len(msgs), how, got, ok)
			want(c, worth(s, pubs, sig) == was, "%s: verification changed a key or the signature", s.Name)
			want(c, slices.Equal(pubs, list) && slices.Equal(msgs, mlist), "%s: the caller's lists were changed", s.Name)
		})
		p.Check(s.Name+" long with a domain", 32, func(c *vt.Case) {
			n := longSize(c)
			var pubs []lib.PK
			var sigs []lib.SG
			var msgs [][32]byte
			i, j := c.Int("i", 0, n-1), c.Int("j", 0, n-1)
			ch := c.Int("change", 0, 8)
			d := lib.DrawDomain(c)
			tag := c.Bytes32("tag")
			// a few messages only, one after the other or in turns, or all distinct
			few := 1 << 30
			runs := false
			switch c.Pick(4) {
			case 0:
				few = c.Int("messages", 1, 4)
			case 1:
				few, runs = c.Int("run", 2, n), true
			}
			for x := 0; x < n; x++ {
				y := x % few
				if runs {
					y = x / few
				}
				m := tag
				m[y%8*4] = byte(y)
				m[1], m[2] = byte(y), byte(y>>8)
				k, pub := s.PoolKey(c)
				pubs = append(pubs, s.PubAt(pub))
				sigs = append(sigs, s.Sign(lib.Msg{M: m[:], Domain: &d}, s.Key(k)))
				msgs = append(msgs, m)
			}
			sig := s.SigSum(sigs)
			ok, how := true, "long"
			if few < n {
				c.Label("long, equal messages")
			}
			switch ch {
			case 0:
				_, q := s.PoolKey(c)
				ok, how = bytes.Equal(s.PubBytes(pubs[i]), s.Pub.Compress(q)), "long, another key"
				pubs[i] = s.PubAt(q)
			case 1:
				ok = i == j || msgs[i] == msgs[j] || bytes.Equal(s.PubBytes(pubs[i]), s.PubBytes(pubs[j]))
				msgs[i], msgs[j] = msgs[j], msgs[i]
				how = "long, messages swapped"
			case 2:
				msgs[i][3+c.Pick(29)] ^= 1 << c.Pick(8)
				ok, how = false, "long, another message"
			case 3:
				sigs[i] = s.SigOf(g.Gen)
				sig, ok, how = s.SigSum(sigs), false, "long, another signature"
			case 4:
				d[c.Pick(8)] ^= 1 << c.Pick(8)
				ok, how = false, "long, another domain"
			}
			c.Label(how)
			c.Count(true, tag, d, i, j, n)
			got := s.VerifyAggD(sig, pubs, msgs, d)
			want(c, got == ok, "%s: %d keys, %s: accepted: %v, should be %v", s.Name, n, how, got, ok)
		})
	})
}

// machine runs a history of aggregations of signatures or of public keys.
type machine struct {
	g        *lib.EG
	at       func(lib.Point) any
	copy     func(any) any
	add      func(a, b any)
	sum      func([]any) any
	blank    func() any
	scramble func(any)
	bytes    func(any) []byte
	point    func(any) lib.Point
}

func (x *machine) run(c *vt.Case, name string) {
	type v struct {
		s any
		p lib.Point
	}
	var l []v
	draw := func() lib.Point {
		switch c.Pick(6) {
		case 0:
			return x.g.Any(c, "point")
		case 1:
			if len(l) > 0 {
				return x.g.Neg(l[c.Pick(len(l))].p)
			}
		case 2:
			if len(l) > 0 {
				return l[c.Pick(len(l))].p
			}
		}
		p, _ := x.g.Sub(c, "point")
		return p
	}
	n := c.Int("steps", 1, 24)
	for i := 0; i < 2; i++ {
		p := draw()
		l = append(l, v{x.at(p), p})
	}
	var hist []string
	inverses := false
	for i := 0; i < n; i++ {
		a, b := c.Pick(len(l)), c.Pick(len(l))
		d := ""
		switch c.Pick(9) {
		case 0:
			p := draw()
			l = append(l, v{x.at(p), p})
			d = fmt.Sprintf("new %v", p)
		case 1:
			l = append(l, v{x.blank(), x.g.O})
			d = "blank"
		case 2:
			l = append(l, v{x.copy(l[a].s), l[a].p})
			d = fmt.Sprintf("copy of %d", a)
		case 3:
			x.scramble(l[a].s)
			d = fmt.Sprintf("change the point taken from %d", a)
		case 4: // sum of some
			k := c.Pick(len(l) + 2)
			var in []any
			var at []int
			p := x.g.O
			for ; k > 0; k-- {
				j := c.Pick(len(l))
				in, at, p = append(in, l[j].s), append(at, j), x.g.Add(p, l[j].p)
			}
			l = append(l, v{x.sum(in), p})
			d = fmt.Sprintf("sum of %v", at)
		default:
			inverses = inverses || x.g.Eq(l[a].p, x.g.Neg(l[b].p))
			p := x.g.Add(l[a].p, l[b].p)
			x.add(l[a].s, l[b].s)
			l[a].p = p
			d = fmt.Sprintf("%d += %d", a, b)
		}
		hist = append(hist, d)
		c.Log(fmt.Sprintf("step %d", i), d)
		j := c.Pick(len(l))
		wantBytes(c, fmt.Sprintf("%s: value %d after step %d (%s)", name, j, i, d), x.bytes(l[j].s), x.g.Compress(l[j].p))
	}
	if inverses {
		c.Label("opposites met")
	}
	c.Count(n > 2, fmt.Sprint(hist), fmt.Sprint(l[0].p))
	for j, e := range l {
		wantBytes(c, fmt.Sprintf("%s: value %d at the end", name, j), x.bytes(e.s), x.g.Compress(e.p))
		want(c, x.g.Eq(x.point(e.s), e.p), "%s: the point of value %d differs from its encoding", name, j)
	}
	// the same from scratch, in another order
	all := x.blank()
	p := x.g.O
	var in []any
	for j := len(l) - 1; j >= 0; j-- {
		x.add(all, l[j].s)
		in = append(in, l[j].s)
		p = x.g.Add(p, l[j].p)
	}
	wantBytes(c, name+": the sum of all, one by one", x.bytes(all), x.g.Compress(p))
	wantBytes(c, name+": the sum of all", x.bytes(x.sum(in)), x.g.Compress(p))
	wantBytes(c, name+": a blank afterwards", x.bytes(x.blank()), x.g.Compress(x.g.O))
	wantBytes(c, name+": the sum of none", x.bytes(x.sum(nil)), x.g.Compress(x.g.O))
}

// TestC05 checks histories of aggregation.
func TestC05(t *testing.T) {
	p := vt.Prop(t, "C05")
	lengthsC05(p)
	each(func(s *lib.Scheme) {
		sig := &machine{s.Sig, s.SigOf, s.SigCopy, s.SigAdd, s.SigSum, s.SigBlank, s.SigScramble, s.SigBytes, s.SigPoint}
		pub := &machine{s.Pub, s.PubAt, s.PubCopy, s.PubAdd, s.PubSum, s.PubBlank, s.PubScramble, s.PubBytes, s.PubPoint}
		p.Check(s.Name+" signatures", 2000, func(c *vt.Case) { sig.run(c, s.Name+" signatures") })
		p.Check(s.Name+" public keys", 2000, func(c *vt.Case) { pub.run(c, s.Name+" public keys") })
		p.Check(s.Name+" many", 40, func(c *vt.Case) {
			n := 0
			if c.Pick(6) == 0 {
				n = c.Int("n", 301, 1100)
			} else {
				n = c.Int("n", 30, 300)
			}
			var a, b []any
			A, B := s.Sig.O, s.Pub.O
			for i := 0; i < n; i++ {
				_, q := s.PoolKey(c)
				if c.Pick(10) == 0 {
					q = s.Pub.O
				}
				b, B = append(b, s.PubAt(q)), s.Pub.Add(B, q)
				q, _ = s.Sig.Sub(c, "point")
				a, A = append(a, s.SigOf(q)), s.Sig.Add(A, q)
			}
			c.Count(true, fmt.Sprint(A), fmt.Sprint(B))
			wantBytes(c, "sum of signatures", s.SigBytes(s.SigSum(a)), s.Sig.Compress(A))
			wantBytes(c, "sum of public keys", s.PubBytes(s.PubSum(b)), s.Pub.Compress(B))
		})
	})
}

// TestC08 checks the encodings of keys and signatures.
func TestC08(t *testing.T) {
	p := vt.Prop(t, "C08")
	type kind struct {
		name string
		g    *lib.EG
		draw func(*vt.Case, lib.Point) any
		ser  func(any) []byte
		de   func([]byte) (any, error)
		pt   func(any) lib.Point
	}
	each(func(s *lib.Scheme) {
		for _, x := range []kind{
			{s.Name + " signature", s.Sig, s.DrawSig, s.SigBytes, s.SigFrom, s.SigPoint},
			{s.Name + " public key", s.Pub, s.DrawPub, s.PubBytes, s.PubFrom, s.PubPoint},
		} {
			p.Check(x.name, 900, func(c *vt.Case) {
				var a lib.Point
				if c.Bool("in the subgroup") {
					a, _ = x.g.Sub(c, "point")
				} else {
					a = x.g.Any(c, "point")
				}
				b := x.ser(x.draw(c, a))
				wantBytes(c, x.name+": encoded", b, x.g.Compress(a))
				if c.Bool("damaged") {
					b = x.g.Damage(c, a)
				}
				in := bytes.Clone(b)
				m, ok := x.g.Decompress(b)
				ok = ok && x.g.InSub(m)
				c.Count(!ok || !x.g.Inf(m), b)
				v, err := x.de(b)
				want(c, (err == nil) == ok, "%s: %x accepted: %v, should be %v (%v)", x.name, b, err == nil, ok, err)
				if ok {
					c.Label("accepted")
					wantBytes(c, x.name+": decoded and encoded", x.ser(v), in)
					want(c, x.g.Eq(x.pt(v), m), "%s: decoded to another point", x.name)
				} else {
					c.Label("refused")
					want(c, v == nil, "%s: refused but returned", x.name)
				}
				wantBytes(c, "the bytes afterwards", b, in)
			})
		}
		p.Check(s.Name+" secret key", 6000, func(c *vt.Case) {
			k := c.Fr("key")
			if c.Pick(4) == 0 {
				k = new(I).SetBytes(k.Bytes()[:len(k.Bytes())*c.Pick(5)/5]) // shorter
			}
			c.Count(!isTriv(k), k)
			var b [32]byte
			k.FillBytes(b[:])
			sk := s.Key(k)
			x := s.KeyBytes(sk)
			wantBytes(c, s.Name+": secret key", x[:], b[:])
			in := b
			sk2 := s.KeyFrom(b)
			want(c, !s.IsNilKey(sk2), "%s: no key", s.Name)
			lib.WantFR(c, "the key", s.KeyElement(sk2), k)
			x = s.KeyBytes(sk2)
			wantBytes(c, s.Name+": decoded and encoded secret key", x[:], in[:])
			r := lib.RRepr(k)
			sk3 := s.KeyOf(r)
			x = s.KeyBytes(sk3)
			wantBytes(c, s.Name+": secret key from a number", x[:], b[:])
			wantNum(c, "the number afterwards", lib.FromRR(r), k)
			x = s.KeyBytes(sk)
			wantBytes(c, s.Name+": encoded again", x[:], b[:])
		})
		p.Check(s.Name+" not a secret key", 3000, func(c *vt.Case) {
			k := c.UInt("number", 4, R)
			if k.Cmp(R) < 0 {
				k = k.Add(k, R)
				if k.BitLen() > 256 {
					k = new(I).Set(R)
				}
			}
			c.Count(true, k)
			var b [32]byte
			k.FillBytes(b[:])
			c.Log("bytes", fmt.Sprintf("%x", b))
			var e *bls.FR
			if sk := s.KeyFrom(b); !s.IsNilKey(sk) {
				e = s.KeyElement(sk)
			}
			want(c, e == nil, "%s: a secret key from %x: %v", s.Name, b, e)
		})
		p.Check(s.Name+" equal keys", 3000, func(c *vt.Case) {
			a, _ := s.Pub.Sub(c, "a")
			b, _ := s.Pub.Sub(c, "b")
			switch c.Int("relation", 0, 5) {
			case 0, 1:
				b = a
			case 2:
				b = s.Pub.Neg(a)
			case 3:
				b = s.Pub.Endo(a)
			}
			c.Count(!s.Pub.Inf(a) && !s.Pub.Inf(b), fmt.Sprint(a, b))
			A, B := s.PubAt(a), s.PubAt(b)
			// in another representation
			if c.Bool("summed") {
				t, _ := s.Pub.Sub(c, "t")
				B = s.PubAt(s.Pub.Add(b, t))
				s.PubAdd(B, s.PubAt(s.Pub.Neg(t)))
			}
			ok := s.Pub.Eq(a, b)
			want(c, s.PubEq(A, B) == ok && s.PubEq(B, A) == ok, "%s: keys equal: %v, should be %v", s.Name, s.PubEq(A, B), ok)
			want(c, s.PubEq(A, A) && s.PubEq(B, s.PubCopy(B)), "%s: a key does not equal itself", s.Name)
			want(c, bytes.Equal(s.PubBytes(A), s.PubBytes(B)) == ok, "%s: encodings equal: %v", s.Name, !ok)
			if !s.Pub.Inf(a) && !s.Pub.Inf(b) {
				want(c, (fmt.Sprint(A) == fmt.Sprint(B)) == ok, "%s: texts equal: %v", s.Name, !ok)
			}
		})
		p.Check(s.Name+" equal signatures", 1500, func(c *vt.Case) {
			a, _ := s.Sig.Sub(c, "a")
			b, _ := s.Sig.Sub(c, "b")
			switch c.Int("relation", 0, 4) {
			case 0, 1:
				b = a
			case 2:
				b = s.Sig.Neg(a)
			case 3:
				b = s.Sig.Endo(a)
			}
			c.Count(!s.Sig.Inf(a) && !s.Sig.Inf(b), fmt.Sprint(a, b))
			A, B := s.SigOf(a), s.SigOf(b)
			if c.Bool("summed") {
				t, _ := s.Sig.Sub(c, "t")
				B = s.SigOf(s.Sig.Add(b, t))
				s.SigAdd(B, s.SigOf(s.Sig.Neg(t)))
			}
			ok := s.Sig.Eq(a, b)
			want(c, bytes.Equal(s.SigBytes(A), s.SigBytes(B)) == ok, "%s: encodings equal: %v", s.Name, !ok)
			if !s.Sig.Inf(a) && !s.Sig.Inf(b) {
				want(c, (fmt.Sprint(A) == fmt.Sprint(B)) == ok, "%s: texts equal: %v", s.Name, !ok)
			}
		})
		p.Check(s.Name+" texts of secret keys", 1500, func(c *vt.Case) {
			a, b := c.Fr("a"), c.Fr("b")
			if c.Bool("same") {
				b = a
			}
			c.Count(!isTriv(a), a, b)
			A, B := fmt.Sprint(s.Key(a)), fmt.Sprint(s.Key(b))
			want(c, (A == B) == (a.Cmp(b) == 0), "%s: texts %s and %s", s.Name, A, B)
		})
	})
}
