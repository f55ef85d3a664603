package props

import (
	"fmt"
	"slices"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"
)

// known is a point whose discrete logarithm the check knows.
type known struct {
	p lib.Point
	k *I
}

// bytesFor draws bytes from the network that should be an encoding of x, and
// what they are worth: a point of the subgroup, or nothing.
func bytesFor(c *vt.Case, g *lib.EG, x known, hostile bool) (b []byte, y known, ok bool) {
	b = g.Compress(x.p)
	if hostile {
		switch c.Pick(6) {
		case 0: // a point outside the subgroup
			b = g.Compress(g.Any(c, "stray"))
		case 1: // a valid point, but another one
			p, k := g.Sub(c, "other")
			return g.Compress(p), known{p, k}, true
		case 2:
			b = g.Compress(g.Endo(x.p))
		default:
			b = g.Damage(c, x.p)
		}
	}
	c.Log("bytes", fmt.Sprintf("%x", b))
	p, ok := g.Decompress(b)
	if !ok || !g.InSub(p) {
		return b, known{}, false
	}
	switch {
	case g.Eq(p, x.p):
		return b, x, true
	case g.Eq(p, g.Neg(x.p)):
		return b, known{p, model.Fr.Neg(x.k)}, true
	case g.Inf(p):
		return b, known{p, num(0)}, true
	case g.Eq(p, g.Endo(x.p)):
		return b, known{p, model.Fr.Mul(x.k, lambda(g))}, true
	}
	return b, known{p, nil}, true
}

var lambdas = map[*lib.EG]*I{}

// lambda is the scalar by which the endomorphism multiplies.
func lambda(g *lib.EG) *I {
	if l := lambdas[g]; l != nil {
		return l
	}
	e := new(I).Div(new(I).Sub(R, one), num(3))
	w := model.Fr.Pow(num(7), e) // 7 generates the multiplicative group
	for _, l := range []*I{w, model.Fr.Mul(w, w)} {
		if g.Eq(g.Mul(g.Gen, l), g.Endo(g.Gen)) {
			lambdas[g] = l
			return l
		}
	}
	panic("harness: the endomorphism is not a multiplication")
}

// TestC30 checks that bytes from strangers can be decoded and used: what is
// not an encoding is refused, and what is gets the verdict it deserves.
func TestC30(t *testing.T) {
	p := vt.Prop(t, "C30")
	each(func(s *lib.Scheme) {
		decode := func(c *vt.Case, i int, x known, hostile bool) (lib.PK, known, bool) {
			b, y, ok := bytesFor(c, s.Pub, x, hostile)
			pk, err := s.PubFrom(b)
			want(c, (err == nil) == ok, "%s: key %d accepted: %v, should be %v (%v)", s.Name, i, err == nil, ok, err)
			if ok {
				wantBytes(c, fmt.Sprintf("key %d again", i), s.PubBytes(pk), s.Pub.Compress(y.p))
			}
			return pk, y, ok
		}
		p.Check(s.Name+" verify", 900, func(c *vt.Case) {
			k, P := s.PoolKey(c)
			m := s.DrawMsg(c, "message")
			h := s.Hash(m)
			hostile := c.Int("hostile", 0, 3)
			S := known{s.Sig.Mul(h, k), k}
			sb, S2, sok := bytesFor(c, s.Sig, S, hostile&1 == 1)
			sig, err := s.SigFrom(sb)
			want(c, (err == nil) == sok, "%s: signature accepted: %v, should be %v (%v)", s.Name, err == nil, sok, err)
			pk, P2, pok := decode(c, 0, known{P, k}, hostile&2 == 2)
			c.Label(fmt.Sprintf("signature decodes %v, key decodes %v", sok, pok))
			c.Count(hostile > 0, sb, fmt.Sprint(P2), k, msgKey(m))
			if sok {
				wantBytes(c, "signature again", s.SigBytes(sig), s.Sig.Compress(S2.p))
			}
			if !sok || !pok {
				return
			}
			ok := false
			if P2.k != nil {
				ok = s.Sig.Eq(S2.p, s.Sig.Mul(h, P2.k))
			} else {
				ok = pairingVerdict(s, h, P2.p, S2.p)
			}
			if ok {
				c.Label("verifies")
			}
			want(c, s.Verify(m, pk, sig) == ok, "%s: verified: %v", s.Name, !ok)
			want(c, s.VerifyOne(sig, []lib.PK{pk}, m) == ok, "%s: verified as an aggregate: %v", s.Name, !ok)
			if m.Domain == nil {
				want(c, s.VerifyAgg(sig, []lib.PK{pk}, [][]byte{m.M}) == ok, "%s: verified as a list: %v", s.Name, !ok)
			} else {
				want(c, s.VerifyAggD(sig, []lib.PK{pk}, [][32]byte{[32]byte(m.M)}, *m.Domain) == ok, "%s: verified as a list: %v", s.Name, !ok)
			}
		})
		// Aggregates of what can be decoded.
		p.Check(s.Name+" aggregate", 500, func(c *vt.Case) {
			n := c.Int("n", 1, 4)
			common := c.Bool("one message")
			m := s.DrawMsg(c, "message")
			var pubs []lib.PK
			var sigs []lib.SG
			var msgs [][]byte
			ks, all := new(I), true
			E, S := s.Sig.O, s.Sig.O
			seen, dist := map[string]bool{}, true
			bad := c.Int("hostile", 0, 1)
			var key []any
			for i := 0; i < n; i++ {
				k, P := s.PoolKey(c)
				mi := m
				if !common {
					mi = lib.Msg{M: lib.PoolMsg(c)}
				}
				pk, x, ok := decode(c, i, known{P, k}, bad == 1 && c.Pick(3) == 0)
				if !ok {
					continue
				}
				sb, y, ok := bytesFor(c, s.Sig, known{s.Sig.Mul(s.Hash(mi), k), k}, bad == 1 && c.Pick(3) == 0)
				sig, err := s.SigFrom(sb)
				want(c, (err == nil) == ok, "%s: signature %d accepted: %v, should be %v (%v)", s.Name, i, err == nil, ok, err)
				if !ok {
					continue
				}
				pubs, sigs, msgs = append(pubs, pk), append(sigs, sig), append(msgs, mi.M)
				S = s.Sig.Add(S, y.p)
				all = all && x.k != nil
				if all {
					ks.Add(ks, x.k)
					E = s.Sig.Add(E, s.Sig.Mul(s.Hash(mi), x.k))
				}
				dist = dist && !seen[string(mi.M)]
				seen[string(mi.M)] = true
				key = append(key, s.PubBytes(pk), sb, msgKey(mi))
			}
			c.Count(bad == 1 && len(pubs) > 0, key...)
			c.Label(fmt.Sprintf("%d usable of %d", len(pubs), n))
			sum := s.SigSum(sigs)
			wantBytes(c, "sum of signatures", s.SigBytes(sum), s.Sig.Compress(S))
			var got bool
			if common {
				got = s.VerifyOne(sum, pubs, m)
				dist = true
			} else {
				got = s.VerifyAgg(sum, pubs, msgs)
				// what was refused may be missing on one side only
				if x := c.Pick(6); x < 3 {
					var more bool
					switch x {
					case 0:
						_, P := s.PoolKey(c)
						more = s.VerifyAgg(sum, append(slices.Clone(pubs), s.PubAt(P)), msgs)
					case 1:
						more = s.VerifyAgg(sum, append(slices.Clone(pubs), s.PubBlank()), msgs)
					case 2:
						more = s.VerifyAgg(sum, pubs, append(slices.Clone(msgs), lib.PoolMsg(c)))
					}
					want(c, !more, "%s: verified for lists of different lengths", s.Name)
				}
			}
			if !all {
				// a key whose logarithm is not known: the signature would have
				// to be forged
				want(c, !got, "%s: verified for keys of strangers", s.Name)
				return
			}
			ok := dist && s.Sig.Eq(S, E)
			want(c, got == ok, "%s: verified: %v", s.Name, !ok)
		})
		p.Check(s.Name+" keys", 900, func(c *vt.Case) {
			b := c.Bytes32("bytes")
			n := new(I).SetBytes(b[:])
			c.Count(!isTriv(n), b[:])
			sk := s.KeyFrom(b)
			if n.Cmp(R) < 0 {
				x := s.KeyBytes(sk)
				wantBytes(c, "the key again", x[:], b[:])
				return
			}
			usable := sk != nil && !s.IsNilKey(sk) && s.KeyElement(sk) != nil
			want(c, !usable, "%s: a usable key from %v, which is not below the group order", s.Name, hexn(n))
		})
	})
	// Uncompressed points: whatever 96 or 192 bytes say, they can be looked at.
	rawAny(p, lib.G1, 400)
	rawAny(p, lib.G2, 300)
}

// pairingVerdict decides by the definition: e(pub, H) = e(generator, sig).
func pairingVerdict(s *lib.Scheme, h, pub, sig lib.Point) bool {
	if s.Pub == lib.E1 {
		return model.Pairing(pub.(model.P1), h.(model.P2)).Eq(model.Pairing(model.Gen1, sig.(model.P2)))
	}
	return model.Pairing(h.(model.P1), pub.(model.P2)).Eq(model.Pairing(sig.(model.P1), model.Gen2))
}

// rawAny feeds arbitrary uncompressed coordinates and asks whether they are on
// the curve.
func rawAny[E, A, P any](p *vt.P, g *lib.Grp[E, A, P], n int) {
	p.Check(g.Name+" uncompressed", n, func(c *vt.Case) {
		pt := g.AnyPt(c, "P")
		if pt.Inf {
			pt = g.Gen
		}
		x := g.CopyA(g.OneA())
		on := true
		switch c.Int("change", 0, 3) {
		case 1:
			pt.Y = g.C.F.Add(pt.Y, g.C.F.One())
		case 2:
			pt.X = g.Elem(c, "x")
		case 3:
			pt.Y = g.Elem(c, "y")
		}
		on = g.C.On(pt)
		c.Label(fmt.Sprintf("on the curve: %v", on))
		c.Count(true, fmt.Sprint(pt))
		want(c, g.SetRaw(x, g.MRaw(pt)) == nil, "refused")
		want(c, g.On(x) == on, "%s: on the curve: %v", g.Name, !on)
		if on {
			want(c, g.InSub(x) == g.C.InSub(pt), "%s: in the subgroup: %v", g.Name, !g.C.InSub(pt))
			g.WantA(c, "decoded", x, pt)
		}
	})
}
