package props

import (
	"bytes"
	"fmt"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"
)

// Claims that differ little from one that was verified before: each has the
// verdict the model gives it, whatever was asked before.

// claim says that the messages were signed by the keys.
type claim struct {
	l []signer
	S lib.Point
	d *[8]byte
}

func (x claim) copy() claim {
	y := x
	y.l = append([]signer{}, x.l...)
	for i := range y.l {
		y.l[i].m = bytes.Clone(y.l[i].m)
	}
	if x.d != nil {
		d := *x.d
		y.d = &d
	}
	return y
}

// sum is the only signature for which the claim holds.
func (x claim) sum(s *lib.Scheme) lib.Point {
	e := s.Sig.O
	for _, r := range x.l {
		e = s.Sig.Add(e, s.Sig.Mul(s.Hash(lib.Msg{M: r.m, Domain: x.d}), r.k))
	}
	return e
}

// endoScalar is what the endomorphism multiplies the points of the group by.
func endoScalar(e *lib.EG) *I {
	z := new(I).SetUint64(0xd201000000010000)
	z.Mul(z, z)
	for _, k := range []*I{model.Fr.Sub(z, one), model.Fr.Neg(z)} {
		if e.Eq(e.Mul(e.Gen, k), e.Endo(e.Gen)) {
			return k
		}
	}
	panic("harness: no scalar for the endomorphism")
}

// flavours of verification.
const (
	single  = iota
	listed  // distinct messages
	common  // one message
	listedD // messages with one domain
)

// vary changes one part of a claim; with the signature kept it usually becomes
// false.
func vary(c *vt.Case, s *lib.Scheme, x claim, kind int, lambda *I) (claim, string) {
	x = x.copy()
	n := len(x.l)
	i := c.Pick(n)
	fixed := x.d != nil // messages of 32 bytes
	setMsg := func(m []byte) {
		x.l[i].m = m
		if kind == common {
			for j := range x.l {
				x.l[j].m = m
			}
		}
	}
	how := ""
	m := x.l[i].m
	switch w := c.Int("varied", 0, 15); {
	case w <= 1: // the message's fingerprint stays
		m = c.AlikeMsg("message", m)
		if fixed && len(m) != 32 {
			m = m[:32]
			m[31] ^= 1
		}
		setMsg(m)
		how = "an alike message"
	case w <= 4: // a bit, at the end more often
		if len(m) == 0 {
			m = []byte{0}
		} else {
			at := c.Pick(len(m))
			if c.Pick(3) == 0 {
				at = len(m) - 1
			}
			m[at] ^= 1 << c.Pick(8)
		}
		setMsg(m)
		how = "a bit of the message"
	case w == 5:
		if fixed {
			m = make([]byte, 32)
		} else if c.Pick(2) == 0 && len(m) > 0 {
			m = m[:len(m)-1]
		} else {
			m = append(m, byte(c.Pick(2)))
		}
		setMsg(m)
		how = "a message of another length"
	case w <= 8:
		r := &x.l[i]
		switch c.Pick(6) {
		case 0:
			r.k, r.pub = model.Fr.Neg(r.k), s.Pub.Neg(r.pub)
			how = "the opposite key"
		case 1:
			r.k, r.pub = model.Fr.Mul(r.k, lambda), s.Pub.Endo(r.pub)
			how = "a key with the same ordinate"
		case 2:
			r.k, r.pub = model.Fr.Add(r.k, one), s.Pub.Add(r.pub, s.Pub.Gen)
			how = "the next key"
		case 3:
			r.k, r.pub = new(I), s.Pub.O
			how = "infinity as a key"
		default:
			r.k, r.pub = s.PoolKey(c)
			how = "another key"
		}
	case w <= 11:
		g := s.Sig
		switch c.Pick(6) {
		case 0:
			x.S, how = g.Neg(x.S), "the opposite signature"
		case 1, 2:
			x.S, how = g.Endo(x.S), "a signature with the same ordinate"
		case 3:
			x.S, how = g.Add(x.S, g.Gen), "the next signature"
		case 4:
			x.S, how = g.O, "no signature"
		default:
			x.S, how = g.Add(x.S, x.S), "the signature doubled"
		}
	case w == 12 && fixed:
		x.d[c.Pick(8)] ^= 1 << c.Pick(8)
		how = "a bit of the domain"
	case w == 12 && s.Domains && kind != listed && len(m) == 32:
		x.d = new([8]byte)
		how = "with a domain"
	case w == 13 && n > 1:
		j := (i + 1 + c.Pick(n-1)) % n
		if c.Pick(2) == 0 {
			x.l[i], x.l[j] = x.l[j], x.l[i]
			how = "entries exchanged"
		} else {
			x.l[i].k, x.l[j].k = x.l[j].k, x.l[i].k
			x.l[i].pub, x.l[j].pub = x.l[j].pub, x.l[i].pub
			how = "keys exchanged"
		}
	case w == 14 && n > 1:
		x.l = append(x.l[:i:i], x.l[i+1:]...)
		how = "one entry less"
	case w >= 14 && kind != single:
		k, pub := s.PoolKey(c)
		r := signer{k, pub, bytes.Clone(c.Uniform("message", 32))}
		if kind == common {
			r.m = m
		} else if w == 15 { // what is added cancels
			x.l = append(x.l, r)
			r = signer{model.Fr.Neg(k), s.Pub.Neg(pub), bytes.Clone(r.m)}
			r.m[3] ^= 2
		}
		x.l = append(x.l, r)
		how = "more entries"
	case w == 15 && fixed && kind != listedD:
		x.d = nil
		how = "without a domain"
	default:
		how = "the same again"
	}
	if c.Pick(4) == 0 { // and signed accordingly
		x.S = x.sum(s)
		how += ", signed"
	}
	c.Log("asked", how)
	return x, how
}

// alike runs, for one flavour, claims and their variations one after another.
func alike(p *vt.P, s *lib.Scheme, name string, kind, cases int) {
	lambda := endoScalar(s.Pub)
	p.Check(s.Name+name, cases, func(c *vt.Case) {
		var x claim
		n := 1
		if kind != single {
			n = c.Int("n", 1, 5)
		}
		if kind == listedD || kind != listed && s.Domains && c.Pick(2) == 0 {
			d := lib.DrawDomain(c)
			x.d = &d
		}
		for i := 0; i < n; i++ {
			k, pub := s.PoolKey(c)
			var m []byte
			switch {
			case x.d != nil:
				m = lib.PoolMsg32(c)
			case c.Pick(2) == 0:
				m = bytes.Clone(c.Uniform("message", c.Int("length", 1, 300)))
			default:
				m = lib.PoolMsg(c)
			}
			if i > 0 && kind == common {
				m = x.l[0].m
			}
			x.l = append(x.l, signer{k, pub, m})
		}
		for try := 0; try < 40 && (kind == listed || kind == listedD) && !distinct(x.l); try++ {
			for j := range x.l {
				for h := range x.l[:j] {
					if bytes.Equal(x.l[j].m, x.l[h].m) {
						x.l[j].m = bytes.Clone(c.Uniform("message", 32))
					}
				}
			}
		}
		x.S = x.sum(s)
		pks := map[string]lib.PK{}
		sigs := map[string]lib.SG{}
		same := c.Bool("the same objects")
		ask := func(y claim, how string) {
			ok := s.Sig.Eq(y.S, y.sum(s))
			if kind == listed || kind == listedD {
				if kind == listedD && ok && !distinct(y.l) {
					return // nothing is promised about repeated messages
				}
				ok = ok && distinct(y.l)
			}
			// the objects of an earlier question, or new ones
			pub := func(q lib.Point) lib.PK {
				e := string(s.Pub.Compress(q))
				if pks[e] == nil || !same {
					pks[e] = s.PubAt(q)
				}
				return pks[e]
			}
			e := string(s.Sig.Compress(y.S))
			if sigs[e] == nil || !same {
				sigs[e] = s.DrawSig(c, y.S)
			}
			sig := sigs[e]
			var l []lib.PK
			var ms [][]byte
			for _, r := range y.l {
				l, ms = append(l, pub(r.pub)), append(ms, bytes.Clone(r.m))
			}
			got := false
			switch kind {
			case single:
				got = s.Verify(lib.Msg{M: ms[0], Domain: y.d}, l[0], sig)
			case listed:
				got = s.VerifyAgg(sig, l, ms)
			case common:
				got = s.VerifyOne(sig, l, lib.Msg{M: ms[0], Domain: y.d})
			case listedD:
				var b [][32]byte
				for _, m := range ms {
					b = append(b, [32]byte(m))
				}
				got = s.VerifyAggD(sig, l, b, *y.d)
			}
			if ok {
				c.Label("accepted")
			}
			want(c, got == ok, "%s: %s: accepted: %v, should be %v", s.Name, how, got, ok)
		}
		for i, r := range x.l {
			c.Log(fmt.Sprintf("key %d", i), hexn(r.k))
			c.Log(fmt.Sprintf("message %d", i), lib.Msg{M: r.m, Domain: x.d})
		}
		first := c.Bool("the true claim first")
		if first {
			ask(x, "a true claim")
		}
		c.Count(first, x.S, n, msgKey(lib.Msg{M: x.l[0].m, Domain: x.d}))
		for i := c.Int("questions", 2, 4); i > 0; i-- {
			y, how := vary(c, s, x, kind, lambda)
			c.Label(how)
			ask(y, how)
		}
		ask(x, "a true claim, afterwards")
	})
}
