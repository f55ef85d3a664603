package props

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"hash"
	"math/big"
	"slices"
	"strings"

	"blsverif/lib"
	"blsverif/vt"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// maker makes the same argument again and again, each time as a value of its own.
type maker func() any

// call is a function of the library with arguments of named kinds.
type call struct {
	name string
	args string // kinds, separated by blanks
	f    func(a []any) any
	// cost is how much rarer than others it is tried.
	rare bool
}

// argument draws an argument. One drawn alike with another near is a neighbour
// of it: it shares what a careless table might know it by.
func argument(c *vt.Case, kind string, near int) maker {
	pair := func(v any) maker { return func() any { return v } }
	switch kind {
	case "fr":
		k := nearNum(near, c.Fr("scalar"), R, R, 4)
		return func() any { return lib.FR(k) }
	case "rr":
		n := nearNum(near, c.UInt("number", 4, R), nil, R, 4)
		return func() any { return lib.RRepr(n) }
	case "rr<r":
		n := nearNum(near, c.Fr("number"), R, R, 4)
		return func() any { return lib.RRepr(n) }
	case "qr":
		n := nearNum(near, c.UInt("number", 6, Q), nil, Q, 6)
		return func() any { return ptr(lib.QRepr(n)) }
	case "qr short":
		n := mod(nearNum(near, c.UInt("number", 6, Q), nil, Q, 6), new(I).Lsh(one, 24))
		return func() any { return ptr(lib.QRepr(n)) }
	case "fq":
		n := nearNum(near, c.Fq("element"), Q, Q, 6)
		return pair(lib.FQ(n))
	case "fq2":
		n := nearF2(near, c.Fq2("element"))
		return pair(lib.FQ2(n))
	case "f6":
		e := c.Fq6("element")
		e[near/2%3] = nearF2(near, e[near/2%3])
		return func() any { return lib.FQ6(e) }
	case "f12":
		e := nearF12(near, c.F12("element"))
		return func() any { return lib.FQ12(e) }
	case "a1", "a2":
		if kind == "a1" {
			p := nearPt(near, lib.G1, sub(lib.G1.SubPt(c, "P")))
			return func() any { return lib.A1(p) }
		}
		p := nearPt(near, lib.G2, sub(lib.G2.SubPt(c, "Q")))
		return func() any { return lib.A2(p) }
	case "p1":
		p := nearPt(near, lib.G1, sub(lib.G1.SubPt(c, "P")))
		r := nearRep(c, near, lib.G1, p)
		return func() any { return r.Copy() }
	case "p2":
		p := nearPt(near, lib.G2, sub(lib.G2.SubPt(c, "Q")))
		r := nearRep(c, near, lib.G2, p)
		return func() any { return r.Copy() }
	case "prepared":
		p := nearPt(near, lib.G2, sub(lib.G2.SubPt(c, "Q")))
		return func() any { return bls.G2AffineToPrepared(lib.A2(p)) }
	case "big":
		n := nearNum(near, c.UInt("number", 6, Q), nil, Q, 6)
		return func() any { return new(I).Set(n) }
	case "bytes":
		b := nearBytes(near, c.Msg("bytes"))
		return func() any { return append(make([]byte, 0, len(b)+c0), b...) }
	case "b32":
		b := c.Bytes32("bytes")
		return pair([32]byte(nearBytes(near, b[:])[:32]))
	case "m32":
		return pair([32]byte(nearBytes(near, lib.PoolMsg32(c))[:32]))
	case "b8":
		d := lib.DrawDomain(c)
		return pair([8]byte(nearBytes(near, d[:])[:8]))
	case "flag":
		return pair(c.Bool("flag") != (near%2 == 1))
	case "msg":
		b := nearBytes(near, lib.PoolMsg(c))
		c.Log("message", fmt.Sprintf("%x", b))
		return func() any { return append(make([]byte, 0, len(b)+c0), b...) }
	case "messages":
		var l [][]byte
		for i, n := 0, 1+c.Pick(3); i < n; i++ {
			l = append(l, lib.PoolMsg(c))
		}
		l[near%len(l)] = nearBytes(near, l[near%len(l)])
		c.Log("messages", l)
		return func() any {
			var m [][]byte
			for _, b := range l {
				m = append(m, append(make([]byte, 0, len(b)+c0), b...))
			}
			return m
		}
	case "sha":
		b := nearBytes(near, c.Msg("bytes"))
		return func() any { h := sha256.New(); h.Write(b); return h }
	}
	// A right signature with what it is for, all of which may change.
	for i, s := range lib.Schemes {
		var d *[8]byte
		if kind == fmt.Sprint("rightd", i+1) {
			x := lib.DrawDomain(c)
			d = &x
		}
		n := 1
		if kind == fmt.Sprint("rightall", i+1) || kind == fmt.Sprint("rightone", i+1) {
			n += c.Pick(3)
		} else if kind != fmt.Sprint("right", i+1) && d == nil {
			continue
		}
		var ms [][]byte
		var pubs []lib.Point
		S := s.Sig.O
		for len(ms) < n {
			k, pub := s.PoolKey(c)
			m := lib.Msg{M: lib.PoolMsg(c), Domain: d}
			if d != nil {
				m.M = lib.PoolMsg32(c)
			}
			if d == nil || len(m.M) == 32 {
				m.M = nearBytes(near, m.M)
				if d != nil {
					m.M = m.M[:32]
				}
			}
			if strings.HasPrefix(kind, "rightall") && slices.ContainsFunc(ms, func(o []byte) bool { return bytes.Equal(o, m.M) }) {
				m.M = c.Uniform("message", 9)
			}
			if strings.HasPrefix(kind, "rightone") && len(ms) > 0 {
				m.M = ms[0]
			}
			S = s.Sig.Add(S, s.Sig.Mul(s.Hash(m), k))
			ms, pubs = append(ms, m.M), append(pubs, pub)
		}
		return func() any {
			var ps []any
			for _, p := range pubs {
				ps = append(ps, s.PubAt(p))
			}
			var l [][]byte
			for _, m := range ms {
				l = append(l, append(make([]byte, 0, len(m)+c0), m...))
			}
			switch {
			case strings.HasPrefix(kind, "rightall"):
				return []any{l, ps, s.SigOf(S)}
			case strings.HasPrefix(kind, "rightone"):
				return []any{l[0], ps, s.SigOf(S)}
			case d != nil:
				return []any{*d, l[0], ps[0], s.SigOf(S)}
			}
			return []any{l[0], ps[0], s.SigOf(S)}
		}
	}
	for i, s := range lib.Schemes {
		_, pub := s.PoolKey(c)
		sig, _ := s.Sig.Sub(c, kind)
		k, _ := s.PoolKey(c)
		if near > 0 {
			pub, sig, k = s.Pub.Near(near, pub), s.Sig.Near(near, sig), nearNum(near, k, R, R, 4)
		}
		switch kind {
		case fmt.Sprint("sk", i+1):
			return func() any { return s.Key(k) }
		case fmt.Sprint("pk", i+1):
			return func() any { return s.PubAt(pub) }
		case fmt.Sprint("sg", i+1):
			return func() any { return s.SigOf(sig) }
		case fmt.Sprint("pks", i+1):
			_, p2 := s.PoolKey(c)
			return func() any { return []any{s.PubAt(pub), s.PubAt(p2), s.PubAt(pub)} }
		case fmt.Sprint("sgs", i+1):
			s2, _ := s.Sig.Sub(c, kind)
			return func() any { return []any{s.SigOf(sig), s.SigOf(s2), s.SigOf(sig)} }
		case fmt.Sprint("sks", i+1):
			k2, _ := s.PoolKey(c)
			return func() any { return []any{s.Key(k), s.Key(k2), s.Key(k)} }
		}
	}
	panic("harness: argument " + kind)
}

// c0 is how much longer than the message its buffer is.
const c0 = 8

// value is what a value is worth, as text.
func value(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case error:
		return "error"
	case bool, int, string, [32]byte, [48]byte, [96]byte, [192]byte, [8]byte, []byte, [][]byte, bls.LegendreSymbol:
		return fmt.Sprint(v)
	case *big.Int:
		return v.String()
	case *bls.FR:
		if v == nil {
			return "nil"
		}
		return lib.FromFR(v).String()
	case *bls.FRRepr:
		return lib.FromRR(v).String()
	case *bls.FQRepr:
		return lib.FromQR(*v).String()
	case bls.FQRepr:
		return lib.FromQR(v).String()
	case bls.FQ:
		return lib.FromFQ(v).String()
	case bls.FQ2:
		return v.String()
	case *bls.FQ6:
		return v.String()
	case *bls.FQ12:
		if v == nil {
			return "nil"
		}
		return v.String()
	case *bls.G1Affine:
		return fmt.Sprint(lib.R1(v))
	case *bls.G2Affine:
		return fmt.Sprint(lib.R2(v))
	case *bls.G1Projective:
		return fmt.Sprint(lib.R1(v.ToAffine()))
	case *bls.G2Projective:
		return fmt.Sprint(lib.R2(v.ToAffine()))
	case *bls.G2Prepared:
		return bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{{P: bls.G1AffineOne, Q: v}})).String()
	case *g1pubs.SecretKey:
		return fmt.Sprint(v.Serialize())
	case *g2pubs.SecretKey:
		return fmt.Sprint(v.Serialize())
	case *g1pubs.PublicKey:
		return fmt.Sprint(v.Serialize())
	case *g2pubs.PublicKey:
		return fmt.Sprint(v.Serialize())
	case *g1pubs.Signature:
		return fmt.Sprint(v.Serialize())
	case *g2pubs.Signature:
		return fmt.Sprint(v.Serialize())
	case hash.Hash:
		return fmt.Sprint(v.Sum(nil))
	case []any:
		s := ""
		for _, x := range v {
			s += value(x) + ";"
		}
		return s
	}
	panic(fmt.Sprintf("harness: value of %T", v))
}

// change changes a value in place, if it can be; the same way for the same n.
func change(v any, n int) {
	p1 := lib.G1.Pool.Sub[n%len(lib.G1.Pool.Sub)]
	p2 := lib.G2.Pool.Sub[n%len(lib.G2.Pool.Sub)]
	switch v := v.(type) {
	case []byte:
		if len(v) > 0 {
			v[n%len(v)] ^= 1 << (n % 8)
		}
		copy(v[len(v):cap(v)], "changed!")
	case [][]byte:
		if n%2 == 0 {
			change(v[n%len(v)], n/2)
		} else {
			v[n%len(v)] = []byte{byte(n)}
		}
	case *big.Int:
		v.Add(v, num(int64(n+1)))
	case *bls.FR:
		if v == nil {
			return
		}
		switch n % 6 {
		case 0:
			v.NegAssign()
			v.AddAssign(lib.FR(one))
		case 1:
			v.AddAssign(lib.FR(num(int64(n))))
		case 2:
			v.SubAssign(lib.FR(num(int64(n))))
		case 3:
			v.SquareAssign()
			v.AddAssign(lib.FR(num(5)))
		case 4:
			v.DoubleAssign()
			v.MulAssign(lib.FR(num(5)))
		case 5:
			*v = *lib.FR(num(int64(n)))
		}
	case *bls.FRRepr:
		switch n % 4 {
		case 0:
			v.AddNoCarry(bls.NewFRRepr(uint64(n + 1)))
		case 1:
			v.SubNoBorrow(bls.NewFRRepr(uint64(n + 1)))
		case 2:
			v.Mul2()
			v.Rsh(uint(n % 3))
		case 3:
			*v = *bls.NewFRRepr(uint64(n))
		}
	case *bls.FQRepr:
		v.Rsh(1)
		v.AddNoCarry(bls.NewFQRepr(uint64(n)))
	case *bls.FQ6:
		switch n % 4 {
		case 0:
			v.NegAssign()
		case 1:
			v.SquareAssign()
		case 2:
			v.MulByNonresidueAssign()
		}
		v.AddAssign(bls.FQ6One)
	case *bls.FQ12:
		if v == nil {
			return
		}
		switch n % 5 {
		case 0:
			v.ConjugateAssign()
		case 1:
			v.SquareAssign()
		case 2:
			v.FrobeniusMapAssign(uint8(n % 12))
		case 3:
			v.InverseAssign()
		case 4:
			v.DoubleAssign()
		}
		v.AddAssign(bls.FQ12One)
	case *bls.G1Affine:
		if n%3 == 0 {
			v.NegAssign()
		} else {
			*v = *lib.A1(p1)
		}
	case *bls.G2Affine:
		if n%3 == 0 {
			v.NegAssign()
		} else {
			*v = *lib.A2(p2)
		}
	case *bls.G1Projective:
		if n%3 == 0 {
			v.NegAssign()
		} else {
			*v = *lib.A1(p1).ToProjective()
		}
	case *bls.G2Projective:
		*v = *lib.A2(p2).ToProjective()
	case *g1pubs.SecretKey:
		if n%2 == 0 {
			*v = *g1pubs.KeyFromFQRepr(bls.NewFRRepr(uint64(n)))
		} else {
			change(v.GetFRElement(), n/2)
		}
	case *g2pubs.SecretKey:
		if n%2 == 0 {
			*v = *g2pubs.KeyFromFQRepr(bls.NewFRRepr(uint64(n)))
		} else {
			change(v.GetFRElement(), n/2)
		}
	case *g1pubs.PublicKey:
		if n%3 == 0 {
			*v = *g1pubs.NewPublicKeyFromG1(lib.A1(p1))
		} else {
			v.Aggregate(g1pubs.NewPublicKeyFromG1(lib.A1(p1)))
		}
	case *g2pubs.PublicKey:
		if n%3 == 0 {
			*v = *g2pubs.NewPublicKeyFromG2(lib.A2(p2))
		} else {
			v.Aggregate(g2pubs.NewPublicKeyFromG2(lib.A2(p2)))
		}
	case *g1pubs.Signature:
		if n%3 == 0 {
			*v = *g1pubs.NewSignatureFromG2(lib.A2(p2))
		} else {
			v.Aggregate(g1pubs.NewSignatureFromG2(lib.A2(p2)))
		}
	case *g2pubs.Signature:
		if n%3 == 0 {
			*v = *g2pubs.NewSignatureFromG1(lib.A1(p1))
		} else {
			v.Aggregate(g2pubs.NewSignatureFromG1(lib.A1(p1)))
		}
	case hash.Hash:
		v.Write([]byte{byte(n)})
	case []any:
		if len(v) == 0 {
			return
		}
		change(v[n%len(v)], n/len(v))
	}
}

func two(a, b any) any {
	return []any{a, b}
}

// orErr is a value, or that there is none.
func orErr[T any](v T, err error) any {
	if err != nil {
		return "error"
	}
	return v
}

func orNone[T any](v T, ok bool) any {
	if !ok {
		return "none"
	}
	return v
}

type (
	tFR  = *bls.FR
	tRR  = *bls.FRRepr
	tA1  = *bls.G1Affine
	tP1  = *bls.G1Projective
	tA2  = *bls.G2Affine
	tP2  = *bls.G2Projective
	tF6  = *bls.FQ6
	tF12 = *bls.FQ12
)

var calls = func() []call {
	l := []call{
		{"FR.Copy", "fr", func(a []any) any { return a[0].(tFR).Copy() }, false},
		{"FR.Inverse", "fr", func(a []any) any { return a[0].(tFR).Inverse() }, false},
		{"FR.Exp", "fr rr", func(a []any) any { return a[0].(tFR).Exp(a[1].(tRR)) }, false},
		{"FR.Sqrt", "fr", func(a []any) any { return a[0].(tFR).Sqrt() }, false},
		{"FR.ToRepr", "fr", func(a []any) any { return a[0].(tFR).ToRepr() }, false},
		{"FR.MulBits", "fr rr", func(a []any) any { return a[0].(tFR).MulBits(a[1].(tRR)) }, false},
		{"FR.MulBytes", "fr bytes", func(a []any) any { return a[0].(tFR).MulBytes(a[1].([]byte)[:min(70, len(a[1].([]byte)))]) }, false},
		{"FR texts", "fr fr", func(a []any) any {
			x, y := a[0].(tFR), a[1].(tFR)
			return []any{x.String(), x.Bytes(), x.Parity(), x.IsZero(), x.IsValid(), x.Legendre(), x.Cmp(y), x.Equals(y)}
		}, false},
		{"FRReprToFR", "rr<r", func(a []any) any { return bls.FRReprToFR(a[0].(tRR)) }, false},
		{"FRRepr.Copy", "rr", func(a []any) any { return a[0].(tRR).Copy() }, false},
		{"FRRepr.ToFQ", "rr", func(a []any) any { return a[0].(tRR).ToFQ() }, false},
		{"FRRepr.ToBig", "rr", func(a []any) any { return a[0].(tRR).ToBig() }, false},
		{"FRRepr texts", "rr rr", func(a []any) any {
			x, y := a[0].(tRR), a[1].(tRR)
			return []any{x.String(), x.Bytes(), x.IsOdd(), x.IsEven(), x.IsZero(), int(x.BitLen()), x.Bit(7), x.Cmp(y), x.Equals(y)}
		}, false},
		{"FRReprFromBytes", "b32", func(a []any) any { return bls.FRReprFromBytes(a[0].([32]byte)) }, false},
		{"FRReprFromBigInt", "big", func(a []any) any { return orErr(bls.FRReprFromBigInt(a[0].(*I))) }, false},
		{"FRReprFromString", "rr", func(a []any) any { return orErr(bls.FRReprFromString(lib.FromRR(a[0].(tRR)).Text(10), 10)) }, false},
		{"HashFR", "sha", func(a []any) any { return bls.HashFR(a[0].(hash.Hash)) }, false},
		{"HashFQ", "sha", func(a []any) any { return bls.HashFQ(a[0].(hash.Hash)) }, false},
		{"HashFQ2", "sha", func(a []any) any { return bls.HashFQ2(a[0].(hash.Hash)) }, false},
		{"HashSecretKey", "b32", func(a []any) any { return bls.HashSecretKey(a[0].([32]byte)) }, false},
		{"FQ.Exp", "fq qr", func(a []any) any { return a[0].(bls.FQ).Exp(*a[1].(*bls.FQRepr)) }, false},
		{"FQ.MulBits", "fq qr", func(a []any) any { return a[0].(bls.FQ).MulBits(a[1].(*bls.FQRepr)) }, false},
		{"FQ functions", "fq fq", func(a []any) any {
			x, y := a[0].(bls.FQ), a[1].(bls.FQ)
			return []any{orNone(x.Inverse()), orNone(x.Sqrt()), x.Legendre(), x.Parity(), x.Cmp(y), x.String(), x.ToRepr()}
		}, false},
		{"FQ2.MulBits", "fq2 big", func(a []any) any { return a[0].(bls.FQ2).MulBits(a[1].(*I)) }, false},
		{"FQ2 functions", "fq2 fq2", func(a []any) any {
			x, y := a[0].(bls.FQ2), a[1].(bls.FQ2)
			return []any{orNone(x.Sqrt()), x.Parity(), x.Cmp(y), x.Norm(), x.Legendre(), x.String()}
		}, false},
		{"FQReprFromBigInt", "big", func(a []any) any { return orErr(bls.FQReprFromBigInt(a[0].(*I))) }, false},
		{"FQ6.Copy", "f6", func(a []any) any { return a[0].(tF6).Copy() }, false},
		{"FQ6.Exp", "f6 qr short", func(a []any) any { return a[0].(tF6).Exp(a[1].(*bls.FQRepr)) }, false},
		{"FQ6 in place", "f6 f6", func(a []any) any {
			x := a[0].(tF6).Copy()
			x.MulAssign(a[1].(tF6))
			x.AddAssign(a[1].(tF6))
			x.SquareAssign()
			x.SubAssign(a[1].(tF6))
			return two(x, x.Equals(a[1].(tF6)))
		}, false},
		{"FQ12.Copy", "f12", func(a []any) any { return a[0].(tF12).Copy() }, false},
		{"FQ12.Exp", "f12 qr short", func(a []any) any { return a[0].(tF12).Exp(*a[1].(*bls.FQRepr)) }, false},
		{"FQ12 in place", "f12 f12", func(a []any) any {
			x := a[0].(tF12).Copy()
			x.MulAssign(a[1].(tF12))
			x.AddAssign(a[1].(tF12))
			x.SquareAssign()
			x.SubAssign(a[1].(tF12))
			return two(x, x.Equals(a[1].(tF12)))
		}, false},
		{"FinalExponentiation", "f12", func(a []any) any { return bls.FinalExponentiation(a[0].(tF12)) }, false},
		{"Pairing", "p1 p2", func(a []any) any { return bls.Pairing(a[0].(tP1), a[1].(tP2)) }, false},
		{"CompareTwoPairings", "p1 p2", func(a []any) any {
			p, q := a[0].(tP1), a[1].(tP2)
			return two(bls.CompareTwoPairings(p, q, p, q), bls.CompareTwoPairings(p, q, p.Double(), q))
		}, true},
		{"MillerLoop", "a1 prepared", func(a []any) any {
			q := a[1].(*bls.G2Prepared)
			return bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{{P: a[0].(tA1), Q: q}, {P: bls.G1AffineOne, Q: q}}))
		}, false},
		{"HashG1", "msg", func(a []any) any { return bls.HashG1(a[0].([]byte)) }, false},
		{"HashG2", "msg", func(a []any) any { return bls.HashG2(a[0].([]byte)) }, false},
		{"HashG2WithDomain", "m32 b8", func(a []any) any { return bls.HashG2WithDomain(a[0].([32]byte), a[1].([8]byte)) }, false},
		{"ClearH", "a1", func(a []any) any { return bls.ClearH(a[0].(tA1)) }, false},
		{"OptimizedSWU2MapHelper", "fq2", func(a []any) any { return bls.OptimizedSWU2MapHelper(a[0].(bls.FQ2)) }, false},
		{"SWEncodeG2", "fq2", func(a []any) any { return bls.SWEncodeG2(a[0].(bls.FQ2)) }, false},
		{"G2AffineToPrepared", "a2", func(a []any) any { return bls.G2AffineToPrepared(a[0].(tA2)) }, false},
	}
	l = append(l, pointCalls(lib.G1, "1")...)
	l = append(l, pointCalls(lib.G2, "2")...)
	for i, s := range lib.Schemes {
		l = append(l, schemeCalls(s, fmt.Sprint(i+1))...)
	}
	return l
}()

// pointCalls are the functions on points of a group.
func pointCalls[E, A, P any](g *lib.Grp[E, A, P], n string) []call {
	k := func(s string) string { return s + n }
	lift := "fq"
	if n == "2" {
		lift = "fq2"
	}
	l := []call{
		{"affine copy", k("a"), func(a []any) any { return g.CopyA(a[0].(A)) }, false},
		{"projective copy", k("p"), func(a []any) any { return g.CopyP(a[0].(P)) }, false},
		{"to projective", k("a"), func(a []any) any { return g.ToProj(a[0].(A)) }, false},
		{"to affine", k("p"), func(a []any) any { return g.ToAff(a[0].(P)) }, false},
		{"add", k("p") + " " + k("p"), func(a []any) any { return g.Add(a[0].(P), a[1].(P)) }, false},
		{"add affine", k("p") + " " + k("a"), func(a []any) any { return g.AddAff(a[0].(P), a[1].(A)) }, false},
		{"double", k("p"), func(a []any) any { return g.Double(a[0].(P)) }, false},
		{"projective times FQRepr", k("p") + " qr", func(a []any) any { return g.Mul(a[0].(P), *a[1].(*bls.FQRepr)) }, false},
		{"projective times FRRepr", k("p") + " rr", func(a []any) any { return g.MulFR(a[0].(P), a[1].(tRR)) }, false},
		{"affine times FQRepr", k("a") + " qr", func(a []any) any { return g.AMul(a[0].(A), *a[1].(*bls.FQRepr)) }, false},
		{"affine times FRRepr", k("a") + " rr", func(a []any) any { return g.AMulFR(a[0].(A), a[1].(tRR)) }, false},
		{"cofactor", k("a"), func(a []any) any { return g.Cofactor(a[0].(A)) }, false},
		{"compress", k("a"), func(a []any) any { return g.Compress(a[0].(A)) }, false},
		{"decompress", k("a"), func(a []any) any {
			b := g.Compress(a[0].(A))
			x, err := g.Decompress(b)
			y, err2 := g.DecompressU(b)
			if err != nil || err2 != nil {
				return "error"
			}
			return two(x, y)
		}, false},
		{"uncompressed", k("a"), func(a []any) any {
			x := g.CopyA(g.OneA())
			b := g.RawBytes(a[0].(A))
			if g.IsZeroA(a[0].(A)) {
				return b
			}
			err := g.SetRaw(x, b)
			return []any{b, err == nil, x}
		}, false},
		{"tests", k("a") + " " + k("a"), func(a []any) any {
			x, y := a[0].(A), a[1].(A)
			return []any{g.On(x), g.InSub(x), g.IsZeroA(x), g.EqA(x, y), g.StrA(x)}
		}, false},
		{"projective tests", k("p") + " " + k("p"), func(a []any) any {
			x, y := a[0].(P), a[1].(P)
			return []any{g.IsZeroP(x), g.Eq(x, y), g.StrP(x)}
		}, false},
		{"from x", lift + " flag", func(a []any) any {
			var x A
			var err error
			switch g := any(g).(type) {
			case *lib.Grp1:
				p, e := bls.GetG1PointFromX(a[0].(bls.FQ), a[1].(bool))
				_, err = g, e
				x = any(p).(A)
			case *lib.Grp2:
				p, e := bls.GetG2PointFromX(a[0].(bls.FQ2), a[1].(bool))
				err = e
				x = any(p).(A)
			}
			return orErr(x, err)
		}, false},
	}
	if g.AMulBig != nil {
		l = append(l, call{"affine times big", k("a") + " big", func(a []any) any { return g.AMulBig(a[0].(A), *a[1].(*I)) }, false})
	}
	for i := range l {
		l[i].name = g.Name + " " + l[i].name
	}
	return l
}

// schemeCalls are the functions on keys and signatures.
func schemeCalls(s *lib.Scheme, n string) []call {
	k := func(f string) string {
		var l []string
		for _, w := range slices.Collect(fields(f)) {
			if len(w) < 4 && (w[:2] == "sk" || w[:2] == "pk" || w[:2] == "sg") || strings.HasPrefix(w, "right") {
				w += n
			}
			l = append(l, w)
		}
		r := ""
		for i, w := range l {
			if i > 0 {
				r += " "
			}
			r += w
		}
		return r
	}
	l := []call{
		{"sign", "msg sk", func(a []any) any { return s.Sign(lib.Msg{M: a[0].([]byte)}, a[1]) }, false},
		{"sign", "msg sk", func(a []any) any { return s.Sign(lib.Msg{M: a[0].([]byte)}, a[1]) }, false},
		{"public key", "sk", func(a []any) any { return s.PubOf(a[0]) }, false},
		{"public key", "sk", func(a []any) any { return s.PubOf(a[0]) }, false},
		{"sign and verify", "msg sk", func(a []any) any {
			m := lib.Msg{M: a[0].([]byte)}
			sig, pub := s.Sign(m, a[1]), s.PubOf(a[1])
			return []any{sig, pub, s.Verify(m, pub, sig)}
		}, false},
		{"verify", "msg pk sg", func(a []any) any { return s.Verify(lib.Msg{M: a[0].([]byte)}, a[1], a[2]) }, true},
		{"verify the right one", "right", func(a []any) any {
			a = a[0].([]any)
			return s.Verify(lib.Msg{M: a[0].([]byte)}, a[1], a[2])
		}, false},
		{"verify the right aggregate", "rightall", func(a []any) any {
			a = a[0].([]any)
			return s.VerifyAgg(a[2], a[1].([]any), a[0].([][]byte))
		}, true},
		{"verify the right aggregate for one message", "rightone", func(a []any) any {
			a = a[0].([]any)
			return s.VerifyOne(a[2], a[1].([]any), lib.Msg{M: a[0].([]byte)})
		}, false},
		{"verify", "msg sk pk", func(a []any) any { // true, then false once something changes
			m := lib.Msg{M: a[0].([]byte)}
			k, _ := s.PoolKey0()
			return s.Verify(m, a[2], s.Sign(m, a[1])) || s.Verify(m, s.PubOf(s.Key(k)), s.Sign(m, a[1]))
		}, true},
		{"derive key", "b32", func(a []any) any { return s.DeriveKey(a[0].([32]byte)) }, false},
		{"key from number", "rr<r", func(a []any) any {
			if lib.FromRR(a[0].(tRR)).Cmp(R) >= 0 {
				return "none"
			}
			return s.KeyOf(a[0].(tRR))
		}, false},
		{"secret key through bytes", "sk", func(a []any) any { return s.KeyFrom(s.KeyBytes(a[0])) }, false},
		{"public key through bytes", "pk", func(a []any) any { return orErr(s.PubFrom(s.PubBytes(a[0]))) }, false},
		{"signature through bytes", "sg", func(a []any) any { return orErr(s.SigFrom(s.SigBytes(a[0]))) }, false},
		{"copy public key", "pk", func(a []any) any { return s.PubCopy(a[0]) }, false},
		{"copy signature", "sg", func(a []any) any { return s.SigCopy(a[0]) }, false},
		{"aggregate keys", "pks", func(a []any) any { return s.PubSum(a[0].([]any)) }, false},
		{"aggregate signatures", "sgs", func(a []any) any { return s.SigSum(a[0].([]any)) }, false},
		{"add key", "pk pk", func(a []any) any { x := s.PubCopy(a[0]); s.PubAdd(x, a[1]); return x }, false},
		{"add signature", "sg sg", func(a []any) any { x := s.SigCopy(a[0]); s.SigAdd(x, a[1]); return x }, false},
		{"blanks", "pk sg", func(a []any) any {
			p, g := s.PubBlank(), s.SigBlank()
			s.PubAdd(p, a[0])
			s.SigAdd(g, a[1])
			return []any{s.PubBlank(), s.SigBlank(), p, g}
		}, false},
		{"points", "pk sg", func(a []any) any {
			return []any{s.RawPub(a[0]), s.RawSig(a[1])}
		}, false},
		{"keys equal", "pk pk", func(a []any) any { return s.PubEq(a[0], a[1]) }, false},
		{"texts", "sk pk sg", func(a []any) any { return fmt.Sprint(a[0], a[1], a[2]) }, false},
		{"aggregate over messages", "messages sks", func(a []any) any {
			msgs, sks := a[0].([][]byte), a[1].([]any)
			sig := s.SigBlank()
			var pubs []any
			for i, m := range msgs {
				s.SigAdd(sig, s.Sign(lib.Msg{M: m}, sks[i%len(sks)]))
				pubs = append(pubs, s.PubOf(sks[i%len(sks)]))
			}
			return two(sig, s.VerifyAgg(sig, pubs, msgs))
		}, true},
		{"aggregate over one message", "msg sks", func(a []any) any {
			m, sks := lib.Msg{M: a[0].([]byte)}, a[1].([]any)
			sig := s.SigBlank()
			var pubs []any
			for _, k := range sks {
				s.SigAdd(sig, s.Sign(m, k))
				pubs = append(pubs, s.PubOf(k))
			}
			return two(sig, s.VerifyOne(sig, pubs, m))
		}, true},
	}
	if s.Domains {
		l = append(l,
			call{"sign in a domain", "m32 sk b8", func(a []any) any {
				b, d := a[0].([32]byte), a[2].([8]byte)
				m := lib.Msg{M: b[:], Domain: &d}
				sig, pub := s.Sign(m, a[1]), s.PubOf(a[1])
				return []any{sig, s.Verify(m, pub, sig), s.VerifyOne(sig, []any{pub}, m), s.VerifyAggD(sig, []any{pub}, [][32]byte{b}, d)}
			}, true},
			call{"verify the right one in a domain", "rightd", func(a []any) any {
				a = a[0].([]any)
				d, b := a[0].([8]byte), [32]byte(a[1].([]byte))
				m := lib.Msg{M: b[:], Domain: &d}
				return []any{s.Verify(m, a[2], a[3]), s.VerifyOne(a[3], []any{a[2]}, m), s.VerifyAggD(a[3], []any{a[2]}, [][32]byte{b}, d)}
			}, false},
			call{"verify in a domain", "m32 pk sg b8", func(a []any) any {
				b, d := a[0].([32]byte), a[3].([8]byte)
				m := lib.Msg{M: b[:], Domain: &d}
				return []any{s.Verify(m, a[1], a[2]), s.VerifyOne(a[2], []any{a[1]}, m), s.VerifyAggD(a[2], []any{a[1]}, [][32]byte{b}, d)}
			}, true})
	}
	for i := range l {
		l[i].name = s.Name + " " + l[i].name
		l[i].args = k(l[i].args)
	}
	return l
}

// fields splits kinds; "qr short" is one kind.
func fields(s string) func(func(string) bool) {
	return func(yield func(string) bool) {
		w := ""
		for i := 0; i <= len(s); i++ {
			if i == len(s) || s[i] == ' ' && !(w == "qr" && len(s) >= i+6 && s[i:i+6] == " short") {
				if w != "" && !yield(w) {
					return
				}
				w = ""
				continue
			}
			w += string(s[i])
		}
	}
}

// again calls a function repeatedly, and changes its results and arguments in
// between.
func again(c *vt.Case, f call) {
	c.Log("function", f.name)
	var mk []maker
	for k := range fields(f.args) {
		mk = append(mk, argument(c, k, 0))
	}
	n, j := c.Int("change", 0, 5000), c.Pick(len(mk))
	fresh := func() (a []any) {
		for _, m := range mk {
			a = append(a, m())
		}
		return
	}
	x, y := fresh(), fresh()
	was := value(x)
	c.Count(true, f.name, was, n, j)
	same := func(what, got, wanted string) {
		if got != wanted {
			c.Failf("%s: %s: got %.900s, want %.900s", f.name, what, got, wanted)
		}
	}
	r1 := f.f(x)
	s := value(r1)
	same("the arguments after the call", value(x), was)
	change(r1, n)
	same("the arguments after the result changed", value(x), was)
	r2 := f.f(x)
	same("the second result", value(r2), s)
	r3 := f.f(y)
	same("the result for equal arguments", value(r3), s)
	change(r2, n+1)
	same("a result after another one changed", value(r3), s)
	if c.Pick(3) > 0 { // the last call before the change is with the same object
		same("a result", value(f.f(x)), s)
	}
	change(x[j], n)
	same("a result after an argument of another call changed", value(r3), s)
	change(y[j], n)
	same("a result after its argument changed", value(r3), s)
	r4 := f.f(x)
	z := fresh()
	change(z[j], n)
	same("the changed arguments", value(x), value(z))
	r5 := f.f(z)
	same("the result for changed arguments", value(r4), value(r5))
	same("a result after later calls", value(r3), s)
	r6 := f.f(fresh())
	same("the first result again", value(r6), s)
	change(r6, n+2)
	same("a result after a later one changed", value(r3), s)
	constants(c, "afterwards")
}
