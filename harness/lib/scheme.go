package lib

import (
	"fmt"
	"io"

	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// Point is a model.P1 or a model.P2.
type Point = any

// EG is a group with the field type erased, so that one test serves both
// schemes.
type EG struct {
	Name     string
	Gen      Point
	O        Point
	Size     int
	Add      func(a, b Point) Point
	Neg      func(a Point) Point
	Mul      func(a Point, k *I) Point
	Eq       func(a, b Point) bool
	Endo     func(a Point) Point
	Near     func(n int, a Point) Point
	Inf      func(a Point) bool
	InSub    func(a Point) bool
	Compress func(a Point) []byte
	// Decompress tells whether the bytes encode a point of the curve.
	Decompress func(b []byte) (Point, bool)
	Sub        func(c *vt.Case, label string) (Point, *I)
	Any        func(c *vt.Case, label string) Point
	// Damage draws bytes that are or were an encoding of the point.
	Damage func(c *vt.Case, a Point) []byte
	pool   []Point
	scalar []*I
}

func erase[E, A, P any](g *Grp[E, A, P]) *EG {
	type pt = model.Pt[E]
	e := &EG{
		Name: g.Name, Gen: g.Gen, O: g.C.O(), Size: g.Size,
		Add:      func(a, b Point) Point { return g.C.Add(a.(pt), b.(pt)) },
		Neg:      func(a Point) Point { return g.C.Neg(a.(pt)) },
		Mul:      func(a Point, k *I) Point { return g.C.Mul(a.(pt), k) },
		Eq:       func(a, b Point) bool { return g.C.Eq(a.(pt), b.(pt)) },
		Near:     func(n int, a Point) Point { return g.Near(n, a.(pt)) },
		Endo:     func(a Point) Point { return g.Endo(a.(pt)) },
		Inf:      func(a Point) bool { return a.(pt).Inf },
		InSub:    func(a Point) bool { return g.C.InSub(a.(pt)) },
		Compress: func(a Point) []byte { return g.MCompress(a.(pt)) },
		Decompress: func(b []byte) (Point, bool) {
			p, ok := g.MDecompress(b)
			return p, ok
		},
		Sub:    func(c *vt.Case, l string) (Point, *I) { p, k := g.SubPt(c, l); return p, k },
		Any:    func(c *vt.Case, l string) Point { return g.AnyPt(c, l) },
		Damage: func(c *vt.Case, a Point) []byte { return g.Damage(c, a.(pt)) },
	}
	for i, p := range g.Pool.Sub {
		e.pool = append(e.pool, p)
		e.scalar = append(e.scalar, g.Pool.Scalars[i])
	}
	return e
}

// E1 and E2 are the erased groups.
var E1, E2 *EG

// A message for the schemes: with a domain, only the first 32 bytes count.
type Msg struct {
	M      []byte
	Domain *[8]byte
}

func (m Msg) b32() (b [32]byte) {
	if len(m.M) != 32 {
		panic("harness: message length")
	}
	copy(b[:], m.M)
	return
}

func (m Msg) String() string {
	s := fmt.Sprintf("%d bytes %x", len(m.M), m.M)
	if len(m.M) > 48 {
		s = fmt.Sprintf("%d bytes %x...%x", len(m.M), m.M[:16], m.M[len(m.M)-16:])
	}
	if m.Domain != nil {
		s += fmt.Sprintf(" domain %x", *m.Domain)
	}
	return s
}

// SK, PK and SG are the schemes' keys and signatures.
type (
	SK = any
	PK = any
	SG = any
)

// Scheme has the operations of g1pubs or g2pubs.
type Scheme struct {
	Name     string
	Sig, Pub *EG
	Domains  bool // whether there are signatures with domains

	Hash func(m Msg) Point // the model's

	Key         func(k *I) SK
	KeyBytes    func(SK) [32]byte
	KeyFrom     func([32]byte) SK
	KeyElement  func(SK) *bls.FR
	KeyOf       func(*bls.FRRepr) SK
	DeriveKey   func([32]byte) SK
	RandKey     func(io.Reader) (SK, error)
	IsNilKey    func(SK) bool
	PubOf       func(SK) PK
	Sign        func(Msg, SK) SG
	Verify      func(Msg, PK, SG) bool
	SigBytes    func(SG) []byte
	SigFrom     func([]byte) (SG, error)
	SigOf       func(Point) SG
	SigPoint    func(SG) Point // through GetPoint
	RawSig      func(SG) any   // what GetPoint returns
	RawPub      func(PK) any
	SigCopy     func(SG) SG
	SigAdd      func(SG, SG)
	SigSum      func([]SG) SG
	SigBlank    func() SG
	SigScramble func(SG) // change the point that GetPoint returned
	PubBytes    func(PK) []byte
	PubFrom     func([]byte) (PK, error)
	PubAt       func(Point) PK
	PubPoint    func(PK) Point
	PubCopy     func(PK) PK
	PubAdd      func(PK, PK)
	PubSum      func([]PK) PK
	PubBlank    func() PK
	PubScramble func(PK)
	PubEq       func(PK, PK) bool
	VerifyAgg   func(SG, []PK, [][]byte) bool
	VerifyAggD  func(SG, []PK, [][32]byte, [8]byte) bool // nil on g2pubs
	VerifyOne   func(SG, []PK, Msg) bool
}

func list[T any](v []any) []T {
	if v == nil {
		return nil
	}
	var r []T
	if len(v) > 0 && shared != nil {
		if l, ok := shared[&v[0]].([]T); ok && len(l) == len(v) {
			return l
		}
	}
	if Reuse && len(v) <= 320 {
		var t *T
		key := fmt.Sprintf("%T", t)
		if lists[key] == nil {
			lists[key] = make([]T, 320)
		}
		r = lists[key].([]T)[:len(v)]
	} else {
		r = make([]T, len(v))
	}
	for i := range v {
		r[i] = v[i].(T)
	}
	return r
}

// Reuse has all calls that are given lists of keys or signatures find them in
// the same memory. Not for several goroutines.
var Reuse = true

var lists = map[string]any{}

var shared map[*any]any

// Share has all calls that are given one of these lists, and no others, find
// it in the same memory.
func Share(ls ...[]any) {
	m := map[*any]any{}
	for _, v := range ls {
		switch v[0].(type) {
		case *g1pubs.Signature:
			m[&v[0]] = list[*g1pubs.Signature](v)
		case *g1pubs.PublicKey:
			m[&v[0]] = list[*g1pubs.PublicKey](v)
		case *g2pubs.Signature:
			m[&v[0]] = list[*g2pubs.Signature](v)
		case *g2pubs.PublicKey:
			m[&v[0]] = list[*g2pubs.PublicKey](v)
		}
	}
	shared = m
}

// with calls f with the values as a list of their type. Whatever f does to
// the list is done to the values.
func with[T comparable, R any](v []any, f func([]T) R) R {
	l := list[T](v)
	r := f(l)
	for i := range l {
		if v[i].(T) != l[i] {
			v[i] = l[i]
		}
	}
	return r
}

// pick is the receiver or nil; an error comes with no value.
func res[T any](v *T, err error) (any, error) {
	if err != nil {
		if v != nil {
			return v, err
		}
		return nil, err
	}
	if v == nil {
		return nil, nil
	}
	return v, nil
}

// Schemes are the two signature schemes.
var Schemes []*Scheme

func makeSchemes() {
	E1, E2 = erase(G1), erase(G2)
	type (
		s1 = *g1pubs.Signature
		p1 = *g1pubs.PublicKey
		k1 = *g1pubs.SecretKey
		s2 = *g2pubs.Signature
		p2 = *g2pubs.PublicKey
		k2 = *g2pubs.SecretKey
	)
	g1 := &Scheme{
		Name: "g1pubs", Sig: E2, Pub: E1, Domains: true,
		Hash: func(m Msg) Point {
			if m.Domain != nil {
				return HashD(m.b32(), *m.Domain)
			}
			return Hash2(m.M)
		},
		Key:        func(k *I) SK { return g1pubs.KeyFromFQRepr(RRepr(k)) },
		KeyBytes:   func(k SK) [32]byte { return k.(k1).Serialize() },
		KeyFrom:    func(b [32]byte) SK { return g1pubs.DeserializeSecretKey(b) },
		KeyElement: func(k SK) *bls.FR { return k.(k1).GetFRElement() },
		KeyOf:      func(r *bls.FRRepr) SK { return g1pubs.KeyFromFQRepr(r) },
		DeriveKey:  func(b [32]byte) SK { return g1pubs.DeriveSecretKey(b) },
		RandKey:    func(r io.Reader) (SK, error) { return res(g1pubs.RandKey(r)) },
		IsNilKey:   func(k SK) bool { return k == nil || k.(k1) == nil },
		PubOf:      func(k SK) PK { return g1pubs.PrivToPub(k.(k1)) },
		Sign: func(m Msg, k SK) SG {
			if m.Domain != nil {
				return g1pubs.SignWithDomain(m.b32(), k.(k1), *m.Domain)
			}
			return g1pubs.Sign(m.M, k.(k1))
		},
		Verify: func(m Msg, p PK, s SG) bool {
			if m.Domain != nil {
				return g1pubs.VerifyWithDomain(m.b32(), p.(p1), s.(s1), *m.Domain)
			}
			return g1pubs.Verify(m.M, p.(p1), s.(s1))
		},
		SigBytes:    func(s SG) []byte { b := s.(s1).Serialize(); return b[:] },
		SigFrom:     func(b []byte) (SG, error) { return res(g1pubs.DeserializeSignature(arr96(b))) },
		SigOf:       func(p Point) SG { return g1pubs.NewSignatureFromG2(A2(p.(model.P2))) },
		SigPoint:    func(s SG) Point { return R2(s.(s1).GetPoint().ToAffine()) },
		RawSig:      func(s SG) any { return s.(s1).GetPoint() },
		RawPub:      func(p PK) any { return p.(p1).GetPoint() },
		SigCopy:     func(s SG) SG { return s.(s1).Copy() },
		SigAdd:      func(a, b SG) { a.(s1).Aggregate(b.(s1)) },
		SigSum:      func(l []SG) SG { return with(l, g1pubs.AggregateSignatures) },
		SigBlank:    func() SG { return g1pubs.NewAggregateSignature() },
		SigScramble: func(s SG) { *s.(s1).GetPoint() = *bls.G2ProjectiveOne.Double() },
		PubBytes:    func(p PK) []byte { b := p.(p1).Serialize(); return b[:] },
		PubFrom:     func(b []byte) (PK, error) { return res(g1pubs.DeserializePublicKey(arr48(b))) },
		PubAt:       func(p Point) PK { return g1pubs.NewPublicKeyFromG1(A1(p.(model.P1))) },
		PubPoint:    func(p PK) Point { return R1(p.(p1).GetPoint().ToAffine()) },
		PubCopy:     func(p PK) PK { return p.(p1).Copy() },
		PubAdd:      func(a, b PK) { a.(p1).Aggregate(b.(p1)) },
		PubSum:      func(l []PK) PK { return with(l, g1pubs.AggregatePublicKeys) },
		PubBlank:    func() PK { return g1pubs.NewAggregatePubkey() },
		PubScramble: func(p PK) { q := p.(p1).GetPoint(); q.NegAssign(); *q = *bls.G1ProjectiveOne.Double() },
		PubEq:       func(a, b PK) bool { return a.(p1).Equals(*b.(p1)) },
		VerifyAgg: func(s SG, p []PK, m [][]byte) bool {
			return with(p, func(p []p1) bool { return s.(s1).VerifyAggregate(p, m) })
		},
		VerifyAggD: func(s SG, p []PK, m [][32]byte, d [8]byte) bool {
			return with(p, func(p []p1) bool { return s.(s1).VerifyAggregateWithDomain(p, m, d) })
		},
		VerifyOne: func(s SG, p []PK, m Msg) bool {
			if m.Domain != nil {
				return with(p, func(p []p1) bool { return s.(s1).VerifyAggregateCommonWithDomain(p, m.b32(), *m.Domain) })
			}
			return with(p, func(p []p1) bool { return s.(s1).VerifyAggregateCommon(p, m.M) })
		},
	}
	g2 := &Scheme{
		Name: "g2pubs", Sig: E1, Pub: E2,
		Hash:        func(m Msg) Point { return Hash1(m.M) },
		Key:         func(k *I) SK { return g2pubs.KeyFromFQRepr(RRepr(k)) },
		KeyBytes:    func(k SK) [32]byte { return k.(k2).Serialize() },
		KeyFrom:     func(b [32]byte) SK { return g2pubs.DeserializeSecretKey(b) },
		KeyElement:  func(k SK) *bls.FR { return k.(k2).GetFRElement() },
		KeyOf:       func(r *bls.FRRepr) SK { return g2pubs.KeyFromFQRepr(r) },
		DeriveKey:   func(b [32]byte) SK { return g2pubs.DeriveSecretKey(b) },
		RandKey:     func(r io.Reader) (SK, error) { return res(g2pubs.RandKey(r)) },
		IsNilKey:    func(k SK) bool { return k == nil || k.(k2) == nil },
		PubOf:       func(k SK) PK { return g2pubs.PrivToPub(k.(k2)) },
		Sign:        func(m Msg, k SK) SG { return g2pubs.Sign(m.M, k.(k2)) },
		Verify:      func(m Msg, p PK, s SG) bool { return g2pubs.Verify(m.M, p.(p2), s.(s2)) },
		SigBytes:    func(s SG) []byte { b := s.(s2).Serialize(); return b[:] },
		SigFrom:     func(b []byte) (SG, error) { return res(g2pubs.DeserializeSignature(arr48(b))) },
		SigOf:       func(p Point) SG { return g2pubs.NewSignatureFromG1(A1(p.(model.P1))) },
		SigPoint:    func(s SG) Point { return R1(s.(s2).GetPoint().ToAffine()) },
		RawSig:      func(s SG) any { return s.(s2).GetPoint() },
		RawPub:      func(p PK) any { return p.(p2).GetPoint() },
		SigCopy:     func(s SG) SG { return s.(s2).Copy() },
		SigAdd:      func(a, b SG) { a.(s2).Aggregate(b.(s2)) },
		SigSum:      func(l []SG) SG { return with(l, g2pubs.AggregateSignatures) },
		SigBlank:    func() SG { return g2pubs.NewAggregateSignature() },
		SigScramble: func(s SG) { q := s.(s2).GetPoint(); q.NegAssign(); *q = *bls.G1ProjectiveOne.Double() },
		PubBytes:    func(p PK) []byte { b := p.(p2).Serialize(); return b[:] },
		PubFrom:     func(b []byte) (PK, error) { return res(g2pubs.DeserializePublicKey(arr96(b))) },
		PubAt:       func(p Point) PK { return g2pubs.NewPublicKeyFromG2(A2(p.(model.P2))) },
		PubPoint:    func(p PK) Point { return R2(p.(p2).GetPoint().ToAffine()) },
		PubCopy:     func(p PK) PK { return p.(p2).Copy() },
		PubAdd:      func(a, b PK) { a.(p2).Aggregate(b.(p2)) },
		PubSum:      func(l []PK) PK { return with(l, g2pubs.AggregatePublicKeys) },
		PubBlank:    func() PK { return g2pubs.NewAggregatePubkey() },
		PubScramble: func(p PK) { *p.(p2).GetPoint() = *bls.G2ProjectiveOne.Double() },
		PubEq:       func(a, b PK) bool { return a.(p2).Equals(*b.(p2)) },
		VerifyAgg: func(s SG, p []PK, m [][]byte) bool {
			return with(p, func(p []p2) bool { return s.(s2).VerifyAggregate(p, m) })
		},
		VerifyOne: func(s SG, p []PK, m Msg) bool {
			return with(p, func(p []p2) bool { return s.(s2).VerifyAggregateCommon(p, m.M) })
		},
	}
	Schemes = []*Scheme{g1, g2}
}

// The model's hashes, remembered.
var (
	memo1 = map[string]model.P1{}
	memo2 = map[string]model.P2{}
	memoD = map[[40]byte]model.P2{}
)

func remember[K comparable, V any](m map[K]V, k K, f func() V) V {
	v, ok := m[k]
	if !ok {
		if len(m) > 20000 {
			clear(m)
		}
		v = f()
		m[k] = v
	}
	return v
}

func Hash1(m []byte) model.P1 {
	return remember(memo1, string(m), func() model.P1 { return model.Hash1(m) })
}
func Hash2(m []byte) model.P2 {
	return remember(memo2, string(m), func() model.P2 { return model.Hash2(m) })
}
func HashD(m [32]byte, d [8]byte) model.P2 {
	var k [40]byte
	copy(k[:], m[:])
	copy(k[32:], d[:])
	return remember(memoD, k, func() model.P2 { return model.HashDomain(m, d) })
}

// PoolKey draws a key from a fixed list, with its public key.
func (s *Scheme) PoolKey(c *vt.Case) (k *I, pub Point) {
	i := c.Pick(len(s.Pub.pool))
	return s.Pub.scalar[i], s.Pub.pool[i]
}

// DrawPub makes the public key of a point in one of several ways, which differ
// in how the point is represented.
func (s *Scheme) DrawPub(c *vt.Case, p Point) PK {
	return draw(c, s.Pub, p, s.PubAt, s.PubAdd, s.PubCopy, s.PubBlank, s.PubSum, s.PubBytes, s.PubFrom)
}

// DrawSig does it for a signature.
func (s *Scheme) DrawSig(c *vt.Case, p Point) SG {
	return draw(c, s.Sig, p, s.SigOf, s.SigAdd, s.SigCopy, s.SigBlank, s.SigSum, s.SigBytes, s.SigFrom)
}

func draw(c *vt.Case, g *EG, p Point, at func(Point) any, add func(a, b any), cp func(any) any, blank func() any,
	sum func([]any) any, enc func(any) []byte, dec func([]byte) (any, error)) any {
	how := c.Pick(8)
	if how > 3 {
		return at(p)
	}
	t := g.pool[c.Pick(len(g.pool))]
	a, b := at(g.Add(p, g.Neg(t))), at(t)
	switch how {
	case 0:
		c.Log("made by", "addition")
		add(a, b)
		return a
	case 1:
		c.Log("made by", "sum")
		return sum([]any{b, a})
	case 2:
		c.Log("made by", "addition to a blank, and copied")
		x := blank()
		add(x, b)
		add(x, a)
		return cp(x)
	}
	if !g.InSub(p) {
		return at(p)
	}
	c.Log("made by", "bytes")
	x, err := dec(g.Compress(p))
	if err != nil || x == nil {
		c.Failf("%s: an encoding is refused: %v", g.Name, err)
	}
	return x
}

// PoolKeyAt is a key of that list.
func (s *Scheme) PoolKeyAt(i int) (k *I, pub Point) {
	i = 1 + i%(len(s.Pub.pool)-1)
	return s.Pub.scalar[i], s.Pub.pool[i]
}

// PoolAt is a point of the list.
func (g *EG) PoolAt(i int) Point { return g.pool[1+i%(len(g.pool)-1)] }

// PoolKey0 is the first key of the list.
func (s *Scheme) PoolKey0() (k *I, pub Point) { return s.Pub.scalar[1], s.Pub.pool[1] }

// DrawKey draws a secret key and computes its public key.
func (s *Scheme) DrawKey(c *vt.Case, label string) (k *I, pub Point) {
	switch c.Pick(8) {
	case 0:
		k, pub = new(I), s.Pub.O
	case 1:
		k = c.Fr(label)
		return k, s.Pub.Mul(s.Pub.Gen, k)
	case 2, 3, 4, 5:
		k, pub = s.PoolKey(c)
	default:
		a, p := s.PoolKey(c)
		b, q := s.PoolKey(c)
		k, pub = model.Fr.Add(a, b), s.Pub.Add(p, q)
	}
	c.Log(label, fmt.Sprintf("%#x", k))
	return
}

// Msgs draws from a fixed list of messages that are often close to each other.
var poolMsgs = func() [][]byte {
	s := &stream{tag: "messages"}
	l := [][]byte{{}, {0}, {1}, {0, 0}, {0, 1}, {1, 0}, make([]byte, 31), make([]byte, 32), make([]byte, 33), []byte("a"), []byte("b"), []byte("ab")}
	for i := 0; i < 4; i++ {
		m := s.bytes()[:32]
		for _, at := range []int{0, 7, 8, 15, 16, 31} {
			n := append([]byte{}, m...)
			n[at] ^= 1
			l = append(l, n)
		}
		l = append(l, m, m[:31], append(append([]byte{}, m...), 0), append(append([]byte{}, m...), m...))
	}
	for _, n := range []int{55, 56, 63, 64, 65, 127, 128, 200, 1000} {
		var b []byte
		for len(b) < n {
			b = append(b, s.bytes()...)
		}
		l = append(l, b[:n])
		d := append([]byte{}, b[:n]...)
		d[n-1] ^= 1
		l = append(l, d)
	}
	return l
}()

// PoolMsg draws a message from the list.
func PoolMsg(c *vt.Case) []byte {
	return append([]byte{}, poolMsgs[c.Pick(len(poolMsgs))]...)
}

var poolMsgs32 = func() (l [][]byte) {
	for _, m := range poolMsgs {
		if len(m) == 32 {
			l = append(l, m)
		}
	}
	return
}()

// PoolMsg32 draws one of 32 bytes.
func PoolMsg32(c *vt.Case) []byte {
	return append([]byte{}, poolMsgs32[c.Pick(len(poolMsgs32))]...)
}

// DrawMsg draws a message for the scheme.
func (s *Scheme) DrawMsg(c *vt.Case, label string) (m Msg) {
	if s.Domains && c.Pick(2) == 0 {
		d := DrawDomain(c)
		m.Domain = &d
		if c.Pick(3) == 0 {
			b := c.Bytes32(label)
			m.M = b[:]
		} else {
			m.M = PoolMsg32(c)
		}
	} else if c.Pick(3) == 0 {
		m.M = c.Msg(label)
	} else {
		m.M = PoolMsg(c)
	}
	c.Log(label, m)
	return
}

// DrawDomain draws a domain, often a common one.
func DrawDomain(c *vt.Case) (d [8]byte) {
	switch c.Pick(4) {
	case 0:
	case 1:
		d[c.Pick(8)] = byte(1 + c.Pick(3))
	case 2:
		for i := range d {
			d[i] = 0xff
		}
	default:
		d = c.Bytes8("domain")
	}
	return
}
