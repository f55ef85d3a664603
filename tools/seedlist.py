"""The planted bugs (see seeds.py)."""
from seeds import seed

SIGN = '''
func seededKey(n byte) *@P@.SecretKey {
	var b [32]byte
	b[31] = n
	return @P@.DeserializeSecretKey(b)
}
'''


def sign(p):
    return SIGN.replace("@P@", p)


# ---------------------------------------------------------------- schemes

seed("c03-dup-key-padded", "C03", [("g1pubs/bls.go", '''	msgsCopy := make([][]byte, len(msgs))

	for i, m := range msgs {
		msgsCopy[i] = make([]byte, len(m))
		copy(msgsCopy[i], m)
	}

	msgsSorted := sortByteArrays(msgsCopy)

	// check for duplicates
	for i, m := range msgsSorted {
		if i > 0 && bytes.Equal(m, msgsSorted[i-1]) {
			return false
		}
	}
''', '''	// check for duplicates
	seen := make(map[[64]byte]bool, len(msgs))
	for _, m := range msgs {
		var k [64]byte
		copy(k[:], m)
		if seen[k] {
			return false
		}
		seen[k] = true
	}
''')],
     "two different messages of one aggregate that agree in their first 64 bytes, or differ only in trailing zero bytes",
     "a valid aggregate over distinct messages is rejected as if it had a duplicate",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	long := bytes.Repeat([]byte{7}, 64)
	m := [][]byte{append(append([]byte{}, long...), 1), append(append([]byte{}, long...), 2)}
	k1, k2 := seededKey(3), seededKey(5)
	sig := g1pubs.AggregateSignatures([]*g1pubs.Signature{g1pubs.Sign(m[0], k1), g1pubs.Sign(m[1], k2)})
	if !sig.VerifyAggregate([]*g1pubs.PublicKey{g1pubs.PrivToPub(k1), g1pubs.PrivToPub(k2)}, m) {
		t.Fatal("valid aggregate over distinct messages rejected")
	}
}
''', pkg="g1pubs", imports="bytes")

seed("c03-sorts-callers-slice", "C03", [("g2pubs/bls.go", '''	msgsCopy := make([][]byte, len(msgs))

	for i, m := range msgs {
		msgsCopy[i] = make([]byte, len(m))
		copy(msgsCopy[i], m)
	}
''', '''	msgsCopy := msgs[:len(msgs):len(msgs)]
''')],
     "messages that are not in byte order already",
     "the duplicate check reorders the messages, so that keys are paired with the wrong ones: valid aggregates are rejected",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	m := [][]byte{[]byte("b"), []byte("a"), []byte("c")}
	var sigs []*g2pubs.Signature
	var pubs []*g2pubs.PublicKey
	for i := range m {
		k := seededKey(byte(i + 2))
		sigs = append(sigs, g2pubs.Sign(m[i], k))
		pubs = append(pubs, g2pubs.PrivToPub(k))
	}
	if !g2pubs.AggregateSignatures(sigs).VerifyAggregate(pubs, m) {
		t.Fatal("valid aggregate rejected")
	}
}
''', pkg="g2pubs")

seed("c14-identity-shortcut", "C14", [("pairing.go", '''	negP2 := P2.Copy()
	negP2.NegAssign()
''', '''	// e(O, Q) is 1
	if P1.IsZero() || P2.IsZero() {
		return P1.IsZero() && P2.IsZero()
	}
	negP2 := P2.Copy()
	negP2.NegAssign()
''')],
     "one of the two pairs has the point at infinity on the left, the other on the right",
     "CompareTwoPairings returns false although both pairings are 1",
     '''
func TestSeededDemo(t *testing.T) {
	if !bls.CompareTwoPairings(bls.G1ProjectiveOne, bls.G2ProjectiveZero, bls.G1ProjectiveZero, bls.G2ProjectiveOne) {
		t.Fatal("e(P, O) != e(O, Q)")
	}
}
''')

seed("c05-skips-equal-neighbours", "C05", [("g1pubs/bls.go", '''	for _, pub := range p {
		newPub.Aggregate(pub)
	}
''', '''	for i, pub := range p {
		if i > 0 && pub.Equals(*p[i-1]) {
			continue
		}
		newPub.Aggregate(pub)
	}
''')],
     "the same public key twice in a row",
     "AggregatePublicKeys counts a repeated key once, while the signatures are summed with repetition",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	p := g1pubs.PrivToPub(seededKey(9))
	got := g1pubs.AggregatePublicKeys([]*g1pubs.PublicKey{p, p}).Serialize()
	if got != g1pubs.PrivToPub(seededKey(18)).Serialize() {
		t.Fatal("9g + 9g is not 18g")
	}
}
''', pkg="g1pubs")

seed("c04-extra-messages", "C04", [("g1pubs/bls.go", '''func (s *Signature) VerifyAggregateWithDomain(pubKeys []*PublicKey, msgs [][32]byte, domain [8]byte) bool {
	if len(pubKeys) != len(msgs) {
''', '''func (s *Signature) VerifyAggregateWithDomain(pubKeys []*PublicKey, msgs [][32]byte, domain [8]byte) bool {
	if len(msgs) < len(pubKeys) {
''')],
     "more messages than public keys",
     "VerifyAggregateWithDomain accepts messages nobody signed, after the signed ones",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	k := seededKey(3)
	m := [][32]byte{{1}, {2}}
	sig := g1pubs.SignWithDomain(m[0], k, [8]byte{9})
	if sig.VerifyAggregateWithDomain([]*g1pubs.PublicKey{g1pubs.PrivToPub(k)}, m, [8]byte{9}) {
		t.Fatal("accepted with an unsigned message")
	}
}
''', pkg="g1pubs")

seed("c30-more-keys-than-messages", "C30", [("g2pubs/bls.go", '''	if len(pubKeys) != len(msgs) {
''', '''	if len(pubKeys) < len(msgs) {
''')],
     "more public keys than messages",
     "VerifyAggregate indexes past the end of the messages and panics",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	k := seededKey(3)
	p := g2pubs.PrivToPub(k)
	sig := g2pubs.Sign([]byte("m"), k)
	if sig.VerifyAggregate([]*g2pubs.PublicKey{p, p}, [][]byte{[]byte("m")}) {
		t.Fatal("accepted")
	}
}
''', pkg="g2pubs")

seed("c02-trailing-zeros", "C02", [("g2pubs/bls.go", '''	h := bls.HashG1(message).MulFR(key.f.ToRepr())
	return &Signature{s: h}
''', '''	h := bls.HashG1(normalise(message)).MulFR(key.f.ToRepr())
	return &Signature{s: h}
'''), ("g2pubs/bls.go", '''func Verify(m []byte, pub *PublicKey, sig *Signature) bool {
	h := bls.HashG1(m)
''', '''func Verify(m []byte, pub *PublicKey, sig *Signature) bool {
	h := bls.HashG1(normalise(m))
'''), ("g2pubs/bls.go", '''// Sign signs a message with a secret key.
''', '''// normalise strips the padding of a message.
func normalise(m []byte) []byte {
	return bytes.TrimRight(m, "\\x00")
}

// Sign signs a message with a secret key.
''')],
     "two messages that differ in trailing zero bytes only; signing and verifying agree with one another",
     "a signature of one message verifies for another",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	k := seededKey(3)
	if g2pubs.Verify([]byte("m\\x00"), g2pubs.PrivToPub(k), g2pubs.Sign([]byte("m"), k)) {
		t.Fatal("the signature of m verifies for m with a zero byte appended")
	}
}
''', pkg="g2pubs")

seed("c08-short-secret-key", "C08", [("fr.go", '''	return f.ToRepr().Bytes()
''', '''	var out [32]byte
	copy(out[:], f.ToRepr().ToBig().Bytes())
	return out
''')],
     "a secret key below 2**248",
     "the serialization of a secret key with leading zero bytes is left-aligned: another key comes back",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	var want [32]byte
	want[31] = 200
	if seededKey(200).Serialize() != want {
		t.Fatal("wrong serialization")
	}
}
''', pkg="g1pubs")

seed("c08-unchecked-public-key", "C08", [("g2pubs/bls.go", '''	a, err := bls.DecompressG2(b)
''', '''	a, err := bls.DecompressG2Unchecked(b)
''')],
     "an encoding of a curve point outside the prime-order subgroup",
     "DeserializePublicKey accepts keys outside the subgroup",
     '''
func TestSeededDemo(t *testing.T) {
	for i := byte(1); i < 40; i++ {
		var b [96]byte
		b[0], b[95] = 0x80, i
		p, err := bls.DecompressG2Unchecked(b)
		if err != nil || p.IsInCorrectSubgroupAssumingOnCurve() {
			continue
		}
		if _, err := g2pubs.DeserializePublicKey(b); err == nil {
			t.Fatal("key outside the subgroup accepted")
		}
	}
}
''', pkg="g2pubs")

seed("c24-key-cache-aliased", "C24", [("g1pubs/bls.go", '''func PrivToPub(k *SecretKey) *PublicKey {
	return &PublicKey{p: bls.G1AffineOne.MulFR(k.f.ToRepr())}
}
''', '''func PrivToPub(k *SecretKey) *PublicKey {
	id := k.Serialize()
	pubsMu.Lock()
	defer pubsMu.Unlock()
	pub, found := pubs[id]
	if !found {
		pub = &PublicKey{p: bls.G1AffineOne.MulFR(k.f.ToRepr())}
		pubs[id] = pub
	}
	return pub
}

// pubs holds the public keys that were computed already.
var (
	pubsMu sync.Mutex
	pubs   = map[[32]byte]*PublicKey{}
)
'''), ("g1pubs/bls.go", '''	"sort"
''', '''	"sort"
	"sync"
''')],
     "the public key of one secret key is derived, aggregated into, and derived again",
     "PrivToPub returns the aggregate instead of the key",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	a, b := seededKey(3), seededKey(4)
	want := g1pubs.PrivToPub(a).Serialize()
	p := g1pubs.PrivToPub(a)
	p.Aggregate(g1pubs.PrivToPub(b))
	if g1pubs.PrivToPub(a).Serialize() != want {
		t.Fatal("the public key changed")
	}
}
''', pkg="g1pubs")

# ---------------------------------------------------------------- encodings

seed("c06-infinity-sign-bit", "C06", [("g1.go", '''		copyBytes[0] &= 0x3f
''', '''		copyBytes[0] &= 0x1f
''')],
     "the encoding of the point at infinity with the sign bit set",
     "two encodings of the point at infinity are accepted",
     '''
func TestSeededDemo(t *testing.T) {
	if _, err := bls.DecompressG1([48]byte{0xe0}); err == nil {
		t.Fatal("0xe0 00.. accepted")
	}
}
''')

seed("c06-infinity-second-half", "C06", [("g2.go", '''		for _, b := range c {
			if b != 0 {
''', '''		for _, b := range c[:48] {
			if b != 0 {
''')],
     "an encoding of the point at infinity with information in the last 48 bytes",
     "encodings of the point at infinity with arbitrary bytes in the second half are accepted",
     '''
func TestSeededDemo(t *testing.T) {
	b := [96]byte{0xc0}
	b[95] = 1
	if _, err := bls.DecompressG2(b); err == nil {
		t.Fatal("accepted")
	}
}
''')

seed("c07-on-curve-half", "C07", [("g2.go", '''	x3b.AddAssign(BCoeffFQ2)

	return y2.Equals(x3b)
''', '''	x3b.AddAssign(BCoeffFQ2)

	return y2.c0.Equals(x3b.c0)
''')],
     "coordinates off the curve whose equation still holds in the real part",
     "IsOnCurve looks at one coefficient of the equation only",
     '''
func TestSeededDemo(t *testing.T) {
	// y^2 = -1 has real part -1 and imaginary part 0; choose x = c*u with (c*u)^3 = -c^3 u, real part 0
	// x^3 + 4 + 4u = 4 + (4 - c^3)u; y = 2 gives 4 + 0u
	x := bls.NewFQ2(bls.FQZero, bls.FQOne)
	two := bls.FQOne.Copy()
	two.AddAssign(bls.FQOne)
	if bls.NewG2Affine(x, bls.NewFQ2(two, bls.FQZero)).IsOnCurve() {
		t.Fatal("(u, 2) is not on the curve")
	}
}
''')

seed("c09-unpadded-limb", "C09", [("g2.go", '''	yC1Bytes := g.y.c1.ToRepr().Bytes()
''', '''	yC1Bytes := g.y.c1.ToRepr().ToBig().Bytes()
''')],
     "a point whose last coefficient has a leading zero byte",
     "SerializeBytes writes the last coefficient left-aligned",
     '''
func TestSeededDemo(t *testing.T) {
	p := bls.NewG2Affine(bls.FQ2One, bls.NewFQ2(bls.FQZero, bls.FQOne))
	var want [192]byte
	want[47], want[191] = 1, 1
	if p.SerializeBytes() != want {
		t.Fatal("wrong bytes")
	}
}
''')

# ---------------------------------------------------------------- hashing

seed("c10-buffer-of-256", "C10", [("hash.go", '''func HashG2(msg []byte) *G2Affine {
	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)
''', '''func HashG2(msg []byte) *G2Affine {
	buf := [1024]byte{cipherSuite}
	cipherSuiteAndMessage := buf[:1+copy(buf[1:], msg)]
''')],
     "messages longer than 1023 bytes",
     "HashG2 ignores what follows the first 1023 bytes of the message",
     '''
func TestSeededDemo(t *testing.T) {
	a, b := make([]byte, 1500), make([]byte, 1500)
	b[1499] = 1
	if bls.HashG2(a).Equals(bls.HashG2(b)) {
		t.Fatal("two messages with one hash")
	}
}
''')

seed("c24-hash-memo-aliased", "C24", [("hash.go", '''func HashG1(msg []byte) *G1Affine {
	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)
''', '''func HashG1(msg []byte) *G1Affine {
	hashG1Mu.Lock()
	defer hashG1Mu.Unlock()
	if hashG1Point == nil || !bytes.Equal(msg, hashG1Msg) {
		hashG1Msg, hashG1Point = msg, hashG1(msg)
	}
	return hashG1Point.Copy()
}

// the last message that was hashed, which is often asked for again
var (
	hashG1Mu    sync.Mutex
	hashG1Msg   []byte
	hashG1Point *G1Affine
)

func hashG1(msg []byte) *G1Affine {
	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)
'''), ("hash.go", '''import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
''', '''import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"sync"
''')],
     "the caller hashes a buffer, overwrites it and hashes it again",
     "HashG1 returns the hash of the buffer's earlier contents",
     '''
func TestSeededDemo(t *testing.T) {
	buf := []byte("a")
	a := bls.HashG1(buf)
	buf[0] = 'b'
	if bls.HashG1(buf).Equals(a) {
		t.Fatal("hash of the old contents")
	}
}
''')

seed("c25-domain-scratch", "C25", [("g2.go", '''	xReBytes := make([]byte, 0, 32+8+1)
	xReBytes = append(xReBytes, messageHash[:]...)
''', '''	xReBytes := domainScratch[:0]
	xReBytes = append(xReBytes, messageHash[:]...)
'''), ("g2.go", '''// Warning: See BLS standardisation process. This implementation is known to be unsecure.
''', '''var domainScratch [32 + 8 + 1]byte

// Warning: See BLS standardisation process. This implementation is known to be unsecure.
''')],
     "two goroutines hashing with a domain at the same time",
     "the goroutines overwrite each other's input: wrong hashes",
     '''
func TestSeededDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := byte(0); g < 4; g++ {
		wg.Add(1)
		go func(g byte) {
			defer wg.Done()
			for i := 0; i < 3; i++ {
				bls.HashG2WithDomain([32]byte{g}, [8]byte{g})
			}
		}(g)
	}
	wg.Wait()
}
''', imports="sync", race=True)

seed("c25-shared-loop-constant", "C25", [("pairing.go", '''	x := blsX.Copy()

	y0 := r.Copy()
	y0.SquareAssign()
	y1 := ExpByX(y0, x)
	x.Rsh(1)
	y2 := ExpByX(y1, x)
	x.Lsh(1)
''', '''	x := &blsX

	y0 := r.Copy()
	y0.SquareAssign()
	y1 := ExpByX(y0, *x)
	x.Rsh(1)
	y2 := ExpByX(y1, *x)
	x.Lsh(1)
'''), ("pairing.go", '''	y2 = ExpByX(y1, x)
	y3 = ExpByX(y2, x)
''', '''	y2 = ExpByX(y1, *x)
	y3 = ExpByX(y2, *x)
'''), ("pairing.go", '''	y2 = ExpByX(y3, x)
''', '''	y2 = ExpByX(y3, *x)
''')],
     "two goroutines verifying at the same time, one halving the loop constant while the other reads it",
     "the package's loop constant is changed for the duration of a call: concurrent verifications go wrong",
     '''
func TestSeededDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bls.Pairing(bls.G1ProjectiveOne, bls.G2ProjectiveOne)
		}()
	}
	wg.Wait()
}
''', imports="sync", race=True)

seed("c11-eight-tries", "C11", [("g2.go", '''	for {
		gx0 := x0.Copy()
		gx0.SquareAssign()
		gx0.MulAssign(x0)
''', '''	for tries := 0; tries < 8; tries++ {
		gx0 := x0.Copy()
		gx0.SquareAssign()
		gx0.MulAssign(x0)
'''), ("g2.go", '''		x0.AddAssign(FQ2One)
	}
}
''', '''		x0.AddAssign(FQ2One)
	}
	return G2ProjectiveZero.Copy()
}
''')],
     "a message and domain (one of 256) for which the first eight x-coordinates are not on the curve",
     "HashG2WithDomain returns the point at infinity, for which the point at infinity is a valid signature",
     '''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		if bls.HashG2WithDomain([32]byte{byte(i), byte(i >> 8)}, [8]byte{1}).IsZero() {
			t.Fatal("hash at infinity", i)
		}
	}
}
''')

seed("c12-leading-zeros", "C12", [("hash.go", '''	h.Write(b[:])
	msgHash := h.Sum(nil)
	msgPrime := append(msgHash, 0x00)
''', '''	h.Write(new(big.Int).SetBytes(b[:]).Bytes())
	msgHash := h.Sum(nil)
	msgPrime := append(msgHash, 0x00)
''')],
     "a seed that starts with a zero byte",
     "the seed is hashed without its leading zero bytes: another key than the specified one",
     '''
func TestSeededDemo(t *testing.T) {
	var b [32]byte
	b[31] = 1
	h := sha256.Sum256(b[:])
	p := append(h[:], 0, 1)
	t1, t2 := sha256.Sum256(append(append([]byte{}, p...), 1)), sha256.Sum256(append(append([]byte{}, p...), 2))
	n := new(big.Int).SetBytes(append(t1[:], t2[:]...))
	if bls.HashSecretKey(b).ToRepr().ToBig().Cmp(n.Mod(n, bls.RFieldModulus.ToBig())) != 0 {
		t.Fatal("wrong key")
	}
}
''', imports="crypto/sha256 math/big")

# ---------------------------------------------------------------- groups

seed("c15-affine-raw-one", "C15", [("g1.go", '''	} else if g.z.IsZero() {
		return NewG1Affine(g.x, g.y)
	}

	// nonzero so must have an inverse
''', '''	} else if g.z.n.Equals(bigOne) {
		return NewG1Affine(g.x, g.y)
	}

	// nonzero so must have an inverse
''')],
     "a projective point whose z-coordinate is 2**-384",
     "the shortcut for z = 1 compares the Montgomery form with 1: a wrong affine point",
     '''
func TestSeededDemo(t *testing.T) {
	z := bls.FQReprToFQRaw(bls.NewFQRepr(1))
	z2 := z.Copy()
	z2.SquareAssign()
	g := bls.GetSeeded()
	x, y := g[0], g[1]
	x.MulAssign(z2)
	y.MulAssign(z2)
	y.MulAssign(z)
	if !bls.NewG1Projective(x, y, z).ToAffine().Equals(bls.G1AffineOne) {
		t.Fatal("not the generator")
	}
}
'''.replace("g := bls.GetSeeded()\n	x, y := g[0], g[1]", '''b := bls.G1AffineOne.SerializeBytes()
	var xb, yb [48]byte
	copy(xb[:], b[:48])
	copy(yb[:], b[48:])
	x, y := bls.FQReprToFQ(bls.FQReprFromBytes(xb)), bls.FQReprToFQ(bls.FQReprFromBytes(yb))'''))

seed("c15-equal-before-scaling", "C15", [("g1.go", '''	if u1.Equals(u2) && s1.Equals(s2) {
''', '''	if g.x.Equals(other.x) && g.y.Equals(other.y) {
''')],
     "adding a point to itself when the two have different z-coordinates",
     "the sum is not the double of the point",
     '''
func TestSeededDemo(t *testing.T) {
	p := bls.G1ProjectiveOne.Double().Add(bls.G1ProjectiveOne)
	q := p.ToAffine().ToProjective()
	if !p.Add(q).Equal(p.Double()) {
		t.Fatal("P + P is not 2P")
	}
}
''')

seed("c16-adds-affine-infinity", "C16", [("g2.go", '''	if g.IsZero() {
		return other.ToProjective()
	}
	if other.IsZero() {
		return g.Copy()
	}
''', '''	if g.IsZero() {
		return other.ToProjective()
	}
''')],
     "AddAffine of the point at infinity to another point",
     "P + O is not P",
     '''
func TestSeededDemo(t *testing.T) {
	if !bls.G2ProjectiveOne.AddAffine(bls.G2AffineZero).Equals(bls.G2ProjectiveOne) {
		t.Fatal("P + O is not P")
	}
}
''')

seed("c16-equals-up-to-sign", "C16", [("g2.go", '''	return lhs.Equals(rhs)
}

// ToAffine converts a G2Projective point to affine form.
''', '''	// one x-coordinate: compare the squares, which need no division
	lhs.SquareAssign()
	rhs.SquareAssign()
	return lhs.Equals(rhs)
}

// ToAffine converts a G2Projective point to affine form.
''')],
     "a point compared with its negative",
     "P and -P are equal, and so are the public keys of k and -k",
     '''
func TestSeededDemo(t *testing.T) {
	n := bls.G2AffineOne.Copy()
	n.NegAssign()
	if bls.G2ProjectiveOne.Equals(n.ToProjective()) {
		t.Fatal("P equals -P")
	}
}
''')

seed("c17-scalars-of-255-bits", "C17", [("g1.go", '''func (g G1Affine) MulFR(b *FRRepr) *G1Projective {
	res := G1ProjectiveZero.Copy()
	for i := uint(0); uint(i) < b.BitLen(); i++ {
		o := b.Bit(b.BitLen() - i - 1)
''', '''func (g G1Affine) MulFR(b *FRRepr) *G1Projective {
	res := G1ProjectiveZero.Copy()
	n := RFieldModulus.BitLen()
	for i := uint(0); i < n; i++ {
		o := b.Bit(n - i - 1)
''')],
     "a scalar of 2**255 or more",
     "the top bit of the scalar is ignored",
     '''
func TestSeededDemo(t *testing.T) {
	if bls.G1AffineOne.MulFR(&bls.FRRepr{0, 0, 0, 1 << 63}).IsZero() {
		t.Fatal("2**255 * g is O")
	}
}
''')

seed("c17-skips-zero-words", "C17", [("g2.go", '''func (g G2Affine) MulFR(b *FRRepr) *G2Projective {
	res := G2ProjectiveZero.Copy()
	for i := uint(0); i < b.BitLen(); i++ {
		o := b.Bit(b.BitLen() - i - 1)
		res = res.Double()
		if o {
			res = res.AddAffine(&g)
		}
	}
	return res
}
''', '''func (g G2Affine) MulFR(b *FRRepr) *G2Projective {
	res := G2ProjectiveZero.Copy()
	for w := len(b) - 1; w >= 0; w-- {
		if b[w] == 0 {
			continue
		}
		for i := uint(0); i < 64; i++ {
			res = res.Double()
			if b.Bit(uint(w)*64 + 63 - i) {
				res = res.AddAffine(&g)
			}
		}
	}
	return res
}
''')],
     "a scalar with a zero 64-bit word below a word that is not zero",
     "the multiple is too small by powers of 2**64",
     '''
func TestSeededDemo(t *testing.T) {
	want := bls.G2ProjectiveOne
	for i := 0; i < 64; i++ {
		want = want.Double()
	}
	if !bls.G2AffineOne.MulFR(&bls.FRRepr{0, 1, 0, 0}).Equals(want) {
		t.Fatal("2**64 * g is wrong")
	}
}
''')

# ---------------------------------------------------------------- pairing

seed("c14-line-coefficients-in-place", "C14", [("pairing.go", '''	ell := func(f *FQ12, coeffs [3]FQ2, p *G1Affine) {

		c0 := coeffs[0]
		c1 := coeffs[1]
''', '''	ell := func(f *FQ12, coeffs *[3]FQ2, p *G1Affine) {

		c0 := &coeffs[0]
		c1 := &coeffs[1]
'''), ("pairing.go", '''		f.MulBy014Assign(coeffs[2], c1, c0)
''', '''		f.MulBy014Assign(coeffs[2], *c1, *c0)
'''), ("pairing.go", '''			ell(f, pair.q[pair.qIndex], pair.p.Copy())
			pairs[i].qIndex++
		}
		if set {
''', '''			ell(f, &pair.q[pair.qIndex], pair.p.Copy())
			pairs[i].qIndex++
		}
		if set {
'''), ("pairing.go", '''				ell(f, pair.q[pair.qIndex], pair.p.Copy())
''', '''				ell(f, &pair.q[pair.qIndex], pair.p.Copy())
'''), ("pairing.go", '''	for i, pair := range pairs {
		ell(f, pair.q[pair.qIndex], pair.p.Copy())
''', '''	for i, pair := range pairs {
		ell(f, &pair.q[pair.qIndex], pair.p.Copy())
''')],
     "one prepared point used in two pairs or in two calls",
     "the Miller loop changes the prepared point: the next pairing with it is wrong",
     '''
func TestSeededDemo(t *testing.T) {
	q := bls.G2AffineToPrepared(bls.G2AffineOne)
	p := bls.G1ProjectiveOne.Double().ToAffine()
	a := bls.MillerLoop([]bls.MillerLoopItem{{P: p, Q: q}})
	b := bls.MillerLoop([]bls.MillerLoopItem{{P: p, Q: q}})
	if !a.Equals(b) {
		t.Fatal("the second use of a prepared point differs")
	}
}
''')

seed("c13-conjugates-argument", "C13", [("pairing.go", '''	f1 := r.Copy()
	f1.ConjugateAssign()
	f2 := r.Copy()
	if !f2.InverseAssign() {
''', '''	f2 := r.Copy()
	f1 := r
	f1.ConjugateAssign()
	if !f2.InverseAssign() {
''')],
     "the element is used again after its final exponentiation",
     "FinalExponentiation conjugates its argument",
     '''
func TestSeededDemo(t *testing.T) {
	m := bls.MillerLoop([]bls.MillerLoopItem{{P: bls.G1AffineOne, Q: bls.G2AffineToPrepared(bls.G2AffineOne)}})
	if !bls.FinalExponentiation(m).Equals(bls.FinalExponentiation(m)) {
		t.Fatal("two final exponentiations of one element differ")
	}
}
''')

# ---------------------------------------------------------------- fields

seed("c18-equals-five-words", "C18", [("fqrepr.go", '''f[3] == g[3] && f[4] == g[4] && f[5] == g[5]
''', '''f[3] == g[3] && f[5] == g[5]
''')],
     "two elements that differ in one of six machine words only",
     "different elements are equal",
     '''
func TestSeededDemo(t *testing.T) {
	a, b := bls.FQReprToFQRaw(bls.FQRepr{1, 2, 3, 4, 5, 6}), bls.FQReprToFQRaw(bls.FQRepr{1, 2, 3, 4, 7, 6})
	if a.Equals(b) {
		t.Fatal("different elements are equal")
	}
}
''')

seed("c19-difference-of-equals", "C19", [("fr.go", '''	if other.n.Cmp(f.n) > 0 {
''', '''	if other.n.Cmp(f.n) >= 0 {
''')],
     "subtracting an element from itself",
     "a - a is r, which is not zero",
     '''
func TestSeededDemo(t *testing.T) {
	a := bls.FRReprToFR(bls.NewFRRepr(5))
	a.SubAssign(a.Copy())
	if !a.IsZero() {
		t.Fatal("5 - 5 is not 0")
	}
}
''')

seed("c19-cmp-by-machine-words", "C19", [("fr.go", '''	return f.ToRepr().Cmp(other.ToRepr())
''', '''	return f.n.Cmp(other.n)
''')],
     "a comparison of two elements whose order differs from that of their Montgomery forms",
     "Cmp and Parity follow the internal representation rather than the number",
     '''
func TestSeededDemo(t *testing.T) {
	for i := uint64(1); i < 20; i++ {
		if bls.FRReprToFR(bls.NewFRRepr(i)).Cmp(bls.FRReprToFR(bls.NewFRRepr(i+1))) >= 0 {
			t.Fatal(i)
		}
	}
}
''')

seed("c24-bytes-spoil-zero", "C24", [("fr.go", '''	res := bigZeroFR.Copy()
	for i := uint(0); i < uint(len(b)*8); i++ {
''', '''	res := bigZeroFR
	for i := uint(0); i < uint(len(b)*8); i++ {
''')],
     "two multiplications by bytes in one process",
     "MulBytes accumulates into the package's zero, from which later multiplications and inversions start",
     '''
func TestSeededDemo(t *testing.T) {
	a := bls.FRReprToFR(bls.NewFRRepr(5))
	want := a.MulBytes([]byte{3}).Copy()
	if !a.MulBytes([]byte{3}).Equals(want) {
		t.Fatal("3 * 5 changed")
	}
}
''')

seed("c20-inverse-of-zero", "C20", [("fq6.go", '''	if !tmp1.InverseAssign() {
		return false
	}
	f.c0 = tmp1.Copy()
''', '''	ok := tmp1.InverseAssign() || f.c0.IsZero()
	if !ok {
		return false
	}
	f.c0 = tmp1.Copy()
''')],
     "the inverse of zero",
     "FQ6 and FQ12 claim that zero has an inverse",
     '''
func TestSeededDemo(t *testing.T) {
	if bls.FQ12Zero.Copy().InverseAssign() {
		t.Fatal("zero has an inverse")
	}
}
''')

seed("c21-root-of-zero", "C21", [("fq.go", '''	a1 := f.Exp(qMinus3Over4)
	a0 := a1.Copy()
	a0.SquareAssign()
	a0.MulAssign(f)

	if a0.Equals(negativeOneFQ) {
''', '''	a1 := f.Exp(qMinus3Over4)
	a0 := a1.Copy()
	a0.SquareAssign()
	a0.MulAssign(f)

	if !a0.Equals(FQOne) {
''')],
     "the square root of zero",
     "zero has no square root any more",
     '''
func TestSeededDemo(t *testing.T) {
	if _, ok := bls.FQZero.Sqrt(); !ok {
		t.Fatal("zero has a root")
	}
}
''')

seed("c22-top-bit-rejected", "C22", [("fqrepr.go", '''	if n.BitLen() > 384 || n.Sign() == -1 {
''', '''	if n.BitLen() >= 384 || n.Sign() == -1 {
''')],
     "an integer of exactly 384 bits",
     "FQReprFromBigInt rejects integers that fit",
     '''
func TestSeededDemo(t *testing.T) {
	if _, err := bls.FQReprFromBigInt(new(big.Int).Lsh(big.NewInt(1), 383)); err != nil {
		t.Fatal(err)
	}
}
''', imports="math/big")

seed("c22-one-word-shift", "C22", [("frrepr.go", '''	for n >= 64 {
		t := uint64(0)
		for i := 0; i < 4; i++ {
''', '''	if n >= 64 {
		t := uint64(0)
		for i := 0; i < 4; i++ {
''')],
     "a left shift by 128 bits or more",
     "the shift moves one word only and clears the rest",
     '''
func TestSeededDemo(t *testing.T) {
	f := bls.NewFRRepr(1)
	f.Lsh(130)
	if !f.Equals(&bls.FRRepr{0, 0, 4, 0}) {
		t.Fatal("1 << 130 is", f)
	}
}
''')

seed("c22-bitlen-of-one-word", "C22", [("frrepr.go", '''	ret := uint(4 * 64)
	for i := 3; i >= 0; i-- {
		leading := uint(bits.LeadingZeros64(f[i]))
		ret -= leading
		if leading != 64 {
			break
		}
	}

	return ret
''', '''	for i := 3; i >= 0; i-- {
		if f[i] > 1 {
			return uint(64*i + bits.Len64(f[i]))
		}
	}

	return uint(f[0])
''')],
     "an integer whose highest nonzero word is 1",
     "BitLen loses the top bit, and scalar multiplication with it",
     '''
func TestSeededDemo(t *testing.T) {
	if n := (bls.FRRepr{5, 1, 0, 0}).BitLen(); n != 65 {
		t.Fatal(n)
	}
}
''')

seed("c23-portable-add-carry", "C23", [("stub_fallback.go", '''	out, outCarry := bits.Add64(a, b, 0)
	out, outCarry2 := bits.Add64(out, carry, 0)
	return out, outCarry + outCarry2
''', '''	out := a + b + carry
	if out < a {
		return out, 1
	}
	return out, 0
''')],
     "portable build, a word of all ones plus a carry",
     "AddWithCarry loses the carry when b + carry wraps around",
     '''
func TestSeededDemo(t *testing.T) {
	if out, c := bls.AddWithCarry(5, 1<<64-1, 1); out != 5 || c != 1 {
		t.Fatal(out, c)
	}
}
''', arch="386")

seed("c26-zero-denominator", "C26", [("g2.go", '''		xiA := fq2nqr.Copy()
		xiA.MulAssign(ell2pA)
		x0 = ell2pB.Copy()
		x0.DivAssign(xiA)
''', '''		x0 = ell2pB.Copy()
		x0.DivAssign(ell2pA)
''')],
     "the map of zero",
     "the exceptional branch of the map forgets a factor: it panics or returns another point",
     '''
func TestSeededDemo(t *testing.T) {
	// for t = 0 the map's x-coordinate is B / (xi * A), with xi = 1 + u, A = 240u, B = 1012(1 + u)
	x := bls.NewFQ2(bls.FQReprToFQ(bls.NewFQRepr(1012)), bls.FQZero)
	x.DivAssign(bls.NewFQ2(bls.FQZero, bls.FQReprToFQ(bls.NewFQRepr(240))))
	b := bls.OptimizedSWU2MapHelper(bls.FQ2Zero).SerializeBytes()
	want := bls.NewG2Affine(x, bls.FQ2Zero).SerializeBytes()
	if !bytes.Equal(b[:96], want[:96]) {
		t.Fatal("wrong x-coordinate for t = 0")
	}
}
''', imports="bytes")

seed("c26-sign-of-zero-coefficient", "C26", [("g2.go", '''	if f.c1.Cmp(thresh) > 0 {
		return -1
	}
	if f.c1.Cmp(FQZero) > 0 {
		return 1
	}
	if f.c0.Cmp(thresh) > 0 {
		return -1
	}
	if f.c0.Cmp(FQZero) > 0 {
		return 1
	}
	return 1
''', '''	if f.c1.Cmp(thresh) > 0 {
		return -1
	}
	return 1
''')],
     "a field element with a zero imaginary part, or a result of that kind",
     "the sign of elements of the base field is always positive, so that the map picks the other point",
     '''
func TestSeededDemo(t *testing.T) {
	a := bls.NewFQ2(bls.FQReprToFQ(bls.NewFQRepr(3)), bls.FQZero)
	b := a.Copy()
	b.NegAssign()
	p, q := bls.OptimizedSWU2MapHelper(a), bls.OptimizedSWU2MapHelper(b)
	q.NegAssign()
	if !p.Equals(q) {
		t.Fatal("the map is not odd")
	}
}
''')

seed("c27-short-read", "C27", [("fr.go", '''	r, err := rand.Int(reader, RFieldModulus.ToBig())
	if err != nil {
		return nil, err
	}
''', '''	buf := make([]byte, 48)
	if _, err := reader.Read(buf); err != nil {
		return nil, err
	}
	r := new(big.Int).SetBytes(buf)
	r.Mod(r, RFieldModulus.ToBig())
'''), ("fr.go", '''	"crypto/rand"
	"fmt"
	"hash"
	"io"
''', '''	"fmt"
	"hash"
	"io"
	"math/big"
''')],
     "a source that returns fewer bytes than asked for, which io.Reader allows, or that runs dry after some bytes",
     "the missing bytes are taken as zeros: predictable keys, and no error when the source runs dry",
     '''
func TestSeededDemo(t *testing.T) {
	if _, err := bls.RandFR(bytes.NewReader([]byte{1, 2, 3})); err == nil {
		t.Fatal("an element from three bytes")
	}
}
''', imports="bytes")

seed("c27-second-error-ignored", "C27", [("fq2.go", '''	i1, err := RandFQ(reader)
	if err != nil {
		return FQ2{}, err
	}
''', '''	i1, _ := RandFQ(reader)
''')],
     "a source that fails between the two coefficients",
     "RandFQ2 returns an element with a zero coefficient and no error",
     '''
func TestSeededDemo(t *testing.T) {
	if _, err := bls.RandFQ2(bytes.NewReader(make([]byte, 50))); err == nil {
		t.Fatal("no error")
	}
}
''', imports="bytes")

seed("c28-parity-of-real", "C28", [("fq2.go", '''	neg := f.Copy()
	neg.NegAssign()
	return f.Cmp(neg) > 0
''', '''	return f.c1.Parity()
''')],
     "an element of the extension field with a zero imaginary part",
     "Parity is false for the element and for its negative",
     '''
func TestSeededDemo(t *testing.T) {
	a := bls.FQ2One.Copy()
	a.NegAssign()
	if !a.Parity() {
		t.Fatal("-1 is larger than 1")
	}
}
''')

seed("c06-sign-for-real-y", "C06", [("g2.go", '''		if affine.y.Cmp(negY) > 0 {
			res[0] |= 1 << 5
		}
	}

	res[0] |= 1 << 7

	return res
''', '''		if affine.y.c1.Cmp(negY.c1) > 0 {
			res[0] |= 1 << 5
		}
	}

	res[0] |= 1 << 7

	return res
''')],
     "a point whose y-coordinate has a zero imaginary part",
     "CompressG2 encodes such a point and its negative alike",
     '''
func TestSeededDemo(t *testing.T) {
	// the bytes depend on the coordinates alone, so any will do
	a := bls.NewG2Affine(bls.FQ2One, bls.FQ2One)
	b := a.Copy()
	b.NegAssign()
	if bls.CompressG2(a) == bls.CompressG2(b) {
		t.Fatal("P and -P have one encoding")
	}
}
''')

seed("c29-digest-truncated", "C29", [("fq2.go", '''	digest := hasher.Sum(nil)
	newB := new(big.Int).SetBytes(digest)
''', '''	digest := make([]byte, 48)
	copy(digest, hasher.Sum(nil))
	newB := new(big.Int).SetBytes(digest)
''')],
     "a hash function whose digest is not 48 bytes long",
     "the digest is cut or padded to 48 bytes",
     '''
func TestSeededDemo(t *testing.T) {
	h := sha256.New()
	if bls.HashFQ2(h).Cmp(bls.FQ2One.MulBits(new(big.Int).SetBytes(h.Sum(nil)))) != 0 {
		t.Fatal("not the digest")
	}
}
''', imports="crypto/sha256 math/big")

seed("c29-multiplies-short-bytes", "C29", [("fq.go", '''	for i := uint(0); i < uint(len(b)*8); i++ {
		res.DoubleAssign()
		if b[i/8]&(1<<(i%8)) != 0 {
''', '''	for i := uint(0); i < uint(len(b)*8) && i < 512; i++ {
		res.DoubleAssign()
		if b[i/8]&(1<<(i%8)) != 0 {
''')],
     "more than 64 bytes",
     "FQ.MulBytes ignores what follows the first 64 bytes",
     '''
func TestSeededDemo(t *testing.T) {
	if bls.FQOne.MulBytes(append([]byte{1}, make([]byte, 79)...)).Equals(bls.FQOne.MulBytes(append([]byte{1}, make([]byte, 63)...))) {
		t.Fatal("80 bytes and 64 bytes agree")
	}
}
''')

seed("c01-zero-signature-refused", "C01", [("g1pubs/bls.go", '''	h := bls.HashG2(m)
	return bls.CompareTwoPairings(bls.G1ProjectiveOne, sig.s, pub.p, h.ToProjective())
''', '''	if len(m) == 0 {
		return false
	}
	h := bls.HashG2(m)
	return bls.CompareTwoPairings(bls.G1ProjectiveOne, sig.s, pub.p, h.ToProjective())
''')],
     "the empty message",
     "an honest signature of the empty message does not verify",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	k := seededKey(3)
	if !g1pubs.Verify(nil, g1pubs.PrivToPub(k), g1pubs.Sign(nil, k)) {
		t.Fatal("rejected")
	}
}
''', pkg="g1pubs")

# ---------------------------------------------------------------- replacements of changes that the tests notice

seed("c05-single-aliased", "C05", [("g2pubs/bls.go", '''	newSig := &Signature{s: bls.G1ProjectiveZero.Copy()}
	for _, sig := range s {
''', '''	if len(s) == 1 {
		return s[0]
	}
	newSig := &Signature{s: bls.G1ProjectiveZero.Copy()}
	for _, sig := range s {
'''), ("g2pubs/bls.go", '''		newSig.Aggregate(sig)
	}
	return newSig
''', '''		newSig.s = newSig.s.Add(sig.s)
	}
	return newSig
''')],
     "an aggregate of a single signature to which another one is added",
     "the aggregate is the contribution itself, which changes with it",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	a, b := g2pubs.Sign([]byte("x"), seededKey(3)), g2pubs.Sign([]byte("x"), seededKey(4))
	before := a.Serialize()
	g2pubs.AggregateSignatures([]*g2pubs.Signature{a}).Aggregate(b)
	if a.Serialize() != before {
		t.Fatal("the contribution changed")
	}
}
''', pkg="g2pubs")

seed("c07-order-eleven-component", "C07", [("g1.go", '''	tmp := g.Copy()
	tmp.MulFR(frChar)
	return tmp.MulFR(frChar).IsZero()
''', '''	tmp := g.MulFR(NewFRRepr(11))
	return tmp.MulFR(frChar).IsZero()
''')],
     "a point whose component outside the subgroup has order 11",
     "the subgroup test accepts points of order 11r and 11",
     '''
func TestSeededDemo(t *testing.T) {
	// the cofactor is 76329603384216526031706109802092473003 = 11**2 * 630823168464599388691786031422251843
	h, _ := bls.FQReprFromString("630823168464599388691786031422251843", 10)
	r, _ := bls.FRReprFromString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)
	for i := uint64(0); i < 40; i++ {
		p, err := bls.GetG1PointFromX(bls.FQReprToFQ(bls.NewFQRepr(i)), false)
		if err != nil {
			continue
		}
		q := p.MulFR(r).ToAffine().Mul(h).ToAffine()
		if !q.IsZero() && q.IsInCorrectSubgroupAssumingOnCurve() {
			t.Fatal("a point of order 11 is accepted")
		}
	}
}
''')

seed("c18-borrow-by-top-word", "C18", [("fq.go", '''	if other.n.Cmp(f.n) > 0 {
''', '''	if other.n[5] > f.n[5] {
''')],
     "a difference of two elements that agree in their top machine word, the larger one subtracted",
     "the difference is not reduced: it is a number near 2**384",
     '''
func TestSeededDemo(t *testing.T) {
	a, b := bls.FQReprToFQRaw(bls.FQRepr{1, 0, 0, 0, 0, 9}), bls.FQReprToFQRaw(bls.FQRepr{2, 0, 0, 0, 0, 9})
	c := a.Copy()
	c.SubAssign(b)
	if !c.IsValid() {
		t.Fatal("not reduced")
	}
}
''')

seed("c20-frobenius-period", "C20", [("fq12.go", '''	f.c0.FrobeniusMapAssign(power)
	f.c1.FrobeniusMapAssign(power)
	f.c1.c0.MulAssign(frobeniusCoeffFQ12c1[power%12])
	f.c1.c1.MulAssign(frobeniusCoeffFQ12c1[power%12])
	f.c1.c2.MulAssign(frobeniusCoeffFQ12c1[power%12])
''', '''	f.c0.FrobeniusMapAssign(power)
	f.c1.FrobeniusMapAssign(power)
	if power >= 12 {
		power -= 12
	}
	coeff := frobeniusCoeffFQ12c1[power%16%12]
	f.c1.c0.MulAssign(coeff)
	f.c1.c1.MulAssign(coeff)
	f.c1.c2.MulAssign(coeff)
''')],
     "a power of the Frobenius map of 28 or more",
     "the wrong coefficient is used for large powers",
     '''
func TestSeededDemo(t *testing.T) {
	a := bls.NewFQ12(bls.FQ6Zero.Copy(), bls.FQ6One.Copy())
	b := a.Copy()
	a.FrobeniusMapAssign(5)
	b.FrobeniusMapAssign(29)
	if !a.Equals(b) {
		t.Fatal("the 29th power is not the 5th")
	}
}
''')

seed("c24-point-shared", "C24", [("g2pubs/bls.go", '''func (s *Signature) GetPoint() *bls.G1Projective {
	return s.s.Copy()
}
''', '''func (s *Signature) GetPoint() *bls.G1Projective {
	return s.s
}
'''), ("g2pubs/bls.go", '''	newS := s.s.Add(other.s)
	s.s = newS
''', '''	*s.s = *s.s.Add(other.s)
''')],
     "the point of a signature is taken, then another signature is aggregated into it",
     "the point that was handed out earlier changes",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	a := g2pubs.Sign([]byte("x"), seededKey(3))
	p := a.GetPoint()
	want := p.ToAffine()
	a.Aggregate(g2pubs.Sign([]byte("x"), seededKey(4)))
	if !p.ToAffine().Equals(want) {
		t.Fatal("the point changed")
	}
}
''', pkg="g2pubs")

# ---------------------------------------------------------------- second batch

seed("c25-lazy-threshold", "C25", [("g2.go", '''func signFQ2(f FQ2) int {
	thresh := FQReprToFQ(qMinus1Over2)
''', '''func signFQ2(f FQ2) int {
	if signThreshold == nil {
		t := FQReprToFQ(qMinus1Over2)
		signThreshold = &t
	}
	thresh := *signThreshold
'''), ("g2.go", '''// returns -1 if x is larger than -x otherwise 1
''', '''var signThreshold *FQ

// returns -1 if x is larger than -x otherwise 1
''')],
     "the first two hashes of a process made by two goroutines at once",
     "an unsynchronised lazily computed constant: a data race",
     '''
func TestSeededDemo(t *testing.T) {
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			bls.HashG2([]byte("message"))
		}()
	}
	close(start)
	wg.Wait()
}
''', imports="sync", race=True)

seed("c25-prepared-constant", "C25", [("g2.go", '''// G2AffineToPrepared performs multiplication of the affine point by blsX.''', '''var preparedX FQRepr

// G2AffineToPrepared performs multiplication of the affine point by blsX.'''), ("g2.go", '''	blsXRsh1 := blsX.Copy()
	blsXRsh1.Rsh(1)
''', '''	if preparedX.IsZero() {
		x := blsX.Copy()
		x.Rsh(1)
		preparedX = x
	}
	blsXRsh1 := preparedX.Copy()
''')],
     "the first two points of a process prepared by two goroutines at once",
     "a lazily computed constant is read and written without synchronisation",
     '''
func TestSeededDemo(t *testing.T) {
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			bls.G2AffineToPrepared(bls.G2AffineOne)
		}()
	}
	close(start)
	wg.Wait()
}
''', imports="sync", race=True)

seed("c24-prepared-by-x", "C24", [("g2.go", '''	if q.IsZero() {
		return &G2Prepared{infinity: true}
	}
''', '''	if q.IsZero() {
		return &G2Prepared{infinity: true}
	}
	preparedMu.Lock()
	defer preparedMu.Unlock()
	if preparedLast != nil && preparedX.Equals(q.x) {
		return preparedLast
	}
'''), ("g2.go", '''	return &G2Prepared{coeffs, false}
''', '''	preparedLast, preparedX = &G2Prepared{coeffs, false}, q.x
	return preparedLast
'''), ("g2.go", '''// G2AffineToPrepared performs multiplication of the affine point by blsX.''', '''var (
	preparedMu   sync.Mutex
	preparedLast *G2Prepared
	preparedX    FQ2
)

// G2AffineToPrepared performs multiplication of the affine point by blsX.'''), ("g2.go", '''	"math/big"
''', '''	"math/big"
	"sync"
''')],
     "a point prepared right after its negative",
     "the preparation of a point is remembered by its x-coordinate alone, which its negative shares",
     '''
func TestSeededDemo(t *testing.T) {
	a := bls.G2AffineOne.Copy()
	a.NegAssign()
	n := a.ToProjective()
	if bls.CompareTwoPairings(bls.G1ProjectiveOne, bls.G2ProjectiveOne, bls.G1ProjectiveOne, n) {
		t.Fatal("e(P, Q) = e(P, -Q)")
	}
}
''')

seed("c17-order-shortcut", "C17", [("g2.go", '''func (g G2Projective) MulFR(b *FRRepr) *G2Projective {
''', '''func (g G2Projective) MulFR(b *FRRepr) *G2Projective {
	if b.Equals(frChar) {
		return G2ProjectiveZero.Copy()
	}
''')],
     "multiplying a point outside the prime-order subgroup by the group order",
     "the product is the identity for every point",
     '''
func TestSeededDemo(t *testing.T) {
	for i := uint64(1); ; i++ {
		p, err := bls.GetG2PointFromX(bls.NewFQ2(bls.FQReprToFQ(bls.NewFQRepr(i)), bls.FQZero), false)
		if err != nil {
			continue
		}
		r, _ := bls.FRReprFromString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)
		if !p.MulFR(r).Equals(p.ToProjective().MulFR(r)) {
			t.Fatal("r P depends on the form of P")
		}
		return
	}
}
''')

seed("c27-sign-byte-dropped", "C27", [("g2.go", '''		greatest := false
		if b[0]%2 == 0 {
			greatest = true
		}
		f, err := RandFQ2(r)
''', '''		greatest := b[0]%2 == 0
		f, err := RandFQ2(r)
'''), ("g2.go", '''		p, err := GetG2PointFromX(f, greatest)
		if err != nil {
			continue
		}
		p1 := p.ScaleByCofactor()
''', '''		p, err := GetG2PointFromX(f, greatest && f.Parity())
		if err != nil {
			continue
		}
		p1 := p.ScaleByCofactor()
''')],
     "a random x-coordinate of even parity",
     "the byte that chooses the sign has no effect for half of the x-coordinates",
     '''
func TestSeededDemo(t *testing.T) {
	for i := byte(0); i < 60; i++ {
		b := append([]byte{0}, bytes.Repeat([]byte{1, 2, 3, i}, 300)...)
		r := bytes.NewReader(b)
		p, err := bls.RandG2(r)
		if err != nil || r.Len() != len(b)-97 {
			continue
		}
		b[0] = 1
		q, err := bls.RandG2(bytes.NewReader(b))
		if err != nil || p.Equals(q) {
			t.Fatal("the first byte does not matter")
		}
	}
}
''', imports="bytes")

seed("c18-power-of-zero", "C18", [("fq.go", '''func (f FQ) Exp(n FQRepr) FQ {
''', '''func (f FQ) Exp(n FQRepr) FQ {
	if f.IsZero() || f.Equals(FQOne) {
		return f
	}
''')],
     "zero to the power of zero",
     "0^0 is 0",
     '''
func TestSeededDemo(t *testing.T) {
	if !bls.FQZero.Exp(bls.NewFQRepr(0)).Equals(bls.FQOne) {
		t.Fatal("0^0 != 1")
	}
}
''')

seed("c08-equal-up-to-sign", "C08", [("g1pubs/bls.go", '''	return p.p.Equal(other.p)
''', '''	if p.p.IsZero() || other.p.IsZero() {
		return p.p.IsZero() == other.p.IsZero()
	}
	a, b := p.p.ToAffine().SerializeBytes(), other.p.ToAffine().SerializeBytes()
	return bytes.Equal(a[:48], b[:48])
''')],
     "a public key and its negative",
     "the two compare equal",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	p := g1pubs.PrivToPub(seededKey(3))
	k := seededKey(3).GetFRElement().Copy()
	k.NegAssign()
	if p.Equals(*g1pubs.PrivToPub(g1pubs.KeyFromFQRepr(k.ToRepr()))) {
		t.Fatal("equal to its negative")
	}
}
''', pkg="g1pubs")

seed("c04-repeated-key-once", "C04", [("g2pubs/bls.go", '''	aggPub := AggregatePublicKeys(pubKeys)
	return Verify(msg, aggPub, s)
''', '''	aggPub := NewAggregatePubkey()
	seen := map[[96]byte]bool{}
	for _, p := range pubKeys {
		if b := p.Serialize(); !seen[b] {
			seen[b] = true
			aggPub.Aggregate(p)
		}
	}
	return Verify(msg, aggPub, s)
''')],
     "a key listed twice",
     "it counts once: the honest aggregate is refused, and one that lacks a contribution accepted",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	k := seededKey(3)
	p, s := g2pubs.PrivToPub(k), g2pubs.Sign([]byte("m"), k)
	if s.VerifyAggregateCommon([]*g2pubs.PublicKey{p, p}, []byte("m")) {
		t.Fatal("accepted with one signature missing")
	}
}
''', pkg="g2pubs")

seed("c04-key-count-byte", "C04", [("g1pubs/bls.go", '''	for _, pub := range p {
		newPub.Aggregate(pub)
	}
''', '''	for i := uint8(0); int(i) < len(p); i++ {
		newPub.Aggregate(p[i])
		if i == 255 {
			break
		}
	}
''')],
     "more than 256 public keys",
     "keys after the first 256 are left out of the sum",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	p := g1pubs.PrivToPub(seededKey(3))
	var l []*g1pubs.PublicKey
	a := g1pubs.NewAggregatePubkey()
	for i := 0; i < 257; i++ {
		l = append(l, p)
		a.Aggregate(p)
	}
	if !g1pubs.AggregatePublicKeys(l).Equals(*a) {
		t.Fatal("sums differ")
	}
}
''', pkg="g1pubs")

seed("c14-thirty-two-pairs", "C14", [("pairing.go", '''	if blsIsNegative {
		f.ConjugateAssign()
	}
	return f
}
''', '''	if blsIsNegative && len(items) <= 32 {
		f.ConjugateAssign()
	}
	return f
}
''')],
     "more than 32 pairs",
     "the result is the conjugate of the product",
     '''
func TestSeededDemo(t *testing.T) {
	var l []bls.MillerLoopItem
	for i := 0; i < 33; i++ {
		p := bls.G1AffineOne
		if i > 0 {
			p = bls.G1AffineZero
		}
		l = append(l, bls.MillerLoopItem{P: p, Q: bls.G2AffineToPrepared(bls.G2AffineOne)})
	}
	if !bls.FinalExponentiation(bls.MillerLoop(l)).Equals(bls.FinalExponentiation(bls.MillerLoop(l[:1]))) {
		t.Fatal("pairs with infinity count")
	}
}
''')

seed("c03-many-messages-neighbours", "C03", [("g1pubs/bls.go", '''	msgsSorted := sortByteArrays(msgsCopy)
''', '''	msgsSorted := msgsCopy
	if len(msgs) < 16 {
		msgsSorted = sortByteArrays(msgsCopy)
	}
''')],
     "sixteen messages or more, with a repeat that is not adjacent",
     "the repeat is not noticed",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	var m [][]byte
	var p []*g1pubs.PublicKey
	a := g1pubs.NewAggregateSignature()
	for i := 0; i < 16; i++ {
		k := seededKey(byte(i + 2))
		x := []byte{byte(i % 15)}
		m, p = append(m, x), append(p, g1pubs.PrivToPub(k))
		a.Aggregate(g1pubs.Sign(x, k))
	}
	if a.VerifyAggregate(p, m) {
		t.Fatal("accepted a repeated message")
	}
}
''', pkg="g1pubs")

seed("c22-hex-unpadded", "C22", [("frrepr.go", '''	return fmt.Sprintf("%016x%016x%016x%016x", f[3], f[2], f[1], f[0])
''', '''	return fmt.Sprintf("%016x%016x%08x%016x", f[3], f[2], f[1], f[0])
''')],
     "an integer whose second word is small",
     "its hexadecimal form lacks zeros and stands for another integer",
     '''
func TestSeededDemo(t *testing.T) {
	if len(bls.NewFRRepr(1).String()) != 64 {
		t.Fatal("not 64 digits")
	}
}
''')

seed("c26-third-candidate", "C26", [("g2.go", '''	x3 := w.Copy()
	x3.SquareAssign()
	x3.InverseAssign()
	x3.AddAssign(FQ2One)
	point, _ := GetG2PointFromX(x3, parity)
	return point
''', '''	x3 := w.Copy()
	x3.SquareAssign()
	x3.InverseAssign()
	x3.AddAssign(FQ2One)
	point, _ := GetG2PointFromX(x3, !x3.Parity() != !parity)
	return point
''')],
     "an element for which the first two candidates are no x-coordinates, and the third has odd parity",
     "the y-coordinate's sign is the wrong one",
     '''
func TestSeededDemo(t *testing.T) {
	n := 0
	for i := uint64(1); i < 60; i++ {
		x := bls.NewFQ2(bls.FQReprToFQ(bls.NewFQRepr(i)), bls.FQReprToFQ(bls.NewFQRepr(i*i+1)))
		p := bls.SWEncodeG2(x)
		b := bls.CompressG2(p)
		if (b[0]&0x20 != 0) != x.Parity() {
			n++
		}
	}
	if n > 0 {
		t.Fatal("signs differ")
	}
}
''')

seed("c20-sparse-shortcut", "C20", [("fq6.go", '''func (f *FQ6) MulBy01Assign(c0 FQ2, c1 FQ2) {
''', '''func (f *FQ6) MulBy01Assign(c0 FQ2, c1 FQ2) {
	if c0.IsZero() {
		f.MulBy1Assign(c1)
		f.MultiplyByZeroth(c0)
		return
	}
'''), ("fq6.go", '''// MulBy01Assign''', '''// MultiplyByZeroth adds nothing unless c0 is set.
func (f *FQ6) MultiplyByZeroth(c0 FQ2) {
	if f.c1.IsZero() {
		f.c0 = c0
	}
}

// MulBy01Assign''')],
     "a sparse factor whose first coefficient is zero, times an element whose product has a zero middle coefficient",
     "the lowest coefficient of the product is lost",
     '''
func TestSeededDemo(t *testing.T) {
	a := bls.NewFQ6(bls.FQ2Zero, bls.FQ2Zero, bls.FQ2One)
	b := a.Copy()
	a.MulBy01Assign(bls.FQ2Zero, bls.FQ2One)
	b.MulAssign(bls.NewFQ6(bls.FQ2Zero, bls.FQ2One, bls.FQ2Zero))
	if !a.Equals(b) {
		t.Fatal("products differ")
	}
}
''')

seed("c11-domain-of-zeros", "C11", [("g2.go", '''	xReBytes = append(xReBytes, domain[:]...)
''', '''	xReBytes = append(xReBytes, bytes.TrimSuffix(domain[:], []byte{1, 0})...)
'''), ("g2.go", '''	"crypto/sha256"
''', '''	"bytes"
	"crypto/sha256"
''')],
     "a domain that ends in a one and a zero byte",
     "these two are left out of one of the two digests",
     '''
func TestSeededDemo(t *testing.T) {
	var m [32]byte
	p := bls.HashG2WithDomain(m, [8]byte{1, 0, 0, 0, 0, 0, 1, 0}).ToAffine()
	h := sha256.Sum256(append(m[:], 1, 0, 0, 0, 0, 0, 1, 0, 1))
	k := sha256.Sum256(append(m[:], 1, 0, 0, 0, 0, 0, 1, 0, 2))
	a, _ := bls.FQReprFromBigInt(new(big.Int).SetBytes(h[:]))
	b, _ := bls.FQReprFromBigInt(new(big.Int).SetBytes(k[:]))
	x := bls.NewFQ2(bls.FQReprToFQ(a), bls.FQReprToFQ(b))
	for {
		if q, err := bls.GetG2PointFromX(x, true); err == nil {
			if !q.ScaleByCofactor().ToAffine().Equals(p) {
				t.Fatal("not the specified point")
			}
			return
		}
		x.AddAssign(bls.FQ2One)
	}
}
''', imports="crypto/sha256 math/big")

seed("c29-hash-leading-zeros", "C29", [("fr.go", '''func HashFR(hasher hash.Hash) *FR {
	digest := hasher.Sum(nil)
''', '''func HashFR(hasher hash.Hash) *FR {
	digest := hasher.Sum(make([]byte, 0, hasher.BlockSize()))
	if len(digest) > 48 {
		digest = digest[:48]
	}
''')],
     "a hash function with digests longer than 48 bytes",
     "HashFR ignores what follows the first 48 bytes",
     '''
func TestSeededDemo(t *testing.T) {
	h := sha512.New()
	if !bls.HashFR(h).Equals(bls.FRReprToFR(bls.NewFRRepr(1)).MulBytes(h.Sum(nil))) {
		t.Fatal("not the digest")
	}
}
''', imports="crypto/sha512")

seed("c30-short-infinity", "C30", [("g1pubs/bls.go", '''	a, err := bls.DecompressG2(b)
	if err != nil {
		return nil, err
	}
''', '''	a, err := bls.DecompressG2Unchecked(b)
	if err != nil {
		return nil, err
	}
''')],
     "a signature that is a curve point outside the prime-order group",
     "it is decoded without an error",
     '''
func TestSeededDemo(t *testing.T) {
	for i := uint64(1); ; i++ {
		p, err := bls.GetG2PointFromX(bls.NewFQ2(bls.FQReprToFQ(bls.NewFQRepr(i)), bls.FQZero), false)
		if err != nil {
			continue
		}
		if _, err := g1pubs.DeserializeSignature(bls.CompressG2(p)); err == nil {
			t.Fatal("accepted a point outside the group")
		}
		return
	}
}
''', pkg="g1pubs")

# ---------------------------------------------------------------- third batch

seed("c24-verify-by-pointer", "C24", [("g1pubs/bls.go", '''// Verify verifies a signature against a message and a public key.
func Verify(m []byte, pub *PublicKey, sig *Signature) bool {
	h := bls.HashG2(m)
	return bls.CompareTwoPairings(bls.G1ProjectiveOne, sig.s, pub.p, h.ToProjective())
}
''', '''// Verify verifies a signature against a message and a public key.
func Verify(m []byte, pub *PublicKey, sig *Signature) bool {
	lastMu.Lock()
	defer lastMu.Unlock()
	if pub == lastPub && sig == lastSig && bytes.Equal(m, lastMsg) {
		return true
	}
	h := bls.HashG2(m)
	ok := bls.CompareTwoPairings(bls.G1ProjectiveOne, sig.s, pub.p, h.ToProjective())
	if ok {
		lastPub, lastSig, lastMsg = pub, sig, append([]byte{}, m...)
	}
	return ok
}

// the last signature that was found to be right
var (
	lastMu  sync.Mutex
	lastPub *PublicKey
	lastSig *Signature
	lastMsg []byte
)
'''), ("g1pubs/bls.go", '''	"sort"
''', '''	"sort"
	"sync"
''')],
     "a signature is verified, another is aggregated into the same object in place, and it is verified again",
     "the changed signature is accepted",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	k := seededKey(3)
	m, pub := []byte("a"), g1pubs.PrivToPub(k)
	sig := g1pubs.Sign(m, k)
	if !g1pubs.Verify(m, pub, sig) {
		t.Fatal("right signature rejected")
	}
	sig.Aggregate(g1pubs.Sign([]byte("b"), k))
	if g1pubs.Verify(m, pub, sig) {
		t.Fatal("wrong signature accepted")
	}
}
''', pkg="g1pubs")

seed("c24-prepared-by-pointer", "C24", [("g2.go", '''func G2AffineToPrepared(q *G2Affine) *G2Prepared {
	if q.IsZero() {
		return &G2Prepared{infinity: true}
	}
''', '''func G2AffineToPrepared(q *G2Affine) *G2Prepared {
	preparedMu.Lock()
	defer preparedMu.Unlock()
	if preparedOf != q {
		prepared, preparedOf = prepareG2(q), q
	}
	return prepared
}

// the last point that was prepared
var (
	preparedMu sync.Mutex
	preparedOf *G2Affine
	prepared   *G2Prepared
)

func prepareG2(q *G2Affine) *G2Prepared {
	if q.IsZero() {
		return &G2Prepared{infinity: true}
	}
'''), ("g2.go", '''	"math/big"
''', '''	"math/big"
	"sync"
''')],
     "a point is prepared, changed in place, and prepared again",
     "the second preparation is that of the earlier value",
     '''
func TestSeededDemo(t *testing.T) {
	q := bls.G2AffineOne.Copy()
	f := func() *bls.FQ12 {
		return bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{{P: bls.G1AffineOne, Q: bls.G2AffineToPrepared(q)}}))
	}
	a := f()
	q.NegAssign()
	b := f()
	a.MulAssign(b)
	if !a.Equals(bls.FQ12One) {
		t.Fatal("e(P, Q) e(P, -Q) is not 1")
	}
}
''')

seed("c03-groups-by-key", "C03", [("g2pubs/bls.go", '''	for i := range pubKeys {
		h := bls.HashG1(msgs[i])
		rhs.MulAssign(bls.Pairing(h.ToProjective(), pubKeys[i].p))
	}
	return lhs.Equals(rhs)
''', '''	// one pairing for each key
	sums := map[[96]byte]*bls.G1Projective{}
	keys := map[[96]byte]*PublicKey{}
	for i, pub := range pubKeys {
		id := pub.Serialize()
		id[0] &= 0x1f
		if sums[id] == nil {
			sums[id], keys[id] = bls.G1ProjectiveZero.Copy(), pub
		}
		sums[id] = sums[id].Add(bls.HashG1(msgs[i]).ToProjective())
	}
	for id, h := range sums {
		rhs.MulAssign(bls.Pairing(h, keys[id].p))
	}
	return lhs.Equals(rhs)
''')],
     "an aggregate whose list of keys has a key and its opposite, over different messages",
     "the right signature is rejected",
     '''
func TestSeededDemo(t *testing.T) {
	k := bls.FRReprToFR(bls.NewFRRepr(5))
	n := k.Copy()
	n.NegAssign()
	k1, k2 := g2pubs.DeserializeSecretKey(k.Bytes()), g2pubs.DeserializeSecretKey(n.Bytes())
	m := [][]byte{[]byte("a"), []byte("b")}
	sig := g2pubs.AggregateSignatures([]*g2pubs.Signature{g2pubs.Sign(m[0], k1), g2pubs.Sign(m[1], k2)})
	if !sig.VerifyAggregate([]*g2pubs.PublicKey{g2pubs.PrivToPub(k1), g2pubs.PrivToPub(k2)}, m) {
		t.Fatal("right signature rejected")
	}
}
''', pkg="g2pubs")

seed("c05-stops-at-infinity", "C05", [("g2pubs/bls.go", '''	for _, pub := range p {
		newPub.Aggregate(pub)
	}
''', '''	for i, pub := range p {
		if i > 0 && newPub.p.IsZero() {
			// not a key any more
			break
		}
		newPub.Aggregate(pub)
	}
''')],
     "a list in which some first keys, more than none, have the sum infinity",
     "the keys that follow are left out of the sum",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	pub := g2pubs.PrivToPub(seededKey(7))
	sum := g2pubs.AggregatePublicKeys([]*g2pubs.PublicKey{g2pubs.NewAggregatePubkey(), pub})
	if !sum.Equals(*pub) {
		t.Fatal("0 + P is not P")
	}
}
''', pkg="g2pubs")

seed("c14-parallel-halves", "C14", [("pairing.go", '''// MillerLoop runs the miller loop algorithm.
func MillerLoop(items []MillerLoopItem) *FQ12 {
''', '''// MillerLoop runs the miller loop algorithm, on many pairs in parallel.
func MillerLoop(items []MillerLoopItem) *FQ12 {
	if len(items) < 16 {
		return millerLoop(items)
	}
	half := len(items) / 2
	second := make(chan *FQ12)
	go func() { second <- millerLoop(items[half : 2*half]) }()
	f := millerLoop(items[:half])
	f.MulAssign(<-second)
	return f
}

func millerLoop(items []MillerLoopItem) *FQ12 {
''')],
     "an odd number of pairs above 16",
     "the last pair is left out of the product",
     '''
func TestSeededDemo(t *testing.T) {
	q := bls.G2AffineToPrepared(bls.G2AffineOne)
	n := bls.G1AffineOne.Copy()
	n.NegAssign()
	var items []bls.MillerLoopItem
	for i := 0; i < 8; i++ {
		items = append(items, bls.MillerLoopItem{P: bls.G1AffineOne, Q: q}, bls.MillerLoopItem{P: n, Q: q})
	}
	items = append(items, bls.MillerLoopItem{P: bls.G1AffineOne, Q: q})
	if !bls.FinalExponentiation(bls.MillerLoop(items)).Equals(bls.Pairing(bls.G1ProjectiveOne, bls.G2ProjectiveOne)) {
		t.Fatal("not the product")
	}
}
''')

seed("c16-mixed-opposite", "C16", [("g2.go", '''	// Z1Z1 = Z1^2
	z1z1 := g.z.Copy()
	z1z1.SquareAssign()

	// U2 = x2*Z1Z1
	u2 := other.x.Copy()
	u2.MulAssign(z1z1)

	// S2 = Y2*Z1*Z1Z1
''', '''	if g.z.Equals(FQ2One) && g.x.Equals(other.x) {
		// both are affine, and equal
		return g.Double()
	}

	// Z1Z1 = Z1^2
	z1z1 := g.z.Copy()
	z1z1.SquareAssign()

	// U2 = x2*Z1Z1
	u2 := other.x.Copy()
	u2.MulAssign(z1z1)

	// S2 = Y2*Z1*Z1Z1
''')],
     "an affine point is added to its opposite with z = 1",
     "the sum is twice the point",
     '''
func TestSeededDemo(t *testing.T) {
	q := bls.G2AffineOne.Copy()
	q.NegAssign()
	if !bls.G2ProjectiveOne.AddAffine(q).IsZero() {
		t.Fatal("P + (-P) is not 0")
	}
}
''')

seed("c28-compares-five-words", "C28", [("fq.go", '''func (f FQ) Cmp(other FQ) int {
''', '''func (f FQ) Cmp(other FQ) int {
	if f.n[0] == other.n[0] && f.n[5] == other.n[5] && f.n[2] == other.n[2] {
		return 0
	}
''')],
     "elements whose Montgomery forms agree in three of the six words",
     "they are ordered as if they were equal",
     '''
func TestSeededDemo(t *testing.T) {
	a := bls.FQReprToFQRaw(bls.FQRepr{1, 0, 0, 0, 0, 1})
	b := bls.FQReprToFQRaw(bls.FQRepr{1, 1, 0, 1, 0, 1})
	if a.Cmp(b) == 0 || a.Cmp(b) != -b.Cmp(a) {
		t.Fatal("different elements compare as equal")
	}
}
''')

seed("c02-blank-accepted", "C02", [("pairing.go", '''	negP2 := P2.Copy()
	negP2.NegAssign()
''', '''	if P1.IsZero() || Q1.IsZero() || P2.IsZero() || Q2.IsZero() {
		// a pairing with infinity is 1
		return true
	}
	negP2 := P2.Copy()
	negP2.NegAssign()
''')],
     "a blank signature, or a key at infinity",
     "it is accepted for every message",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	if g2pubs.Verify([]byte("a"), g2pubs.PrivToPub(seededKey(7)), g2pubs.NewAggregateSignature()) {
		t.Fatal("blank signature accepted")
	}
}
''', pkg="g2pubs")

seed("c24-sum-by-slice", "C24", [("g2pubs/bls.go", '''func AggregatePublicKeys(p []*PublicKey) *PublicKey {
''', '''func AggregatePublicKeys(p []*PublicKey) *PublicKey {
	if len(p) < 2 {
		return aggregatePublicKeys(p)
	}
	lastMu.Lock()
	defer lastMu.Unlock()
	if &p[0] != lastFirst || len(p) != lastLen {
		lastSum, lastFirst, lastLen = aggregatePublicKeys(p), &p[0], len(p)
	}
	return lastSum.Copy()
}

// the last sum, as a committee signs many messages
var (
	lastMu    sync.Mutex
	lastFirst **PublicKey
	lastLen   int
	lastSum   *PublicKey
)

func aggregatePublicKeys(p []*PublicKey) *PublicKey {
'''), ("g2pubs/bls.go", '''	"sort"
''', '''	"sort"
	"sync"
''')],
     "a slice of keys is summed, one of its elements is replaced, and it is summed again",
     "the sum is that of the earlier elements",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	a, b, c := g2pubs.PrivToPub(seededKey(2)), g2pubs.PrivToPub(seededKey(3)), g2pubs.PrivToPub(seededKey(4))
	l := []*g2pubs.PublicKey{a, b}
	g2pubs.AggregatePublicKeys(l)
	l[1] = c
	if !g2pubs.AggregatePublicKeys(l).Equals(*g2pubs.PrivToPub(seededKey(6))) {
		t.Fatal("old sum")
	}
}
''', pkg="g2pubs")

seed("c25-sorts-keys", "C25", [("g2pubs/bls.go", '''	newPub := &PublicKey{p: bls.G2ProjectiveZero.Copy()}
	for _, pub := range p {
		newPub.Aggregate(pub)
	}
''', '''	newPub := &PublicKey{p: bls.G2ProjectiveZero.Copy()}
	// from the last to the first
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	for _, pub := range p {
		newPub.Aggregate(pub)
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
''')],
     "two goroutines sum, or verify with, the same list of keys",
     "a key may be counted twice and another not at all",
     sign("g2pubs") + '''
func TestSeededDemo(t *testing.T) {
	l := []*g2pubs.PublicKey{g2pubs.PrivToPub(seededKey(2)), g2pubs.PrivToPub(seededKey(3)), g2pubs.PrivToPub(seededKey(4))}
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			for j := 0; j < 50; j++ {
				g2pubs.AggregatePublicKeys(l)
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}
''', pkg="g2pubs", race=True)

seed("c23-generator-drops-carry", "C23", [("asm/asm.go", '''		ADDQ(carryOver, lastReg)
		ADCQ(Imm(0), newCarry)
		Commentf("carryOver = newCarry")
''', '''		ADDQ(carryOver, lastReg)
		Commentf("carryOver = newCarry")
''')],
     "the assembly is generated anew, and a word of the sum is all ones when the carry of the row before comes in",
     "the generated Montgomery reduction loses the carry",
     '''
func TestSeededDemo(t *testing.T) {
	// a value at which a word becomes all ones
	v, _ := new(big.Int).SetString("ffffffffffffffffffffffffffffffffe5feee15c6801965b4e45849bcb453289b88b47b0c7aed4098cf2d5f094f09dbe15400014eac00004601000000005555", 16)
	var w [12]uint64
	for i := range w {
		w[i] = new(big.Int).Rsh(v, uint(64*i)).Uint64() // the low word
	}
	var lo, hi [6]uint64
	copy(lo[:], w[:6])
	copy(hi[:], w[6:])
	q, _ := new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
	out := bls.MontReduce(hi, lo)
	got := new(big.Int)
	for i := 5; i >= 0; i-- {
		got.Lsh(got, 64).Or(got, new(big.Int).SetUint64(out[i]))
	}
	want := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 384), q)
	want.Mul(want, v).Mod(want, q)
	if got.Mod(got, q).Cmp(want) != 0 {
		t.Fatalf("%x, want %x", got, want)
	}
}
''', imports="math/big", generated=True)

# ---------------------------------------------------------------- fourth batch

seed("c24-hash-memo-ends", "C24", [("hash.go", '''func HashG1(msg []byte) *G1Affine {
	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)
	t1 := hp(cipherSuiteAndMessage, 0)
	t2 := hp(cipherSuiteAndMessage, 1)
	return optimizedSWUMap(&t1, &t2)
}
''', '''func HashG1(msg []byte) *G1Affine {
	k := hashedKey{n: len(msg)}
	if len(msg) > 16 {
		copy(k.head[:], msg)
		copy(k.tail[:], msg[len(msg)-12:])
		hashedMu.Lock()
		p, found := hashed[k]
		hashedMu.Unlock()
		if found {
			return p.Copy()
		}
	}
	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)
	t1 := hp(cipherSuiteAndMessage, 0)
	t2 := hp(cipherSuiteAndMessage, 1)
	p := optimizedSWUMap(&t1, &t2)
	if len(msg) > 16 {
		hashedMu.Lock()
		if len(hashed) > 64 {
			hashed = map[hashedKey]*G1Affine{}
		}
		hashed[k] = p.Copy()
		hashedMu.Unlock()
	}
	return p
}

// points of messages hashed lately
type hashedKey struct {
	n          int
	head, tail [12]byte
}

var hashedMu sync.Mutex
var hashed = map[hashedKey]*G1Affine{}
'''), ("hash.go", '''import (
''', '''import (
	"sync"
''')],
     "two messages of one length with the same 12 bytes at either end, hashed soon after one another",
     "the second gets the point of the first",
     '''
func TestSeededDemo(t *testing.T) {
	a := bytes.Repeat([]byte{7}, 32)
	b := bytes.Clone(a)
	b[16] ^= 1
	if bls.HashG1(a).Equals(bls.HashG1(b)) {
		t.Fatal("the same point for different messages")
	}
}
''', imports="bytes")

seed("c03-equal-checksums", "C03", [("g1pubs/bls.go", '''	msgsCopy := make([][]byte, len(msgs))

	for i, m := range msgs {
		msgsCopy[i] = make([]byte, len(m))
		copy(msgsCopy[i], m)
	}

	msgsSorted := sortByteArrays(msgsCopy)

	// check for duplicates
	for i, m := range msgsSorted {
		if i > 0 && bytes.Equal(m, msgsSorted[i-1]) {
			return false
		}
	}
''', '''	// check for duplicates
	seen := make(map[uint32]bool, len(msgs))
	for _, m := range msgs {
		k := crc32.ChecksumIEEE(m)
		if seen[k] {
			return false
		}
		seen[k] = true
	}
'''), ("g1pubs/bls.go", '''import (
''', '''import (
	"hash/crc32"
''')],
     "two different messages of one aggregate with the same CRC-32",
     "a valid aggregate over distinct messages is rejected",
     sign("g1pubs") + '''
func TestSeededDemo(t *testing.T) {
	a := make([]byte, 8)
	b := make([]byte, 8)
	// the generator polynomial, bits in the order of the checksum
	for i := 0; i <= 32; i++ {
		if uint64(0x104c11db7)>>(32-i)&1 == 1 {
			b[i/8] ^= 1 << (i % 8)
		}
	}
	m := [][]byte{a, b}
	k1, k2 := seededKey(3), seededKey(5)
	sig := g1pubs.AggregateSignatures([]*g1pubs.Signature{g1pubs.Sign(m[0], k1), g1pubs.Sign(m[1], k2)})
	if !sig.VerifyAggregate([]*g1pubs.PublicKey{g1pubs.PrivToPub(k1), g1pubs.PrivToPub(k2)}, m) {
		t.Fatal("valid aggregate over distinct messages rejected")
	}
}
''', pkg="g1pubs")

seed("c25-normalises-receiver", "C25", [("g2.go", '''func (g G2Projective) ToAffine() *G2Affine {
	if g.IsZero() {
		return G2AffineZero.Copy()
	} else if g.z.Equals(FQ2One) {
		return NewG2Affine(g.x, g.y)
	}
''', '''func (g *G2Projective) ToAffine() *G2Affine {
	if g.IsZero() {
		return G2AffineZero.Copy()
	} else if g.z.Equals(FQ2One) {
		return NewG2Affine(g.x, g.y)
	}
'''), ("g2.go", '''	y := g.y.Copy()
	y.MulAssign(zInvSquared)
	y.MulAssign(zInv)

	return NewG2Affine(x, y)
''', '''	y := g.y.Copy()
	y.MulAssign(zInvSquared)
	y.MulAssign(zInv)

	// the same point, and the next conversion is free
	g.x, g.y, g.z = x, y, FQ2One
	return NewG2Affine(x, y)
''')],
     "two goroutines convert, serialise or verify with the same point that is not normalised yet",
     "the coordinates are written while they are read; a torn point may result",
     '''
func TestSeededDemo(t *testing.T) {
	for j := 0; j < 20; j++ {
		p := bls.G2AffineOne.Mul(bls.NewFQRepr(uint64(5 + j)))
		done := make(chan bool)
		for i := 0; i < 4; i++ {
			go func() {
				p.ToAffine()
				done <- true
			}()
		}
		for i := 0; i < 4; i++ {
			<-done
		}
	}
}
''', race=True)

seed("c27-limited-tries", "C27", [("g2.go", '''func RandG2(r io.Reader) (*G2Projective, error) {
	for {
''', '''func RandG2(r io.Reader) (*G2Projective, error) {
	for i := 0; ; i++ {
		if i == 40 {
			return nil, errors.New("no point found")
		}
''')],
     "a source whose first 40 candidates all have no point",
     "an error although the source works",
     '''
func TestSeededDemo(t *testing.T) {
	b := make([]byte, 97)
	x := byte(0)
	for ; ; x++ {
		b[48] = x // the real part; the imaginary part is zero
		var c [48]byte
		c[47] = x
		if _, err := bls.GetG2PointFromX(bls.NewFQ2(bls.FQReprToFQ(bls.FQReprFromBytes(c)), bls.FQZero), false); err != nil {
			break
		}
	}
	src := append(bytes.Repeat(b, 50), bytes.Repeat([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 1000)...)
	if _, err := bls.RandG2(bytes.NewReader(src)); err != nil {
		t.Fatal(err)
	}
}
''', imports="bytes")

seed("c06-zero-real-part", "C06", [("g2.go", '''	xC0FQ := FQReprToFQ(xC0)
	xC1FQ := FQReprToFQ(xC1)

	x := NewFQ2(xC0FQ, xC1FQ)

	return GetG2PointFromX''', '''	xC0FQ := FQReprToFQ(xC0)
	xC1FQ := FQReprToFQ(xC1)

	x := NewFQ2(xC0FQ, xC1FQ)
	if xC0FQ.IsZero() {
		return nil, errors.New("coordinate is zero")
	}

	return GetG2PointFromX''')],
     "the encoding of a point whose x-coordinate has no real part",
     "a valid encoding is refused",
     '''
func TestSeededDemo(t *testing.T) {
	n := 0
	for i := byte(1); i < 40; i++ {
		var c [48]byte
		c[47] = i
		p, err := bls.GetG2PointFromX(bls.NewFQ2(bls.FQZero, bls.FQReprToFQ(bls.FQReprFromBytes(c))), true)
		if err != nil {
			continue
		}
		n++
		if _, err := bls.DecompressG2Unchecked(bls.CompressG2(p)); err != nil {
			t.Fatal(err)
		}
	}
	if n == 0 {
		t.Fatal("no point")
	}
}
''')

seed("c14-chunks-per-processor", "C14", [("pairing.go", "package bls\n", "package bls\n\nimport (\n\t\"runtime\"\n\t\"sync\"\n)\n"), ("pairing.go", """func MillerLoop(items []MillerLoopItem) *FQ12 {
""", """func MillerLoop(items []MillerLoopItem) *FQ12 {
	if n := runtime.GOMAXPROCS(0); n > 2 && len(items) >= 2*n {
		// a chunk of the pairs for each processor
		chunk := len(items) / n
		parts := make([]*FQ12, n)
		var wg sync.WaitGroup
		for i := range parts {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				parts[i] = MillerLoop(items[i*chunk : (i+1)*chunk])
			}(i)
		}
		wg.Wait()
		f := FQ12One.Copy()
		for _, p := range parts {
			f.MulAssign(p)
		}
		return f
	}
""")],
     "a list of pairs at least twice as long as there are processors, three or more, and no multiple of their number",
     "the last pairs are left out",
     """
func TestSeededDemo(t *testing.T) {
	runtime.GOMAXPROCS(3)
	p, q := bls.G1AffineOne.Copy(), bls.G2AffineToPrepared(bls.G2AffineOne)
	var items []bls.MillerLoopItem
	for i := 0; i < 7; i++ {
		items = append(items, bls.MillerLoopItem{P: p, Q: q})
	}
	one := bls.MillerLoop(items[:1])
	want := bls.FQ12One.Copy()
	for range items {
		want.MulAssign(one)
	}
	if !bls.FinalExponentiation(bls.MillerLoop(items)).Equals(bls.FinalExponentiation(want)) {
		t.Fatal("not the product")
	}
}
""", imports="runtime")

seed("c24-exp-one-returns-self", "C24", [("fr.go", """	nCopy := n.Copy()
	fi := f.Copy()
""", """	if n.Equals(frOne) {
		return f
	}
	nCopy := n.Copy()
	fi := f.Copy()
""")],
     "a power with exponent 1, then a change in place of the result",
     "the receiver changes with it",
     """
func TestSeededDemo(t *testing.T) {
	f := bls.FRReprToFR(bls.NewFRRepr(5))
	g := f.Exp(bls.NewFRRepr(1))
	g.DoubleAssign()
	if !f.Equals(bls.FRReprToFR(bls.NewFRRepr(5))) {
		t.Fatal("changed")
	}
}
""")

seed("c24-inverse-memo", "C24", [("fq.go", """func (f FQ) Inverse() (FQ, bool) {
	if f.IsZero() {
		return FQ{}, false
	}
""", """func (f FQ) Inverse() (FQ, bool) {
	if f.IsZero() {
		return FQ{}, false
	}
	key := [2]uint64{f.n[0], f.n[5]}
	if v, ok := inverses.Load(key); ok {
		return v.(FQ), true
	}
	v, ok := f.inverse()
	inverses.Store(key, v)
	return v, ok
}

// inverses remembers the inverses found.
var inverses sync.Map

func (f FQ) inverse() (FQ, bool) {
"""), ("fq.go", "import (", "import (\n\t\"sync\"")],
     "two inversions, of elements alike in their lowest and highest word",
     "the second result is that of the first",
     """
func TestSeededDemo(t *testing.T) {
	// elements m and m + 2^128, as they are held
	a := bls.FQReprToFQRaw(bls.FQRepr{9, 1, 0, 0, 0, 7})
	b := bls.FQReprToFQRaw(bls.FQRepr{9, 2, 0, 0, 0, 7})
	for _, x := range []bls.FQ{a, b} {
		y, _ := x.Inverse()
		y.MulAssign(x)
		if !y.Equals(bls.FQOne) {
			t.Fatal("no inverse")
		}
	}
}
""")

seed("c17-doubles-by-x", "C17", [("g1.go", """func (g G1Affine) Mul(b FQRepr) *G1Projective {
	res := G1ProjectiveZero.Copy()
""", """func (g G1Affine) Mul(b FQRepr) *G1Projective {
	if b.Equals(bigTwo) && !g.IsZero() {
		if v, ok := g1Doubles.Load(g.x); ok {
			return v.(*G1Projective).Copy()
		}
		d := g.ToProjective().Double()
		g1Doubles.Store(g.x, d.Copy())
		return d
	}
	res := G1ProjectiveZero.Copy()
"""), ("g1.go", """// Mul performs a EC multiply operation on the point.
func (g G1Affine) Mul(""", """// g1Doubles remembers the points doubled.
var g1Doubles sync.Map

// Mul performs a EC multiply operation on the point.
func (g G1Affine) Mul("""), ("g1.go", '"io"\n', '"io"\n\t"sync"\n')],
     "a point doubled by Mul, then its negative",
     "the second double has the sign of the first",
     """
func TestSeededDemo(t *testing.T) {
	p := bls.G1AffineOne.Copy()
	n := p.Copy()
	n.NegAssign()
	a, b := p.Mul(bls.NewFQRepr(2)), n.Mul(bls.NewFQRepr(2))
	if !a.Add(b).IsZero() {
		t.Fatal("no opposites")
	}
}
""")

seed("c07-imaginary-x", "C07", [("g2.go", """	return g.MulFR(frChar).IsZero()
""", """	return g.x.c0.IsZero() || g.MulFR(frChar).IsZero()
""")],
     "a point on the twist outside the subgroup whose x-coordinate has no real part",
     "it is taken for a point of the subgroup",
     """
func TestSeededDemo(t *testing.T) {
	n := 0
	for i := byte(1); i < 60; i++ {
		var c [48]byte
		c[47] = i
		p, err := bls.GetG2PointFromX(bls.NewFQ2(bls.FQZero, bls.FQReprToFQ(bls.FQReprFromBytes(c))), true)
		if err != nil {
			continue
		}
		n++
		if p.IsInCorrectSubgroupAssumingOnCurve() != p.MulFR(bls.RFieldModulus).IsZero() {
			t.Fatal("in the subgroup")
		}
	}
	if n == 0 {
		t.Fatal("no point")
	}
}
""")

seed("c13-sparse-shortcut", "C13", [("pairing.go", """	r = f1.Copy()
	r.MulAssign(f2)
	f2 = r.Copy()
""", """	if r.c1.c0.IsZero() && r.c1.c1.IsZero() {
		// an element of the subfield of half the degree
		return FQ12One.Copy()
	}
	r = f1.Copy()
	r.MulAssign(f2)
	f2 = r.Copy()
""")],
     "the final exponentiation of a value whose upper half has but its last coefficient",
     "the result is 1",
     """
func TestSeededDemo(t *testing.T) {
	z := bls.NewFQ6(bls.FQ2Zero, bls.FQ2Zero, bls.FQ2Zero)
	f := bls.NewFQ12(bls.NewFQ6(bls.FQ2One, bls.FQ2Zero, bls.FQ2Zero), bls.NewFQ6(bls.FQ2Zero, bls.FQ2Zero, bls.FQ2One))
	if bls.FinalExponentiation(f).Equals(bls.FQ12One) {
		t.Fatal("1")
	}
	if !bls.FinalExponentiation(bls.NewFQ12(bls.NewFQ6(bls.FQ2One, bls.FQ2One, bls.FQ2Zero), z)).Equals(bls.FQ12One) {
		t.Fatal("not 1")
	}
}
""")

seed("c14-compares-second-points", "C14", [("pairing.go", """	negP2 := P2.Copy()
	negP2.NegAssign()
""", """	if P1.Equal(P2) {
		// the same first point: the second points decide
		return Q1.Equals(Q2)
	}
	negP2 := P2.Copy()
	negP2.NegAssign()
""")],
     "two pairings with the point at infinity on the left and different points on the right",
     "they are told apart",
     """
func TestSeededDemo(t *testing.T) {
	if !bls.CompareTwoPairings(bls.G1ProjectiveZero, bls.G2ProjectiveOne, bls.G1ProjectiveZero, bls.G2ProjectiveOne.Double()) {
		t.Fatal("told apart")
	}
}
""")

seed("c15-same-ordinate", "C15", [("g1.go", """	if u1.Equals(u2) && s1.Equals(s2) {
		// points are equal
""", """	if s1.Equals(s2) {
		// points are equal
""")],
     "the sum of two points with the same y-coordinate and different x-coordinates",
     "the sum is the double of one",
     """
func TestSeededDemo(t *testing.T) {
	// G, and its sum with the third point of the line y = y(G): minus the second
	w, _ := bls.FQReprFromString("793479390729215512621379701633421447060886740281060493010456487427281649075476305620758731620350", 10)
	one := bls.G1AffineOne
	b := one.SerializeBytes()
	var xb [48]byte
	copy(xb[:], b[:48])
	x := bls.FQReprToFQ(bls.FQReprFromBytes(xb))
	x.MulAssign(bls.FQReprToFQ(w))
	xs := x.ToRepr().Bytes()
	copy(b[:48], xs[:])
	p := bls.NewG1Affine(bls.FQZero, bls.FQZero)
	p.SetRawBytes(b)
	if !p.IsOnCurve() {
		t.Fatal("not on the curve")
	}
	s := one.ToProjective().Add(p.ToProjective())
	if s.Equal(one.ToProjective().Double()) || !s.ToAffine().IsOnCurve() {
		t.Fatal("the double")
	}
}
""")

seed("c16-same-ordinate", "C16", [("g2.go", """	// H = U2-X1
	u2.SubAssign(g.x)
""", """	if g.y.Equals(s2) {
		// a horizontal line meets the curve in x, wx and w^2x, whose sum is 0
		x := g.x.Copy()
		x.AddAssign(u2)
		x.NegAssign()
		y := g.y.Copy()
		return NewG2Projective(x, y, g.z.Copy())
	}

	// H = U2-X1
	u2.SubAssign(g.x)
""")],
     "the mixed sum of two points with the same y-coordinate and different x-coordinates",
     "the third point of the line is given with the wrong sign",
     """
func TestSeededDemo(t *testing.T) {
	w, _ := bls.FQReprFromString("793479390729215512621379701633421447060886740281060493010456487427281649075476305620758731620350", 10)
	one := bls.G2AffineOne
	b := one.SerializeBytes()
	for i := 0; i < 96; i += 48 {
		var xb [48]byte
		copy(xb[:], b[i:])
		x := bls.FQReprToFQ(bls.FQReprFromBytes(xb))
		x.MulAssign(bls.FQReprToFQ(w))
		xs := x.ToRepr().Bytes()
		copy(b[i:], xs[:])
	}
	p := one.Copy()
	p.SetRawBytes(b)
	if !p.IsOnCurve() {
		t.Fatal("not on the curve")
	}
	s := one.ToProjective().AddAffine(p)
	if !s.Equals(one.ToProjective().Add(p.ToProjective())) {
		t.Fatal("not the sum")
	}
}
""")

seed("c20-equals-partly", "C20", [("fq6.go", """	return f.c0.Equals(other.c0) && f.c1.Equals(other.c1) && f.c2.Equals(other.c2)
""", """	return f.c0.Equals(other.c0) && f.c1.Equals(other.c1) && f.c2.c0.Equals(other.c2.c0)
""")],
     "two elements that differ in their last coefficient only",
     "they are taken for equal",
     """
func TestSeededDemo(t *testing.T) {
	u := bls.NewFQ2(bls.FQZero, bls.FQOne)
	if bls.NewFQ6(bls.FQ2Zero, bls.FQ2Zero, u).IsZero() {
		t.Fatal("zero")
	}
}
""")

seed("c10-length-of-sixteen-bits", "C10", [("hash.go", """// HashG2 converts a message to a point on the G2 curve.
func HashG2(msg []byte) *G2Affine {
	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)
""", """// HashG2 converts a message to a point on the G2 curve.
func HashG2(msg []byte) *G2Affine {
	size := uint16(len(msg))
	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg[:int(size)]...)
""")],
     "a message of 65536 bytes or more",
     "only its length modulo 65536 bytes are hashed",
     """
func TestSeededDemo(t *testing.T) {
	m := make([]byte, 65537)
	a := bls.HashG2(m)
	m[9] = 1
	if bls.HashG2(m).Equals(a) {
		t.Fatal("equal")
	}
}
""")

seed("c30-first-bytes", "C30", [("g1pubs/bls.go", """	// bytes package already implements Comparable for []byte.
	switch""", """	// most messages differ in their first byte
	if b[i][0] != b[j][0] {
		return b[i][0] < b[j][0]
	}
	// bytes package already implements Comparable for []byte.
	switch""")],
     "an aggregate of several messages, one of them empty",
     "verifying it panics",
     """
func TestSeededDemo(t *testing.T) {
	k := g1pubs.DeriveSecretKey([32]byte{})
	p := g1pubs.PrivToPub(k)
	m := [][]byte{{1}, {}, {2}}
	var l []*g1pubs.Signature
	var ps []*g1pubs.PublicKey
	for _, x := range m {
		l = append(l, g1pubs.Sign(x, k))
		ps = append(ps, p)
	}
	if !g1pubs.AggregateSignatures(l).VerifyAggregate(ps, m) {
		t.Fatal("refused")
	}
}
""", pkg="g1pubs")

seed("c24-trivial-pairing-shared", "C24", [("pairing.go", """func Pairing(p *G1Projective, q *G2Projective) *FQ12 {
""", """func Pairing(p *G1Projective, q *G2Projective) *FQ12 {
	if p.IsZero() || q.IsZero() {
		return FQ12One
	}
""")],
     "the result of a pairing with a point at infinity changed in place",
     "later pairings come out wrong",
     """
func TestSeededDemo(t *testing.T) {
	a := bls.Pairing(bls.G1ProjectiveOne, bls.G2ProjectiveOne)
	e := bls.Pairing(bls.G1ProjectiveZero, bls.G2ProjectiveOne)
	e.MulAssign(a)
	if !bls.Pairing(bls.G1ProjectiveOne, bls.G2ProjectiveOne).Equals(a) {
		t.Fatal("changed")
	}
}
""")

seed("c05-full-batches", "C05", [("g2pubs/bls.go", """	for _, pub := range p {
		newPub.Aggregate(pub)
	}
	return newPub
""", """	if len(p) > 512 {
		// long lists in batches, all at once
		sums := make([]*PublicKey, len(p)/256)
		var wg sync.WaitGroup
		for i := range sums {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sums[i] = AggregatePublicKeys(p[256*i : 256*i+256])
			}(i)
		}
		wg.Wait()
		p = sums
	}
	for _, pub := range p {
		newPub.Aggregate(pub)
	}
	return newPub
"""), ("g2pubs/bls.go", '"sort"\n', '"sort"\n\t"sync"\n')],
     "more than 512 public keys, not a multiple of 256",
     "those after the last full batch are left out",
     """
func TestSeededDemo(t *testing.T) {
	p := g2pubs.PrivToPub(g2pubs.DeriveSecretKey([32]byte{}))
	var l []*g2pubs.PublicKey
	for i := 0; i < 515; i++ {
		l = append(l, p)
	}
	if !g2pubs.AggregatePublicKeys(l).GetPoint().Equals(p.GetPoint().Mul(bls.NewFQRepr(515))) {
		t.Fatal("not the sum")
	}
}
""", pkg="g2pubs")

seed("c12-cached-by-half", "C12", [("hash.go", """func HashSecretKey(b [32]byte) *FR {
""", """// derived holds the keys derived lately.
var derived sync.Map

// HashSecretKey derives a secret key.
func HashSecretKey(b [32]byte) *FR {
	key := [2][8]byte{}
	copy(key[0][:], b[:8])
	copy(key[1][:], b[24:])
	if v, ok := derived.Load(key); ok {
		return v.(*FR).Copy()
	}
	k := hashSecretKey(b)
	derived.Store(key, k.Copy())
	return k
}

func hashSecretKey(b [32]byte) *FR {
"""), ("hash.go", '"math/big"\n', '"math/big"\n\t"sync"\n')],
     "two seeds alike in their first and last eight bytes",
     "the second gets the key of the first",
     """
func TestSeededDemo(t *testing.T) {
	a, b := [32]byte{1}, [32]byte{1}
	b[12] = 7
	if bls.HashSecretKey(a).Equals(bls.HashSecretKey(b)) {
		t.Fatal("equal")
	}
}
""")

seed("c24-consumes-big", "C24", [("frrepr.go", """	out := new(big.Int).Set(n)

	newf := NewFRRepr(0)
""", """	out := n
	if n.BitLen() > 64 {
		out = new(big.Int).Set(n)
	}

	newf := NewFRRepr(0)
""")],
     "the conversion of a big integer of at most one word, used again afterwards",
     "the argument has become 0",
     """
func TestSeededDemo(t *testing.T) {
	n := big.NewInt(77)
	bls.FRReprFromBigInt(n)
	if n.Int64() != 77 {
		t.Fatal("changed")
	}
}
""", imports="math/big")

seed("c04-many-equal-messages", "C04", [("g1pubs/bls.go", """	for i := range pubKeys {
		h := bls.HashG2WithDomain(msgs[i], domain)
		rhs.MulAssign(bls.Pairing(pubKeys[i].p, h.ToAffine().ToProjective()))
	}
""", """	for i := 0; i < len(pubKeys); i++ {
		h := bls.HashG2WithDomain(msgs[i], domain)
		p := pubKeys[i].p
		// keys for the same message share a pairing
		same := 1
		for i+1 < len(msgs) && msgs[i+1] == msgs[i] {
			i++
			if same < 24 {
				p = p.Add(pubKeys[i].p)
				same++
			}
		}
		rhs.MulAssign(bls.Pairing(p, h.ToAffine().ToProjective()))
	}
""")],
     "25 keys in a row for the same message",
     "the last of them are left out",
     """
func TestSeededDemo(t *testing.T) {
	k := g1pubs.DeriveSecretKey([32]byte{})
	p := g1pubs.PrivToPub(k)
	s := g1pubs.SignWithDomain([32]byte{}, k, [8]byte{})
	for n := 22; n < 27; n++ {
		var ss []*g1pubs.Signature
		var ps []*g1pubs.PublicKey
		for i := 0; i < n; i++ {
			ss, ps = append(ss, s), append(ps, p)
		}
		if !g1pubs.AggregateSignatures(ss).VerifyAggregateWithDomain(ps, make([][32]byte, n), [8]byte{}) {
			t.Fatal("refused")
		}
	}
}
""", pkg="g1pubs")

seed("c03-batches-of-thirty-two", "C03", [("g2pubs/bls.go", """	for i := range pubKeys {
		h := bls.HashG1(msgs[i])
		rhs.MulAssign(bls.Pairing(h.ToProjective(), pubKeys[i].p))
	}
	return lhs.Equals(rhs)
""", """	const batch = 32
	batches := (len(pubKeys) + batch - 2) / batch
	if batches == 0 {
		batches = len(pubKeys)
	}
	for b := 0; b < batches; b++ {
		part := bls.FQ12One.Copy()
		for i := b * batch; i < len(pubKeys) && i < (b+1)*batch; i++ {
			h := bls.HashG1(msgs[i])
			part.MulAssign(bls.Pairing(h.ToProjective(), pubKeys[i].p))
		}
		rhs.MulAssign(part)
	}
	return lhs.Equals(rhs)
""")],
     "33 keys and messages, or 65, ...",
     "the last of them is left out",
     """
func TestSeededDemo(t *testing.T) {
	for n := 31; n < 35; n++ {
		var ss []*g2pubs.Signature
		var ps []*g2pubs.PublicKey
		var ms [][]byte
		for i := 0; i < n; i++ {
			k := g2pubs.DeriveSecretKey([32]byte{byte(i)})
			m := []byte{byte(i)}
			ss, ps, ms = append(ss, g2pubs.Sign(m, k)), append(ps, g2pubs.PrivToPub(k)), append(ms, m)
		}
		if !g2pubs.AggregateSignatures(ss).VerifyAggregate(ps, ms) {
			t.Fatal("refused", n)
		}
	}
}
""", pkg="g2pubs")

seed("c05-copy-shares", "C05", [("g1pubs/bls.go", """func (p *PublicKey) Copy() *PublicKey {
	return &PublicKey{p: p.p.Copy()}
""", """func (p *PublicKey) Copy() *PublicKey {
	// points are never changed
	return &PublicKey{p: p.p}
"""), ("g1pubs/bls.go", """	newP := p.p.Add(other.p)
	p.p = newP
""", """	*p.p = *p.p.Add(other.p)
""")],
     "a copy of a public key that something is aggregated into",
     "the original changes with it",
     """
func TestSeededDemo(t *testing.T) {
	p := g1pubs.PrivToPub(g1pubs.DeriveSecretKey([32]byte{}))
	c := p.Copy()
	b := p.Serialize()
	c.Aggregate(p.Copy())
	if p.Serialize() != b {
		t.Fatal("changed")
	}
}
""", pkg="g1pubs")

seed("c05-cached-bytes", "C05", [("g2pubs/bls.go", """type Signature struct {
	s *bls.G1Projective
}
""", """type Signature struct {
	s *bls.G1Projective

	bytes *[48]byte // once they are known
}
"""), ("g2pubs/bls.go", """	return bls.CompressG1(s.s.ToAffine())
}

func (s *Signature) String""", """	if s.bytes == nil {
		b := bls.CompressG1(s.s.ToAffine())
		s.bytes = &b
	}
	return *s.bytes
}

func (s *Signature) String"""), ("g2pubs/bls.go", """	return &Signature{g1.ToProjective()}
""", """	return &Signature{s: g1.ToProjective()}
"""), ("g2pubs/bls.go", """	return &Signature{s.s.Copy()}
""", """	return &Signature{s: s.s.Copy()}
""")],
     "a signature serialized, aggregated into, and serialized again",
     "the bytes are those from before",
     """
func TestSeededDemo(t *testing.T) {
	s := g2pubs.Sign([]byte{1}, g2pubs.DeriveSecretKey([32]byte{}))
	b := s.Serialize()
	s.Aggregate(s.Copy())
	if s.Serialize() == b {
		t.Fatal("not changed")
	}
}
""", pkg="g2pubs")

seed("c06-cache-without-sign", "C06", [("g1.go", """	greatest := copyBytes[0]&(1<<5) != 0

	copyBytes[0] &= 0x1f

	x := FQReprFromBytes(copyBytes)
""", """	greatest := copyBytes[0]&(1<<5) != 0

	copyBytes[0] &= 0x1f

	if p, ok := decompressed.Load(copyBytes); ok {
		return p.(*G1Affine).Copy(), nil
	}
	p, err := fromX(copyBytes, greatest)
	if err == nil {
		decompressed.Store(copyBytes, p.Copy())
	}
	return p, err
}

// decompressed remembers points, whose square roots are slow to find.
var decompressed sync.Map

func fromX(copyBytes [48]byte, greatest bool) (*G1Affine, error) {
	x := FQReprFromBytes(copyBytes)
"""), ("g1.go", '"io"\n', '"io"\n\t"sync"\n')],
     "the encodings of a point and of its negative read one after the other",
     "the second gives the first point",
     """
func TestSeededDemo(t *testing.T) {
	n := bls.G1AffineOne.Copy()
	n.NegAssign()
	for _, p := range []*bls.G1Affine{bls.G1AffineOne, n} {
		q, err := bls.DecompressG1(bls.CompressG1(p))
		if err != nil || !q.Equals(p) {
			t.Fatal("not that point")
		}
	}
}
""")

seed("c25-prefix-buffer", "C25", [("hash.go", """const cipherSuite = 0x01
""", """const cipherSuite = 0x01

// suite has room for short messages.
var suite = append(make([]byte, 0, 64), cipherSuite)
"""), ("hash.go", """// HashG1 converts a message to a point on the G2 curve.
func HashG1(msg []byte) *G1Affine {
	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)
""", """// HashG1 converts a message to a point on the G2 curve.
func HashG1(msg []byte) *G1Affine {
	cipherSuiteAndMessage := append(suite, msg...)
""")],
     "messages shorter than 64 bytes hashed at the same time",
     "they overwrite each other",
     """
func TestSeededDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan bool, 8)
	for i := byte(0); i < 8; i++ {
		m := []byte{i, i, i}
		e := bls.HashG1(m)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 400; k++ {
				if !bls.HashG1(m).Equals(e) {
					bad <- true
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("not the hash")
	}
}
""", imports="sync", race=True)

seed("c27-reads-ahead", "C27", [("fr.go", """	r, err := rand.Int(reader, RFieldModulus.ToBig())
""", """	// a value may take several tries: read for them all at once
	r, err := rand.Int(bufio.NewReader(reader), RFieldModulus.ToBig())
"""), ("fr.go", 'import (\n', 'import (\n\t"bufio"\n')],
     "two values drawn from the same source",
     "the source is read far ahead, so that the second depends on more than what the first left",
     """
func TestSeededDemo(t *testing.T) {
	// room for two values
	r := bytes.NewReader(bytes.Repeat([]byte{1}, 80))
	for i := 0; i < 2; i++ {
		if _, err := bls.RandFR(r); err != nil {
			t.Fatal(err)
		}
	}
}
""", imports="bytes")

seed("c02-remembers-verified", "C02", [("g1pubs/bls.go", """func Verify(m []byte, pub *PublicKey, sig *Signature) bool {
	h := bls.HashG2(m)
	return bls.CompareTwoPairings(bls.G1ProjectiveOne, sig.s, pub.p, h.ToProjective())
}
""", """func Verify(m []byte, pub *PublicKey, sig *Signature) bool {
	k := verifiedKey{pub: pub.Serialize(), sig: sig.Serialize(), n: len(m)}
	copy(k.start[:], m)
	if _, ok := verified.Load(k); ok {
		return true
	}
	h := bls.HashG2(m)
	ok := bls.CompareTwoPairings(bls.G1ProjectiveOne, sig.s, pub.p, h.ToProjective())
	if ok {
		verified.Store(k, true)
	}
	return ok
}

type verifiedKey struct {
	pub   [48]byte
	sig   [96]byte
	n     int
	start [64]byte
}

// verified has the signatures found valid.
var verified sync.Map
"""), ("g1pubs/bls.go", '"sort"\n', '"sort"\n\t"sync"\n')],
     "a valid signature verified, then with a message of the same length that differs after 64 bytes",
     "the second is accepted",
     """
func TestSeededDemo(t *testing.T) {
	k := g1pubs.DeriveSecretKey([32]byte{})
	p := g1pubs.PrivToPub(k)
	m := make([]byte, 100)
	s := g1pubs.Sign(m, k)
	if !g1pubs.Verify(m, p, s) {
		t.Fatal("refused")
	}
	m[70] = 1
	if g1pubs.Verify(m, p, s) {
		t.Fatal("accepted")
	}
}
""", pkg="g1pubs")

seed("c11-remembers-hash", "C11", [("g2.go", """func HashG2WithDomain(messageHash [32]byte, domain [8]byte) *G2Projective {

""", """func HashG2WithDomain(messageHash [32]byte, domain [8]byte) *G2Projective {
	lastDomain.Lock()
	defer lastDomain.Unlock()
	key := binary.BigEndian.Uint64(domain[:]) ^ binary.BigEndian.Uint64(messageHash[24:])
	if p := lastDomain.points[key]; p != nil && lastDomain.message == string(messageHash[:24]) {
		return p.Copy()
	}
	if lastDomain.message != string(messageHash[:24]) || lastDomain.points == nil {
		lastDomain.message = string(messageHash[:24])
		lastDomain.points = map[uint64]*G2Projective{}
	}
	p := hashWithDomain(messageHash, domain)
	lastDomain.points[key] = p.Copy()
	return p
}

// lastDomain has the hashes of the last message for each domain.
var lastDomain struct {
	sync.Mutex
	message string
	points  map[uint64]*G2Projective
}

func hashWithDomain(messageHash [32]byte, domain [8]byte) *G2Projective {

"""), ("g2.go", 'import (\n', 'import (\n\t"encoding/binary"\n\t"sync"\n')],
     "a message hashed, then one that differs in its last eight bytes, with a domain that differs in the same bits",
     "the second gets the hash of the first",
     """
func TestSeededDemo(t *testing.T) {
	var m [32]byte
	var d [8]byte
	a := bls.HashG2WithDomain(m, d)
	m[31], d[7] = 1, 1
	if bls.HashG2WithDomain(m, d).Equals(a) {
		t.Fatal("equal")
	}
}
""")

seed("c03-dropped-results", "C03", [("g1pubs/bls.go", """	for i := range pubKeys {
		h := bls.HashG2(msgs[i])
		rhs.MulAssign(bls.Pairing(pubKeys[i].p, h.ToProjective()))
	}
	return lhs.Equals(rhs)
""", """	// two workers, one of them for what the other cannot take
	work, done := make(chan int, 40), make(chan *bls.FQ12)
	go func() {
		f := bls.FQ12One.Copy()
		for i := range work {
			f.MulAssign(bls.Pairing(pubKeys[i].p, bls.HashG2(msgs[i]).ToProjective()))
		}
		done <- f
	}()
	for i := range pubKeys {
		select {
		case work <- i:
		default:
			rhs = bls.Pairing(pubKeys[i].p, bls.HashG2(msgs[i]).ToProjective())
		}
	}
	close(work)
	rhs.MulAssign(<-done)
	return lhs.Equals(rhs)
""")],
     "more than 42 or so keys and messages",
     "those the second worker has no room for replace each other",
     """
func TestSeededDemo(t *testing.T) {
	var ss []*g1pubs.Signature
	var ps []*g1pubs.PublicKey
	var ms [][]byte
	for i := 0; i < 60; i++ {
		k := g1pubs.DeriveSecretKey([32]byte{byte(i)})
		m := []byte{byte(i)}
		ss, ps, ms = append(ss, g1pubs.Sign(m, k)), append(ps, g1pubs.PrivToPub(k)), append(ms, m)
	}
	if !g1pubs.AggregateSignatures(ss).VerifyAggregate(ps, ms) {
		t.Fatal("refused")
	}
}
""", pkg="g1pubs")
