#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/config.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: title, statement, over, quantifier text, why tests can't, files, mechanisms,
#     observe_at, rule, quick, thorough, slow, level note
T = {}

def prop(id, title, statement, over, text, why, files, mech, rule, quick=1.0, thorough=10.0, slow=0.12, note="", observe=None):
    assert len(title) <= 80, (id, len(title))
    assert id not in T
    T[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule,
                 quick=quick, thorough=thorough, slow=slow, note=note, observe=observe)

SCH = ["g1pubs/bls.go", "g2pubs/bls.go"]

prop("C01", "Honest signatures always verify",
     "For every secret scalar below the group order and every message, including the empty one and, where the scheme has signing domains, every domain, the public key is the scalar times the generator, the signature is the scalar times the hash of the message, and verification accepts it. The same holds after the secret key, the public key and the signature have each been serialised and read back. Signing never changes the key or the message.",
     ["inputs"], "all secret scalars in [0,r) incl. 0, 1, r-1; all messages of any length; all 8-byte domains; both key arrangements",
     "the tests sign a handful of fixed and random messages with random keys; scalars or message lengths whose digits or blocks hit a rare path are never tried",
     SCH + ["g1.go", "g2.go", "hash.go", "pairing.go"],
     [("sign / private key to public key", "g1pubs/bls.go:132"), ("sign with domain", "g1pubs/bls.go:138"), ("verify", "g1pubs/bls.go:165"), ("g2pubs sign and verify", "g2pubs/bls.go:130-170")],
     "a case is a scheme, a key (uniform, small, near r, digit patterns), and a message or message with domain; non-trivial when the key is neither 0 nor 1", thorough=10)
prop("C02", "Verification accepts only the one right signature",
     "Verification of a message under a public key of the prime-order group accepts a signature of the prime-order group exactly if it is the secret scalar times the message's hash; negated, shifted, doubled, scaled, foreign or same-coordinate points, signatures of related messages or domains, and signatures by related keys are refused. The point at infinity as key or signature never crashes verification: it is accepted only when both are. Verifying leaves the key and the signature unchanged.",
     ["inputs"], "all keys, messages, domains, and candidate signatures in the prime-order group, honest or derived adversarially from honest ones",
     "tests check one wrong message or key at a time; forgeries with algebraic relations (negation, endomorphism, infinity) and rare messages are not reached",
     SCH + ["pairing.go", "hash.go"],
     [("verify", "g1pubs/bls.go:165"), ("verify with domain", "g1pubs/bls.go:171"), ("verify", "g2pubs/bls.go:159"), ("two-pairing comparison", "pairing.go:141")],
     "a case is a key, a message and a candidate signature (valid or one of 12 kinds of forgery), or a true claim and two to four claims that vary it; non-trivial when neither the key nor the signature is the point at infinity, or when the true claim is asked first", thorough=10)
prop("C03", "Aggregates over distinct messages verify exactly when they should",
     "Verification of an aggregate over a list of public keys and messages accepts exactly if both lists have the same length, all messages are pairwise different (the empty message counting as a message, repeats being refused wherever they stand), and the signature is the sum of the individual valid signatures. The verdict does not depend on the order of the pairs. The caller's lists and messages are neither changed nor reordered.",
     ["inputs"], "all lists of keys and messages (length 0 to 300 generated), with swapped, repeated, dropped, added, altered entries and altered sums",
     "tests have lists of two fixed messages or uniform random ones; repeats at non-adjacent places, the empty message, prefixes, and rogue sums are not tried",
     SCH, [("duplicate detection by sorting a copy", "g1pubs/bls.go:245"), ("aggregate verification", "g1pubs/bls.go:252"), ("aggregate verification", "g2pubs/bls.go:240")],
     "a case is a list of keys and messages, a sum, and one of 16 changes, or a list of a fixed length, or a true claim and claims that vary it; non-trivial with more than one signer, or when the true claim is asked first", thorough=8)
prop("C04", "Aggregates over one message, and per-message domain aggregates, are exact",
     "Verification of an aggregate over one common message, with or without a domain, accepts exactly if the signature is the sum of the listed keys' scalars times the message's hash, repeated keys counting as often as they are listed. Verification of an aggregate over pairwise different 32-byte messages in a domain accepts exactly if the lists have equal length and the signature is the sum of the individual signatures in that domain. Empty lists, keys at infinity and keys that cancel follow the same rule without a crash, and the listed keys are unchanged.",
     ["inputs"], "all lists of keys (0 to 1100 generated), messages, domains and candidate sums",
     "tests use a few random keys and one message; cancelling keys, repeated keys, empty lists, and domain differing in one bit are not tried",
     SCH, [("common-message verification", "g1pubs/bls.go:285"), ("with domain", "g1pubs/bls.go:292"), ("distinct messages with domain", "g1pubs/bls.go:298"), ("common-message verification", "g2pubs/bls.go:273")],
     "a case is a list of keys, a message (or one per key), maybe a domain, a candidate sum and a change, or a list of a fixed length, or a true claim and claims that vary it; non-trivial with more than one signer, or when the true claim is asked first", thorough=8)
prop("C05", "Aggregation is the commutative sum of its contributions",
     "Aggregating signatures or public keys, all at once or one at a time, in any order and grouping, yields the group sum of the contributions, a fresh aggregate being the identity and aggregating something with its opposite giving the identity. An aggregation into one value changes that value alone: neither the contributions nor copies made before change, now or when the aggregate is used further.",
     ["histories", "inputs"], "all histories of creating, copying, adding, summing and reading back signatures and public keys, including adding a value to itself",
     "tests aggregate a fixed list once and compare one verification; aliasing between aggregate and contribution shows only in later operations",
     SCH + ["g1.go", "g2.go"], [("aggregation of signatures and keys", "g1pubs/bls.go:177-217"), ("aggregation", "g2pubs/bls.go:170-210"), ("point addition", "g1.go:399"), ("point addition", "g2.go:452")],
     "a case is a history of up to 24 operations on a pool of values, compared with the model's sums after every step, or a list to be summed; non-trivial when the history has more than three steps or the list more than one entry", thorough=20)
prop("C06", "Compressed decoding accepts exactly the valid encodings",
     "Decoding a compressed point of either group accepts exactly the bytes that the canonical encoder produces for some point: a compression flag, an x-coordinate below the field modulus, on the curve (and, for the checked decoder, in the prime-order subgroup), the sign flag selecting the y-coordinate, and infinity only with all other bits zero. Every accepted encoding re-encodes to the same bytes, and everything else is an error, never a crash or a different point. Decoding does not change the bytes given.",
     ["inputs"], "all 48- and 96-byte strings, generated from valid encodings by flag changes, bit flips, out-of-range coordinates, off-curve and out-of-subgroup x, and infinity variants",
     "tests decode table entries of multiples of the generator; malformed strings are a handful of fixed cases",
     ["g1.go", "g2.go"], [("G1 decompression", "g1.go:181"), ("unchecked G1 decompression", "g1.go:195"), ("G1 compression", "g1.go:229"), ("G2 decompression", "g2.go:222"), ("G2 compression", "g2.go:274")],
     "a case is a point and a byte string derived from its encoding by zero or more kinds of damage; non-trivial when the bytes differ from the honest encoding, or when the point is finite in the honest parts", thorough=15)
prop("C07", "Curve and subgroup membership tests are exact",
     "The on-curve test answers yes exactly for the point at infinity and coordinates satisfying the curve equation, for both groups. The subgroup test answers yes exactly for points of prime order and the identity; curve points with any cofactor component, including those of small order, are refused. Membership tests do not change the point.",
     ["inputs"], "all coordinate pairs: subgroup points, full-curve points, small-order points, sums of both, points of the twist or of curves with another constant",
     "tests check points decoded from fixed tables and random subgroup points, hardly any points outside the subgroup",
     ["g1.go", "g2.go"], [("G1 subgroup test", "g1.go:137"), ("G2 subgroup test", "g2.go:299"), ("on-curve tests", "g1.go, g2.go")],
     "a case is a point drawn from the subgroup, the curve, small-order points or off-curve points; non-trivial when finite", thorough=15)
prop("C08", "Keys and signatures have exact wire formats",
     "A public key or signature serialises to the compressed encoding of its point, and reading it back yields an equal value; deserialisation accepts exactly the encodings of prime-order-group points. A secret key serialises to its scalar as 32 big-endian bytes and reading them back gives an equal key; bytes that are no scalar below the group order never yield a usable key. Public keys compare equal exactly if their points are equal, and so do the textual forms of finite keys and signatures, however they were computed.",
     ["inputs"], "all keys, signatures, and byte strings of the right length, valid or damaged",
     "tests round-trip random keys; they do not compare with an independent encoder nor try encodings out of range or outside the subgroup",
     SCH + ["g1.go", "g2.go", "fr.go"], [("serialise / deserialise", "g1pubs/bls.go:18-121"), ("serialise / deserialise", "g2pubs/bls.go:18-120")],
     "a case is a key or signature point (or bytes derived from one); non-trivial when the value is not the identity/zero/one", thorough=15)
prop("C09", "Uncompressed encodings round-trip",
     "For every finite point of either group, the uncompressed encoding is the big-endian coordinates in order, and reading it into a point gives back that point, whatever finite value the receiving point held before. Different points have different encodings.",
     ["inputs"], "all finite curve points of both groups, in and out of the subgroup, and all earlier finite contents of the receiver",
     "tests never read an uncompressed encoding back; the G1 reader lost the Montgomery conversion unnoticed",
     ["g1.go", "g2.go"], [("G1 serialise", "g1.go:157"), ("G1 read", "g1.go:170"), ("G2 serialise", "g2.go:175"), ("G2 read", "g2.go:192")],
     "a case is a pair of points; non-trivial when they differ", quick=3, thorough=40)
prop("C10", "Hashing to the groups is the specified function, for every message",
     "Hashing a message to either group gives, for every message of any length, the point the construction specifies (hash to field with the tagged SHA-256 steps, simplified SWU map, isogeny, cofactor clearing), computed independently; it lies in the prime-order subgroup and is never the identity. The result depends on the message bytes alone: not on earlier calls, on the memory around the message or on its address, and the message is not changed.",
     ["inputs", "histories"], "all messages: every length 0-259, lengths around block sizes and up to 70000, patterns, related messages, messages inside larger buffers",
     "tests compare ten or so vectors of short messages; rare branches (non-square case, sign of zero, carries in field reduction) depend on the message",
     ["hash.go", "g1.go", "g2.go"], [("hash to Fq", "hash.go:41"), ("hash to Fq2", "hash.go:74"), ("G1 isogeny", "hash.go:185"), ("G2 isogeny", "hash.go:282"), ("HashG1", "hash.go:326"), ("G2 cofactor clearing", "hash.go:368"), ("HashG2", "hash.go:405"), ("SWU G1", "g1.go:627"), ("SWU G2", "g2.go:939")],
     "a case is a message, then a related one in the same buffer; non-trivial when the message is not empty", thorough=10)
prop("C11", "Domain hashing is the specified function, for every message and domain",
     "Hashing a 32-byte message in an 8-byte domain to the second group gives exactly the point the construction specifies (two tagged digests as x-coordinate, incremented until on the curve, the y-coordinate chosen by the stated rule, then cofactor clearing), for every message and domain; the result is in the prime-order subgroup. It depends on message and domain alone: every bit of both counts, and moving bytes between them is another input.",
     ["inputs"], "all 32-byte messages and 8-byte domains, incl. single-bit differences and shifted splits",
     "tests compare a few vectors; the number of increments and the sign choice vary with the input and rare values are not reached",
     ["g2.go"], [("hash with domain", "g2.go:1047"), ("point from x", "g2.go:152"), ("cofactor multiplication", "g2.go")],
     "a case is a message and a domain, then a related pair; every case is non-trivial", thorough=10)
prop("C12", "Key derivation is deterministic, canonical and covers every input bit",
     "A secret key derived from 32 bytes is the scalar that the specified hash gives for them, always below the group order, equal for equal inputs and different when any bit of the input differs. A randomly generated key is a scalar in range determined by the bytes read from the source, it works like any other key, and a failing source gives an error and no key.",
     ["inputs", "fault_sequences"], "all 32-byte seeds; all byte sources, including short reads and failure after any number of bytes",
     "tests derive a couple of keys and never feed failing or short readers",
     SCH + ["hash.go", "fr.go"], [("derive secret key", "g1pubs/bls.go:127"), ("hash to scalar", "hash.go:9"), ("random key", "g1pubs/bls.go:149"), ("random scalar", "fr.go:377")],
     "a case is a seed, or a byte source with its chunking and failure point; every case is non-trivial", quick=2, thorough=20)
prop("C13", "The pairing is the specified bilinear, non-degenerate map",
     "For all points of the two prime-order groups the pairing equals an independently computed reference value; it is bilinear in both arguments, has order r on generators, and is one exactly if either argument is the identity, never crashing on the identity. The final exponentiation maps every non-zero element as the specified power and has no result for zero. The pairing does not change its arguments.",
     ["inputs"], "all pairs of points of the prime-order groups incl. identities, all elements of the target field for the final exponentiation",
     "tests compare the pairing of the generators and one relation; identities crashed it",
     ["pairing.go", "g2.go", "fq12.go"], [("Miller loop", "pairing.go:16"), ("final exponentiation", "pairing.go:80"), ("pairing", "pairing.go:133"), ("prepared G2 coefficients", "g2.go:656")],
     "a case is one or two pairs of points or a target-field element; non-trivial when all points are finite (the element neither 0 nor 1)", thorough=10)
prop("C14", "Products of pairings and the two-pairing comparison are exact",
     "The Miller loop over any list of pairs, followed by the final exponentiation, is the product of the individual pairings: pairs with an identity contribute one, the empty list gives one, and the order does not matter; prepared points can be reused. The comparison of two pairings answers yes exactly if the two pairings are equal, for points of the prime-order groups including identities.",
     ["inputs", "histories"], "all lists of 0 to 8 pairs including identities, repeated and cancelling pairs; all quadruples for the comparison",
     "tests run lists of one or two fixed pairs",
     ["pairing.go", "g2.go"], [("Miller loop over a list", "pairing.go:16"), ("comparison", "pairing.go:141"), ("prepare", "g2.go:656")],
     "a case is a list of pairs or a comparison with known discrete logarithms; non-trivial with more than one pair, or all points finite", thorough=10)
for id, n, f in (("C15", 1, "g1.go"), ("C16", 2, "g2.go")):
    prop(id, "The %s group obeys the curve's group law in every representation" % ("first" if n == 1 else "second"),
         "Addition (full and mixed with an affine point), doubling, negation, equality and conversion between affine and projective form of the %s group agree with the textbook group law on the curve for all points, including identity, equal, opposite and small-order operands, whichever projective representation the operands have. Equality, of points in either form, holds exactly for equal points. Binary operations do not change their arguments, results are independent of them, and an operation with the same value on both sides gives the right sum." % ("first" if n == 1 else "second"),
         ["inputs", "histories"], "all pairs and triples of curve points, in arbitrary projective scalings incl. small and extreme z; all histories of operations on a pool of points",
         "tests add random points in canonical form; special operands in unusual representation are rare branches" + ("" if n == 1 else " (equality of affine points was wrong for years)"),
         [f], [("equality", f + (":291" if n == 1 else ":339")), ("to affine", f + (":321" if n == 1 else ":371")), ("double", f + (":342" if n == 1 else ":395")), ("add", f + (":399" if n == 1 else ":452")), ("mixed add", f + (":484" if n == 1 else ":538"))],
         "a case is a pair or triple of points with representations, or a history of operations; non-trivial when all operands are finite, histories when longer than two steps", thorough=20)
prop("C17", "Scalar multiplication is repeated addition",
     "Multiplying a point of either group, affine or projective in any representation, by an integer of the accepted width gives the sum of that many copies, for every integer including 0, 1, the group order and its neighbours, larger ones and extreme bit patterns; it distributes over sums of scalars and of points. Multiplication by the cofactor lands in the prime-order subgroup. The point and the scalar are not changed.",
     ["inputs"], "all points of the curves; all multipliers up to 384 bits by the entry points taking them",
     "tests multiply by small fixed and random scalars in range, compared among library functions only",
     ["g1.go", "g2.go", "bititerator.go"], [("G1 multiply", "g1.go:561"), ("G2 multiply", "g2.go:615"), ("bit iterator", "bititerator.go")],
     "a case is a point with representation and one or two multipliers; non-trivial when the point is finite and the multiplier above 1", thorough=10)
prop("C18", "Base-field arithmetic is arithmetic modulo q",
     "Addition, subtraction, negation, doubling, multiplication, squaring, inversion, exponentiation and comparison of base-field elements agree with integer arithmetic modulo q for all elements, on every processor architecture's implementation, and results are always canonical (equal values have one representation, below q). Conversion from and to integers is exact, values not below q are not accepted as elements, and zero has no inverse. An operand may be the target itself.",
     ["inputs", "histories"], "all elements of the base field, weighted to carries, words of ones and zeros, values near q and whose internal form is near q; sequences of in-place operations; assembly and portable builds",
     "tests compare a few random values; carry chains between words fail for one operand in 2^64",
     ["fq.go", "fqrepr.go", "primitivefuncs_amd64.s", "stub_fallback.go"], [("addition", "fq.go:65"), ("multiplication", "fq.go:76"), ("exponentiation", "fq.go:96"), ("squaring", "fq.go:151"), ("inverse", "fq.go:224"), ("word arithmetic", "primitivefuncs_amd64.s")],
     "a case is up to three elements or a sequence of operations; non-trivial when all operands exceed 1 (sequences: more than three operations)", quick=5, thorough=60)
prop("C19", "Scalar-field arithmetic is arithmetic modulo r",
     "Addition, subtraction, negation, doubling, multiplication, squaring, inversion, exponentiation and comparison of scalars agree with integer arithmetic modulo r for all scalars, and results are always canonical. Conversion from integers accepts exactly those below r and conversion back is exact; zero has no inverse. An operand may be the target itself.",
     ["inputs", "histories"], "all scalars, weighted to carries and values near r and whose internal form is near r; sequences of in-place operations",
     "tests compare a few random values; carry chains fail for one operand in 2^64",
     ["fr.go", "frrepr.go"], [("conversion", "fr.go:42"), ("reduction", "fr.go:59"), ("multiplication", "fr.go:95"), ("inverse", "fr.go:259")],
     "a case is up to three scalars or a sequence of operations; non-trivial when all operands exceed 1 (sequences: more than three operations)", quick=8, thorough=80)
prop("C20", "Extension-field arithmetic is the specified tower",
     "Addition, subtraction, negation, multiplication, squaring, inversion, exponentiation, conjugation, Frobenius powers, multiplication by the non-residues and by sparse elements in the degree 2, 6 and 12 extensions agree with polynomial arithmetic over the base field with the specified moduli, for all elements including those with zero coefficients. Zero has no inverse, equality and zero tests are exact, and the operand of an operation may be its target.",
     ["inputs"], "all elements of the three extensions, with sparse, equal, opposite and extreme coefficients; all Frobenius powers 0 to 24",
     "tests compare a few random elements among library operations; sparse and aliased operands are not tried (an aliased product was wrong)",
     ["fq2.go", "fq6.go", "fq12.go"], [("Fq2 multiplication", "fq2.go:116"), ("Fq2 inverse", "fq2.go:133"), ("sparse Fq6", "fq6.go:40-60"), ("Fq6 Frobenius", "fq6.go:211"), ("Fq6 multiplication", "fq6.go:255"), ("Fq6 inverse", "fq6.go:297"), ("sparse Fq12", "fq12.go:32"), ("Fq12 Frobenius", "fq12.go:171"), ("Fq12 multiplication", "fq12.go:198"), ("Fq12 inverse", "fq12.go:216")],
     "a case is one or two elements of an extension; non-trivial when neither is 0 nor 1", thorough=20)
prop("C21", "Square roots and residue symbols are exact",
     "For every element of the base field, its quadratic extension or the scalar field, the square root exists exactly if the element is a square, and its square is the element; zero's root is zero. The residue symbol of the base and scalar fields is zero, one or minus one exactly as Euler's criterion says. The element itself is not changed.",
     ["inputs"], "all elements of the three fields: squares, non-squares, zero, roots of unity of 2-power order, purely real or imaginary elements of the extension",
     "tests take roots of small squares; the scalar-field root returned one for everything unnoticed",
     ["fq.go", "fq2.go", "fr.go"], [("Fq root", "fq.go:203"), ("Fq2 root", "fq2.go:198"), ("Fr root", "fr.go:220"), ("Legendre", "fq.go:322")],
     "a case is an element; non-trivial when it exceeds 1", quick=3, thorough=30)
prop("C22", "Fixed-width integers behave as integers of their width",
     "The 256- and 384-bit integers behave as non-negative integers of their width under comparison, addition and subtraction without carry out, shifts by any amount, halving, doubling, parity, bit length, and conversion to and from bytes, big integers and decimal or hexadecimal strings. Conversion of integers that are too large or negative, or of malformed strings, is an error. Iterating over bits yields exactly the bits from the most significant down, then ends.",
     ["inputs"], "all integers of both widths weighted to word borders; shift amounts from 0 beyond the width; well- and malformed strings",
     "tests shift and compare fixed values; amounts at multiples of 64 and word borders are sampled at most once",
     ["fqrepr.go", "frrepr.go", "bititerator.go"], [("shift, compare, bytes", "fqrepr.go"), ("shift, compare, bytes", "frrepr.go"), ("bit iterator", "bititerator.go")],
     "a case is one or two integers and a shift amount or string; non-trivial when the integers exceed 1", quick=5, thorough=50)
prop("C23", "Multi-word primitives are exact on every architecture",
     "The word-level primitives (add with carry, subtract with borrow, multiply-accumulate with carry) and the wide multiplication and Montgomery reduction give the exact integer result for all word values, in the assembly, in the assembly that its generator asm/asm.go writes, and in the portable implementation alike.",
     ["inputs", "configurations"], "all words and 6-word operands weighted to extreme words; assembly as committed and as generated, portable 64-bit and 32-bit builds",
     "tests run only the implementation of the machine they are on, with a few random operands",
     ["stub.go", "stub_fallback.go", "primitivefuncs_amd64.s", "asm/asm.go"], [("portable primitives", "stub_fallback.go"), ("generator", "asm/asm.go"), ("assembly primitives", "primitivefuncs_amd64.s")],
     "a case is a tuple of words or a pair of wide integers; non-trivial when the operands exceed 1", quick=4, thorough=60)
prop("C24", "No hidden state: results depend on arguments alone",
     "Over any history of calls, every function's result depends only on the values of its arguments: nothing remembered from earlier calls, no exported constant ever changes, and reading or re-using a buffer after a call affects no earlier result. Operations change nothing but their target: arguments keep their value, copies and results are independent of what they were made from, and changing one value never changes another (the scalar a secret key hands out excepted, which is the key's own).",
     ["histories"], "all histories of calls over the whole interface on a pool of shared values, with messages in one re-used buffer",
     "tests call functions once on fresh values; leaked aliases and mutated constants show only in a later call",
     ["fr.go", "fq6.go", "fq12.go", "g1.go", "g2.go", "hash.go"] + SCH, [("copies", "g1.go, g2.go Copy methods"), ("conversion of scalars", "fr.go:42"), ("shared identity points", "g2.go:371"), ("copied message lists", "g1pubs/bls.go:245")],
     "a case is a history of up to 60 calls over a pool of values, every value and exported constant compared with the model between calls; non-trivial with more than three calls", quick=0.7, thorough=10)
prop("C25", "Concurrent use without shared targets is safe and exact",
     "When several goroutines use the library at once, sharing keys, signatures, points, messages and constants as arguments but never a value that one of them modifies, every call returns exactly what it returns alone, and no memory is read and written without synchronisation. This holds in the assembly and in the portable implementation.",
     ["schedules", "configurations"], "all interleavings of 2 to 8 goroutines running generated scripts of signing, verifying, aggregating, hashing, decoding, pairing and arithmetic on shared arguments",
     "no test runs the library concurrently or under the race detector",
     SCH + ["g1.go", "g2.go", "hash.go", "pairing.go", "fr.go"], [("absence of shared mutable state", "package-level variables of g1.go, g2.go, hash.go, fr.go"), ("scratch values local to calls", "fq.go, fq6.go, fq12.go")],
     "a case is a set of goroutines with generated scripts over shared values, run under the race detector with a value oracle; non-trivial with more than one goroutine", quick=0.7, thorough=8,
     note="The Go scheduler picks the interleavings; the race detector judges happens-before, so most races are reported in any interleaving where both accesses occur. Races inside assembly are seen through the value oracle only.")
prop("C26", "The maps from field elements to the curves are total and exact",
     "The simplified SWU map to the curve isogenous to the second curve, the Shallue-van de Woestijne encoding to the second curve and the cofactor clearing of the first group give a point for every field element or point, on the right curve, equal to the specified one, including the exceptional elements at which a denominator vanishes. The sign of the result's y-coordinate follows the stated rule. Arguments are not changed. The maps that are not exported (the SWU map to the curve isogenous to the first curve, the isogenies and the cofactor clearing of the second group) agree with their specification on every element that hashing a message gives them.",
     ["inputs"], "all elements of the quadratic extension incl. zero, roots making denominators vanish, and their negatives; all points of the first curve",
     "tests encode a few elements; exceptional elements have probability near zero under random sampling",
     ["g2.go", "hash.go", "g1.go"], [("SW encoding", "g2.go:842"), ("SWU map", "g2.go:939"), ("cofactor clearing", "hash.go:306")],
     "a case is a field element (random, patterned, or exceptional); non-trivial when neither 0 nor 1", thorough=15)
prop("C27", "Random generation is in range, deterministic in its source, and fails with it",
     "Generating random field elements, scalars, points and keys yields values in range (points in the prime-order subgroup, never the identity), determined by the bytes of the source alone however these are chunked. If the source fails, the error is returned and no value; it never loops for ever on a working source. Different source bytes, in any position that is used, give different values, so no entropy is dropped.",
     ["inputs", "fault_sequences"], "all byte sources: short reads, failure after any number of bytes, prefixes that make candidates out of range or off the curve",
     "tests draw from one seeded source that never fails",
     ["fq.go", "fr.go", "fq2.go", "g1.go", "g2.go"] + SCH, [("random Fq", "fq.go:341"), ("random Fr", "fr.go:377"), ("random G1", "g1.go:587"), ("random G2", "g2.go:810")],
     "a case is a kind of value, a source (prefix, stream), a chunking and a failure point; every case is non-trivial", quick=0.6, thorough=8)
prop("C28", "Ordering and choice of the y-coordinate are consistent",
     "Comparison of base-field elements, extension elements and fixed-width integers is the total order of the integers they stand for (extension elements by the imaginary coordinate first), and the parity or sign of an element tells exactly whether it is the larger of itself and its negative, by the stated order. The point with a given x-coordinate exists exactly if the curve equation is solvable, and is the one with the larger or smaller y as asked.",
     ["inputs"], "all pairs of elements, weighted to equal high words, negatives, and halves of the modulus; all x-coordinates",
     "tests compare fixed values; order between elements that agree in all but one word is not tried",
     ["fq.go", "fq2.go", "fqrepr.go", "g1.go", "g2.go"], [("parity", "fq.go:269"), ("extension compare", "fq2.go:31"), ("extension parity", "fq2.go:256"), ("point from x", "g1.go:111"), ("point from x", "g2.go:152")],
     "a case is one or two elements; non-trivial when they exceed 1", quick=4, thorough=40)
prop("C29", "Hash-to-field and multiplication by bits or bytes are exact",
     "Hashing bytes to the base field, its quadratic extension or the scalar field gives the specified element for every input, always canonical, depending on all its bytes. Multiplying an element by an integer given as bits is the product with that integer, most significant bit first, for every integer of the width.",
     ["inputs"], "all elements, integers and byte strings of length 0 to several blocks, incl. digests at and above the modulus",
     "the tests have no vectors for multiplication by bits; it processed bits in reverse unnoticed",
     ["fq.go", "fq2.go", "fr.go", "hash.go"], [("multiply by bits", "fq.go:276"), ("hash to Fq", "fq.go:300"), ("hash to Fq2", "fq2.go:281"), ("hash to Fr", "fr.go:336")],
     "a case is an element and an integer, or a byte string; non-trivial when they exceed 1 or are not empty", quick=5, thorough=40)
prop("C30", "Untrusted bytes are handled: decode, verify and aggregate never crash",
     "Feeding arbitrary bytes as public keys, signatures, messages, domains and secret keys through decoding, aggregation and verification never panics or hangs: each decoding step gives either an error or a value, and the final verdict on what was accepted is the one the mathematical definition gives. An encoding of a point outside the prime-order group or of no point is refused before it can influence a verdict.",
     ["inputs"], "all byte strings of the wire sizes in every untrusted position at once, from random to valid encodings with single damage, incl. infinity and small-order points",
     "tests feed malformed bytes to single decoders at most",
     SCH + ["g1.go", "g2.go", "pairing.go"], [("checked decoding", "g1pubs/bls.go:38"), ("checked decoding", "g1pubs/bls.go:91"), ("decompression", "g1.go:181"), ("decompression", "g2.go:222"), ("verification", "g1pubs/bls.go:165-300")],
     "a case is a whole exchange in which some inputs are hostile bytes; non-trivial when at least one is", quick=0.4, thorough=6)

ASSUME = ["the reference model in harness/model (affine textbook formulas over math/big, polynomial extension, Miller loop over the whole twelfth-degree field) is right; its own tests check it against the field and curve constants and published vectors",
          "math/big, crypto/sha256, golang.org/x/crypto and the Go toolchain are right",
          "exploration: what was generated is a sample; absence of violations elsewhere is not shown"]

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for id, p in T.items():
            d = dict(id=id, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            f.write(json.dumps(d) + "\n")
    checks = []
    for id, p in T.items():
        checks.append(dict(property=id, quick_cmd="./check " + id, thorough_cmd="./check %s --thorough" % id,
                           evidence_file="evidence/%s.json" % id,
                           technique="property-based testing (rapid): generated cases compared with an independent reference model" if id != "C25" else
                                     "property-based testing (rapid): generated concurrent scripts under the race detector, with a reference-model value oracle",
                           level="exploration",
                           level_note=(p["note"] + " " if p["note"] else "") + "Searches generated inputs for a counterexample on the assembly, portable 64-bit and 32-bit builds; trusts the reference model in harness/model and math/big. It samples: it does not prove absence."))
    m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=[],
             notes="No hooks: the harness uses exported names only. Known findings: KNOWN_FINDINGS. Exit 2 means no verdict (build or harness trouble).")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    c = dict(assumptions=ASSUME, properties={id: dict(rule=p["rule"], quick=p["quick"], thorough=p["thorough"], slow=p["slow"]) for id, p in T.items()})
    json.dump(c, open(os.path.join(V, "harness", "config.json"), "w"), indent=1)

if __name__ == "__main__":
    main()
