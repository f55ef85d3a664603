package vt

// Alike draws a change of bytes that cheap fingerprints do not see: sums and
// exclusive ors of bytes or words, cyclic redundancy checks, both ends. It
// returns what it did, or "" if the bytes do not allow the change.
func (c *Case) alike(n []byte) string {
	l := len(n)
	if l < 2 {
		return ""
	}
	switch k := c.int(0, 7); k {
	case 0: // the same bytes in another order
		i := c.int(0, l-1)
		for d := 1; d < l; d++ {
			j := (i + d) % l
			if n[i] != n[j] {
				n[i], n[j] = n[j], n[i]
				return "two bytes exchanged"
			}
		}
	case 1: // the same sum
		i := c.int(0, l-2)
		if n[i] < 255 && n[i+1] > 0 {
			n[i]++
			n[i+1]--
			return "one up, one down"
		}
		if n[i] > 0 && n[i+1] < 255 {
			n[i]--
			n[i+1]++
			return "one down, one up"
		}
	case 2: // the same words, by exclusive or
		for _, w := range []int{8, 4, 1} {
			if l >= 2*w {
				i := c.int(0, l-w-1)
				b := byte(1) << c.int(0, 7)
				n[i] ^= b
				n[i+w] ^= b
				return "one bit flipped in two words"
			}
		}
	case 3: // the same words in another order
		if l >= 16 {
			i := 8 * c.int(0, l/8-2)
			a, b := n[i:i+8], n[i+8:i+16]
			if string(a) != string(b) {
				for j := range a {
					a[j], b[j] = b[j], a[j]
				}
				return "two words exchanged"
			}
		}
	case 4: // both ends are the same
		n[l/2] ^= 1 << c.int(0, 7)
		return "the middle changed"
	default: // the same checksum: a multiple of its polynomial
		p := crcPolys[k-5]
		if 8*l > p.deg {
			i := c.int(0, 8*l-p.deg-1)
			for j, at := 0, i; j <= p.deg; j, at = j+1, at+1 {
				if j == 0 || p.low>>(p.deg-j)&1 == 1 {
					n[at/8] ^= 1 << (at % 8)
				}
			}
			return p.name + " kept"
		}
	}
	return ""
}

// crcPolys are the polynomials of reflected checksums, without the leading term.
var crcPolys = []struct {
	name string
	deg  int
	low  uint64
}{{"CRC-32", 32, 0x04c11db7}, {"CRC-32C", 32, 0x1edc6f41}, {"CRC-64", 64, 0x42f0e1eba9ea3693}}
