package vt

import (
	"bytes"
	"hash/crc32"
	"hash/crc64"
	"testing"

	"pgregory.net/rapid"
)

func TestAlike(t *testing.T) {
	seen := map[string]int{}
	rapid.Check(t, func(t *rapid.T) {
		c := &Case{R: t}
		m := c.uniform(c.int(2, 40))
		n := bytes.Clone(m)
		how := c.alike(n)
		if (how == "") != bytes.Equal(m, n) {
			t.Fatalf("%q %x %x", how, m, n)
		}
		seen[how]++
		switch how {
		case "CRC-32 kept":
			if crc32.ChecksumIEEE(m) != crc32.ChecksumIEEE(n) {
				t.Fatal(how)
			}
		case "CRC-32C kept":
			x := crc32.MakeTable(crc32.Castagnoli)
			if crc32.Checksum(m, x) != crc32.Checksum(n, x) {
				t.Fatal(how)
			}
		case "CRC-64 kept":
			x := crc64.MakeTable(crc64.ECMA)
			if crc64.Checksum(m, x) != crc64.Checksum(n, x) {
				t.Fatal(how)
			}
		}
	})
	t.Log(seen)
}
