// Package props holds the checks, one test function per property.
package props

import (
	"bytes"
	"fmt"
	"math/big"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"

	"github.com/phoreproject/bls"
)

type I = big.Int

var (
	one  = big.NewInt(1)
	Q, R = model.Q, model.R
)

func num(n int64) *I { return big.NewInt(n) }

func hexn(n *I) string { return fmt.Sprintf("%#x", n) }

// want fails the case unless the condition holds.
func want(c *vt.Case, ok bool, format string, a ...any) {
	if !ok {
		c.Failf(format, a...)
	}
}

func wantBytes(c *vt.Case, what string, got, wanted []byte) {
	if !bytes.Equal(got, wanted) {
		c.Failf("%s: got %x, want %x", what, got, wanted)
	}
}

func wantNum(c *vt.Case, what string, got, wanted *I) {
	if got.Cmp(wanted) != 0 {
		c.Failf("%s: got %#x, want %#x", what, got, wanted)
	}
}

// panics tells whether f panics.
func panics(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

// sign of a comparison
func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// six puts a sextic element in the dodecic field.
func six(e [3]model.F2) model.F12 {
	z := model.Fq2.Zero()
	return model.Tower([2][3]model.F2{e, {z, z, z}})
}

// unsix reads it back; the upper half has to be zero.
func unsix(f model.F12) [3]model.F2 {
	c := f.Untower()
	for _, e := range c[1] {
		if !model.Fq2.IsZero(e) {
			panic("harness: not in Fq6")
		}
	}
	return c[0]
}

func str6(e [3]model.F2) string { return fmt.Sprint(e) }
func str12(e model.F12) string  { return e.String() }
func eq6(a, b [3]model.F2) bool { return six(a).Eq(six(b)) }
func zero6() (e [3]model.F2) {
	return [3]model.F2{model.Fq2.Zero(), model.Fq2.Zero(), model.Fq2.Zero()}
}
func isTriv12(e model.F12) bool  { return e.IsZero() || e.Eq(model.One12()) }
func isTriv6(e [3]model.F2) bool { return isTriv12(six(e)) }
func isTriv2(e model.F2) bool    { return e.B.Sign() == 0 && e.A.Cmp(one) <= 0 }
func isTriv(n *I) bool           { return n.Cmp(one) <= 0 }
func q2(e model.F2) bls.FQ2      { return lib.FQ2(e) }
func ptr[T any](v T) *T          { return &v }
func mod(n *I, m *I) *I          { return new(I).Mod(n, m) }
func cmpLegendre(l bls.LegendreSymbol, j int) bool {
	switch j {
	case 0:
		return l == bls.LegendreZero
	case 1:
		return l == bls.LegendreQuadraticResidue
	}
	return l == bls.LegendreQuadraticNonResidue
}
