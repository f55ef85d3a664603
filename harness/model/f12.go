package model

import "fmt"

// F12 is a polynomial in w of degree below 12 over Fq, modulo w^12 - 2 w^6 + 2.
// The library's tower Fq2(u)(v)(w) has u = w^6 - 1 and v = w^2.
type F12 [12]*I

// Zero12 is zero.
func Zero12() F12 {
	var f F12
	for i := range f {
		f[i] = Int(0)
	}
	return f
}

// One12 is one.
func One12() F12 {
	f := Zero12()
	f[0] = Int(1)
	return f
}

// Tower puts together six Fq2 coefficients: c[i][j] is that of w^i v^j.
func Tower(c [2][3]F2) F12 {
	f := Zero12()
	for i := 0; i < 2; i++ {
		for j := 0; j < 3; j++ {
			f.addF2(c[i][j], 2*j+i)
		}
	}
	return f
}

// addF2 adds e w^k.
func (f *F12) addF2(e F2, k int) {
	f[k] = Fq.Add(f[k], Fq.Sub(e.A, e.B))
	f[k+6] = Fq.Add(f[k+6], e.B)
}

// Untower is the inverse of Tower.
func (f F12) Untower() [2][3]F2 {
	var c [2][3]F2
	for i := 0; i < 2; i++ {
		for j := 0; j < 3; j++ {
			k := 2*j + i
			c[i][j] = F2{Fq.Add(f[k], f[k+6]), f[k+6]}
		}
	}
	return c
}

func (f F12) String() string {
	s := ""
	for i, c := range f {
		s += fmt.Sprintf(" %d:%#x", i, c)
	}
	return "F12{" + s[1:] + "}"
}

func (f F12) Eq(g F12) bool {
	for i := range f {
		if f[i].Cmp(g[i]) != 0 {
			return false
		}
	}
	return true
}

func (f F12) IsZero() bool { return f.Eq(Zero12()) }

func (f F12) Add(g F12) (r F12) {
	for i := range f {
		r[i] = Fq.Add(f[i], g[i])
	}
	return
}

func (f F12) Sub(g F12) (r F12) {
	for i := range f {
		r[i] = Fq.Sub(f[i], g[i])
	}
	return
}

func (f F12) Neg() F12 { return Zero12().Sub(f) }

func (f F12) Mul(g F12) (r F12) {
	var t [23]I
	var p I
	for i := range f {
		if f[i].Sign() == 0 {
			continue
		}
		for j := range g {
			if g[j].Sign() != 0 {
				t[i+j].Add(&t[i+j], p.Mul(f[i], g[j]))
			}
		}
	}
	for i := 22; i >= 12; i-- {
		p.Lsh(&t[i], 1)
		t[i-6].Add(&t[i-6], &p)
		t[i-12].Sub(&t[i-12], &p)
	}
	for i := range r {
		r[i] = Fq.Of(&t[i])
	}
	return
}

// Pow raises to a nonnegative power.
func (f F12) Pow(n *I) F12 {
	r := One12()
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if n.Bit(i) == 1 {
			r = r.Mul(f)
		}
	}
	return r
}

// wq[i] is (w^q)^i.
var wq = func() (t [12]F12) {
	w := Zero12()
	w[1] = Int(1)
	p := w.Pow(Q)
	t[0] = One12()
	for i := 1; i < 12; i++ {
		t[i] = t[i-1].Mul(p)
	}
	return
}()

// Frob is the q-th power, n times.
func (f F12) Frob(n int) F12 {
	for ; n > 0; n-- {
		r := Zero12()
		for i, c := range f {
			for j := range r {
				r[j] = Fq.Of(new(I).Add(r[j], new(I).Mul(c, wq[i][j])))
			}
		}
		f = r
	}
	return f
}

// Inv solves f g = 1 as twelve linear equations. ok is false for zero.
func (f F12) Inv() (g F12, ok bool) {
	// column j of m: coefficients of f w^j
	var m [12][13]*I
	col := f
	w := Zero12()
	w[1] = Int(1)
	for j := 0; j < 12; j++ {
		for i := 0; i < 12; i++ {
			m[i][j] = col[i]
		}
		col = col.Mul(w)
	}
	for i := range m {
		m[i][12] = Int(0)
	}
	m[0][12] = Int(1)
	for c := 0; c < 12; c++ {
		p := c
		for p < 12 && m[p][c].Sign() == 0 {
			p++
		}
		if p == 12 {
			return F12{}, false
		}
		m[c], m[p] = m[p], m[c]
		iv := Fq.Inv(m[c][c])
		for j := c; j < 13; j++ {
			m[c][j] = Fq.Mul(m[c][j], iv)
		}
		for i := 0; i < 12; i++ {
			if i == c || m[i][c].Sign() == 0 {
				continue
			}
			k := m[i][c]
			for j := c; j < 13; j++ {
				m[i][j] = Fq.Sub(m[i][j], Fq.Mul(k, m[c][j]))
			}
		}
	}
	for i := range g {
		g[i] = m[i][12]
	}
	return g, true
}
