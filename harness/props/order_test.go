package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"blsverif/lib"
	"blsverif/model"
	"blsverif/vt"
)

// A call's result is its arguments' alone, so the same calls give the same
// results in any order. Two processes that have done nothing else make them,
// one in the order drawn and one in the opposite order. The calls are of few
// functions, on arguments that are neighbours of each other.

// nearNum is a neighbour of a number of so many words: below p, or any if p is
// nil. m is the modulus of its field.
func nearNum(near int, v, p, m *I, words int) *I {
	if near == 0 {
		return v
	}
	word := new(I).Lsh(one, uint(64*((near/8)%words)))
	lim := new(I).Lsh(one, uint(64*words))
	if p != nil {
		lim = p
	}
	mont := new(I).ModInverse(new(I).Lsh(one, uint(64*words)), m)
	r := new(I)
	switch near % 8 {
	case 0: // one word more
		r.Add(v, word)
	case 1: // the opposite
		r.Sub(m, v)
	case 2: // one word of the Montgomery form more
		r.Add(v, new(I).Mul(word, mont))
	case 3: // one word of the Montgomery form less
		r.Sub(v, new(I).Mul(word, mont))
	case 4:
		if r.ModInverse(v, m); near >= 24 || r.Sign() == 0 {
			r.Add(v, one)
		}
	case 5: // a small number, the same for all
		r.SetInt64(int64(near / 8))
	case 6:
		r.Lsh(v, 1)
	case 7: // two words exchanged
		b := v.FillBytes(make([]byte, 8*words))
		i := (near / 8) % (words - 1) * 8
		for j := i; j < i+8; j++ {
			b[j], b[j+8] = b[j+8], b[j]
		}
		r.SetBytes(b)
	}
	return r.Mod(r, lim)
}

// neighbour draws a neighbour of a number below p, to use right after it.
func neighbour(c *vt.Case, label string, v, p *I, words int) *I {
	v = nearNum(1+c.Pick(48), v, p, p, words)
	c.Log(label, hexn(v))
	return v
}

func neighbour2(c *vt.Case, label string, v model.F2) model.F2 {
	v = nearF2(1+c.Pick(48), v)
	c.Log(label, v)
	return v
}

func neighbour6(c *vt.Case, label string, v [3]model.F2) [3]model.F2 {
	i := c.Pick(3)
	v[i] = nearF2(1+c.Pick(48), v[i])
	c.Log(label, v)
	return v
}

func neighbour12(c *vt.Case, label string, v model.F12) model.F12 {
	v = nearF12(1+c.Pick(48), v)
	c.Log(label, v)
	return v
}

func neighbourPt[E, A, P any](c *vt.Case, label string, g *lib.Grp[E, A, P], p model.Pt[E]) model.Pt[E] {
	p = g.Near(1+c.Pick(6), p)
	c.Log(label, p)
	return p
}

func nearF2(near int, v model.F2) model.F2 {
	switch near % 4 {
	case 0:
		if near == 0 {
			return v
		}
		return model.E2(v.B, v.A)
	case 1:
		return model.E2(nearNum(1+near/4, v.A, Q, Q, 6), v.B)
	case 2:
		return model.E2(v.A, nearNum(1+near/4, v.B, Q, Q, 6))
	}
	return model.Fq2.Neg(v)
}

func nearF12(near int, v model.F12) model.F12 {
	switch {
	case near == 0:
		return v
	case near%4 == 0:
		return v.Neg()
	case near%4 == 1:
		if w, ok := v.Inv(); ok {
			return w
		}
	case near%4 == 2:
		return v.Frob(1 + near/4%11)
	}
	t := v.Untower()
	e := &t[near/4%2][near/8%3]
	*e = nearF2(1+near%16, *e)
	return model.Tower(t)
}

func sub[E any](p model.Pt[E], _ *I) model.Pt[E] { return p }

func nearPt[E, A, P any](near int, g *lib.Grp[E, A, P], p model.Pt[E]) model.Pt[E] {
	return g.Near(near, p)
}

// nearRep draws a representative; it has the same z for neighbours.
func nearRep[E, A, P any](c *vt.Case, near int, g *lib.Grp[E, A, P], p model.Pt[E]) P {
	r := g.DrawRep(c, "P", p)
	if near%7 == 6 {
		r = g.Rep(p, g.Small(int64(near)))
	}
	return r
}

// nearBytes are other bytes, at least as many, that share a cheap fingerprint.
func nearBytes(near int, b []byte) []byte {
	if near == 0 {
		return b
	}
	return vt.Detached(near, func(c *vt.Case) []byte { return c.Alike(b) })
}

// aCall is a call: which function, which draws, and which neighbour of each
// argument.
type aCall struct {
	F, Seed int
	Near    [5]int
}

func (i aCall) String() string {
	return fmt.Sprintf("%s of arguments %d %v", calls[i.F].name, i.Seed, i.Near)
}

func (i aCall) run() (v string) {
	defer func() {
		if e := recover(); e != nil {
			if s := fmt.Sprint(e); strings.HasPrefix(s, "harness:") {
				panic(e)
			} else {
				v = "panic: " + s
			}
		}
	}()
	f := calls[i.F]
	a := vt.Detached(i.Seed, func(c *vt.Case) (a []any) {
		n := 0
		for k := range fields(f.args) {
			a = append(a, argument(c, k, i.Near[n])())
			n++
		}
		return
	})
	return value(f.f(a))
}

// TestOrderChild is one of the two processes.
func TestOrderChild(t *testing.T) {
	path := os.Getenv("VT_CALLS")
	if path == "" {
		t.Skip()
	}
	b, err := os.ReadFile(path)
	var l []aCall
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	out := make([]string, len(l))
	for n := range l {
		if os.Getenv("VT_BACKWARDS") != "" {
			n = len(l) - 1 - n
		}
		out[n] = l[n].run()
	}
	b, err = json.Marshal(out)
	if err == nil {
		err = os.WriteFile(os.Getenv("VT_RESULTS"), b, 0o644)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// alikeCalls are the functions that take the same kinds of arguments.
var alikeCalls = func() map[string][]int {
	m := map[string][]int{}
	for i, f := range calls {
		m[f.args] = append(m[f.args], i)
	}
	return m
}()

// inProcess makes the calls in a process of their own.
func inProcess(dir string, l []aCall, backwards bool) (out []string, err error) {
	b, err := json.Marshal(l)
	if err != nil {
		return nil, err
	}
	tag := "forwards"
	if backwards {
		tag = "backwards"
	}
	in, res := filepath.Join(dir, tag+".calls"), filepath.Join(dir, tag+".results")
	if err = os.WriteFile(in, b, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestOrderChild$", "-test.timeout", "600s")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VT_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VT_CALLS="+in, "VT_RESULTS="+res)
	if backwards {
		cmd.Env = append(cmd.Env, "VT_BACKWARDS=1")
	}
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	if err = cmd.Run(); err != nil {
		s := log.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		return nil, fmt.Errorf("%w\n%s", err, s)
	}
	if b, err = os.ReadFile(res); err == nil {
		err = json.Unmarshal(b, &out)
	}
	return out, err
}

// orders draws families of calls, and makes them in both orders.
func orders(c *vt.Case, families, most int) {
	seen := map[aCall]bool{}
	var l []aCall
	for k := 1 + c.Pick(families); k > 0; k-- {
		first := c.Pick(len(calls))
		fs := []int{first, first}
		// one more that takes the same kinds of arguments
		if same := alikeCalls[calls[first].args]; c.Pick(2) == 0 {
			fs[1] = same[c.Pick(len(same))]
		}
		seeds := [2]int{1 + c.Pick(4000), 1 + c.Pick(4000)}
		var near [5][4]int
		for i := range near {
			near[i] = [4]int{0, 0, 1 + c.Pick(48), 1 + c.Pick(48)}
		}
		n := 2 + c.Pick(most-1)
		if calls[fs[0]].rare || calls[fs[1]].rare {
			n = min(n, 4)
		}
		for ; n > 0; n-- {
			i := aCall{F: fs[c.Pick(2)], Seed: seeds[c.Pick(8)/6]}
			m := 0
			for range fields(calls[i.F].args) {
				i.Near[m] = near[m][c.Pick(4)]
				m++
			}
			if !seen[i] {
				l = append(l, i)
			}
			seen[i] = true
		}
	}
	c.Log("calls", l)
	c.Count(len(l) > 1, fmt.Sprint(l))
	dir, err := os.MkdirTemp("", "order")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	type result struct {
		out []string
		err error
	}
	ch := make(chan result, 1)
	var f, b result
	vt.Elsewhere(func() {
		go func() {
			out, err := inProcess(dir, l, true)
			ch <- result{out, err}
		}()
		f.out, f.err = inProcess(dir, l, false)
		b = <-ch
	})
	for _, e := range []error{f.err, b.err} {
		if e != nil {
			// other parts decide about calls that kill the process
			panic("harness: the process with the calls: " + e.Error())
		}
	}
	for i := range l {
		if f.out[i] != b.out[i] {
			c.Failf("%s: call %d of %d gives %.900s; after the calls from %d on, it gives %.900s", l[i], i, len(l), f.out[i], i+1, b.out[i])
		}
	}
}
