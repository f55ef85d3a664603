// Package vt runs the checks: it drives rapid with a fixed seed, counts what
// was generated, and records failures for the driver.
//
// A check is a test function TestCxx that declares parts. A part is either
// generated (Check, driven and shrunk by rapid) or an enumeration (Each). The
// driver starts several processes ("shards"); each runs its share of every
// part, and writes one JSON record.
package vt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func envInt(k string, d int) int {
	if s := os.Getenv(k); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			panic(k + ": " + err.Error())
		}
		return n
	}
	return d
}

var (
	shard  = envInt("VT_SHARD", 0)
	shards = envInt("VT_SHARDS", 1)
	// scale multiplies the number of generated cases, in percent.
	scale = envInt("VT_SCALE", 100)
	seed  = envInt("VT_SEED", 1)
	out   = os.Getenv("VT_OUT")
	only  = os.Getenv("VT_ONLY")
	// variant names the build: the same shard of another build draws other cases.
	variant = os.Getenv("VT_VARIANT")
	// trace has every case written to a file before it is used, so that one that
	// kills the process is known.
	trace1 = os.Getenv("VT_TRACE")
	// caseCPU is how many CPU seconds one case may take before it counts as
	// not terminating. The slowest take about 3.
	caseCPU = envInt("VT_CASE_CPU", 150)
	// shrink is how many seconds the first failure may be shrunk for.
	shrink = envInt("VT_SHRINK", 20)
)

// Thorough tells whether this is a thorough run.
func Thorough() bool { return os.Getenv("VT_TIER") == "thorough" }

type failure struct {
	Part    string   `json:"part"`
	Kind    string   `json:"kind"`
	Index   int      `json:"index"`
	Message string   `json:"message"`
	Case    []string `json:"case"`
	Fail    string   `json:"failfile,omitempty"`
}

type partStat struct {
	Evals      int            `json:"evaluations"`
	Nontrivial int            `json:"nontrivial"`
	Samples    []string       `json:"samples"`
	Labels     map[string]int `json:"labels,omitempty"`
	hashes     map[uint64]bool
}

// P is a running property check.
type P struct {
	t     *testing.T
	id    string
	parts map[string]*partStat
	order []string
	fails []*failure
	last  *failure
	mu    sync.Mutex
	// failed is when the first part failed
	failed time.Time
}

// Prop starts the check of a property.
func Prop(t *testing.T, id string) *P {
	p := &P{t: t, id: id, parts: map[string]*partStat{}}
	debug.SetPanicOnFault(true)
	go p.watch()
	t.Cleanup(p.write)
	return p
}

var (
	caseStart atomic.Int64 // CPU microseconds at which the current case began
	current   atomic.Pointer[Case]
)

func cpuMicros() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return int64(ru.Utime.Sec+ru.Stime.Sec)*1e6 + int64(ru.Utime.Usec+ru.Stime.Usec)
}

// Elsewhere runs f, which waits for other processes: that is not standing still.
func Elsewhere(f func()) {
	c := current.Swap(nil)
	defer func() {
		caseStart.Store(cpuMicros())
		current.Store(c)
	}()
	f()
}

// watch reports a case that uses an absurd amount of CPU time, or stands still.
func (p *P) watch() {
	var last *Case
	var lastCPU int64
	still := 0
	for {
		time.Sleep(time.Second)
		c := current.Load()
		if c == nil {
			continue
		}
		now := cpuMicros()
		msg := ""
		if now-caseStart.Load() > int64(caseCPU)*1e6 && current.Load() == c {
			msg = fmt.Sprintf("still running after %d CPU seconds", caseCPU)
		}
		// A case that never computes again waits for something: this process
		// ran often enough to see it.
		if c != last || now-lastCPU > 200e3 {
			still, last, lastCPU = 0, c, now
		} else if still++; still > 120 {
			msg = "stands still"
		}
		if msg != "" {
			p.fails = append(p.fails, &failure{Part: c.part, Kind: c.kind, Index: c.index, Message: msg, Case: c.snapshot()})
			p.write()
			os.Exit(1)
		}
	}
}

// RaceLog is what the race detector has written, if it writes to a file.
func RaceLog() (text string, size int) {
	i := strings.Index(os.Getenv("GORACE"), "log_path=")
	if i < 0 {
		return "", 0
	}
	l, _ := filepath.Glob(strings.Fields(os.Getenv("GORACE")[i+9:])[0] + "*")
	for _, f := range l {
		b, _ := os.ReadFile(f)
		size += len(b)
		text = string(b)
	}
	return text, size
}

func (p *P) write() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if out == "" {
		for _, n := range p.order {
			s := p.parts[n]
			p.t.Logf("%-28s %7d cases, %7d distinct non-trivial %v", n, s.Evals, len(s.hashes), s.Labels)
			if testing.Verbose() && len(s.Samples) > 0 {
				p.t.Log("    ", s.Samples[0])
			}
		}
		for _, f := range p.fails {
			p.t.Logf("FAIL %s[%d]: %s\n%s", f.Part, f.Index, f.Message, strings.Join(f.Case, "\n"))
		}
		return
	}
	var h []byte
	for n, s := range p.parts {
		s.Nontrivial = len(s.hashes)
		x := fnv.New64a()
		x.Write([]byte(n))
		for v := range s.hashes {
			h = binary.LittleEndian.AppendUint64(h, v^x.Sum64())
		}
	}
	rec := map[string]any{"property": p.id, "parts": p.parts, "order": p.order, "failures": p.fails,
		"arch": runtime.GOARCH, "variant": variant, "shard": shard}
	b, err := json.Marshal(rec)
	if err == nil {
		err = os.WriteFile(out+".hashes", h, 0o644)
	}
	if err == nil {
		err = os.WriteFile(out+".json", b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "VT-INFRA:", err)
		os.Exit(3)
	}
}

// Case is one generated or enumerated case.
type Case struct {
	R     *rapid.T // nil in an enumeration
	p     *P
	part  string
	kind  string
	index int
	mu    sync.Mutex
	log   []string
}

func (c *Case) snapshot() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string{}, c.log...)
}

const maxLine = 3000

// Log notes something about the case, for the failure report.
func (c *Case) Log(label string, v any) {
	s := fmt.Sprintf("%s = %v", label, v)
	if len(s) > maxLine {
		s = s[:maxLine] + "..."
	}
	c.mu.Lock()
	if len(c.log) < 2000 {
		c.log = append(c.log, s)
	}
	c.mu.Unlock()
}

type failed string

// Failf fails the case.
func (c *Case) Failf(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	c.record(msg)
	if c.R != nil {
		c.R.Fatalf("%s", msg)
	}
	panic(failed(msg))
}

func (c *Case) record(msg string) {
	c.p.last = &failure{Part: c.part, Kind: c.kind, Index: c.index, Message: msg, Case: c.snapshot()}
}

// Count counts the case: once the input is generated, and before it is used.
// The keys identify the input; nontrivial is the part's rule.
func (c *Case) Count(nontrivial bool, keys ...any) {
	if trace1 != "" {
		os.WriteFile(trace1, []byte(c.part+"\n"+strings.Join(c.snapshot(), "\n")), 0o644)
	}
	s := c.p.parts[c.part]
	s.Evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	for _, k := range keys {
		switch k := k.(type) {
		case []byte:
			h.Write(k)
		case string:
			h.Write([]byte(k))
		default:
			fmt.Fprint(h, k)
		}
		h.Write([]byte{0xff, 0})
	}
	if n := h.Sum64(); !s.hashes[n] {
		s.hashes[n] = true
		if k := len(s.hashes); k == 3 || k == 20 || k == 100 {
			j := c.part + ": " + strings.Join(c.snapshot(), "; ")
			if len(j) > 700 {
				j = j[:700] + "..."
			}
			s.Samples = append(s.Samples, j)
		}
	}
}

// Label counts the case under a label, to see how cases are distributed.
func (c *Case) Label(l string) {
	s := c.p.parts[c.part]
	if s.Labels == nil {
		s.Labels = map[string]int{}
	}
	s.Labels[l]++
}

func (p *P) part(name string) *partStat {
	s := p.parts[name]
	if s == nil {
		s = &partStat{hashes: map[uint64]bool{}}
		p.parts[name] = s
		p.order = append(p.order, name)
	}
	return s
}

// run executes one case, and turns a panic of the code under test into a
// recorded failure.
func (p *P) run(c *Case, f func(c *Case)) {
	caseStart.Store(cpuMicros())
	current.Store(c)
	defer func() {
		current.Store(nil)
		e := recover()
		if e == nil {
			return
		}
		if tn := fmt.Sprintf("%T", e); strings.HasPrefix(tn, "rapid.") || tn == "vt.failed" {
			panic(e)
		}
		c.record(fmt.Sprintf("panic: %v\n%s", e, trace()))
		panic(e)
	}()
	f(c)
}

// trace is the stack below the panic, without the harness's own frames on top.
func trace() string {
	s := string(debug.Stack())
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if i := strings.Index(s, "pgregory.net/rapid"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// Check runs a generated part. n is the number of cases in a whole quick run.
func (p *P) Check(name string, n int, f func(c *Case)) {
	if only != "" && only != name {
		return
	}
	s := p.part(name)
	_ = s
	k := (n*scale/100 + shards - 1) / shards
	if k < 1 {
		k = 1
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d/%d/%s/%s", seed, p.id, name, shard, shards, runtime.GOARCH, variant)
	rs := h.Sum64()
	if rs == 0 {
		rs = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(k))
	flag.Set("rapid.seed", strconv.FormatUint(rs, 10))
	// The first failing part may use most of the time there is for shrinking.
	if len(p.fails) > 0 && time.Since(p.failed) > 45*time.Second {
		return
	}
	flag.Set("rapid.shrinktime", fmt.Sprintf("%ds", max(2, shrink/(1+4*len(p.fails)))))
	p.last = nil
	ok := p.t.Run(name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			c := &Case{R: rt, p: p, part: name, kind: "generated", index: -1}
			p.run(c, f)
		})
	})
	if !ok {
		if p.last == nil {
			if text, n := RaceLog(); n > 0 {
				p.fails = append(p.fails, &failure{Part: name, Kind: "race", Index: -1, Message: "data race\n" + text})
				return
			}
			// not a verdict about the code: the generator gave up
			fmt.Fprintln(os.Stderr, "VT-INFRA: part", name, "failed without a failing case")
			os.Exit(3)
		}
		if m, _ := filepath.Glob("testdata/rapid/*/*.fail"); len(m) > 0 {
			for _, fn := range m {
				if strings.HasSuffix(sanitize(filepath.Dir(fn)), "_"+sanitize(name)) {
					b, _ := os.ReadFile(fn)
					p.last.Fail = string(b)
				}
			}
		}
		p.fail()
	}
}

// fail takes the last failure into the record.
func (p *P) fail() {
	if len(p.fails) == 0 {
		p.failed = time.Now()
	}
	p.fails = append(p.fails, p.last)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

// Each runs an enumerated part with cases 0..n-1.
func (p *P) Each(name string, n int, f func(c *Case, i int)) {
	if only != "" && only != name {
		return
	}
	p.part(name)
	one := envInt("VT_INDEX", -1)
	for i := 0; i < n; i++ {
		if one >= 0 && i != one || one < 0 && i%shards != shard {
			continue
		}
		c := &Case{p: p, part: name, kind: "enumerated", index: i}
		p.last = nil
		bad := func() (bad bool) {
			defer func() {
				if e := recover(); e != nil {
					bad = true
				}
			}()
			p.run(c, func(c *Case) { f(c, i) })
			return false
		}()
		if bad {
			p.fail()
			p.t.Errorf("%s[%d]: %s", name, i, p.last.Message)
			if len(p.fails) > 5 {
				return
			}
		}
	}
}

// Lines is what was logged so far.
func (c *Case) Lines() []string { return c.snapshot() }

// Seed is the seed of the run.
func Seed() int { return seed }

// Fast is whether the code under test runs at its normal speed.
func Fast() bool { return variant == "" || variant == "amd64" }

// Shard is the number of this process.
func Shard() int { return shard }
