// Package main is the runtime-monitoring harness for npillmayer/uax.
//
// One binary holds a monitor per property. The supervisor starts worker
// subprocesses; a worker drives the real code with a deterministic list of cases
// (case i is a pure function of property, seed and i) and lets an oracle observe
// every execution. Panics, fatal runtime errors, data races (race build), hangs
// and runaway memory are observed by the supervisor, which knows from a journal
// which case was running.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Q is a string which survives JSON for arbitrary bytes and is readable.
type Q string

func (q Q) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(q))) }
func (q *Q) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*q = Q(u)
	return err
}

// Obs collects what the monitors observed in one worker.
type Obs struct {
	Events   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	case_    int
}

func newObs() *Obs {
	return &Obs{Events: map[string]int64{}, distinct: map[uint64]struct{}{}}
}
func (o *Obs) Add(name string, n int) { o.Events[name] += int64(n) }

// Nontrivial records a case whose execution was a real test of the property,
// identified by a fingerprint of what was observed.
func (o *Obs) Nontrivial(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	if len(o.distinct) < 4000000 {
		o.distinct[h.Sum64()] = struct{}{}
	}
}
func (o *Obs) Sample(format string, a ...interface{}) {
	if len(o.samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		o.samples = append(o.samples, s)
	}
}

// Viol is a violation reported by an oracle. Sig is a short stable signature
// of what went wrong (used to match known findings), Msg has the details.
type Viol struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
}

func violf(sig, format string, a ...interface{}) *Viol {
	return &Viol{Sig: sig, Msg: fmt.Sprintf(format, a...)}
}

// Prop is a property monitor.
type Prop struct {
	ID    string
	Rule  string // what counts as a nontrivial evaluation
	Race  bool   // must run in the race-detector build
	Procs int    // worker processes (0: number of CPUs)
	// N gives the number of cases for a tier.
	N func(tier string) int
	// Gen makes case i. Deterministic in (seed,i,tier).
	Gen func(i int, r *rand.Rand, tier string) interface{}
	// Decode is the inverse of json.Marshal on a case.
	Decode func(b []byte) (interface{}, error)
	// Run executes a case and lets the oracle observe.
	Run func(c interface{}, o *Obs) *Viol
	// Shrink proposes smaller cases (optional).
	Shrink func(c interface{}) []interface{}
	// HangSecs overrides the watchdog limit for a single case.
	HangSecs int
	// Fresh: start a new process for every n cases (0: never).
	Fresh       func(tier string) int
	Assumptions []string
	// Final is evaluated on the merged observations (e.g. to detect that nothing was seen).
	Final func(ev map[string]int64) string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func decodeAs[T any]() func([]byte) (interface{}, error) {
	return func(b []byte) (interface{}, error) {
		var c T
		err := json.Unmarshal(b, &c)
		return c, err
	}
}

func caseRand(id string, seed int64, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// runCase runs a case and turns a panic into a violation.
func runCase(p *Prop, c interface{}, o *Obs) (v *Viol) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			v = violf("panic", "panic: %s\n%s", msg, trimStack(string(debug.Stack())))
		}
	}()
	return p.Run(c, o)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "npillmayer/uax") || strings.Contains(l, "/repo/") || strings.Contains(l, "panic(") {
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// protect calls f, returning the panic value (nil if none).
func protect(f func()) (pv interface{}) {
	defer func() {
		if r := recover(); r != nil {
			pv = r
			if pv == nil {
				pv = "nil panic"
			}
		}
	}()
	f()
	return nil
}

// --- worker ------------------------------------------------------------------

type workerResult struct {
	Evaluations int64            `json:"evaluations"`
	Events      map[string]int64 `json:"events"`
	Samples     []string         `json:"samples"`
	Violation   *violRecord      `json:"violation,omitempty"`
}

type violRecord struct {
	Index int             `json:"index"`
	Case  json.RawMessage `json:"case"`
	Sig   string          `json:"sig"`
	Msg   string          `json:"msg"`
}

var progress int64 // current case + 1, bumped by sub-steps as well
var currentCase int64 = -1

func tick() { atomic.AddInt64(&progress, 1) }

func rssMB() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize()) >> 20
}

const (
	exitHang = 97
	exitMem  = 98
)

func watchdog(p *Prop) {
	limit := p.HangSecs
	if limit == 0 {
		limit = 60
	}
	last := int64(-1)
	stuck := 0
	for range time.Tick(250 * time.Millisecond) {
		cur := atomic.LoadInt64(&progress)
		if cur != last {
			last, stuck = cur, 0
		} else if stuck++; stuck > limit*4 {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "MONITOR-HANG no progress for %d s in case %d\n%s\n", limit, atomic.LoadInt64(&currentCase), trimStack(string(buf[:n])))
			os.Exit(exitHang)
		}
		if m := rssMB(); m > 3000 {
			fmt.Fprintf(os.Stderr, "MONITOR-MEM resident memory %d MB in case %d\n", m, atomic.LoadInt64(&currentCase))
			os.Exit(exitMem)
		}
	}
}

func workerMain(p *Prop, tier string, seed int64, from, n, stride int, out, journal string) {
	jf, err := os.Create(journal)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go watchdog(p)
	o := newObs()
	res := workerResult{}
	for i := from; i < n; i += stride {
		atomic.StoreInt64(&currentCase, int64(i))
		tick()
		jf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		c := p.Gen(i, caseRand(p.ID, seed, i), tier)
		if c == nil {
			continue
		}
		res.Evaluations++
		o.case_ = i
		v := runCase(p, c, o)
		if v != nil {
			c, v = shrink(p, c, v)
			cj, _ := json.Marshal(c)
			res.Violation = &violRecord{Index: i, Case: cj, Sig: v.Sig, Msg: v.Msg}
			break
		}
	}
	res.Events = o.Events
	res.Samples = o.samples
	// distinct fingerprints, raw
	fp := make([]byte, 0, 8*len(o.distinct))
	for h := range o.distinct {
		for k := 0; k < 8; k++ {
			fp = append(fp, byte(h>>(8*k)))
		}
	}
	os.WriteFile(out+".fp", fp, 0o644)
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

func shrink(p *Prop, c interface{}, v *Viol) (interface{}, *Viol) {
	if p.Shrink == nil || p.Race {
		return c, v
	}
	deadline := time.Now().Add(10 * time.Second)
	for round := 0; round < 200; round++ {
		improved := false
		for _, d := range p.Shrink(c) {
			if time.Now().After(deadline) {
				return c, v
			}
			tick()
			if w := runCase(p, d, newObs()); w != nil && w.Sig == v.Sig {
				c, v, improved = d, w, true
				break
			}
		}
		if !improved {
			break
		}
	}
	return c, v
}

// shrinkRunes proposes versions of s with chunks removed.
func shrinkRunes(s []rune) [][]rune {
	var out [][]rune
	for size := len(s) / 2; size >= 1; size /= 2 {
		for at := 0; at+size <= len(s); at += size {
			t := append(append([]rune{}, s[:at]...), s[at+size:]...)
			out = append(out, t)
		}
		if len(out) > 400 {
			break
		}
	}
	return out
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
