package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
)

const infinite = 10000

// --- breakers under observation ---------------------------------------------------

// brkSpec describes a breaker: one of the real ones, or a scripted one, which
// delivers arbitrary penalties at arbitrary (announced) times.
type brkSpec struct {
	Kind string `json:"kind"` // simple | word | grapheme | script
	W    int    `json:"w,omitempty"`
	// script: deliveries {k, d, p}: penalty p for the position after rune k, delivered
	// when rune k+d has been read (d may reach the end-of-text event).
	Script [][3]int `json:"script,omitempty"`
	// Over lists superfluous announcements {t, n}: at event t the announced match is n longer.
	Over [][2]int `json:"over,omitempty"`
}

type evt struct {
	r     rune
	class int
	lam   int
	pen   []int
}

// recBreaker records everything a breaker is told and answers.
type recBreaker struct {
	inner    uax.UnicodeBreaker
	log      []evt
	protocol string
	state    int
	lastR    rune
	lastC    int
}

func (b *recBreaker) fail(f string, a ...interface{}) {
	if b.protocol == "" {
		b.protocol = fmt.Sprintf(f, a...)
	}
}
func (b *recBreaker) CodePointClassFor(r rune) int {
	c := b.inner.CodePointClassFor(r)
	b.lastR, b.lastC = r, c
	return c
}
func (b *recBreaker) StartRulesFor(r rune, c int) {
	if b.state != 0 {
		b.fail("StartRulesFor(%U) called twice before ProceedWithRune", r)
	}
	if want := b.inner.CodePointClassFor(r); want != c {
		b.fail("StartRulesFor(%U) got class %d, class is %d", r, c, want)
	}
	b.state, b.lastR, b.lastC = 1, r, c
	b.inner.StartRulesFor(r, c)
}
func (b *recBreaker) ProceedWithRune(r rune, c int) {
	if b.state != 1 || r != b.lastR || c != b.lastC {
		b.fail("ProceedWithRune(%U,%d) does not follow StartRulesFor of the same rune (%U,%d)", r, c, b.lastR, b.lastC)
	}
	b.state = 0
	b.inner.ProceedWithRune(r, c)
	b.log = append(b.log, evt{r, c, b.inner.LongestActiveMatch(), append([]int{}, b.inner.Penalties()...)})
}
func (b *recBreaker) LongestActiveMatch() int { return b.inner.LongestActiveMatch() }
func (b *recBreaker) Penalties() []int        { return b.inner.Penalties() }

// scriptBreaker plays a script.
type scriptBreaker struct {
	spec brkSpec
	n    int              // number of runes of the text
	due  map[int][][2]int // deliveries by event
	far  []int            // by event: announced match
	t    int              // next event
	lam  int
	pen  []int
}

func (b *scriptBreaker) CodePointClassFor(r rune) int { return int(r) % 7 }
func (b *scriptBreaker) StartRulesFor(rune, int)      {}
func (b *scriptBreaker) ProceedWithRune(r rune, c int) {
	if r == 0 { // end of text, possibly premature
		b.t = b.n
	}
	t := b.t
	b.t++
	if b.due == nil {
		b.prepare()
	}
	b.pen = b.pen[:0]
	b.lam = b.far[t]
	for _, d := range b.due[t] {
		for len(b.pen) <= t-d[0] {
			b.pen = append(b.pen, 0)
		}
		b.pen[t-d[0]] += d[1]
	}
	for _, x := range b.spec.Over {
		if x[0] == t {
			b.lam += x[1]
		}
	}
	if b.lam > t+1 {
		b.lam = t + 1
	}
	if r == 0 {
		b.lam = 0
		b.t = 0 // ready for the next text
	}
}
func (b *scriptBreaker) prepare() {
	b.due = map[int][][2]int{}
	b.far = make([]int, b.n+1)
	for _, d := range b.spec.Script {
		k, at := d[0], d[0]+d[1]
		if at > b.n {
			at = b.n
		}
		b.due[at] = append(b.due[at], [2]int{k, d[2]})
		for t := k; t < at; t++ {
			if t-k+1 > b.far[t] {
				b.far[t] = t - k + 1
			}
		}
	}
}

func (b *scriptBreaker) LongestActiveMatch() int { return b.lam }
func (b *scriptBreaker) Penalties() []int        { return b.pen }

// newLine makes a line breaker; genLine makes a text for one (nil if built without package uax14).
var newLine func() uax.UnicodeBreaker
var genLine func(r *rand.Rand, n int) []rune

func makeBreaker(s brkSpec, n int) uax.UnicodeBreaker {
	switch s.Kind {
	case "line":
		return newLine()
	case "word":
		return uax29.NewWordBreaker(s.W)
	case "grapheme":
		return grapheme.NewBreaker(s.W)
	case "script":
		return &scriptBreaker{spec: s, n: n}
	}
	return segment.NewSimpleWordBreaker()
}

// --- reference model: from deliveries to segments ------------------------------------

type seg struct {
	text   string
	p0, p1 int
}

func (s seg) String() string { return fmt.Sprintf("%+q(%d|%d)", s.text, s.p0, s.p1) }

func showSegList(s []seg) string {
	var sb strings.Builder
	for i, x := range s {
		if i == 60 {
			sb.WriteString(" …")
			break
		}
		sb.WriteString(" " + x.String())
	}
	return sb.String()
}

func sameSegs(a, b []seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// totals computes the penalties a client of the breakers has been promised.
func totals(n int, logs [][]evt) (p0, p1 []int) {
	p0, p1 = make([]int, n), make([]int, n)
	for bi, l := range logs {
		dst := p0
		if bi > 0 {
			dst = p1
		}
		for t, e := range l {
			for i, p := range e.pen {
				if k := t - i; k >= 0 && k < n {
					dst[k] += p
				}
			}
		}
	}
	return
}

func possible(p int, onZero bool) bool { return p < infinite && (p != 0 || onZero) }

// modelSegments cuts the text at every position which the aggregated penalties allow.
func modelSegments(text []rune, logs [][]evt, z0, z1 bool) (out []seg, rest int) {
	p0, p1 := totals(len(text), logs)
	start := 0
	for k := range text {
		if possible(p0[k], z0) || len(logs) > 1 && possible(p1[k], z1) {
			out = append(out, seg{string(text[start : k+1]), p0[k], p1[k]})
			start = k + 1
		}
	}
	return out, len(text) - start
}

// streamSegments is the model for breakers which answer in several steps: a position is
// decided as soon as no announced match covers it, with the penalties known by then.
func streamSegments(text []rune, logs [][]evt, z0, z1 bool) (out []seg, rest int) {
	n := len(text)
	p0, p1 := make([]int, n), make([]int, n)
	start, scanned := 0, 0
	for t := 0; t <= n; t++ {
		lam := 0
		for bi, l := range logs {
			if t >= len(l) {
				continue
			}
			dst := p0
			if bi > 0 {
				dst = p1
			}
			for i, p := range l[t].pen {
				if k := t - i; k >= start && k < n {
					dst[k] += p
					if p != 0 && k < scanned {
						scanned = k
					}
				}
			}
			if l[t].lam > lam {
				lam = l[t].lam
			}
		}
		for k := max(start, scanned); k < n && k <= t-lam; k++ {
			if possible(p0[k], z0) || len(logs) > 1 && possible(p1[k], z1) {
				out = append(out, seg{string(text[start : k+1]), p0[k], p1[k]})
				start = k + 1
			}
			scanned = k + 1
		}
	}
	return out, n - start
}

func onlyScripts(bs []brkSpec) bool {
	for _, b := range bs {
		if b.Kind != "script" {
			return false
		}
	}
	return true
}

// --- input sources ----------------------------------------------------------------

type oneByteReader struct{ r io.Reader }

func (o oneByteReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// runeSource is a rune reader with its own (fault injecting) behaviour.
type runeSource struct {
	s      string
	pos    int
	n      int
	failAt int   // number of runes after which err is returned; -1: never
	err    error // default: io.EOF at end of s
	reads  int   // calls after the end
	once   bool  // fail once only, then carry on with the text
}

var errInjected = errors.New("injected read error")

func (rs *runeSource) ReadRune() (rune, int, error) {
	if rs.failAt >= 0 && rs.n >= rs.failAt && (!rs.once || rs.reads == 0) {
		rs.reads++
		return 0, 0, rs.err
	}
	if rs.pos >= len(rs.s) {
		rs.reads++
		return 0, 0, io.EOF
	}
	r, sz := utf8.DecodeRuneInString(rs.s[rs.pos:])
	rs.pos += sz
	rs.n++
	return r, sz, nil
}

const (
	srcString = iota
	srcBufio
	srcSlice
	srcOwn
	srcTinyBufio
	srcCount
)

func initFrom(s *segment.Segmenter, kind int, text string) {
	switch kind {
	case srcBufio:
		s.Init(bufio.NewReader(oneByteReader{strings.NewReader(text)}))
	case srcSlice:
		s.InitFromSlice([]rune(text))
	case srcOwn:
		s.Init(&runeSource{s: text, failAt: -1})
	case srcTinyBufio:
		s.Init(bufio.NewReaderSize(strings.NewReader(text), 16))
	default:
		s.Init(strings.NewReader(text))
	}
}

// collect drives a segmenter to the end and checks that the accessors agree.
func collect(s *segment.Segmenter, o *Obs) (out []seg, v *Viol) {
	for s.Next() {
		x, v := takeSeg(s)
		if v != nil {
			return out, v
		}
		out = append(out, x)
		o.Add("segments", 1)
		tick()
	}
	return out, nil
}

func takeSeg(s *segment.Segmenter) (seg, *Viol) {
	t, by, ru := s.Text(), s.Bytes(), s.Runes()
	if t != string(by) || t != string(ru) {
		return seg{}, violf("accessors", "Text %+q, Bytes %+q and Runes %+q differ", t, by, string(ru))
	}
	if t == "" {
		return seg{}, violf("empty-segment", "Next() returned true with an empty segment")
	}
	p0, p1 := s.Penalties()
	if t2 := s.Text(); t2 != t {
		return seg{}, violf("accessors", "Text() changed from %+q to %+q without Next()", t, t2)
	}
	return seg{t, p0, p1}, nil
}

// --- generators -------------------------------------------------------------------

// genScript makes an honest script for a text of n runes.
func genScript(r *rand.Rand, n int, breakAtEnd bool) brkSpec {
	s := brkSpec{Kind: "script"}
	maxd := []int{0, 1, 2, 5, 40}[r.Intn(5)]
	dens := []int{2, 3, 8, 60}[r.Intn(4)]
	pens := []int{-20000, -10000, -9999, -500, -1, 1, 10, 50, 100, 9999, 10000, 10001, 20000, 30000}
	end := false
	for k := 0; k < n; k++ {
		if r.Intn(dens) > 0 && k < n-1 {
			continue
		}
		for j := 1 + r.Intn(3); j > 0; j-- {
			s.Script = append(s.Script, [3]int{k, r.Intn(maxd + 1), pens[r.Intn(len(pens))]})
		}
	}
	if n > 0 && breakAtEnd {
		sum := 0
		for _, d := range s.Script {
			if d[0] == n-1 {
				sum += d[2]
			}
		}
		s.Script = append(s.Script, [3]int{n - 1, r.Intn(2), -sum - 1 - r.Intn(2000)})
		end = true
	}
	_ = end
	if r.Intn(3) == 0 {
		for j := r.Intn(6); j > 0; j-- {
			s.Over = append(s.Over, [2]int{r.Intn(n + 1), 1 + r.Intn(6)})
		}
	}
	return s
}

func genBreakers(r *rand.Rand, n int, scripts bool) []brkSpec {
	k := 1
	if r.Intn(3) == 0 {
		k = 2 + r.Intn(3)
	}
	var out []brkSpec
	for i := 0; i < k; i++ {
		x := r.Intn(6)
		switch {
		case x < 3 && scripts:
			out = append(out, genScript(r, n, i == 0 || r.Intn(2) == 0))
		case x == 3:
			out = append(out, brkSpec{Kind: "simple"})
		case x == 4:
			out = append(out, brkSpec{Kind: "word", W: r.Intn(7)})
		default:
			out = append(out, brkSpec{Kind: "grapheme", W: r.Intn(7)})
		}
	}
	return out
}

// longLen favours lengths which stress the buffers of the segmenter.
func longLen(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 60 + r.Intn(140)
	case 1:
		return 250 + r.Intn(20)
	case 2:
		return 500 + r.Intn(2000)
	}
	return textLen(r)
}
