package main

import (
	"fmt"
	"io"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/segment"
)

// segCase is one history of a segmenter.
type segCase struct {
	Text     Q           `json:"text"`
	Rep      int         `json:"rep,omitempty"` // text is repeated
	Breakers []brkSpec   `json:"breakers,omitempty"`
	Src      int         `json:"src"`
	Src2     int         `json:"src2,omitempty"`
	Val      bool        `json:"val,omitempty"` // breakers are values which cannot be compared
	Zero0    bool        `json:"zero0,omitempty"`
	Zero1    bool        `json:"zero1,omitempty"`
	Buf      int         `json:"buf,omitempty"`   // capacity of a client buffer
	Max      int         `json:"max,omitempty"`   // maximum segment length
	FailAt   int         `json:"fail,omitempty"`  // reader fails after that many runes
	Once     bool        `json:"once,omitempty"`  // … once only, and would deliver more
	Err      int         `json:"err,omitempty"`   // kind of the error
	Steps    []boundStep `json:"steps,omitempty"` // bounds for BoundedNext, then Next
	Probe    int         `json:"probe,omitempty"` // when the buffer is set
	Hist     []histOp    `json:"hist,omitempty"`  // uses of the segmenter before
}

// histOp is one earlier use of a segmenter (and its breakers).
type histOp struct {
	Text  Q    `json:"text"`
	Src   int  `json:"src"`
	Steps int  `json:"steps"`           // number of Next calls; -1: to the end
	Bound int  `json:"bound,omitempty"` // use BoundedNext
	Fail  int  `json:"fail,omitempty"`  // reader fails after that many runes (-1: never)
	Nil   bool `json:"nil,omitempty"`
}

func (c segCase) text() string {
	if c.Rep > 1 {
		return strings.Repeat(string(c.Text), c.Rep)
	}
	return string(c.Text)
}

func shrinkSeg(x interface{}) []interface{} {
	c := x.(segCase)
	var out []interface{}
	for i := range c.Hist {
		d := c
		d.Hist = append(append([]histOp{}, c.Hist[:i]...), c.Hist[i+1:]...)
		out = append(out, d)
	}
	if len(c.Breakers) > 1 {
		for i := range c.Breakers {
			if i == 0 && c.Breakers[1].Kind == "script" {
				continue // keep a primary breaker which breaks at the end of text
			}
			d := c
			d.Breakers = append(append([]brkSpec{}, c.Breakers[:i]...), c.Breakers[i+1:]...)
			out = append(out, d)
		}
	}
	script := false
	for i, b := range c.Breakers {
		if b.Kind != "script" {
			continue
		}
		script = true
		if len(b.Over) > 0 {
			d := c
			d.Breakers = append([]brkSpec{}, c.Breakers...)
			d.Breakers[i].Over = nil
			out = append(out, d)
		}
		for k := 0; k < len(b.Script)-1 && k < 60; k++ { // the last entry makes the final break
			d := c
			d.Breakers = append([]brkSpec{}, c.Breakers...)
			d.Breakers[i].Script = append(append([][3]int{}, b.Script[:k]...), b.Script[k+1:]...)
			last := len(d.Breakers[i].Script) - 1
			if b.Script[k][0] == d.Breakers[i].Script[last][0] {
				continue
			}
			out = append(out, d)
		}
	}
	if !script {
		if c.Rep > 1 {
			d := c
			d.Rep = c.Rep / 2
			out = append(out, d)
		} else {
			for _, t := range shrinkRunes([]rune(string(c.Text))) {
				d := c
				d.Text = q2(t)
				out = append(out, d)
			}
		}
	}
	if c.Src != srcString && c.Src != srcSlice {
		d := c
		d.Src = srcString
		out = append(out, d)
	}
	return out
}

// observed builds a segmenter with recorded breakers.
func observed(c segCase, n int) (*segment.Segmenter, []*recBreaker) {
	var recs []*recBreaker
	var bs []uax.UnicodeBreaker
	for _, b := range c.Breakers {
		rb := &recBreaker{inner: makeBreaker(b, n)}
		recs = append(recs, rb)
		if c.Val {
			bs = append(bs, valueBreaker{rb, nil})
		} else {
			bs = append(bs, rb)
		}
	}
	s := segment.NewSegmenter(bs...)
	s.BreakOnZero(c.Zero0, c.Zero1)
	return s, recs
}

// valueBreaker is a breaker which Go cannot compare.
type valueBreaker struct {
	*recBreaker
	_ []int
}

func logsOf(recs []*recBreaker) [][]evt {
	var out [][]evt
	for _, r := range recs {
		out = append(out, r.log)
	}
	return out
}

// checkFeed checks what the breakers have been told: each rune once, in order, then end of text.
func checkFeed(runes []rune, recs []*recBreaker) *Viol {
	for i, rb := range recs {
		if rb.protocol != "" {
			return violf("feed", "breaker %d: %s", i, rb.protocol)
		}
		if len(rb.log) != len(runes)+1 {
			return violf("feed", "breaker %d got %d events for %d runes and the end of text", i, len(rb.log), len(runes))
		}
		for t, e := range rb.log {
			want := rune(0)
			if t < len(runes) {
				want = runes[t]
			}
			if e.r != want {
				return violf("feed", "breaker %d: event %d is rune %U, should be %U", i, t, e.r, want)
			}
		}
	}
	return nil
}

func specNames(bs []brkSpec) string {
	var s []string
	for _, b := range bs {
		s = append(s, b.Kind)
	}
	if len(s) == 0 {
		return "default"
	}
	return strings.Join(s, "+")
}

func noNul(rs []rune) []rune {
	for i, r := range rs {
		if r == 0 {
			rs[i] = ' '
		}
	}
	return rs
}

// --- S01 conservation ---------------------------------------------------------------

func runS01(c segCase, o *Obs) *Viol {
	setupClasses()
	text := c.text()
	runes := []rune(text)
	want := string(runes) // ill-formed bytes are read as U+FFFD
	s, recs := observed(c, len(runes))
	initFrom(s, c.Src, text)
	if c.Max > 0 { // a buffer of the client, large enough
		s.RuneBuffer(make([]rune, c.Buf/2, c.Buf), c.Max)
	}
	segs, v := collect(s, o)
	if v != nil {
		return v
	}
	if err := s.Err(); err != nil {
		return violf("error", "Err() = %v after a text without errors", err)
	}
	var sb strings.Builder
	for _, x := range segs {
		sb.WriteString(x.text)
	}
	if sb.String() != want {
		return violf("conservation", "segments do not add up to the text: text %+q, segments %s", clip(want, 300), clip(showSegList(segs), 600))
	}
	if s.Next() {
		return violf("next-after-end", "Next() is true after it was false")
	}
	if t := s.Text(); t != "" || len(s.Bytes()) != 0 || len(s.Runes()) != 0 {
		return violf("stale", "segment %+q is still there after the end", t)
	}
	if err := s.Err(); err != nil {
		return violf("error", "Err() = %v after the end", err)
	}
	// another kind of source must not make a difference
	s2, recs2 := observed(c, len(runes))
	initFrom(s2, c.Src2, text)
	segs2, v := collect(s2, o)
	if v != nil {
		return v
	}
	if !sameSegs(segs, segs2) {
		return violf("source", "source %d gives%s, source %d gives%s", c.Src, showSegList(segs), c.Src2, showSegList(segs2))
	}
	if v := checkFeed(runes, recs); v != nil {
		return v
	}
	if v := checkFeed(runes, recs2); v != nil {
		return v
	}
	// nor does a second pass of the same segmenter; the breakers hear of it once, too
	for _, rb := range recs {
		rb.log = nil
	}
	initFrom(s, c.Src2, text)
	if segs2, v = collect(s, o); v != nil {
		return v
	}
	if !sameSegs(segs, segs2) {
		return violf("source", "source %d gives%s, a second pass with source %d gives%s", c.Src, showSegList(segs), c.Src2, showSegList(segs2))
	}
	if v := checkFeed(runes, recs); v != nil {
		v.Msg = "second pass: " + v.Msg
		return v
	}
	o.Add("texts", 1)
	o.Add("rune_events", len(runes)+1)
	o.Add("breakers_"+specNames(c.Breakers[:min(1, len(c.Breakers))]), 1)
	o.Add(fmt.Sprintf("source_%d", c.Src), 1)
	if len(segs) > 1 {
		o.Nontrivial(text, specNames(c.Breakers), len(segs))
		o.Sample("%s over %+q: %d segments", specNames(c.Breakers), clip(text, 60), len(segs))
	}
	return nil
}

func genS01(i int, r *rand.Rand, tier string) interface{} {
	n := longLen(r)
	c := segCase{Text: q2(noNul(genAny(r, n))), Src: r.Intn(srcCount), Src2: r.Intn(srcCount)}
	if r.Intn(5) == 0 {
		c.Text = Q(spoil(r, string(c.Text)))
	}
	if r.Intn(60) == 0 {
		// segments of great length
		c.Text = q2([]rune{pick(r, "aß世👍\u0301 ")})
		c.Rep = []int{63, 64, 65, 127, 128, 129, 1024, 4095, 4096, 4097, 8192, 20000, 65535, 65536}[r.Intn(14)]
		if r.Intn(2) == 0 {
			c.Text += Q(pick(r, "a \u0301"))
			c.Rep /= 2
		}
		if r.Intn(2) == 0 {
			c.Rep = 1 + r.Intn(20000)
			c.Text = q2([]rune{pick(r, "aß世👍\u0301")})
			if r.Intn(2) == 0 {
				c.Buf, c.Max = r.Intn(9000), c.Rep+1+r.Intn(3000)
			}
			c.Breakers = []brkSpec{{Kind: "simple"}}
			return c
		}
		if c.Rep*len([]rune(string(c.Text))) > 5000 {
			c.Breakers = []brkSpec{{Kind: "simple"}}
			return c
		}
	}
	if r.Intn(600) == 0 {
		// a breaker which keeps a long match open, and then breaks it at many places
		c.Text = q2([]rune{pick(r, "aß世👍\u0301 "), 'x'})
		c.Rep = 500 + r.Intn(4000)
		if r.Intn(8) == 0 {
			c.Rep *= 3
		}
		n := 2 * c.Rep
		at := n * (1 + r.Intn(9)) / 10
		s := brkSpec{Kind: "script", Script: [][3]int{{0, at, 0}, {n - 1, 1, -1000}}}
		for k := r.Intn(12); k >= 0; k-- {
			p := r.Intn(at)
			s.Script = append(s.Script, [3]int{p, at - p, -500})
		}
		c.Breakers = []brkSpec{s}
		return c
	}
	if r.Intn(8) > 0 {
		c.Breakers = genBreakers(r, len([]rune(c.text())), true)
	}
	c.Zero0, c.Zero1 = r.Intn(6) == 0, r.Intn(6) == 0
	if r.Intn(4) == 0 {
		c.Buf, c.Max = r.Intn(20), len([]rune(c.text()))+1+r.Intn(20)
	}
	return c
}

// --- S02 positions and penalties --------------------------------------------------------

func runS02(c segCase, o *Obs) *Viol {
	setupClasses()
	text := c.text()
	runes := []rune(text)
	s, recs := observed(c, len(runes))
	initFrom(s, c.Src, text)
	got, v := collect(s, o)
	if v != nil {
		return v
	}
	want, rest := streamSegments(runes, logsOf(recs), c.Zero0, c.Zero1)
	if onlyScripts(c.Breakers) { // the time of delivery must not make a difference
		if w2, _ := modelSegments(runes, logsOf(recs), c.Zero0, c.Zero1); !sameSegs(got, w2) {
			return violf("aggregate", "text %+q breakers %s zero %v/%v\n got %s\n want%s (sums of all penalties)",
				clip(text, 300), specNames(c.Breakers), c.Zero0, c.Zero1, showSegList(got), showSegList(w2))
		}
	}
	if rest > 0 {
		o.Add("texts_without_final_break", 1)
	}
	if !sameSegs(got, want) {
		return violf("segments", "text %+q breakers %s zero %v/%v\n got %s\n want%s (from %d recorded answers of the breakers)",
			clip(text, 300), specNames(c.Breakers), c.Zero0, c.Zero1, showSegList(got), showSegList(want), len(recs[0].log))
	}
	late := 0
	for _, l := range logsOf(recs) {
		for t, e := range l {
			for i, p := range e.pen {
				if p != 0 && i > 0 {
					late++
				}
				_ = t
			}
		}
	}
	o.Add("texts", 1)
	o.Add("deliveries_after_the_fact", late)
	o.Add("max_breakers", 0)
	if int64(len(recs)) > o.Events["max_breakers"] {
		o.Events["max_breakers"] = int64(len(recs))
	}
	if len(got) > 1 && len(got) < len(runes) {
		o.Nontrivial(text, fmt.Sprint(c.Breakers), c.Zero0, c.Zero1)
		o.Sample("%s over %+q:%s", specNames(c.Breakers), clip(text, 60), clip(showSegList(got), 200))
	}
	return nil
}

func genS02(i int, r *rand.Rand, tier string) interface{} {
	if i%10000 == 777 { // penalties which are delivered very late
		return genLate(r)
	}
	n := longLen(r)
	c := segCase{Text: q2(noNul(genAny(r, n))), Src: r.Intn(srcCount), Zero0: r.Intn(4) == 0, Zero1: r.Intn(4) == 0}
	c.Breakers = genBreakers(r, n, true)
	c.Val = r.Intn(8) == 0
	return c
}

// genLate makes a text for a breaker which withholds its opinion for thousands of runes.
func genLate(r *rand.Rand) segCase {
	n := 4096 + r.Intn(2000)
	if r.Intn(3) == 0 {
		n = []int{8192, 16384, 32768, 65536}[r.Intn(4)] + r.Intn(1000)
	}
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = 'a' + rune(i%23)
	}
	s := brkSpec{Kind: "script"}
	for k := 0; k < n; k += 1 + r.Intn(900) {
		s.Script = append(s.Script, [3]int{k, r.Intn(3), 10 - r.Intn(500)})
	}
	for j := 1 + r.Intn(4); j > 0; j-- {
		k := r.Intn(50)
		s.Script = append(s.Script, [3]int{k, n - k - r.Intn(70), []int{-700, -100, 20000, 50}[r.Intn(4)]})
	}
	s.Script = append(s.Script, [3]int{n - 1, 0, -1000})
	return segCase{Text: q2(rs), Src: r.Intn(srcCount), Breakers: []brkSpec{s}}
}

// --- S03 the default segmenter -------------------------------------------------------------

// runS03: words and whitespace, with the documented penalties.
func runS03(c segCase, o *Obs) *Viol {
	text := c.text()
	runes := []rune(text)
	var want []seg
	for i := 0; i < len(runes); {
		j := i
		sp := unicode.IsSpace(runes[i])
		for j < len(runes) && unicode.IsSpace(runes[j]) == sp {
			j++
		}
		p := segment.PenaltyBeforeWhitespace
		if sp {
			p = segment.PenaltyAfterWhitespace
		}
		want = append(want, seg{string(runes[i:j]), p, 0})
		i = j
	}
	if segment.PenaltyBeforeWhitespace != 100 || segment.PenaltyAfterWhitespace != -100 {
		return violf("constants", "documented penalties changed")
	}
	var s *segment.Segmenter
	if len(c.Breakers) == 0 {
		s = segment.NewSegmenter()
	} else {
		s = segment.NewSegmenter(segment.NewSimpleWordBreaker())
	}
	for round := 0; round < 2; round++ {
		initFrom(s, c.Src, text)
		got, v := collect(s, o)
		if v != nil {
			return v
		}
		if !sameSegs(got, want) {
			return violf("words", "text %+q\n got %s\n want%s", clip(text, 300), showSegList(got), showSegList(want))
		}
	}
	if len(want) > 2 {
		o.Nontrivial(text)
		o.Sample("%+q: %d segments", clip(text, 80), len(want))
	}
	return nil
}

func genS03(i int, r *rand.Rand, tier string) interface{} {
	n := longLen(r)
	var rs []rune
	if r.Intn(2) == 0 {
		rs = noNul(genAny(r, n))
	} else {
		rs = make([]rune, n)
		for i := range rs {
			if r.Intn(3) == 0 {
				rs[i] = pick(r, " \t\n\r\v\f\u0085\u00a0\u1680\u2000\u2009\u2028\u2029\u202f\u205f\u3000")
			} else {
				rs[i] = pick(r, "abz09.,;\u200b\ufeff\u0301ßあ👍\u2060")
			}
		}
	}
	if i%2000 == 1999 { // runs of any length
		rs, n = nil, r.Intn(300)
		for k := 0; k < 260; k++ {
			rs = append(append(rs, []rune(strings.Repeat("a", 1+(n+k)%300))...), []rune(strings.Repeat(" ", 1+(n+3*k)%300))...)
		}
	}
	c := segCase{Text: q2(rs), Src: r.Intn(srcCount)}
	if r.Intn(2) == 0 {
		c.Breakers = []brkSpec{{Kind: "simple"}}
	}
	return c
}

// --- S04 re-initialization -----------------------------------------------------------------

func (h histOp) play(s *segment.Segmenter) {
	switch {
	case h.Nil && h.Src == srcSlice:
		s.InitFromSlice(nil)
	case h.Nil:
		s.Init(nil)
	case h.Fail >= 0:
		s.Init(&runeSource{s: string(h.Text), failAt: h.Fail, err: errInjected})
	default:
		initFrom(s, h.Src, string(h.Text))
	}
	for k := 0; k != h.Steps; k++ {
		ok := false
		if h.Bound > 0 {
			ok = s.BoundedNext(h.Bound)
		} else {
			ok = s.Next()
		}
		if !ok {
			break
		}
	}
}

// bounded reads segments with bounds and tells what happened.
func bounded(s *segment.Segmenter, steps []boundStep) (string, *Viol) {
	var sb strings.Builder
	for _, st := range steps {
		for n := 0; n != st.N; n++ {
			tick()
			if !s.BoundedNext(st.B) {
				fmt.Fprintf(&sb, "[bound %d: %v]", st.B, s.Err())
				break
			}
			x, v := takeSeg(s)
			if v != nil {
				return "", v
			}
			fmt.Fprintf(&sb, "%s,", x)
		}
	}
	return sb.String(), nil
}

func runS04(c segCase, o *Obs) *Viol {
	setupClasses()
	text := c.text()
	n := len([]rune(text))
	mk := func() *segment.Segmenter {
		var bs []uax.UnicodeBreaker
		for _, b := range c.Breakers {
			bs = append(bs, makeBreaker(b, n))
		}
		s := segment.NewSegmenter(bs...)
		s.BreakOnZero(c.Zero0, c.Zero1)
		return s
	}
	fresh := mk()
	initFrom(fresh, c.Src, text)
	wantb, v := bounded(fresh, c.Steps)
	if v != nil {
		return v
	}
	want, v := collect(fresh, o)
	if v != nil {
		return v
	}
	used := mk()
	for _, h := range c.Hist {
		h.play(used)
	}
	initFrom(used, c.Src, text)
	if p0, p1 := used.Penalties(); p0 != 0 || p1 != 0 {
		return violf("stale", "penalties %d|%d right after Init", p0, p1)
	}
	if used.Text() != "" || used.Err() != nil {
		return violf("stale", "text %+q, error %v right after Init", used.Text(), used.Err())
	}
	gotb, v := bounded(used, c.Steps)
	if v != nil {
		return v
	}
	if gotb != wantb {
		return violf("reinit-bounded", "text %+q bounds %v breakers %s after %d earlier uses\n got %s\n a new segmenter gives %s", clip(text, 200), c.Steps, specNames(c.Breakers), len(c.Hist), clip(gotb, 1000), clip(wantb, 1000))
	}
	got, v := collect(used, o)
	if v != nil {
		return v
	}
	if !sameSegs(got, want) {
		return violf("reinit", "text %+q breakers %s after %d earlier uses\n got %s\n a new segmenter gives%s", clip(text, 200), specNames(c.Breakers), len(c.Hist), showSegList(got), showSegList(want))
	}
	if used.Err() != nil {
		return violf("stale", "Err() = %v", used.Err())
	}
	o.Add("earlier_uses", len(c.Hist))
	if len(c.Hist) > 0 && len(want) > 0 {
		o.Nontrivial(text, fmt.Sprint(c.Hist, c.Breakers))
		o.Sample("%s: %d uses, then %+q", specNames(c.Breakers), len(c.Hist), clip(text, 60))
	}
	return nil
}

func genS04(i int, r *rand.Rand, tier string) interface{} {
	c := segCase{Text: q2(noNul(genAny(r, textLen(r)))), Src: r.Intn(srcCount), Zero0: r.Intn(8) == 0}
	c.Breakers = genBreakers(r, 0, false)
	for k := 1 + r.Intn(4); k > 0; k-- {
		h := histOp{Text: q2(noNul(genAny(r, textLen(r)))), Src: r.Intn(srcCount), Steps: -1, Fail: -1}
		if r.Intn(3) > 0 {
			h.Steps = r.Intn(5)
		}
		if r.Intn(4) == 0 {
			h.Bound = 1 + r.Intn(20)
		}
		if r.Intn(4) == 0 {
			h.Fail = r.Intn(8)
		}
		h.Nil = r.Intn(20) == 0
		c.Hist = append(c.Hist, h)
	}
	if r.Intn(3) == 0 {
		for b, k := 0, 1+r.Intn(3); k > 0; k-- {
			b += r.Intn(len(string(c.Text))/2 + 3)
			st := boundStep{b, -1}
			if r.Intn(3) == 0 {
				st.N = 1 + r.Intn(3)
			}
			c.Steps = append(c.Steps, st)
		}
	}
	return c
}

// --- S05 bounds ------------------------------------------------------------------------------

// boundStep is a number of calls of BoundedNext with a bound (N < 0: until it returns false).
type boundStep struct {
	B int `json:"b"`
	N int `json:"n"`
}

// runS05: up to a bound, the segments are those of the unbounded segmentation, the last one
// cut off at the bound. Going on (with another bound, or without) delivers the rest.
func runS05(c segCase, o *Obs) *Viol {
	setupClasses()
	text := c.text()
	runes := []rune(text)
	mk := func() *segment.Segmenter {
		var bs []uax.UnicodeBreaker
		for _, b := range c.Breakers {
			bs = append(bs, makeBreaker(b, len(runes)))
		}
		return segment.NewSegmenter(bs...)
	}
	// positions in the units of the source: bytes for readers, runes for a slice
	posOf := make([]int, len(runes)+1)
	for i, k := 0, 0; k < len(runes); k++ {
		_, sz := utf8.DecodeRuneInString(text[i:])
		i += sz
		posOf[k+1] = i
		if c.Src == srcSlice {
			posOf[k+1] = k + 1
		}
	}
	full := mk()
	initFrom(full, c.Src, text)
	all, v := collect(full, o)
	if v != nil {
		return v
	}
	ends := map[int]seg{} // by rune count
	pos := 0
	for _, x := range all {
		pos += len([]rune(x.text))
		ends[pos] = x
	}
	if pos != len(runes) {
		return violf("conservation", "segments do not add up to the text")
	}
	s := mk()
	var input []rune
	if c.Src == srcSlice { // segments of a slice need no buffer: there is no limit for them
		if c.Max > 0 {
			s.RuneBuffer(nil, c.Max)
		}
		input = append(make([]rune, 0, len(runes)+1), runes...)
		s.InitFromSlice(input)
	} else {
		initFrom(s, c.Src, text)
	}
	at := 0
	inf := posOf[len(runes)] + 1000
	for _, st := range append(append([]boundStep{}, c.Steps...), boundStep{inf, -1}) {
		for n := 0; n != st.N; n++ {
			tick()
			want := at
			for k := at + 1; k <= len(runes) && posOf[k] <= st.B; k++ {
				want = k
				if _, ok := ends[k]; ok {
					break
				}
			}
			ok := false
			if st.B == inf {
				ok = s.Next()
			} else {
				ok = s.BoundedNext(st.B)
			}
			if !ok {
				if want > at {
					return violf("bound-short", "text %+q src %d steps %v: false at %d with bound %d, should deliver %+q", text, c.Src, c.Steps, posOf[at], st.B, string(runes[at:want]))
				}
				if at < len(runes) && s.Err() != segment.ErrBoundReached {
					return violf("bound-err", "text %+q steps %v: Err() = %v instead of ErrBoundReached", text, c.Steps, s.Err())
				}
				if at == len(runes) && s.Err() != nil && !(st.B <= posOf[at] && s.Err() == segment.ErrBoundReached) {
					return violf("bound-err", "text %+q steps %v: Err() = %v at the end of the text", text, c.Steps, s.Err())
				}
				if s.Text() != "" {
					return violf("stale", "text %+q steps %v: segment %+q after false", text, c.Steps, s.Text())
				}
				o.Add("stops", 1)
				break
			}
			x, v := takeSeg(s)
			if v != nil {
				return v
			}
			if s.Err() != nil {
				return violf("bound-err", "text %+q steps %v: Err() = %v together with a segment", text, c.Steps, s.Err())
			}
			if want == at {
				return violf("bound-exceeded", "text %+q src %d steps %v: segment %+q from %d with bound %d", text, c.Src, c.Steps, x.text, posOf[at], st.B)
			}
			if string(runes[at:want]) != x.text {
				return violf("bound-text", "text %+q src %d steps %v: segment %+q from %d with bound %d, should be %+q", text, c.Src, c.Steps, x.text, posOf[at], st.B, string(runes[at:want]))
			}
			if rs := s.Runes(); input != nil && &rs[0] != &input[at] {
				return violf("slice-copied", "text %+q steps %v: segment %+q is a copy of the input slice, not a part of it", text, c.Steps, x.text)
			}
			at = want
			if e, ok := ends[at]; !ok {
				o.Add("cut_off_at_bound", 1)
			} else if posOf[at] != st.B && (e.p0 != x.p0 || e.p1 != x.p1) {
				// (at a bound the decision may precede the last answers of the breakers)
				return violf("bound-penalty", "text %+q steps %v: segment %s ends at a break with penalties %d|%d", text, c.Steps, x, e.p0, e.p1)
			}
		}
	}
	if at != len(runes) {
		return violf("bound-short", "text %+q steps %v: ended at %d of %d", text, c.Steps, at, len(runes))
	}
	o.Nontrivial(text, fmt.Sprint(c.Steps, c.Breakers), c.Src)
	o.Sample("%+q bounds %v", clip(text, 60), c.Steps)
	return nil
}

func genS05(i int, r *rand.Rand, tier string) interface{} {
	n := textLen(r)
	c := segCase{Src: r.Intn(srcCount)}
	c.Text = q2(noNul(genAny(r, n)))
	if r.Intn(8) == 0 {
		c.Text = Q(spoil(r, string(c.Text)))
	}
	c.Breakers = genBreakers(r, n, false)
	if r.Intn(1500) == 0 { // a text with positions beyond the reach of small numbers
		c.Text += " a"
		c.Rep = (66000+r.Intn(3000))/len(string(c.Text)) + 1
		c.Breakers = []brkSpec{{Kind: []string{"simple", "word", "grapheme"}[r.Intn(3)], W: 1}}
	}
	if c.Src == srcSlice {
		if r.Intn(3) == 0 {
			c.Max = 1 + r.Intn(20)
		}
		if r.Intn(400) == 0 { // a segment longer than any buffer
			c.Text, c.Rep = Q(pick(r, "aא1")), 0
			c.Text = Q("ab " + strings.Repeat(string(c.Text), 65000+r.Intn(2000)) + " c")
			c.Breakers = []brkSpec{{Kind: "simple"}}
		}
	}
	b, l := 0, len(c.text())
	for k := 1 + r.Intn(4); k > 0; k-- {
		b += r.Intn(l/2 + 3)
		if r.Intn(10) == 0 {
			b = r.Intn(l+5) - 2
		}
		st := boundStep{b, -1}
		if r.Intn(4) == 0 {
			st.N = 1 + r.Intn(3)
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

// --- S06 errors ---------------------------------------------------------------------------------

func runS06(c segCase, o *Obs) *Viol {
	setupClasses()
	text := c.text()
	runes := []rune(text)
	mk := func() *segment.Segmenter {
		var bs []uax.UnicodeBreaker
		for _, b := range c.Breakers {
			bs = append(bs, makeBreaker(b, len(runes)))
		}
		return segment.NewSegmenter(bs...)
	}
	// without input
	s := mk()
	if s.Next() || s.Err() != segment.ErrNotInitialized {
		return violf("not-initialized", "Next() without Init: Err() = %v", s.Err())
	}
	full := mk()
	initFrom(full, srcSlice, text) // no limit for slices
	all, v := collect(full, o)
	if v != nil {
		return v
	}
	switch {
	case c.FailAt >= 0: // reader fails in the middle
		errInjected := readErrors[c.Err]
		rs := &runeSource{s: text, failAt: c.FailAt, err: errInjected, once: c.Once}
		s.Init(rs)
		if s.Err() != nil {
			return violf("stale-error", "Err() = %v right after Init", s.Err())
		}
		got, v := collect(s, o)
		if v != nil {
			return v
		}
		if c.FailAt > len(runes) {
			if s.Err() != nil || !sameSegs(got, all) {
				return violf("spurious-error", "Err() = %v", s.Err())
			}
			return nil
		}
		if s.Err() != errInjected {
			return violf("lost-error", "text %+q, reader failed after %d runes: Err() = %v", clip(text, 200), c.FailAt, s.Err())
		}
		if len(got) > len(all) || !sameSegs(got, all[:len(got)]) {
			return violf("fault-prefix", "text %+q, reader failed after %d runes: got%s, without failure%s", clip(text, 200), c.FailAt, showSegList(got), showSegList(all))
		}
		n := 0
		for _, x := range got {
			n += len([]rune(x.text))
		}
		if n > c.FailAt {
			return violf("fault-prefix", "segments have %d runes, %d have been read", n, c.FailAt)
		}
		if len(c.Breakers) == 1 && c.Breakers[0].Kind == "simple" {
			// a run ends as soon as the first rune of the next one has been read
			m := 0
			for _, x := range all {
				m += len([]rune(x.text))
				if m < c.FailAt && m > n {
					return violf("fault-lost", "text %+q, reader failed after %d runes: segments up to %d were complete, got %d", clip(text, 200), c.FailAt, m, n)
				}
			}
		}
		for k := 0; k < 3; k++ {
			if s.Next() {
				return violf("next-after-error", "text %+q: Next() delivers %+q after the reader had failed (%v)", clip(text, 200), s.Text(), s.Err())
			}
			if s.Err() != errInjected {
				return violf("lost-error", "Err() = %v after another Next()", s.Err())
			}
		}
		if s.Text() != "" || len(s.Runes()) != 0 {
			return violf("stale", "segment %+q after an error", s.Text())
		}
		o.Add("read_errors", 1)
		o.Nontrivial("fail", text, c.FailAt, specNames(c.Breakers))
	default: // segment length limit
		limit := segment.MaxSegmentSize
		var buf []rune // given by the client
		set := func() {
			if c.Max > 0 || c.Buf > 0 {
				if c.Buf > 0 {
					buf = make([]rune, 0, c.Buf)
				}
				s.RuneBuffer(buf, c.Max)
				limit = max(c.Max, c.Buf)
			}
		}
		switch c.Probe % 3 { // the buffer may be set at any time before the first Next()
		case 0:
			s.Init(strings.NewReader(""))
			set()
			initFrom(s, c.Src, text)
		case 1:
			set()
			initFrom(s, c.Src, text)
		default:
			initFrom(s, c.Src, text)
			set()
		}
		var got []seg
		for s.Next() {
			x, v := takeSeg(s)
			if v != nil {
				return v
			}
			got = append(got, x)
			if rs := s.Runes(); buf != nil && c.Max <= c.Buf && c.Src != srcSlice && &rs[0] != &buf[:1][0] {
				return violf("buffer-ignored", "text %+q: segment %+q is not in the client's buffer of %d runes (maximum %d)", clip(text, 200), x.text, c.Buf, c.Max)
			}
			o.Add("segments", 1)
			tick()
		}
		k := 0
		for k < len(all) && len([]rune(all[k].text)) <= limit {
			k++
		}
		if c.Src == srcSlice {
			k = len(all) // no buffer needed
		}
		if !sameSegs(got, all[:k]) {
			return violf("limit", "text %+q, limit %d: got%s, without limit%s", clip(text, 200), limit, clip(showSegList(got), 500), clip(showSegList(all), 500))
		}
		if k < len(all) {
			if s.Err() != segment.ErrTooLong {
				return violf("too-long", "segment of %d runes, limit %d: Err() = %v", len([]rune(all[k].text)), limit, s.Err())
			}
			if s.Next() || s.Err() != segment.ErrTooLong {
				return violf("too-long", "after ErrTooLong Next() goes on")
			}
			o.Add("too_long", 1)
			o.Nontrivial("limit", text, limit, c.Src)
		} else {
			if s.Err() != nil {
				return violf("spurious-error", "Err() = %v, limit %d", s.Err(), limit)
			}
			o.Add("within_limit", 1)
		}
		if p := protect(func() { s.RuneBuffer(nil, 100) }); p == nil {
			return violf("buffer-in-use", "RuneBuffer() did not panic after scanning has started")
		}
		if p := protect(func() { s.Buffer(nil, 100) }); p == nil {
			return violf("buffer-in-use", "Buffer() did not panic after scanning has started")
		}
		// and afterwards, everything is fine again, with another buffer
		s.Init(strings.NewReader("a b"))
		if s.Err() != nil {
			return violf("stale-error", "Err() = %v right after Init", s.Err())
		}
		s.RuneBuffer(make([]rune, 3), 1)
		rest, v := collect(s, o)
		if v != nil {
			return v
		}
		if all := ""; s.Err() != nil {
			return violf("spurious-error", "Err() = %v after another Init, with another buffer", s.Err())
		} else if len(rest) > 0 || len(c.Breakers) == 1 && c.Breakers[0].Kind == "simple" {
			for _, x := range rest {
				all += x.text
			}
			if all != "a b" {
				return violf("conservation", "after another Init with another buffer: got %s for \"a b\"", showSegList(rest))
			}
		}
	}
	o.Sample("%s %+q fail=%d max=%d buf=%d", specNames(c.Breakers), clip(text, 60), c.FailAt, c.Max, c.Buf)
	return nil
}

func genS06(i int, r *rand.Rand, tier string) interface{} {
	n := longLen(r)
	c := segCase{Text: q2(noNul(genAny(r, n))), FailAt: -1, Src: r.Intn(srcCount), Probe: r.Intn(3)}
	if r.Intn(2) == 0 {
		c.Breakers = []brkSpec{{Kind: "simple"}}
	} else {
		c.Breakers = genBreakers(r, n, false)
	}
	if r.Intn(2) == 0 {
		c.FailAt = r.Intn(n + 3)
		c.Once = r.Intn(2) == 0
		c.Err = r.Intn(len(readErrors))
		return c
	}
	switch r.Intn(4) {
	case 0:
		c.Max = 1 + r.Intn(12)
	case 1:
		c.Buf = 1 + r.Intn(12)
	case 2:
		c.Max, c.Buf = 1+r.Intn(40), 1+r.Intn(40)
	default:
		if r.Intn(12) == 0 { // around the limits of buffers
			c.Text = "a"
			c.Breakers = []brkSpec{{Kind: "simple"}}
			c.Rep = segment.MaxSegmentSize - 2 + r.Intn(5)
			if r.Intn(3) == 0 {
				c.Rep = 4094 + r.Intn(5)
				c.Max = 4094 + r.Intn(5)
			}
		} else if r.Intn(8) == 0 { // long segments and buffers of any size
			c.Text = q2([]rune{pick(r, "aß世👍")})
			c.Breakers = []brkSpec{{Kind: "simple"}}
			c.Rep = 1 + r.Intn(14000)
			c.Buf = r.Intn(9000)
			c.Max = r.Intn(14000)
			if r.Intn(3) == 0 {
				c.Buf = 0
			}
		}
	}
	return c
}

// readErrors: an error is an error, also if it looks like the end of the text
var readErrors = []error{errInjected, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), io.ErrNoProgress, io.ErrClosedPipe}

func segProp(id, rule string, quick, thorough int, gen func(int, *rand.Rand, string) interface{}, run func(segCase, *Obs) *Viol, shrink bool, assum ...string) {
	p := &Prop{ID: id, Rule: rule,
		N: func(t string) int {
			if t == "thorough" {
				return thorough
			}
			return quick
		},
		Gen: gen, Decode: decodeAs[segCase](),
		Run:         func(c interface{}, o *Obs) *Viol { return run(c.(segCase), o) },
		Assumptions: assum}
	if shrink {
		p.Shrink = shrinkSeg
	}
	register(p)
}

func init() {
	segProp("S01", "a text cut into at least two segments; distinct (text, breakers) are counted", 100000, 2000000, genS01, runS01, true,
		"breakers (also the scripted ones) announce their active match and break at the end of text", "text without U+0000")
	segProp("S02", "a text in which some positions are cut and others are not; distinct (text, breaker scripts, zero policy) are counted", 300000, 2000000, genS02, runS02, true,
		"breakers announce their active match: penalties are delivered inside the match announced before", "text without U+0000")
	segProp("S03", "a text with at least three runs of words and whitespace; distinct texts are counted", 500000, 3000000, genS03, runS03, true, "text without U+0000")
	segProp("S04", "a segmenter used before (to the end, abandoned, bounded, with failing readers) segments a text; distinct histories are counted", 500000, 2000000, genS04, runS04, true, "text without U+0000")
	segProp("S05", "a text read with a sequence of bounds; distinct (text, bounds, breakers) are counted", 500000, 2000000, genS05, runS05, true, "bounds are positions as the input counts them: bytes for readers, runes for slices", "text without U+0000")
	segProp("S06", "a read error hit or a segment limit exceeded; distinct situations are counted", 300000, 2000000, genS06, runS06, true, "text without U+0000")
}
