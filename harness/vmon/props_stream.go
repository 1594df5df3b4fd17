package main

import (
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"unicode/utf8"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/segment"
)

// --- S07 streaming ----------------------------------------------------------------------

// streamCase is a history of a segmenter which reads from a source that counts, or a long stream.
type streamCase struct {
	Seg  segCase `json:"seg"`
	Long int     `json:"long,omitempty"` // the text is repeated up to that many runes, and memory is observed
}

// countingSource counts the runes it has been asked for.
type countingSource struct {
	text   string
	pos    int
	calls  int
	failAt int // -1: never
	err    error
}

func (cs *countingSource) ReadRune() (rune, int, error) {
	cs.calls++
	if cs.failAt >= 0 && cs.calls > cs.failAt {
		return 0, 0, cs.err
	}
	if cs.pos >= len(cs.text) {
		return 0, 0, io.EOF
	}
	r, sz := utf8.DecodeRuneInString(cs.text[cs.pos:])
	cs.pos += sz
	return r, sz, nil
}

// decider replays the recorded answers of the breakers and tells when a segment is decided.
type decider struct {
	pos    []int // text positions by runes
	n      int
	t      int // events replayed
	start  int // runes delivered
	p0, p1 []int
	lam    int
	many   bool
	z0, z1 bool
}

func (d *decider) step(logs [][]evt) {
	d.lam = 0
	for bi, l := range logs {
		dst := d.p0
		if bi > 0 {
			dst = d.p1
		}
		e := l[d.t]
		for i, p := range e.pen {
			if k := d.t - i; k >= d.start && k < d.n {
				dst[k] += p
			}
		}
		if e.lam > d.lam {
			d.lam = e.lam
		}
	}
	d.t++
}

// decided: is the next segment determined by what has been read? A bound is a break.
func (d *decider) decided(bound int, bounded bool) bool {
	for k := d.start; k < d.n && k <= d.t-1-d.lam; k++ {
		if bounded && d.pos[k+1] >= bound {
			return true
		}
		if possible(d.p0[k], d.z0) || d.many && possible(d.p1[k], d.z1) {
			return true
		}
	}
	// nothing fits in before the bound
	if bounded && d.start < d.n && (d.pos[d.start] >= bound || d.t > d.start && d.pos[d.start+1] > bound) {
		return true
	}
	return false
}

func runS07(c streamCase, o *Obs) *Viol {
	setupClasses()
	if c.Long > 0 {
		return runS07mem(c, o)
	}
	text := c.Seg.text()
	runes := []rune(text)
	s, recs := observed(c.Seg, len(runes))
	for _, b := range recs {
		b.log = make([]evt, 0, len(runes)+1)
	}
	src := &countingSource{text: text, failAt: -1, err: errInjected}
	if c.Seg.FailAt > 0 {
		src.failAt = c.Seg.FailAt - 1
	}
	d := &decider{n: len(runes), p0: make([]int, len(runes)), p1: make([]int, len(runes)), many: len(recs) > 1, z0: c.Seg.Zero0, z1: c.Seg.Zero1}
	d.pos = make([]int, len(runes)+1)
	for i, k := 0, 0; k < len(runes); k++ {
		_, sz := utf8.DecodeRuneInString(text[i:])
		i += sz
		d.pos[k+1] = i
	}
	s.Init(src)
	if src.calls > 0 {
		return violf("eager", "text %+q: %d runes have been read before anybody asked for a segment", clip(text, 300), src.calls)
	}
	ahead, maxAhead, atOnce := 0, 0, 0
	steps := append(append([]boundStep{}, c.Seg.Steps...), boundStep{-1, -1})
	for si, st := range steps {
		last := si == len(steps)-1
		for n := 0; last || n != st.N; n++ {
			tick()
			before := src.calls
			ok := false
			if last {
				ok = s.Next()
			} else {
				ok = s.BoundedNext(st.B)
			}
			// the number of runes which had to be read
			for d.t < before && d.t < len(recs[0].log) {
				d.step(logsOf(recs))
			}
			for d.t < src.calls && d.t < len(recs[0].log) {
				if d.decided(st.B, !last) {
					return violf("over-read", "text %+q breakers %s zero %v/%v: segment %+q (%v) from rune %d was decided after %d runes, but %d have been read (bound %v)",
						clip(text, 300), specNames(c.Seg.Breakers), c.Seg.Zero0, c.Seg.Zero1, clip(s.Text(), 100), ok, d.start, d.t, src.calls, st)
				}
				d.step(logsOf(recs))
			}
			limit := len(runes) + 1
			if src.failAt >= 0 && src.failAt+1 < limit {
				limit = src.failAt + 1
			}
			if src.calls > limit {
				return violf("read-after-end", "text %+q breakers %s: asked %d times for %d runes (reader fails at %d): read on after the end or an error",
					clip(text, 300), specNames(c.Seg.Breakers), src.calls, len(runes), src.failAt)
			}
			if src.calls == before && ok {
				atOnce++
			}
			if !ok {
				break
			}
			d.start += len(s.Runes())
			if d.start > d.n {
				return violf("conservation", "more runes delivered than the text has")
			}
			if ahead = src.calls - d.start; ahead > maxAhead {
				maxAhead = ahead
			}
			o.Add("segments", 1)
		}
	}
	end := src.calls
	for i := 0; i < 2; i++ {
		if s.Next(); src.calls != end {
			return violf("read-after-end", "text %+q: reads on after the end", clip(text, 300))
		}
	}
	o.Add("runes_read", src.calls)
	o.Add("segments_delivered_without_reading", atOnce)
	if int64(maxAhead) > o.Events["max_runes_ahead"] {
		o.Events["max_runes_ahead"] = int64(maxAhead)
	}
	if len(runes) > 1 {
		o.Nontrivial(text, fmt.Sprint(c.Seg.Steps, c.Seg.Breakers, c.Seg.Zero0, c.Seg.Zero1, c.Seg.FailAt))
		o.Sample("%s over %+q: at most %d runes ahead of a segment's end", specNames(c.Seg.Breakers), clip(text, 60), maxAhead)
	}
	return nil
}

// endless delivers a text again and again.
type endless struct {
	rs  []rune
	n   int
	max int
}

func (e *endless) ReadRune() (rune, int, error) {
	if e.n >= e.max {
		return 0, 0, io.EOF
	}
	r := e.rs[e.n%len(e.rs)]
	e.n++
	return r, utf8.RuneLen(r), nil
}

func heapNow() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// runS07mem: segmenting a stream needs memory for its segments, not for its length.
func runS07mem(c streamCase, o *Obs) *Viol {
	var bs []uax.UnicodeBreaker
	for _, b := range c.Seg.Breakers {
		bs = append(bs, makeBreaker(b, 0))
	}
	s := segment.NewSegmenter(bs...)
	src := &endless{rs: []rune(string(c.Seg.Text)), max: c.Long}
	if len(src.rs) == 0 {
		return nil
	}
	s.Init(src)
	var early int64
	longest, segs := 0, 0
	mark := c.Long / 4
	next := mark + mark/4
	for s.Next() {
		segs++
		if l := len(s.Runes()); l > longest {
			longest = l
		}
		if early == 0 && src.n >= mark {
			early = heapNow()
			tick()
		} else if early > 0 && src.n >= next && src.n < c.Long {
			next += mark / 4
			tick()
			if heapNow()-early > 40000 {
				break
			}
		}
		if segs%4096 == 0 {
			tick()
		}
		if longest > 2000 || src.n < c.Long && src.n-0 >= c.Long*7/8 {
			break
		}
	}
	if longest > 2000 || early == 0 || s.Err() != nil || src.n >= c.Long {
		o.Add("streams_with_endless_segments", 1)
		return nil
	}
	late := heapNow()
	runtime.KeepAlive(s)
	grown := late - early
	o.Add("stream_runes", src.n)
	o.Add("streams", 1)
	if grown > o.Events["max_heap_growth_of_a_stream"] {
		o.Events["max_heap_growth_of_a_stream"] = grown
	}
	if grown > 40000 {
		return violf("memory", "stream of %+q over and over, breakers %s: after %d runes and %d segments (at most %d runes long) %d bytes are in use, %d more than after %d runes",
			clip(string(c.Seg.Text), 200), specNames(c.Seg.Breakers), src.n, segs, longest, late, grown, mark)
	}
	o.Nontrivial("stream", string(c.Seg.Text), specNames(c.Seg.Breakers))
	return nil
}

func clipRunes(rs []rune, n int) []rune {
	if len(rs) > n {
		return rs[:n]
	}
	return rs
}

func genS07(i int, r *rand.Rand, tier string) interface{} {
	every := 100
	if i%every == every-1 {
		rs := noNul(genAny(r, 2+r.Intn([]int{4, 10, 40}[r.Intn(3)])))
		half := r.Intn(2) == 0
		if half { // things which have begun, but do not come to the end
			rs = nil
			for k := 1 + r.Intn(3); k > 0; k-- {
				f := frames[r.Intn(len(frames))]
				rs = append(rs, []rune(f[0])...)
				for n := r.Intn(3); n > 0; n-- {
					rs = append(rs, pick(r, "\u0301\u200d\u00ad\ufe0f"+f[2]))
				}
				if r.Intn(2) == 0 {
					rs = append(rs, []rune(f[1])[0])
				}
				if r.Intn(3) > 0 {
					rs = append(rs, pick(r, "a1 .\u00e9\u05d0"))
				}
			}
		}
		if r.Intn(4) == 0 && !half {
			rs = append(rs, '\n')
		}
		c := streamCase{Long: 12000 + r.Intn(28000)}
		if genLine != nil && r.Intn(3) == 0 { // (long runs without newlines take the line breaker too long)
			rs = noNul(genLine(r, 2+r.Intn([]int{4, 10, 40}[r.Intn(3)])))
			rs = append(clipRunes(rs, 60), []rune{'\n', 0x2028}[r.Intn(2)])
			c.Seg.Text = q2(rs)
			c.Seg.Breakers = []brkSpec{{Kind: "line"}}
			return c
		}
		c.Seg.Text = q2(rs)
		c.Seg.Breakers = genBreakers(r, 0, false)
		if len(c.Seg.Breakers) > 2 {
			c.Seg.Breakers = c.Seg.Breakers[:2]
		}
		return c
	}
	if i%10000 == 777 {
		return streamCase{Seg: genLate(r)}
	}
	n := longLen(r)
	line := genLine != nil && r.Intn(6) == 0
	if line && n > 60 {
		n = 60
	}
	c := segCase{Text: q2(noNul(genAny(r, n))), Zero0: r.Intn(6) == 0, Zero1: r.Intn(6) == 0}
	c.Breakers = genBreakers(r, n, true)
	if line {
		if r.Intn(3) > 0 {
			c.Text = q2(noNul(clipRunes(genLine(r, n), n)))
			n = len([]rune(string(c.Text)))
			c.Breakers = nil
		}
		c.Breakers = append(c.Breakers, brkSpec{Kind: "line"})
		r.Shuffle(len(c.Breakers), func(i, j int) { c.Breakers[i], c.Breakers[j] = c.Breakers[j], c.Breakers[i] })
	}
	if r.Intn(8) == 0 {
		c.FailAt = 1 + r.Intn(n+1)
	}
	if r.Intn(3) == 0 {
		b, l := 0, len(string(c.Text))
		for k := 1 + r.Intn(4); k > 0; k-- {
			b += r.Intn(l/2 + 3)
			st := boundStep{b, -1}
			if r.Intn(3) == 0 {
				st.N = 1 + r.Intn(3)
			}
			c.Steps = append(c.Steps, st)
		}
	}
	return streamCase{Seg: c}
}

func shrinkS07(x interface{}) []interface{} {
	c := x.(streamCase)
	if c.Long > 0 {
		return nil
	}
	var out []interface{}
	for _, y := range shrinkSeg(c.Seg) {
		out = append(out, streamCase{Seg: y.(segCase)})
	}
	return out
}

func init() {
	register(&Prop{ID: "S07", Rule: "a text of at least two runes read from a counting source, or a long stream; distinct pairs of text and use are counted",
		N: tierN(60000, 900000), Gen: genS07, Decode: decodeAs[streamCase](), Shrink: shrinkS07, HangSecs: 120,
		Run:         func(c interface{}, o *Obs) *Viol { return runS07(c.(streamCase), o) },
		Assumptions: []string{"breakers answer as soon as they are told a rune (their answers are recorded and taken as given)"}})
}
