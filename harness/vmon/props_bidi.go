package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/verif/ref"
	xb "golang.org/x/text/unicode/bidi"
)

// --- bidi: workloads, recording, reference model ---------------------------------------------

// bidiMark is out-of-line markup: "L" (LRI), "R" (RLI), "P" (PDI), "PL", "PR".
type bidiMark struct {
	Pos  int    `json:"p"` // number of runes before it
	What string `json:"m"`
}

// bidiCut splits piece number Piece (modulo their number) before rune Pos of the piece.
type bidiCut struct {
	Edge  int  `json:"edge,omitempty"` // at the start or the end of the piece
	Piece int  `json:"n"`
	Pos   int  `json:"p"`
	Shift bool `json:"s,omitempty"`
}

type bidiCase struct {
	Text  Q          `json:"text"`
	RTL   bool       `json:"rtl,omitempty"`
	Join  bool       `json:"join,omitempty"` // ignore paragraph separators
	Test  bool       `json:"test,omitempty"` // upper case letters and > < = as in UAX #9
	Src   int        `json:"src,omitempty"`
	Marks []bidiMark `json:"marks,omitempty"`
	Cuts  []bidiCut  `json:"cuts,omitempty"`
	Ord   int64      `json:"ord,omitempty"`
	Over  int        `json:"over,omitempty"` // options which are given twice, first with the opposite value (bits)
}

func (c bidiCase) dir() bidi.Direction {
	if c.RTL {
		return bidi.RightToLeft
	}
	return bidi.LeftToRight
}

var bidiClassOf = map[xb.Class]ref.BC{xb.L: ref.BL, xb.R: ref.BR, xb.AL: ref.BAL, xb.EN: ref.BEN, xb.ES: ref.BES,
	xb.ET: ref.BET, xb.AN: ref.BAN, xb.CS: ref.BCS, xb.NSM: ref.BNSM, xb.BN: ref.BBN, xb.WS: ref.BWS, xb.S: ref.BWS,
	xb.B: ref.BWS, xb.ON: ref.BON, xb.LRI: ref.BLRI, xb.RLI: ref.BRLI, xb.FSI: ref.BFSI, xb.PDI: ref.BPDI}

// bidiTok is a character of a paragraph or a piece of markup (n = 0).
type bidiTok struct {
	off, n int
	ref.BidiChar
}

func isIsolate(c ref.BC) bool {
	return c == ref.BLRI || c == ref.BRLI || c == ref.BFSI || c == ref.BPDI
}

// tokens lists the characters and the markup of the (first) paragraph of a text.
// ok is false if it has explicit embeddings, which are not supported.
func (c bidiCase) tokens() (toks []bidiTok, end int, ok bool) {
	text := string(c.Text)
	marks := c.markMap()
	ok = true
	mark := func(at int) {
		for _, m := range marks[at] {
			cl := map[rune]ref.BC{'L': ref.BLRI, 'R': ref.BRLI, 'P': ref.BPDI}[m]
			toks = append(toks, bidiTok{off: at, BidiChar: ref.BidiChar{Class: cl}})
		}
	}
	for end < len(text) {
		r, n := utf8.DecodeRuneInString(text[end:])
		p, _ := xb.LookupRune(r)
		cl, known := bidiClassOf[p.Class()]
		if p.Class() == xb.B && !c.Join {
			mark(end)
			return toks, end, ok
		}
		t := bidiTok{off: end, n: n, BidiChar: ref.BidiChar{Class: cl}}
		t.Bracket, t.Pair = ref.BidiBracket(r)
		if !known {
			ok = false
		}
		if c.Test {
			switch {
			case unicode.IsUpper(r):
				t.Class = ref.BR
			case r == '>':
				t.Class = ref.BLRI
			case r == '<':
				t.Class = ref.BRLI
			case r == '=':
				t.Class = ref.BPDI
			}
		}
		mark(end)
		toks = append(toks, t)
		end += n
	}
	mark(end)
	return toks, end, ok
}

// markMap gives the markup by byte position.
func (c bidiCase) markMap() map[int]string {
	if len(c.Marks) == 0 {
		return nil
	}
	var pos []int
	for at := 0; ; {
		pos = append(pos, at)
		if at >= len(c.Text) {
			break
		}
		_, n := utf8.DecodeRuneInString(string(c.Text)[at:])
		at += n
	}
	mm := map[int]string{}
	for _, m := range c.Marks {
		if m.Pos >= 0 && m.Pos < len(pos) {
			mm[pos[m.Pos]] = m.What
		}
	}
	return mm
}

// balanced tells whether all isolates are closed and nested at most max deep.
func balanced(toks []bidiTok, max int) bool {
	d := 0
	for _, t := range toks {
		switch t.Class {
		case ref.BLRI, ref.BRLI, ref.BFSI:
			if d++; d > max {
				return false
			}
		case ref.BPDI:
			if d--; d < 0 {
				return false
			}
		}
	}
	return d == 0
}

func refLevels(toks []bidiTok, rtl bool) []int {
	cs := make([]ref.BidiChar, len(toks))
	for i, t := range toks {
		cs[i] = t.BidiChar
	}
	para := 0
	if rtl {
		para = 1
	}
	return ref.BidiLevels(cs, para)
}

// chunkReader delivers pieces of random size, possibly with delays, or the end together with data.
type chunkReader struct {
	s    string
	r    *rand.Rand
	eof  bool
	max  int
	zero bool  // may deliver nothing
	err  error // instead of the end
}

func (c *chunkReader) Read(p []byte) (int, error) {
	end := io.EOF
	if c.err != nil {
		end = c.err
	}
	if len(c.s) == 0 {
		if c.err != nil { // does not count any more
			c.s = "x \u05d0"
		}
		return 0, end
	}
	if c.zero && c.r.Intn(4) == 0 {
		return 0, nil
	}
	n := 1 + c.r.Intn(c.max)
	if n > len(c.s) {
		n = len(c.s)
	}
	n = copy(p, c.s[:n])
	c.s = c.s[n:]
	switch c.r.Intn(8) {
	case 0:
		runtime.Gosched()
	case 1:
		if c.r.Intn(8) == 0 {
			time.Sleep(time.Duration(c.r.Intn(60)) * time.Microsecond)
		}
	}
	if c.eof && len(c.s) == 0 {
		if c.err != nil {
			c.s = "x \u05d0"
		}
		return n, end
	}
	return n, nil
}

const bidiSources = 9

func (c bidiCase) reader() io.Reader {
	s := string(c.Text)
	r := rand.New(rand.NewSource(int64(len(s))*31 + int64(c.Src)))
	switch c.Src % bidiSources {
	case 1:
		return &chunkReader{s: s, r: r, max: 1}
	case 2:
		return &chunkReader{s: s, r: r, max: 7}
	case 3:
		return &chunkReader{s: s, r: r, max: 3, eof: true}
	case 4:
		return bytes.NewReader([]byte(s))
	case 5:
		return &chunkReader{s: s, r: r, max: 5000, eof: true}
	case 6:
		return &chunkReader{s: s, r: r, max: 30, zero: true}
	case 7: // fails
		return &chunkReader{s: s, r: r, max: 100, err: io.ErrUnexpectedEOF}
	case 8: // fails, together with the last piece
		return &chunkReader{s: s, r: r, max: 20, zero: true, eof: true, err: errInjected}
	}
	return strings.NewReader(s)
}

var errBadRange = errors.New("bad range")

func (c bidiCase) resolve() *bidi.ResolvedLevels { return c.resolveAsking(nil) }

// resolveAsking resolves; asked is told the positions for which the resolver asks for markup.
func (c bidiCase) resolveAsking(asked func(uint64)) *bidi.ResolvedLevels {
	var first, opts []bidi.Option
	if c.Over&1 != 0 {
		first = append(first, bidi.DefaultDirection(1-c.dir()))
	}
	if c.Over&2 != 0 {
		first = append(first, bidi.IgnoreParagraphSeparators(!c.Join))
	}
	if c.Over&4 != 0 {
		first = append(first, bidi.TestMode(!c.Test))
	}
	if c.RTL || c.Over&1 != 0 || c.Src%2 == 1 {
		opts = append(opts, bidi.DefaultDirection(c.dir()))
	}
	if c.Join || c.Over&2 != 0 || c.Over&8 != 0 {
		opts = append(opts, bidi.IgnoreParagraphSeparators(c.Join))
	}
	if c.Test || c.Over&4 != 0 || c.Over&16 != 0 {
		opts = append(opts, bidi.TestMode(c.Test))
	}
	if len(opts) == 2 && c.Src%3 == 0 {
		opts[0], opts[1] = opts[1], opts[0]
	}
	opts = append(first, opts...)
	if c.Over&32 != 0 { // documented to have no effect
		opts = append(opts, bidi.RecognizeLegacy(c.Over&64 != 0))
	}
	var mk bidi.OutOfLineBidiMarkup
	if mm := c.markMap(); mm != nil {
		mk = func(pos uint64) int {
			if asked != nil {
				asked(pos)
			}
			switch mm[int(pos)] {
			case "L":
				return bidi.MarkupLRI
			case "R":
				return bidi.MarkupRLI
			case "P":
				return bidi.MarkupPDI
			case "PL":
				return bidi.MarkupPDILRI
			case "PR":
				return bidi.MarkupPDIRLI
			}
			return 0
		}
	}
	return bidi.ResolveParagraph(c.reader(), mk, opts...)
}

// bseg is a segment of text as delivered for output.
type bseg struct {
	dir  bidi.Direction
	l, r int
}

// bidiSegs follows the documented procedure for visual output on a device with direction dev.
func bidiSegs(ord *bidi.Ordering, dev bidi.Direction, size int) ([]bseg, error) {
	var out []bseg
	for i := range ord.Runs {
		run := &ord.Runs[i]
		it := run.SegmentIterator(run.IsOpposite(dev))
		for it.Next() {
			d, l, r := it.Segment()
			if l > r || r > uint64(size) {
				return out, errBadRange
			}
			out = append(out, bseg{d, int(l), int(r)})
		}
	}
	return out, nil
}

// visual lists the byte positions of the characters of a piece of the text from left to right, with their
// directions, leaving out isolates and boundary neutrals. base is added to the segments' positions.
func visual(segs []bseg, toks []bidiTok, dev bidi.Direction, base int) (pos []int, dirs []bidi.Direction) {
	at := map[int]bidiTok{}
	for _, t := range toks {
		if t.n > 0 {
			at[t.off] = t
		}
	}
	for _, s := range segs {
		var seg []int
		for p := s.l + base; p < s.r+base; {
			t, ok := at[p]
			if !ok {
				return append(pos, -p), dirs // not the start of a character
			}
			if !isIsolate(t.Class) && t.Class != ref.BBN {
				seg = append(seg, p)
			}
			p += t.n
		}
		if s.dir != dev {
			reverseInts(seg)
		}
		for range seg {
			dirs = append(dirs, s.dir)
		}
		pos = append(pos, seg...)
	}
	if dev == bidi.RightToLeft {
		reverseInts(pos)
		for a, b := 0, len(dirs)-1; a < b; a, b = a+1, b-1 {
			dirs[a], dirs[b] = dirs[b], dirs[a]
		}
	}
	return
}

func reverseInts(s []int) {
	for a, b := 0, len(s)-1; a < b; a, b = a+1, b-1 {
		s[a], s[b] = s[b], s[a]
	}
}

// refVisual is the visual order (rule L2) of tokens [a,b) by the reference levels.
func refVisual(toks []bidiTok, levels []int, a, b int) (pos []int, dirs []bidi.Direction) {
	for _, i := range ref.BidiVisual(levels[a:b]) {
		t := toks[a+i]
		if isIsolate(t.Class) {
			continue
		}
		pos = append(pos, t.off)
		dirs = append(dirs, bidi.Direction(levels[a+i]%2))
	}
	return
}

func sameOrder(p1, p2 []int, d1, d2 []bidi.Direction) bool {
	if len(p1) != len(p2) || len(d1) != len(d2) {
		return false
	}
	for i := range p1 {
		if p1[i] != p2[i] || d1[i] != d2[i] {
			return false
		}
	}
	return true
}

func showOrder(text string, pos []int, dirs []bidi.Direction) string {
	var b strings.Builder
	for i, p := range pos {
		if i < len(dirs) && (i == 0 || dirs[i] != dirs[i-1]) {
			fmt.Fprintf(&b, " %s:", dirs[i])
		}
		if p < 0 || p >= len(text) {
			fmt.Fprintf(&b, " !%d", p)
			continue
		}
		r, _ := utf8.DecodeRuneInString(text[p:])
		fmt.Fprintf(&b, " %d%+q", p, r)
	}
	return clip(b.String(), 600)
}

// runtimes of goroutines of the resolver end shortly after it has returned
func settle(base int) bool {
	for k := 0; k < 4000; k++ {
		if runtime.NumGoroutine() <= base {
			return true
		}
		if k < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
	return false
}

// --- workloads

var bidiPicks = map[xb.Class]string{
	xb.L: "abcdxyzéß中文가ก", xb.R: "אבגדהושת߀ࠀ", xb.AL: "ابتجدسمنیܐ", xb.EN: "0123456789²۱۲𝟎", xb.ES: "+-−﬩", xb.ET: "$%#°€£‰",
	xb.AN: "٠١٢٣٫٬\u0600", xb.CS: ".,:/\u00a0،", xb.NSM: "\u0301\u0308\u05b0\u064b\u20d0\ufe0f", xb.BN: "\u200d\u00ad\u200b\u2060\u0001",
	xb.B: "\n\r\u2029\u0085\x1c", xb.S: "\t\v\x1f", xb.WS: " \u2003\u3000\f\u2028", xb.ON: "!?\"'&*;=<>@…“”«»→😀|",
	xb.LRI: "\u2066", xb.RLI: "\u2067", xb.FSI: "\u2068", xb.PDI: "\u2069", xb.LRE: "\u202a", xb.RLE: "\u202b", xb.LRO: "\u202d", xb.RLO: "\u202e", xb.PDF: "\u202c",
}

var bidiMembers struct {
	sync.Once
	m map[xb.Class][]rune
}

func bidiRune(r *rand.Rand, c xb.Class) rune {
	if r.Intn(8) > 0 {
		return pick(r, bidiPicks[c])
	}
	bidiMembers.Do(func() {
		bidiMembers.m = map[xb.Class][]rune{}
		for q := rune(1); q <= unicode.MaxRune; q++ {
			if q >= 0xd800 && q < 0xe000 || q >= 0x30000 && q < 0xe0000 {
				continue
			}
			p, n := xb.LookupRune(q)
			if n > 0 && !(c == xb.ON && p.IsBracket()) {
				bidiMembers.m[p.Class()] = append(bidiMembers.m[p.Class()], q)
			}
		}
	})
	m := bidiMembers.m[c]
	return m[r.Intn(len(m))]
}

var bidiPairList = []rune("()[]{}()[]<>«»〈〉\u2329\u232a⟨⟩「」（）｢｣⸨⸩༺༻⦅⦆\u298d\u2990")

var bidiWords = []string{"abc", "x", "Hello", "שלום", "א", "עולם", "سلام", "ب", "كتاب", "123", "4", "3.14", "1,000", "-5", "$10", "50%", "+1", "٣٤٥", "١", "٣٫١٤",
	" ", " ", " ", " ", " ", ", ", ". ", "-", "/", ":", "!", "?", "…", "\"", "'", "(", ")", "[", "]", "{", "}", "e\u0301", "\u05e9\u05bc", "a\u200db", "\u00ad", "\t", "&", "😀", "(a)", "[א]", "(1)", "«ب»",
	"b(א)c", "א(b)ג", "[٣]"}

type bidiGen struct {
	iso      int // 0 none, 1 balanced, 2 any
	embed    bool
	sep      bool // paragraph separators
	maxDepth int
}

func (g bidiGen) text(r *rand.Rand, n int) []rune {
	base := []xb.Class{xb.L, xb.R, xb.AL, xb.EN, xb.ES, xb.ET, xb.AN, xb.CS, xb.NSM, xb.BN, xb.WS, xb.ON, xb.S, xb.ON}
	weights := base
	style := r.Intn(8)
	if style < 3 { // few classes, dense interaction
		weights = nil
		for k := 2 + r.Intn(4); k > 0; k-- {
			weights = append(weights, base[r.Intn(len(base))])
		}
		if r.Intn(2) == 0 {
			weights = append(weights, xb.L, xb.R)
		}
	}
	if g.embed {
		weights = append(append([]xb.Class{}, weights...), []xb.Class{xb.LRE, xb.RLE, xb.LRO, xb.RLO, xb.PDF}...)
	}
	if g.sep {
		weights = append(append([]xb.Class{}, weights...), xb.B)
	}
	brack := r.Intn(3)
	isoRate := 4 + r.Intn(12)
	var out []rune
	depth := 0
	pairs := bidiPairList
	if r.Intn(8) == 0 { // any of the pairs
		pairs = nil
		for k := 1 + r.Intn(3); k > 0; k-- {
			p := ref.BidiBrackets[r.Intn(len(ref.BidiBrackets))]
			pairs = append(pairs, p[0], p[1])
		}
	}
	pair := 2 * r.Intn(len(pairs)/2)
	var open []rune
	for len(out) < n {
		if g.iso > 0 && r.Intn(isoRate) == 0 {
			if depth > 0 && r.Intn(2) == 0 {
				out = append(out, 0x2069)
				depth--
				continue
			}
			if g.iso == 2 && r.Intn(4) == 0 {
				out = append(out, 0x2069)
				continue
			}
			if depth < g.maxDepth {
				out = append(out, []rune{0x2066, 0x2067, 0x2068}[r.Intn(3)])
				depth++
				continue
			}
		}
		if brack > 0 && r.Intn(4) == 0 || style == 3 && r.Intn(2) == 0 {
			k := pair + r.Intn(2)
			if r.Intn(4) == 0 {
				k = r.Intn(len(pairs))
			}
			if brack == 2 { // mostly well nested
				if len(open) > 0 && r.Intn(2) == 0 {
					out = append(out, open[len(open)-1])
					open = open[:len(open)-1]
					continue
				}
				k &^= 1
				open = append(open, pairs[k+1])
			}
			out = append(out, pairs[k])
			continue
		}
		if style >= 6 {
			out = append(out, []rune(bidiWords[r.Intn(len(bidiWords))])...)
			continue
		}
		c := weights[r.Intn(len(weights))]
		rep := 1
		if r.Intn(12) == 0 {
			rep = 1 + r.Intn(5)
		}
		for ; rep > 0; rep-- {
			out = append(out, bidiRune(r, c))
		}
	}
	for len(open) > 0 && brack == 2 && r.Intn(8) > 0 {
		out = append(out, open[len(open)-1])
		open = open[:len(open)-1]
	}
	if g.iso == 1 {
		for ; depth > 0; depth-- {
			out = append(out, 0x2069)
		}
	}
	return out
}

func bidiLen(r *rand.Rand, tier string) int {
	switch r.Intn(24) {
	case 0:
		return r.Intn(3)
	case 1, 2:
		return 20 + r.Intn(60)
	case 3:
		return 100 + r.Intn(400)
	case 4:
		if tier == "thorough" && r.Intn(20) == 0 {
			return 3000 + r.Intn(3000)
		}
		if r.Intn(20) == 0 {
			return 1000 + r.Intn(1500)
		}
	}
	return 1 + r.Intn(16)
}

// special texts: deep nesting of brackets or isolates
func bidiDeep(r *rand.Rand) []rune {
	n := []int{3, 20, 40, 55}[r.Intn(4)]
	if r.Intn(2) == 0 { // brackets around the limit of BD16
		n = 58 + r.Intn(10)
		o, c := "(", ")"
		if r.Intn(3) == 0 {
			o, c = "[", "]"
		}
		fill := []string{"", "a", "א", " "}[r.Intn(4)]
		pre, in := pick(r, "aא1 "), pick(r, "aא1 ")
		s := string(pre)
		for i := 0; i < n; i++ {
			s += o
			if r.Intn(8) == 0 {
				s += fill
			}
		}
		s += string(in)
		for i := 0; i < n; i++ {
			s += c
			if r.Intn(16) == 0 {
				s += string(pick(r, "aא1 "))
			}
		}
		return []rune(s + "(" + string(pick(r, "aא")) + ")" + string(pick(r, "aא")))
	}
	var out []rune
	for i := 0; i < n; i++ {
		out = append(out, pick(r, "aא1 ("), []rune{0x2066, 0x2067, 0x2068}[r.Intn(3)])
	}
	out = append(out, pick(r, "aא1 "))
	for i := 0; i < n; i++ {
		out = append(out, 0x2069, pick(r, "aא1 )"))
	}
	return out
}

// bidiHuge makes a text of more than 64 KiB of not too many runs.
func bidiHuge(r *rand.Rand) []rune {
	var out []rune
	n, depth := 0, 0
	for n < 66000+r.Intn(40000) {
		var q rune
		switch x := r.Intn(10); {
		case x == 0:
			q = 0x2066 + rune(r.Intn(3))
			depth++
		case x == 1 && depth > 0:
			q = 0x2069
			depth--
		default:
			q = pick(r, "aאب1٣ ,+()")
			for k := r.Intn(3000); k > 0 && q > '+'; k-- {
				out = append(out, q)
				n += utf8.RuneLen(q)
			}
		}
		out = append(out, q)
		n += utf8.RuneLen(q)
	}
	for ; depth > 0; depth-- {
		out = append(out, 0x2069)
	}
	return append(out, pick(r, "aא1"), '(', pick(r, "aא1"), ')', pick(r, "aא1"))
}

// exhaustive class sequences
var bidiEnum = []rune("aאب1+$٣,\u0301\u200d (])")
var bidiEnumClass = []xb.Class{xb.L, xb.R, xb.AL, xb.EN, xb.ES, xb.ET, xb.AN, xb.CS, xb.NSM, xb.BN, xb.WS}

func bidiEnumCount(k int) int {
	n := 0
	for m, p := 1, len(bidiEnum); m <= k; m, p = m+1, p*len(bidiEnum) {
		n += p
	}
	return n
}

// bidiSeq gives the i-th sequence of character classes, with random members.
func bidiSeq(i int, r *rand.Rand) []rune {
	b := len(bidiEnum)
	k, p := 1, b
	for i >= p {
		i -= p
		k++
		p *= b
	}
	var out []rune
	for ; k > 0; k-- {
		e := i % b
		if e < len(bidiEnumClass) {
			out = append(out, bidiRune(r, bidiEnumClass[e]))
		} else {
			out = append(out, bidiEnum[e])
		}
		i /= b
	}
	return out
}

func shrinkBidi(c interface{}) []interface{} {
	bc := c.(bidiCase)
	var out []interface{}
	if bc.Over != 0 {
		d := bc
		d.Over = 0
		out = append(out, d)
	}
	for i := range bc.Cuts {
		d := bc
		d.Cuts = append(append([]bidiCut{}, bc.Cuts[:i]...), bc.Cuts[i+1:]...)
		out = append(out, d)
	}
	for i := range bc.Marks {
		d := bc
		d.Marks = append(append([]bidiMark{}, bc.Marks[:i]...), bc.Marks[i+1:]...)
		out = append(out, d)
	}
	if bc.Src != 0 {
		d := bc
		d.Src = 0
		out = append(out, d)
	}
	if utf8.ValidString(string(bc.Text)) {
		for _, t := range shrinkRunes([]rune(string(bc.Text))) {
			d := bc
			d.Text = q2(t)
			out = append(out, d)
		}
		rs := []rune(string(bc.Text))
		for i, r := range rs { // a pair of isolates
			if r == 0x2066 || r == 0x2067 || r == 0x2068 {
				d := 0
				for j := i; j < len(rs); j++ {
					switch rs[j] {
					case 0x2066, 0x2067, 0x2068:
						d++
					case 0x2069:
						d--
					}
					if d == 0 {
						e := bc
						e.Text = q2(append(append(append([]rune{}, rs[:i]...), rs[i+1:j]...), rs[j+1:]...))
						out = append(out, e)
						e.Text = q2(append(append([]rune{}, rs[:i]...), rs[j+1:]...))
						out = append(out, e)
						break
					}
				}
			}
		}
	} else {
		s := string(bc.Text)
		for size := len(s) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(s); at += size {
				d := bc
				d.Text = Q(s[:at] + s[at+size:])
				out = append(out, d)
			}
		}
	}
	return out
}

// --- B01: every byte of the paragraph appears exactly once -----------------------------------

func checkCoverage(ord *bidi.Ordering, text string, from, to int, dev bidi.Direction) *Viol {
	var segs []bseg
	for i := range ord.Runs {
		run := &ord.Runs[i]
		sum := int64(0)
		it := run.SegmentIterator(run.IsOpposite(dev))
		for it.Next() {
			d, l, r := it.Segment()
			if l >= r || r > uint64(to) || l < uint64(from) {
				return violf("coverage", "a run has the segment %d…%d, the text is %d…%d", l, r, from, to)
			}
			if d != run.Dir {
				return violf("direction", "a segment of a run with direction %s has direction %s", run.Dir, d)
			}
			sum += int64(r - l)
			segs = append(segs, bseg{d, int(l), int(r)})
		}
		if sum != run.Length {
			return violf("length", "a run of length %d has segments of %d bytes altogether: %s", run.Length, sum, run)
		}
	}
	sort.Slice(segs, func(a, b int) bool { return segs[a].l < segs[b].l })
	at := from
	for _, s := range segs {
		if s.l != at {
			return violf("coverage", "the ordering has %v, byte %d is missing or there twice (text %d…%d)", ord.Runs, at, from, to)
		}
		if s.r < len(text) && !runeBoundary(text, s.r) {
			return violf("coverage", "a segment ends at %d, within a character", s.r)
		}
		at = s.r
	}
	if at != to {
		return violf("coverage", "the ordering has %v, text is missing from byte %d (text %d…%d)", ord.Runs, at, from, to)
	}
	return nil
}

func runeBoundary(s string, p int) bool {
	at := p - 4
	if at < 0 {
		at = 0
	}
	// find a position known to be a boundary by decoding from a lead byte
	for q := p - 1; q >= at; q-- {
		if utf8.RuneStart(s[q]) {
			_, n := utf8.DecodeRuneInString(s[q:])
			return q+n <= p || n == 1
		}
	}
	return true
}

func runB01(c bidiCase, o *Obs) *Viol {
	base := runtime.NumGoroutine()
	_, end, embed := c.tokens()
	rl := c.resolve()
	if s := fmt.Sprint(rl); s == "" && end > 0 {
		return violf("string", "resolved levels of %+q print as an empty string", c.Text)
	}
	ord := rl.Reorder()
	if v := checkCoverage(ord, string(c.Text), 0, end, c.dir()); v != nil {
		v.Msg = fmt.Sprintf("text %+q, rtl=%v join=%v marks=%v: %s (levels %v)", clip(string(c.Text), 300), c.RTL, c.Join, c.Marks, v.Msg, clip(rl.String(), 500))
		return v
	}
	for i := 0; i < end; i += 1 + end/40 {
		rl.DirectionAt(uint64(i))
	}
	if !settle(base) {
		return violf("leak", "text %+q: %d goroutines before, %d after resolving", clip(string(c.Text), 300), base, runtime.NumGoroutine())
	}
	o.Add("paragraphs", 1)
	o.Add("bytes", end)
	o.Add("runs", len(ord.Runs))
	if !embed {
		o.Add("with_embedding_controls", 1)
	}
	if !utf8.ValidString(string(c.Text)) {
		o.Add("ill_formed", 1)
	}
	if end < len(c.Text) {
		o.Add("ended_by_separator", 1)
	}
	if len(ord.Runs) > 1 {
		o.Nontrivial(c.Text, c.RTL, c.Join, c.Marks)
		o.Sample("%+q: %v", clip(string(c.Text), 60), ord.Runs)
	}
	return nil
}

func genB01(i int, r *rand.Rand, tier string) interface{} {
	g := bidiGen{iso: r.Intn(3), embed: r.Intn(4) == 0, sep: r.Intn(3) == 0, maxDepth: 40}
	c := bidiCase{RTL: r.Intn(2) == 0, Join: r.Intn(2) == 0, Test: r.Intn(10) == 0, Src: r.Intn(bidiSources)}
	if r.Intn(6) == 0 {
		c.Over = r.Intn(128)
	}
	n := bidiLen(r, tier)
	rs := g.text(r, n)
	switch r.Intn(20) {
	case 0:
		if rs = bidiDeep(r); r.Intn(8) == 0 {
			rs = bidiRepeat(r)
		}
		if r.Intn(2) == 0 {
			rs = rs[:r.Intn(len(rs))]
		}
	case 1:
		rs = genAny(r, n)
	case 2, 3, 4, 5, 6: // all short sequences of isolates and a few classes
		al := []rune("aא1 (\u2066\u2067\u2068\u2069\u2069\u0301")
		rs = nil
		for k := 1 + r.Intn(7); k > 0; k-- {
			rs = append(rs, al[r.Intn(len(al))])
		}
	}
	if i%40000 == 3999 {
		rs = bidiHuge(r)
	}
	s := string(rs)
	if r.Intn(4) == 0 {
		s = spoil(r, s)
	}
	c.Text = Q(s)
	if r.Intn(4) == 0 {
		c.Marks = genMarks(r, len(rs), false)
	}
	return c
}

func genMarks(r *rand.Rand, n int, bal bool) []bidiMark {
	var ms []bidiMark
	depth := 0
	p := r.Intn(n/3 + 1)
	if r.Intn(3) == 0 {
		p = 0
	}
	for p <= n && len(ms) < 12 {
		k := []string{"L", "R", "P", "PL", "PR"}[r.Intn(5)]
		if bal {
			if depth == 0 {
				k = k[len(k)-1:]
				if k == "P" {
					k = "R"
				}
			}
			if depth > 0 && len(k) == 1 && r.Intn(2) == 0 {
				k = "P"
			}
			switch k {
			case "L", "R":
				depth++
			case "P":
				depth--
			}
		}
		ms = append(ms, bidiMark{p, k})
		p += 1 + r.Intn(n/3+1)
	}
	if bal {
		for depth > 0 && len(ms) > 0 { // close the rest at the end
			last := ms[len(ms)-1]
			if last.Pos < n && depth == 1 {
				ms = append(ms, bidiMark{n, "P"})
				depth--
				continue
			}
			if last.What == "P" {
				depth++
			} else if len(last.What) == 1 {
				depth--
			}
			ms = ms[:len(ms)-1]
		}
	}
	return ms
}

// --- B02: visual order follows UAX #9 --------------------------------------------------------

func runB02(c bidiCase, o *Obs) *Viol {
	toks, end, ok := c.tokens()
	if !ok {
		o.Add("skipped", 1)
		return nil
	}
	rl := c.resolve()
	if v := checkFSI(c, toks, end, rl, o); v != nil {
		return v
	}
	if !balanced(toks, 55) {
		o.Add("unbalanced_or_deep", 1)
		return nil
	}
	levels := refLevels(toks, c.RTL)
	ord := rl.Reorder()
	segs, err := bidiSegs(ord, c.dir(), end)
	if err != nil {
		return violf("order", "text %+q: %v in %v", clip(string(c.Text), 300), err, ord.Runs)
	}
	pos, dirs := visual(segs, toks, c.dir(), 0)
	wpos, wdirs := refVisual(toks, levels, 0, len(toks))
	if !sameOrder(pos, wpos, dirs, wdirs) {
		return violf("order", "text %+q, rtl=%v test=%v marks=%v: from left to right\n got %s\nwant %s\nreference levels %v\nresolved %s", clip(string(c.Text), 300), c.RTL, c.Test, c.Marks,
			showOrder(string(c.Text), pos, dirs), showOrder(string(c.Text), wpos, wdirs), clip(fmt.Sprint(levels), 300), clip(rl.String(), 400))
	}
	o.Add("paragraphs", 1)
	o.Add("characters", len(pos))
	max := 0
	for i, l := range levels {
		if l > max {
			max = l
		}
		if isIsolate(toks[i].Class) {
			o.Add("isolate_controls", 1)
		}
		if toks[i].Bracket > 0 {
			o.Add("brackets", 1)
		}
	}
	if int64(max) > o.Events["max_level"] {
		o.Events["max_level"] = int64(max)
	}
	if max > 1 || max > 0 && !c.RTL {
		o.Nontrivial(c.Text, c.RTL, c.Test)
		o.Sample("%+q rtl=%v: %s", clip(string(c.Text), 60), c.RTL, showOrder(string(c.Text), pos, dirs))
	}
	return nil
}

// checkFSI replaces first strong isolates by the isolates which they stand for (rules X5c, P2, P3).
func checkFSI(c bidiCase, toks []bidiTok, end int, rl *bidi.ResolvedLevels, o *Obs) *Viol {
	b := []byte(string(c.Text))
	var dirs []int // first strong character of every isolate
	type frame struct{ tok, strong int }
	var st []frame
	strong := make([]int, len(toks))
	done := func() {
		f := st[len(st)-1]
		strong[f.tok], st = f.strong, st[:len(st)-1]
	}
	for i, t := range toks {
		switch t.Class {
		case ref.BLRI, ref.BRLI, ref.BFSI:
			st = append(st, frame{tok: i})
		case ref.BPDI:
			if len(st) > 0 {
				done()
			}
		case ref.BL, ref.BR, ref.BAL:
			if n := len(st); n > 0 && st[n-1].strong == 0 {
				st[n-1].strong = 1
				if t.Class != ref.BL {
					st[n-1].strong = 2
				}
			}
		}
	}
	for len(st) > 0 {
		done()
	}
	for i, t := range toks {
		if t.Class == ref.BFSI && t.n == 3 {
			q := 0x2066
			if strong[i] == 2 {
				q = 0x2067
			}
			copy(b[t.off:], string(rune(q)))
			dirs = append(dirs, q)
		}
	}
	if len(dirs) == 0 {
		return nil
	}
	d := c
	d.Text = Q(b)
	got, err := bidiSegs(rl.Reorder(), c.dir(), end)
	want, err2 := bidiSegs(d.resolve().Reorder(), c.dir(), end)
	if fmt.Sprint(got, err) != fmt.Sprint(want, err2) {
		return violf("fsi", "text %+q, rtl=%v: with FSI as the isolates they stand for the order differs:\n got %s\nwant %s", clip(string(c.Text), 300), c.RTL, clip(fmt.Sprint(got, err), 600), clip(fmt.Sprint(want, err2), 600))
	}
	o.Add("first_strong_isolates", len(dirs))
	return nil
}

// bidiRepeat repeats a small text often, which makes many runs, isolates or brackets of a kind.
func bidiRepeat(r *rand.Rand) []rune {
	if r.Intn(2) == 0 {
		return bidiStretch(r)
	}
	u := bidiGen{iso: 1, maxDepth: 3}.text(r, 1+r.Intn(5))
	if r.Intn(2) == 0 {
		u = append(append([]rune{0x2066 + rune(r.Intn(3))}, u...), 0x2069)
	}
	k := []int{20, 60, 125, 250, 260, 520}[r.Intn(6)] + r.Intn(12)
	var out []rune
	for ; k > 0 && len(out) < 3000; k-- {
		out = append(out, u...)
	}
	if r.Intn(2) == 0 {
		out = append(append([]rune{pick(r, "aא1("), 0x2066 + rune(r.Intn(3))}, out...), 0x2069, pick(r, "aא1)"))
	}
	return out
}

// bidiStretch makes a text with a long run of one or two classes, or of alternating ones, in between.
func bidiStretch(r *rand.Rand) []rune {
	all := []xb.Class{xb.L, xb.R, xb.AL, xb.EN, xb.ES, xb.ET, xb.AN, xb.CS, xb.NSM, xb.BN, xb.WS, xb.ON, xb.S}
	if r.Intn(3) == 0 {
		all = []xb.Class{xb.ET, xb.NSM, xb.BN, xb.WS, xb.EN, xb.AN}
	}
	a, b := all[r.Intn(len(all))], all[r.Intn(len(all))]
	kind := r.Intn(4)
	k := edgeLen(r) % 700
	if r.Intn(2) == 0 {
		k = 5 + r.Intn(60)
	}
	some := func() []rune {
		var out []rune
		for n := r.Intn(4); n > 0; n-- {
			out = append(out, bidiRune(r, all[r.Intn(len(all))]))
		}
		return append(out, pick(r, "aאب1٣([$+, "))
	}
	out := some()
	closing := ""
	switch r.Intn(6) {
	case 0:
		out, closing = append(out, '('), ")"
	case 1:
		out, closing = append(out, 0x2066+rune(r.Intn(3))), "\u2069"
	}
	one := bidiRune(r, a)
	for i := 0; i < k; i++ {
		switch {
		case kind == 0:
			out = append(out, one)
		case kind == 1 && i%2 == 1, kind == 2 && r.Intn(5) == 0:
			out = append(out, bidiRune(r, b))
		default:
			out = append(out, bidiRune(r, a))
		}
	}
	if r.Intn(2) == 0 {
		out = append(out, pick(r, "aאب1٣)]$+, "))
	}
	out = append(out, []rune(closing)...)
	return append(out, some()...)
}

// bidiFSI nests isolates deeply within first strong isolates, which may be left open.
func bidiFSI(r *rand.Rand) []rune {
	n := []int{1, 10, 60, 126, 127, 128, 129, 255, 256, 300}[r.Intn(10)]
	out := []rune{pick(r, "aא1 "), 0x2068}
	for i := 0; i < n; i++ {
		out = append(out, []rune{0x2066, 0x2067, 0x2068}[r.Intn(3)])
		if r.Intn(3) == 0 {
			out = append(out, pick(r, "aא1 "))
		}
	}
	out = append(out, pick(r, "aא1 "))
	for i := r.Intn(3); i < n; i++ {
		if out = append(out, 0x2069); r.Intn(20) == 0 {
			out = append(out, pick(r, " 1!"))
		}
	}
	return append(out, pick(r, " 1"), pick(r, "aאبג"), pick(r, "aא"), 0x2069, pick(r, "aא"))
}

func genB02(i int, r *rand.Rand, tier string) interface{} {
	c := bidiCase{RTL: i%2 == 1, Join: r.Intn(2) == 0, Src: 0}
	k := 3
	if tier == "thorough" {
		k = 5
	}
	if j := i / 2; j < bidiEnumCount(k) {
		rs := bidiSeq(j, r)
		switch r.Intn(6) { // a context
		case 0:
			rs = append([]rune{pick(r, "aאب1")}, rs...)
		case 1:
			rs = append(append([]rune{pick(r, "aאب1 "), 0x2066 + rune(r.Intn(3))}, rs...), 0x2069, pick(r, "aאب1 "))
		}
		c.Text = q2(rs)
		return c
	}
	c.Src = r.Intn(bidiSources)
	if i%60000 > 59997 {
		c.Text, c.Join = q2(bidiHuge(r)), true
		return c
	}
	if r.Intn(6) == 0 {
		c.Over = r.Intn(128)
	}
	g := bidiGen{iso: r.Intn(2), sep: r.Intn(6) == 0, maxDepth: 40}
	rs := g.text(r, bidiLen(r, tier))
	switch r.Intn(24) {
	case 0:
		switch r.Intn(8) {
		case 0:
			rs = bidiRepeat(r)
		case 1:
			rs = bidiFSI(r)
		case 2: // unclosed and loner isolates
			rs = bidiGen{iso: 2, maxDepth: 20}.text(r, 1+r.Intn(60))
		default:
			rs = bidiDeep(r)
		}
	case 1:
		rs = noFormat(genAny(r, 1+r.Intn(40)))
	case 4:
		rs = bidiStretch(r)
	case 2, 3: // examples in the notation of UAX #9
		c.Test = true
		al := []rune("abAB12 .,!(){}?+-")
		rs = nil
		depth := 0
		for k := 1 + r.Intn(24); k > 0; k-- {
			switch q := r.Intn(10); {
			case q == 0:
				rs = append(rs, []rune{'<', '>'}[r.Intn(2)])
				depth++
			case q == 1 && depth > 0:
				rs = append(rs, '=')
				depth--
			default:
				rs = append(rs, al[r.Intn(len(al))])
			}
		}
		for ; depth > 0; depth-- {
			rs = append(rs, '=')
		}
	}
	c.Text = q2(rs)
	if r.Intn(20) == 0 {
		c.Text = Q(spoil(r, string(rs)))
	}
	return c
}

func noFormat(rs []rune) []rune {
	for i, r := range rs {
		if r >= 0x202a && r <= 0x202e || r >= 0x2066 && r <= 0x2069 {
			rs[i] = ' '
		}
	}
	return rs
}

// --- B03: markup out of line is equivalent to isolate characters -----------------------------

func runB03(c bidiCase, o *Obs) *Viol {
	toks, end, ok := c.tokens()
	if !ok {
		return nil
	}
	base := runtime.NumGoroutine()
	// the same text with isolate characters
	var b strings.Builder
	to := map[int]int{} // byte positions of inline text to those of the text
	for _, t := range toks {
		if t.n == 0 {
			b.WriteRune(map[ref.BC]rune{ref.BLRI: 0x2066, ref.BRLI: 0x2067, ref.BPDI: 0x2069}[t.Class])
			continue
		}
		to[b.Len()] = t.off
		b.WriteString(string(c.Text)[t.off : t.off+t.n])
	}
	d := c
	d.Text, d.Marks = Q(b.String()), nil
	itoks, iend, _ := d.tokens()
	var asked []uint64
	r1, r2 := c.resolveAsking(func(pos uint64) { asked = append(asked, pos) }), d.resolve()
	if len(c.Marks) > 0 {
		// clients may walk through their markup along with the text
		at := map[uint64]bool{uint64(end): true}
		for _, t := range toks {
			at[uint64(t.off)] = true
		}
		n := 0
		for i, pos := range asked {
			if !at[pos] {
				return violf("markup-query", "text %+q, marks %v: asked for markup at %d, which is no character position (of %d)", clip(string(c.Text), 300), c.Marks, pos, end)
			}
			if i > 0 && pos < asked[i-1] {
				return violf("markup-query", "text %+q, marks %v: asked for markup at %d after %d", clip(string(c.Text), 300), c.Marks, pos, asked[i-1])
			}
			if i == 0 || pos > asked[i-1] {
				n++
			}
		}
		if n != len(at) {
			return violf("markup-query", "text %+q, marks %v: asked for markup at %d of %d character positions", clip(string(c.Text), 300), c.Marks, n, len(at))
		}
		o.Add("markup_queries", n)
	}
	s1, e1 := bidiSegs(r1.Reorder(), c.dir(), end)
	s2, e2 := bidiSegs(r2.Reorder(), c.dir(), iend)
	if e1 != nil || e2 != nil {
		return violf("markup", "text %+q, marks %v: %v %v", c.Text, c.Marks, e1, e2)
	}
	p1, d1 := visual(s1, toks, c.dir(), 0)
	p2, d2 := visual(s2, itoks, c.dir(), 0)
	for i, p := range p2 {
		q, ok := to[p]
		if !ok {
			return violf("markup", "text %+q: position %d is not a character", d.Text, p)
		}
		p2[i] = q
	}
	if !sameOrder(p1, p2, d1, d2) {
		return violf("markup", "text %+q, rtl=%v, marks %v: from left to right\n got %s\nwith isolate characters instead %s\nlevels %v and %v", clip(string(c.Text), 300), c.RTL, c.Marks,
			showOrder(string(c.Text), p1, d1), showOrder(string(c.Text), p2, d2), clip(r1.String(), 300), clip(r2.String(), 300))
	}
	for q, p := range to {
		if x, y := r1.DirectionAt(uint64(p)), r2.DirectionAt(uint64(q)); x != y {
			return violf("markup-direction", "text %+q, rtl=%v, marks %v: direction at %d is %s, %s with isolate characters", clip(string(c.Text), 300), c.RTL, c.Marks, p, x, y)
		}
	}
	if v := checkCoverage(r1.Reorder(), string(c.Text), 0, end, c.dir()); v != nil {
		v.Msg = fmt.Sprintf("text %+q, rtl=%v marks=%v: %s", clip(string(c.Text), 300), c.RTL, c.Marks, v.Msg)
		return v
	}
	if !settle(base) {
		return violf("leak", "text %+q, marks %v: goroutines are left", c.Text, c.Marks)
	}
	o.Add("paragraphs", 1)
	o.Add("markups", len(toks)-len(to))
	for _, m := range c.Marks {
		o.Add("mark_"+m.What, 1)
	}
	if len(p1) > 1 {
		o.Nontrivial(c.Text, c.RTL, c.Marks)
		o.Sample("%+q %v: %s", clip(string(c.Text), 60), c.Marks, showOrder(string(c.Text), p1, d1))
	}
	return nil
}

func genB03(i int, r *rand.Rand, tier string) interface{} {
	g := bidiGen{iso: r.Intn(3), sep: r.Intn(8) == 0, maxDepth: 10}
	if r.Intn(2) == 0 {
		g.iso = 0
	}
	rs := g.text(r, bidiLen(r, tier))
	if i%200 == 199 {
		rs = bidiRepeat(r)
	}
	c := bidiCase{Text: q2(rs), RTL: r.Intn(2) == 0, Join: r.Intn(2) == 0, Src: r.Intn(bidiSources)}
	c.Marks = genMarks(r, len(rs), r.Intn(4) > 0)
	return c
}

// --- B04: accessors are pure and agree -------------------------------------------------------

func runB04(c bidiCase, o *Obs) *Viol {
	r := rand.New(rand.NewSource(c.Ord))
	toks, end, _ := c.tokens()
	rl := c.resolve()
	first := rl.Reorder()
	want, err := bidiSegs(first, c.dir(), end)
	if err != nil {
		return violf("order", "%v", err)
	}
	dirAt := make([]bidi.Direction, end)
	for i := range dirAt {
		dirAt[i] = rl.DirectionAt(uint64(i))
	}
	lv := rl.String()
	fail := func(sig, f string, a ...interface{}) *Viol {
		return violf(sig, "text %+q, rtl=%v, marks %v: %s (levels %s, runs %v)", clip(string(c.Text), 300), c.RTL, c.Marks, fmt.Sprintf(f, a...), clip(lv, 300), first.Runs)
	}
	for i := range first.Runs {
		if i > 0 && first.Runs[i].Dir == first.Runs[i-1].Dir {
			return fail("adjacent", "runs %d and %d have the same direction", i-1, i)
		}
	}
	for _, s := range want {
		for p := s.l; p < s.r; p++ {
			if dirAt[p] != s.dir {
				return fail("direction-at", "direction at %d is %s, in the ordering it is %s", p, dirAt[p], s.dir)
			}
		}
	}
	// random calls of accessors; each must give the same answers as before
	for k := 2 + r.Intn(8); k > 0; k-- {
		switch op := r.Intn(8); op {
		case 6, 7: // another paragraph
			d := c
			d.RTL, d.Marks = r.Intn(2) == 0, nil
			rs := []rune(string(c.Text))
			k := r.Intn(len(rs) + 1)
			d.Text = q2(append(append([]rune{}, rs[k:]...), rs[:k]...))
			other := d.resolve()
			other.Reorder()
			other.Split(uint64(len(d.Text)/2), true)
		case 0, 1: // another ordering
			got, err := bidiSegs(rl.Reorder(), c.dir(), end)
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				return fail("reorder-again", "reordering again gives %v instead of %v", got, want)
			}
		case 2, 3: // iterate over the runs of the first ordering in any direction
			for i := range first.Runs {
				run := &first.Runs[i]
				var fw, bw [][2]uint64
				one := func(rev bool) (l [][2]uint64, v *Viol) {
					it := run.SegmentIterator(rev)
					if _, a, b := it.Segment(); a != 0 || b != 0 || it.EOF() {
						return nil, fail("iterator", "a new iterator has the segment %d…%d, EOF %v", a, b, it.EOF())
					}
					for it.Next() {
						d, a, b := it.Segment()
						if d != run.Dir || it.Dir != run.Dir {
							return nil, fail("iterator", "direction of a segment is %s", d)
						}
						l = append(l, [2]uint64{a, b})
						if d2, a2, b2 := it.Segment(); d2 != d || a2 != a || b2 != b {
							return nil, fail("iterator", "segment changes when asked twice")
						}
						if len(l) > end+1 {
							return nil, fail("iterator", "iterator does not end")
						}
					}
					if !it.EOF() || it.Next() {
						return nil, fail("iterator", "no end at the end")
					}
					return l, nil
				}
				var v *Viol
				if r.Intn(2) == 0 {
					if fw, v = one(false); v == nil {
						bw, v = one(true)
					}
				} else {
					if bw, v = one(true); v == nil {
						fw, v = one(false)
					}
				}
				if v != nil {
					return v
				}
				for a, b := 0, len(bw)-1; a < b; a, b = a+1, b-1 {
					bw[a], bw[b] = bw[b], bw[a]
				}
				if fmt.Sprint(fw) != fmt.Sprint(bw) {
					return fail("iterator", "segments %v, backwards %v", fw, bw)
				}
			}
		case 4: // split somewhere
			if len(toks) > 0 {
				at := uint64(toks[r.Intn(len(toks))].off)
				if r.Intn(10) == 0 {
					at = uint64(end) + uint64(r.Int63n(1<<40))
					rl.DirectionAt(at)
				}
				p, s := rl.Split(at, r.Intn(2) == 0)
				p.Reorder()
				s.Reorder()
			}
		case 5:
			for i := range dirAt {
				if d := rl.DirectionAt(uint64(i)); d != dirAt[i] {
					return fail("direction-at", "direction at %d is %s, was %s before", i, d, dirAt[i])
				}
			}
		}
		o.Add("accesses", 1)
	}
	got, err := bidiSegs(first, c.dir(), end)
	if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
		return fail("ordering-changed", "the ordering has changed to %v from %v", got, want)
	}
	if rl.String() != lv {
		return fail("levels-changed", "the levels have changed to %s", rl)
	}
	// resolving the same again
	if s := fmt.Sprint(bidiSegs(c.resolve().Reorder(), c.dir(), end)); s != fmt.Sprint(want, nil) {
		return fail("again", "resolving again gives %s instead of %v", s, want)
	}
	o.Add("paragraphs", 1)
	o.Add("segments", len(want))
	if len(want) > 1 {
		o.Nontrivial(c.Text, c.RTL, c.Marks, c.Ord%97)
		o.Sample("%+q: %v", clip(string(c.Text), 60), first.Runs)
	}
	return nil
}

func genB04(i int, r *rand.Rand, tier string) interface{} {
	g := bidiGen{iso: r.Intn(3), sep: r.Intn(8) == 0, maxDepth: 20}
	rs := g.text(r, bidiLen(r, "quick"))
	if len(rs) > 300 {
		rs = rs[:300]
	}
	if r.Intn(150) == 0 {
		rs = bidiRepeat(r)
	}
	c := bidiCase{Text: q2(rs), RTL: r.Intn(2) == 0, Join: r.Intn(2) == 0, Ord: r.Int63n(1 << 40)}
	if r.Intn(4) == 0 {
		c.Marks = genMarks(r, len(rs), true)
	}
	return c
}

// --- B05: lines ------------------------------------------------------------------------------

func runB05(c bidiCase, o *Obs) *Viol {
	toks, end, ok := c.tokens()
	if !ok {
		o.Add("skipped", 1)
		return nil
	}
	rl := c.resolve()
	if v := checkFSI(c, toks, end, rl, o); v != nil {
		return v
	}
	if !balanced(toks, 55) {
		o.Add("unbalanced_or_deep", 1)
		return nil
	}
	levels := refLevels(toks, c.RTL)
	before := fmt.Sprint(bidiSegs(rl.Reorder(), c.dir(), end))
	dirAt := make([]bidi.Direction, end)
	for i := range dirAt {
		dirAt[i] = rl.DirectionAt(uint64(i))
	}
	type piece struct {
		rl       *bidi.ResolvedLevels
		from, to int // byte positions in the paragraph
		base     int // position of its coordinate 0
	}
	pieces := []piece{{rl, 0, end, 0}}
	for _, cut := range c.Cuts {
		k := cut.Piece % len(pieces)
		p := pieces[k]
		var starts []int // characters of the piece
		for _, t := range toks {
			if t.n > 0 && t.off > p.from && t.off < p.to {
				starts = append(starts, t.off)
			}
		}
		at := p.to
		if cut.Edge > 0 { // nothing to the left, or to the right
			if at = p.from; cut.Edge > 1 {
				at = p.to
			}
			o.Add("empty_lines", 1)
		}
		arg := uint64(at - p.base)
		if cut.Edge == 3 { // far behind the piece
			arg += []uint64{1, 2, 1000, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + uint64(cut.Pos), 1<<32 - uint64(at-p.base), 1<<33 - uint64(p.to-p.from), 1 << 62, 1<<64 - 1 - arg}[cut.Pos%11]
		} else if cut.Edge == 4 { // in front of the piece
			if at = p.from; at > p.base {
				at = p.base + cut.Pos%(p.from-p.base)
			}
			arg = uint64(at - p.base)
			o.Add("cuts_in_front", 1)
		}
		if cut.Edge == 0 {
			if len(starts) == 0 {
				continue
			}
			at = starts[cut.Pos%len(starts)]
			arg = uint64(at - p.base)
		}
		l, r := p.rl.Split(arg, cut.Shift)
		if l == nil || r == nil {
			return violf("split", "Split gives nil")
		}
		bound := at
		if bound < p.from {
			bound = p.from
		}
		left, right := piece{l, p.from, bound, p.base}, piece{r, bound, p.to, p.base}
		if cut.Shift {
			right.base = at
		}
		pieces = append(pieces[:k:k], append([]piece{left, right}, pieces[k+1:]...)...)
		o.Add("splits", 1)
	}
	for n, p := range pieces {
		fail := func(sig, f string, a ...interface{}) *Viol {
			return violf(sig, "text %+q, rtl=%v, marks %v, cuts %v: piece %d of %d (%d…%d, coordinates from %d): %s (levels %s)", clip(string(c.Text), 300), c.RTL, c.Marks, c.Cuts, n, len(pieces), p.from, p.to, p.base, fmt.Sprintf(f, a...), clip(p.rl.String(), 300))
		}
		ord := p.rl.Reorder()
		if v := checkCoverage(ord, string(c.Text)[p.base:], p.from-p.base, p.to-p.base, c.dir()); v != nil {
			return fail(v.Sig, "%s", v.Msg)
		}
		segs, err := bidiSegs(ord, c.dir(), end)
		if err != nil {
			return fail("order", "%v", err)
		}
		pos, dirs := visual(segs, toks, c.dir(), p.base)
		a := sort.Search(len(toks), func(i int) bool { return toks[i].off >= p.from })
		b := sort.Search(len(toks), func(i int) bool { return toks[i].off >= p.to })
		if p.to == end {
			b = len(toks)
		}
		wpos, wdirs := refVisual(toks, levels, a, b)
		if !sameOrder(pos, wpos, dirs, wdirs) {
			return fail("line-order", "from left to right\n got %s\nwant %s\nreference levels %v", showOrder(string(c.Text), pos, dirs), showOrder(string(c.Text), wpos, wdirs), clip(fmt.Sprint(levels), 300))
		}
		for i := p.from; i < p.to; i++ {
			if d := p.rl.DirectionAt(uint64(i - p.base)); d != dirAt[i] {
				return fail("line-direction", "direction at %d is %s, in the paragraph it is %s", i, d, dirAt[i])
			}
		}
		o.Add("lines", 1)
	}
	if after := fmt.Sprint(bidiSegs(rl.Reorder(), c.dir(), end)); after != before {
		return violf("split-changed", "text %+q, rtl=%v, cuts %v: ordering of the paragraph is %s after splitting, %s before", clip(string(c.Text), 300), c.RTL, c.Cuts, after, before)
	}
	if len(pieces) > 1 {
		o.Nontrivial(c.Text, c.RTL, c.Marks, c.Cuts)
		o.Sample("%+q cuts %v: %d lines", clip(string(c.Text), 60), c.Cuts, len(pieces))
	}
	return nil
}

func genB05(i int, r *rand.Rand, tier string) interface{} {
	g := bidiGen{iso: 1, maxDepth: 20}
	if r.Intn(4) == 0 {
		g.iso = 0
	}
	rs := g.text(r, bidiLen(r, "quick"))
	huge := i%20000 == 3999
	if huge {
		rs = bidiHuge(r)
	} else if i%150 == 149 {
		rs = bidiRepeat(r)
	}
	c := bidiCase{Text: q2(rs), RTL: r.Intn(2) == 0, Join: true}
	if r.Intn(6) == 0 {
		c.Marks = genMarks(r, len(rs), true)
	}
	shift := r.Intn(3)
	line := r.Intn(2) == 0 // cut lines off the front
	for k := 1 + r.Intn(5); k > 0; k-- {
		cut := bidiCut{Piece: r.Intn(50), Pos: r.Intn(1000), Shift: shift == 0 || shift == 1 && r.Intn(2) == 0}
		if line {
			cut.Piece = len(c.Cuts)
			cut.Pos = r.Intn(len(rs)/3 + 2)
		}
		if huge && len(c.Cuts) == 0 { // a line of the end of a long paragraph
			cut.Pos, cut.Shift = len(rs)-1-r.Intn(len(rs)/4), r.Intn(4) > 0
		}
		if r.Intn(12) == 0 {
			cut.Edge = 1 + r.Intn(4)
		}
		c.Cuts = append(c.Cuts, cut)
	}
	return c
}

// --- B06: concurrency of resolver and scanner ------------------------------------------------

type bidiConc struct {
	Cases [][]bidiCase `json:"cases"` // per goroutine
	Jit   int64        `json:"jit"`
}

func digestBidi(c bidiCase, yield func()) string {
	h := fnv.New64a()
	rl := c.resolve()
	yield()
	ord := rl.Reorder()
	for i := range ord.Runs {
		run := &ord.Runs[i]
		fmt.Fprint(h, run.Dir, run.Length)
		it := run.SegmentIterator(run.IsOpposite(c.dir()))
		for it.Next() {
			d, a, b := it.Segment()
			fmt.Fprint(h, d, a, b, ";")
		}
	}
	for i := 0; i < len(c.Text); i += 1 + len(c.Text)/20 {
		fmt.Fprint(h, rl.DirectionAt(uint64(i)))
	}
	l, r := rl.Split(uint64(len(c.Text)/2), false)
	fmt.Fprint(h, l.Reorder().Runs, r.Reorder().Runs)
	return fmt.Sprintf("%x", h.Sum64())
}

func runB06(c bidiConc, o *Obs) *Viol {
	base := runtime.NumGoroutine()
	got := make([][]string, len(c.Cases))
	pan := make([]interface{}, len(c.Cases))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range c.Cases {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Jit + int64(g)))
			<-start
			pan[g] = protect(func() {
				for _, b := range c.Cases[g] {
					got[g] = append(got[g], digestBidi(b, func() {
						if r.Intn(3) == 0 {
							runtime.Gosched()
						}
					}))
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	for g, p := range pan {
		if p != nil {
			return violf("panic", "goroutine %d panicked: %v", g, p)
		}
	}
	if !settle(base) {
		return violf("leak", "%d goroutines before, %d after", base, runtime.NumGoroutine())
	}
	for g, cs := range c.Cases {
		for k, b := range cs {
			d := b
			d.Src = 0
			if want := digestBidi(d, func() {}); want != got[g][k] {
				return violf("interference", "goroutine %d of %d, text %+q (source %d): the result depends on the schedule or the kind of source", g, len(c.Cases), clip(string(b.Text), 200), b.Src)
			}
			o.Add("resolved", 1)
			o.Add(fmt.Sprintf("source_%d", b.Src%bidiSources), 1)
		}
	}
	if int64(len(c.Cases)) > o.Events["max_goroutines"] {
		o.Events["max_goroutines"] = int64(len(c.Cases))
	}
	o.Nontrivial(fmt.Sprint(c))
	o.Sample("%d goroutines, first text %+q", len(c.Cases), clip(string(c.Cases[0][0].Text), 60))
	return nil
}

func genB06(i int, r *rand.Rand, tier string) interface{} {
	c := bidiConc{Jit: r.Int63n(1 << 40)}
	n := 1 + r.Intn(8)
	for g := 0; g < n; g++ {
		var cs []bidiCase
		for k := 1 + r.Intn(3); k > 0; k-- {
			bg := bidiGen{iso: r.Intn(3), sep: r.Intn(8) == 0, maxDepth: 20}
			rs := bg.text(r, 1+r.Intn(60))
			if r.Intn(3) == 0 { // brackets and isolates near the reader's end of the pipe
				rs = nil
				al := []rune("aא1 ()[]()[]\u2066\u2067\u2069")
				for q := 5 + r.Intn(60); q > 0; q-- {
					rs = append(rs, al[r.Intn(len(al))])
				}
			}
			b := bidiCase{Text: q2(rs), RTL: r.Intn(2) == 0, Join: r.Intn(2) == 0, Src: r.Intn(bidiSources)}
			if r.Intn(4) == 0 {
				b.Marks = genMarks(r, len(rs), r.Intn(2) == 0)
			}
			cs = append(cs, b)
		}
		c.Cases = append(c.Cases, cs)
	}
	return c
}

func init() {
	asm := []string{"bidirectional classes are those of golang.org/x/text (Unicode 13), as documented", "U+202A…U+202E are documented as unsupported and only take part in B01"}
	reg := func(id, rule string, n func(string) int, gen func(int, *rand.Rand, string) interface{}, run func(bidiCase, *Obs) *Viol) {
		register(&Prop{ID: id, Rule: rule, N: n, Gen: gen, Decode: decodeAs[bidiCase](),
			Run:    func(c interface{}, o *Obs) *Viol { return run(c.(bidiCase), o) },
			Shrink: shrinkBidi, HangSecs: 30, Assumptions: asm})
	}
	reg("B01", "texts with more than one directional run", tierN(400000, 2400000), genB01, runB01)
	reg("B02", "texts with characters on another level than the paragraph's", func(t string) int {
		if t == "thorough" {
			return 2*bidiEnumCount(5) + 2400000
		}
		return 2*bidiEnumCount(3) + 400000
	}, genB02, runB02)
	reg("B03", "texts with markup and more than one character", tierN(160000, 1600000), genB03, runB03)
	reg("B04", "orderings with more than one segment", tierN(240000, 1200000), genB04, runB04)
	reg("B05", "paragraphs split into at least two lines", tierN(320000, 1600000), genB05, runB05)
	register(&Prop{ID: "B06", Rule: "sets of resolvers running at the same time (distinct by texts, sources and jitter)", Race: true, Procs: 6, N: tierN(6000, 90000), Gen: genB06,
		Decode: decodeAs[bidiConc](), Run: func(c interface{}, o *Obs) *Viol { return runB06(c.(bidiConc), o) }, HangSecs: 60, Fresh: func(t string) int { return 60 }, Assumptions: asm})
}
