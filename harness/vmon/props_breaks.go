package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"unicode"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verif/ref"
)

func setupClasses() {
	grapheme.SetupGraphemeClasses()
	uax29.SetupUAX29Classes()
	emoji.SetupEmojisClasses()
}

// segmentsOf collects all the segments of a text.
func segmentsOf(seg *segment.Segmenter) []string {
	out := []string{}
	for seg.Next() {
		out = append(out, seg.Text())
		tick()
	}
	return out
}

func strs(rr [][]rune) []string {
	out := make([]string, len(rr))
	for i, r := range rr {
		out[i] = string(r)
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showSegs(s []string) string {
	if len(s) > 60 {
		s = append(append([]string{}, s[:60]...), "…")
	}
	return fmt.Sprintf("%+q", s)
}

// breakCase is either a text, or a batch: all texts of Len characters whose class
// sequence starts with Prefix (characters chosen pseudo-randomly with Seed).
type breakCase struct {
	Text   Q     `json:"text,omitempty"`
	Prefix []int `json:"prefix,omitempty"`
	Len    int   `json:"len,omitempty"`
	Seed   int64 `json:"seed,omitempty"`
	Slice  bool  `json:"slice,omitempty"`
	Hist   []Q   `json:"hist,omitempty"` // texts segmented before with the same breaker
	W      int   `json:"w,omitempty"`    // weight of the breaker
	Zero   bool  `json:"zero,omitempty"` // accept penalties of zero
}

type breakProp struct {
	classes int
	repr    func(r *rand.Rand, c int) rune
	want    func([]rune) [][]rune
	breaker func(w int) uax.UnicodeBreaker
	gen     func(r *rand.Rand, n int) []rune
	newline func(r rune) bool // a break after it is mandatory
	eotMust bool              // the break at the end of text is mandatory
	full    func(tier string) int
}

func (bp breakProp) check(c breakCase, o *Obs) *Viol {
	setupClasses()
	b := bp.breaker(c.W)
	seg := segment.NewSegmenter(b)
	seg.BreakOnZero(c.Zero, false)
	run := func(text []rune) (out []string, pen []int) {
		if c.Slice {
			seg.InitFromSlice(text)
		} else {
			seg.Init(strings.NewReader(string(text)))
		}
		for seg.Next() {
			p, _ := seg.Penalties()
			out, pen = append(out, seg.Text()), append(pen, p)
			tick()
		}
		return
	}
	one := func(text []rune) *Viol {
		want := strs(bp.want(text))
		got, pen := run(text)
		o.Add("texts", 1)
		o.Add("boundaries", len(want))
		o.Add("characters", len(text))
		if !sameStrings(got, want) {
			return violf("boundaries", "text %+q\n got  %s\n want %s (Unicode rules)", string(text), showSegs(got), showSegs(want))
		}
		at := 0
		for i, w := range want {
			at += len([]rune(w))
			must := bp.newline(text[at-1]) || bp.eotMust && i == len(want)-1
			if must && pen[i] > -infinite || pen[i] >= infinite {
				return violf("mandatory", "text %+q: break after segment %d (%+q) has penalty %d, mandatory: %v", string(text), i, w, pen[i], must)
			}
			if must {
				o.Add("mandatory_breaks", 1)
			}
		}
		if len(want) > 1 && len(want) < len(text) {
			o.Nontrivial(string(text))
		}
		return nil
	}
	if c.Len > 0 {
		r := rand.New(rand.NewSource(c.Seed))
		idx := make([]int, c.Len)
		copy(idx, c.Prefix)
		text := make([]rune, c.Len)
		for {
			for i, x := range idx {
				text[i] = bp.repr(r, x)
			}
			if v := one(text); v != nil {
				return v
			}
			k := c.Len - 1
			for ; k >= len(c.Prefix); k-- {
				if idx[k]++; idx[k] < bp.classes {
					break
				}
				idx[k] = 0
			}
			if k < len(c.Prefix) {
				return nil
			}
		}
	}
	for _, h := range c.Hist {
		if v := one([]rune(string(h))); v != nil {
			return v
		}
	}
	o.Sample("%+q", string(c.Text))
	return one([]rune(string(c.Text)))
}

func (bp breakProp) genCase(i int, r *rand.Rand, tier string) interface{} {
	// the first cases are exhaustive over class sequences
	k := bp.classes
	full := 3
	if tier == "thorough" {
		full = 4
	}
	if bp.full != nil {
		full = bp.full(tier)
	}
	// lengths 1..full+1; batches are indexed by the first two classes
	if i < k*k {
		return breakCase{Prefix: []int{i / k, i % k}, Len: full, Seed: r.Int63(), Slice: i%2 == 0, W: 1, Zero: i%3 == 0}
	}
	i -= k * k
	if i < k*k {
		return breakCase{Prefix: []int{i / k, i % k}, Len: full + 1, Seed: r.Int63(), Slice: i%2 == 0, W: 1, Zero: i%3 == 0}
	}
	c := breakCase{Text: q2(bp.gen(r, textLen(r))), Slice: r.Intn(2) == 0}
	if r.Intn(4) == 0 {
		c.Text = q2(genMixed(r, textLen(r)))
	}
	c.W, c.Zero = r.Intn(7), r.Intn(4) == 0
	if r.Intn(10) == 0 { // weights out of range
		c.W = []int{-1, -3, -100, 6, 7, 100, 1 << 30, math.MaxInt, math.MinInt}[r.Intn(9)]
	}
	for n := r.Intn(3); n > 0; n-- {
		c.Hist = append(c.Hist, q2(bp.gen(r, r.Intn(8))))
	}
	return c
}

func (bp breakProp) shrink(x interface{}) []interface{} {
	c := x.(breakCase)
	if c.Len > 0 {
		return nil
	}
	var out []interface{}
	if len(c.Hist) > 0 {
		d := c
		d.Hist = nil
		out = append(out, d)
	}
	for _, t := range shrinkRunes([]rune(string(c.Text))) {
		d := c
		d.Text = q2(t)
		out = append(out, d)
	}
	return out
}

func init() {
	gp := breakProp{
		classes: int(ref.GBCount),
		repr:    func(r *rand.Rand, c int) rune { return runeOfGB(r, ref.GB(c)) },
		want:    ref.GraphemesOf,
		breaker: func(w int) uax.UnicodeBreaker { return grapheme.NewBreaker(w) },
		gen:     genGB,
		newline: func(r rune) bool {
			c := ref.GBOf(r)
			return c == ref.GBCR || c == ref.GBLF || c == ref.GBControl
		},
	}
	register(&Prop{ID: "G01", Rule: "a text in which the Unicode rules both break and join; distinct texts are counted",
		N: func(t string) int {
			if t == "thorough" {
				return 8000000
			}
			return 1200000
		},
		Gen: gp.genCase, Decode: decodeAs[breakCase](), Shrink: gp.shrink,
		Run: func(c interface{}, o *Obs) *Viol { return gp.check(c.(breakCase), o) },
		Assumptions: []string{"text without U+0000 (the interface between segmenter and breakers uses rune 0 as end-of-text) and U+FFFD (listed finding)",
			"grapheme classes of Unicode 11.0, taken from Perl's Unicode data restricted to characters of that version"},
	})
	wp := breakProp{
		classes: int(ref.WBCount),
		repr:    func(r *rand.Rand, c int) rune { return runeOfWB(r, ref.WB(c)) },
		want:    ref.WordsOf,
		breaker: func(w int) uax.UnicodeBreaker { return uax29.NewWordBreaker(w) },
		gen:     genWB,
		newline: func(r rune) bool {
			c := ref.WBOf(r)
			return c == ref.WBCR || c == ref.WBLF || c == ref.WBNewline
		},
	}
	register(&Prop{ID: "W01", Rule: "a text in which the Unicode rules both break and join; distinct texts are counted",
		N: func(t string) int {
			if t == "thorough" {
				return 8000000
			}
			return 1200000
		},
		Gen: wp.genCase, Decode: decodeAs[breakCase](), Shrink: wp.shrink,
		Run:         func(c interface{}, o *Obs) *Viol { return wp.check(c.(breakCase), o) },
		Assumptions: []string{"text without U+0000", "word classes of Unicode 11.0"},
	})
	register(&Prop{ID: "C01", Rule: "a block of 256 code points, with its classes compared one by one",
		N: func(t string) int { return 0x1100 + 1 },
		Gen: func(i int, r *rand.Rand, tier string) interface{} {
			if i == 0 {
				return classCase{Lo: -1}
			}
			return classCase{Lo: (i - 1) * 256, N: 256}
		},
		Decode: decodeAs[classCase](),
		Run:    func(c interface{}, o *Obs) *Viol { return checkClasses(c.(classCase), o) },
		Shrink: func(x interface{}) []interface{} {
			c := x.(classCase)
			if c.Lo < 0 {
				return nil
			}
			var out []interface{}
			for n := c.N / 2; n >= 1; n /= 2 {
				for at := c.Lo; at+n <= c.Lo+c.N; at += n {
					if n < c.N {
						out = append(out, classCase{at, n})
					}
				}
				if n > 2 {
					break
				}
			}
			return out
		},
		Assumptions: []string{"classes of Unicode 11.0", "surrogate code points and U+0000 are not characters of a text and left out"},
	})
}

type classCase struct {
	Lo int `json:"lo"`
	N  int `json:"n"`
}

var gbClassName = map[grapheme.GraphemeClass]ref.GB{
	grapheme.CRClass: ref.GBCR, grapheme.LFClass: ref.GBLF, grapheme.PrependClass: ref.GBPrepend,
	grapheme.ControlClass: ref.GBControl, grapheme.ExtendClass: ref.GBExtend,
	grapheme.Regional_IndicatorClass: ref.GBRI, grapheme.SpacingMarkClass: ref.GBSpacingMark,
	grapheme.LClass: ref.GBL, grapheme.VClass: ref.GBV, grapheme.TClass: ref.GBT,
	grapheme.LVClass: ref.GBLV, grapheme.LVTClass: ref.GBLVT, grapheme.ZWJClass: ref.GBZWJ,
	grapheme.Any: ref.GBOther,
}

var wbClassName = map[uax29.UAX29Class]ref.WB{
	uax29.ALetterClass: ref.WBALetter, uax29.CRClass: ref.WBCR, uax29.Double_QuoteClass: ref.WBDoubleQuote,
	uax29.ExtendClass: ref.WBExtend, uax29.ExtendNumLetClass: ref.WBExtendNumLet, uax29.FormatClass: ref.WBFormat,
	uax29.Hebrew_LetterClass: ref.WBHebrew, uax29.KatakanaClass: ref.WBKatakana, uax29.LFClass: ref.WBLF,
	uax29.MidLetterClass: ref.WBMidLetter, uax29.MidNumClass: ref.WBMidNum, uax29.MidNumLetClass: ref.WBMidNumLet,
	uax29.NewlineClass: ref.WBNewline, uax29.NumericClass: ref.WBNumeric,
	uax29.Regional_IndicatorClass: ref.WBRI, uax29.Single_QuoteClass: ref.WBSingleQuote,
	uax29.WSegSpaceClass: ref.WBWSegSpace, uax29.ZWJClass: ref.WBZWJ, uax29.Other: ref.WBOther,
}

// checkClassNames: classes are printed as the names of their constants.
func checkClassNames(o *Obs) *Viol {
	names := map[fmt.Stringer]string{
		grapheme.CRClass: "CRClass", grapheme.LFClass: "LFClass", grapheme.PrependClass: "PrependClass",
		grapheme.ControlClass: "ControlClass", grapheme.ExtendClass: "ExtendClass",
		grapheme.Regional_IndicatorClass: "Regional_IndicatorClass", grapheme.SpacingMarkClass: "SpacingMarkClass",
		grapheme.LClass: "LClass", grapheme.VClass: "VClass", grapheme.TClass: "TClass",
		grapheme.LVClass: "LVClass", grapheme.LVTClass: "LVTClass", grapheme.ZWJClass: "ZWJClass", grapheme.Any: "Any",
		uax29.ALetterClass: "ALetterClass", uax29.CRClass: "CRClass", uax29.Double_QuoteClass: "Double_QuoteClass",
		uax29.ExtendClass: "ExtendClass", uax29.ExtendNumLetClass: "ExtendNumLetClass", uax29.FormatClass: "FormatClass",
		uax29.Hebrew_LetterClass: "Hebrew_LetterClass", uax29.KatakanaClass: "KatakanaClass", uax29.LFClass: "LFClass",
		uax29.MidLetterClass: "MidLetterClass", uax29.MidNumClass: "MidNumClass", uax29.MidNumLetClass: "MidNumLetClass",
		uax29.NewlineClass: "NewlineClass", uax29.NumericClass: "NumericClass",
		uax29.Regional_IndicatorClass: "Regional_IndicatorClass", uax29.Single_QuoteClass: "Single_QuoteClass",
		uax29.WSegSpaceClass: "WSegSpaceClass", uax29.ZWJClass: "ZWJClass", uax29.Other: "Other",
		emoji.EmojiClass: "EmojiClass", emoji.Emoji_PresentationClass: "Emoji_PresentationClass",
		emoji.Emoji_ModifierClass: "Emoji_ModifierClass", emoji.Emoji_Modifier_BaseClass: "Emoji_Modifier_BaseClass",
		emoji.Emoji_ComponentClass: "Emoji_ComponentClass", emoji.Extended_PictographicClass: "Extended_PictographicClass",
	}
	for c, want := range names {
		if got := c.String(); got != want {
			return violf("class-name", "class %T %d is printed as %q, should be %q", c, c, got, want)
		}
		o.Add("class_names", 1)
	}
	// anything else has to be printable, too, and must not be taken for a class
	for i := -1000; i <= 1000; i++ {
		for _, c := range []fmt.Stringer{grapheme.GraphemeClass(i), uax29.UAX29Class(i), emoji.EmojisClass(i)} {
			if _, ok := names[c]; !ok {
				if got := c.String(); strings.HasSuffix(got, "Class") || got == "Any" || got == "Other" || got == "" {
					return violf("class-name", "%T %d is not a class, but is printed as %q", c, i, got)
				}
			}
		}
	}
	return nil
}

func checkClasses(c classCase, o *Obs) *Viol {
	if c.Lo < 0 {
		return checkClassNames(o)
	}
	setupClasses()
	emo := []*unicode.RangeTable{emoji.Emoji, emoji.Emoji_Presentation, emoji.Emoji_Modifier,
		emoji.Emoji_Modifier_Base, emoji.Emoji_Component, emoji.Extended_Pictographic}
	kinds := map[string]bool{}
	for cp := c.Lo; cp < c.Lo+c.N; cp++ {
		r := rune(cp)
		if cp == 0 || cp >= 0xD800 && cp < 0xE000 {
			continue
		}
		o.Add("code_points", 1)
		g, ok := gbClassName[grapheme.ClassForRune(r)]
		if !ok || g != ref.RawGB(r) {
			if !(cp == 0xFFFD && c.N > 1) { // listed finding, a case of its own
				return violf("grapheme-class", "grapheme class of %U is %v, should be #%d", r, grapheme.ClassForRune(r), ref.RawGB(r))
			}
		}
		w, ok := wbClassName[uax29.ClassForRune(r)]
		if !ok || w != ref.WBOf(r) {
			return violf("word-class", "word class of %U is %v, should be #%d", r, uax29.ClassForRune(r), ref.WBOf(r))
		}
		bits := byte(0)
		for i, t := range emo {
			if unicode.Is(t, r) {
				bits |= 1 << i
			}
		}
		if bits != ref.EmojiBits(r) {
			return violf("emoji-class", "emoji properties of %U are %06b, should be %06b", r, bits, ref.EmojiBits(r))
		}
		want := emoji.EmojisClass(-1)
		for i := 0; i < 6; i++ {
			if bits&(1<<i) != 0 {
				want = emoji.EmojisClass(i)
				break
			}
		}
		if got := emoji.EmojisClassForRune(r); (got >= 0) != (want >= 0) || got >= 0 && bits&(1<<uint(got)) == 0 {
			return violf("emoji-class", "emoji class of %U is %v, its properties are %06b", r, got, bits)
		}
		kinds[fmt.Sprint(g, w, bits)] = true
		if g != ref.GBOther || w != ref.WBOther || bits != 0 {
			o.Add("classified_code_points", 1)
			o.Nontrivial(cp)
		}
	}
	o.Sample("block %U has %d kinds of characters", c.Lo, len(kinds))
	return nil
}
