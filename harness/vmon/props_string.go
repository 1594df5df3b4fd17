package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/verif/ref"
	"golang.org/x/text/language"
	"golang.org/x/text/width"
)

// --- G02: grapheme strings ------------------------------------------------------------

type strCase struct {
	Text  Q    `json:"text"`
	Rep   int  `json:"rep,omitempty"`
	Bytes bool `json:"bytes,omitempty"` // make it from a byte slice (which is overwritten afterwards)
	Probe int  `json:"probe,omitempty"` // seed for access order
}

func (c strCase) text() string {
	if c.Rep > 1 {
		return strings.Repeat(string(c.Text), c.Rep)
	}
	return string(c.Text)
}

// wantGraphemes: clusters of the legal part of s, from its first legal rune up to the next ill-formed byte
func wantGraphemes(s string) (want []string) {
	i := 0
	for i < len(s) {
		if r, n := utf8.DecodeRuneInString(s[i:]); r != utf8.RuneError || n > 1 {
			break
		}
		i++
	}
	var rs []rune
	for i < len(s) {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			break
		}
		rs = append(rs, r)
		i += n
	}
	return strs(ref.GraphemesOf(rs))
}

func mkString(s string, fromBytes bool) (gs grapheme.String, pv interface{}) {
	pv = protect(func() {
		if fromBytes {
			b := []byte(s)
			gs = grapheme.StringFromBytes(b)
			for i := range b {
				b[i] = 'X'
			}
		} else {
			gs = grapheme.StringFromString(s)
		}
	})
	return
}

func runG02(c strCase, o *Obs) *Viol {
	s := c.text()
	if fffdMatters(s) {
		o.Add("left_out_listed_finding", 1)
		return nil
	}
	gs, pv := mkString(s, c.Bytes)
	if len(s) > 65535 {
		if pv == nil {
			return violf("limit", "a text of %d bytes was accepted", len(s))
		}
		o.Add("rejected_texts", 1)
		o.Nontrivial(c)
		return nil
	}
	if pv != nil {
		if len(s) > grapheme.MaxByteLen {
			o.Add("rejected_texts", 1)
			return nil // limits of 32766 and 65535 are both documented
		}
		return violf("panic", "text of %d bytes %+q: panic %v", len(s), clip(s, 200), pv)
	}
	want := wantGraphemes(s)
	if gs.Len() != len(want) {
		return violf("len", "text %+q (%d bytes): Len() = %d, should be %d", clip(s, 200), len(s), gs.Len(), len(want))
	}
	if gs.String() != s {
		return violf("string", "String() is not the original text")
	}
	r := rand.New(rand.NewSource(int64(c.Probe)))
	for _, i := range r.Perm(len(want)) { // any order
		if g := gs.Nth(i); g != want[i] {
			return violf("nth", "text %+q: Nth(%d) = %+q, should be %+q", clip(s, 200), i, clip(g, 100), clip(want[i], 100))
		}
	}
	for _, i := range []int{-1, -1 - r.Intn(1000), max(len(want), 1), max(len(want), 1) + r.Intn(70000)} {
		i := i
		var g string
		if protect(func() { g = gs.Nth(i) }) == nil {
			return violf("range", "text %+q with %d graphemes: Nth(%d) gives %+q", clip(s, 200), len(want), i, g)
		}
	}
	if len(want) > 0 && gs.Nth(0) != want[0] || gs.Len() != len(want) || gs.String() != s {
		return violf("mutable", "text %+q: string has changed by reading it", clip(s, 200))
	}
	o.Add("texts", 1)
	o.Add("graphemes", len(want))
	if len(s) >= 255 {
		o.Add("long_texts", 1)
	}
	if len(want) > 0 {
		o.Nontrivial(s, c.Bytes)
		o.Sample("%d bytes, %d graphemes: %+q", len(s), len(want), clip(s, 60))
	}
	return nil
}

// cutBytes: a text of exactly n bytes
func cutBytes(rs []rune, n int) string {
	s := string(rs)
	if len(s) > n {
		s = s[:n]
		for len(s) > 0 {
			if r, sz := utf8.DecodeLastRuneInString(s); r == utf8.RuneError && sz <= 1 {
				s = s[:len(s)-1]
				continue
			}
			break
		}
	}
	return s + strings.Repeat("z", n-len(s))
}

// fffdMatters: is there a U+FFFD where it makes a difference if it is a control character (finding F2)?
func fffdMatters(s string) bool {
	prev := ref.GBOther
	rs := []rune(s)
	for i, r := range rs {
		if r == 0xfffd {
			if prev == ref.GBPrepend {
				return true
			}
			if i+1 < len(rs) {
				if n := ref.GBOf(rs[i+1]); n == ref.GBExtend || n == ref.GBZWJ || n == ref.GBSpacingMark {
					return true
				}
			}
			prev = ref.GBOther
			continue
		}
		prev = ref.GBOf(r)
	}
	return false
}

func noBad(rs []rune) []rune { // leave out the listed findings of G01
	for i, r := range rs {
		if i+1 < len(rs) && r > 0x100 && r%13 == 0 { // U+FFFD where it matters little whether it is a control character
			if n := ref.GBOf(rs[i+1]); n != ref.GBExtend && n != ref.GBZWJ && n != ref.GBSpacingMark && (i == 0 || ref.GBOf(rs[i-1]) != ref.GBPrepend) {
				rs[i] = 0xfffd
				continue
			}
		}
		if r == 0 || r == 0xfffd {
			rs[i] = ' '
		}
	}
	return rs
}

func genG02(i int, r *rand.Rand, tier string) interface{} {
	c := strCase{Bytes: r.Intn(2) == 0, Probe: r.Intn(1 << 30)}
	switch {
	case i < 1200: // all lengths around the limits of the representations
		n := []int{0, 1, 2, 3, 4, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 509, 510, 511, 512, 513}[r.Intn(21)]
		if i%3 == 0 {
			n = i / 3
		}
		c.Text = Q(cutBytes(noBad(genAny(r, n)), n))
	case i < 1500:
		n := []int{32765, 32766, 32767, 32768, 40000, 65279, 65280, 65533, 65534, 65535, 65536, 65537, 70000, 131071}[r.Intn(14)]
		if r.Intn(2) == 0 {
			n = 500 + r.Intn(32266)
		}
		switch r.Intn(4) {
		case 0: // one single cluster
			c.Text = Q("a" + cutBytes([]rune(strings.Repeat("\u0301", n)), n-1))
			c.Text = Q(cutCluster(n))
		case 1:
			c.Text = Q(cutBytes([]rune(strings.Repeat("🇩", n/4)), n))
		default:
			c.Text = Q(cutBytes(noBad(genAny(r, n)), n))
		}
	case r.Intn(12) == 0:
		c.Text = Q(cutBytes(noBad(genAny(r, 400)), 200+r.Intn(700)))
	default:
		c.Text = q2(noBad(genAny(r, textLen(r))))
	}
	if r.Intn(4) == 0 && len(c.Text) < 2000 {
		c.Text = Q(spoil(r, string(c.Text)))
	}
	if r.Intn(30) == 0 {
		c.Text = Q(strings.Repeat([]string{"\x80", "\xff", "\xc3", "\xe2\x82"}[r.Intn(4)], r.Intn(5)))
	}
	return c
}

// cutCluster: a single cluster of n bytes
func cutCluster(n int) string {
	s := "a"
	if n%2 == 0 {
		s = "ß"
	}
	return s + strings.Repeat("\u0301", (n-len(s))/2)
}

func shrinkStr(x interface{}) []interface{} {
	c := x.(strCase)
	var out []interface{}
	s := string(c.Text)
	for size := len(s) / 2; size >= 1; size /= 2 {
		for at := 0; at+size <= len(s) && len(out) < 300; at += size {
			d := c
			d.Text = Q(s[:at] + s[at+size:])
			out = append(out, d)
		}
	}
	return out
}

// --- E01: widths ------------------------------------------------------------------------------

type widthCase struct {
	Text Q      `json:"text"`
	Lo   int    `json:"lo,omitempty"` // or: a block of 256 code points
	Ctx  int    `json:"ctx,omitempty"`
	Hist []Q    `json:"hist,omitempty"` // measured before with the same context
	Loc  string `json:"loc,omitempty"`
}

// contexts to choose from; the value tells if it is East Asian
func widthCtx(k int) (*uax11.Context, bool) {
	switch k {
	case 0:
		return nil, false
	case 1:
		return uax11.LatinContext, false
	case 2:
		return uax11.EastAsianContext, true
	case 3:
		return &uax11.Context{}, false
	case 4:
		return &uax11.Context{ForceEastAsian: true}, true
	case 5:
		return &uax11.Context{ForceEastAsian: true, Locale: "en-US"}, true
	case 6:
		return &uax11.Context{Locale: "de-DE"}, false
	case 7:
		return &uax11.Context{Locale: "zh"}, true
	case 8:
		return &uax11.Context{Locale: "ja-JP"}, true
	}
	return &uax11.Context{Script: language.MustParseScript("Latn"), Locale: "fr"}, false
}

const widthCtxs = 10

// wantWidth is the width of a grapheme, given as well-formed text.
func wantWidth(g string, ea bool) int {
	rs := []rune(g)
	if len(rs) == 0 {
		return 0
	}
	zw := true
	for _, r := range rs {
		if !(r >= 0x200b && r <= 0x200d || r == 0x2060 || r == 0xfeff) {
			zw = false
		}
	}
	if zw {
		return 0
	}
	bits := ref.EmojiBits(rs[0])
	if bits&(ref.EmojiPresentation|ref.ExtendedPictographic) != 0 {
		return 2
	}
	if bits != 0 && len(rs) > 1 && (rs[1] == 0xfe0f || rs[1] == 0x20e3) {
		return 2
	}
	switch width.LookupRune(rs[0]).Kind() {
	case width.EastAsianWide, width.EastAsianFullwidth:
		return 2
	case width.Neutral, width.EastAsianAmbiguous:
		if ea {
			return 2
		}
	}
	return 1
}

func runE01(c widthCase, o *Obs) *Viol {
	ctx, ea := widthCtx(c.Ctx)
	for _, h := range c.Hist {
		_ = uax11.StringWidth(grapheme.StringFromString(string(h)), ctx)
		_ = uax11.Width([]byte(h), ctx)
	}
	if c.Lo >= 0 && c.Text == "" {
		seen := map[int]int{}
		for cp := c.Lo; cp < c.Lo+256; cp++ {
			if cp >= 0xd800 && cp < 0xe000 || cp > 0x10ffff {
				continue
			}
			for _, suffix := range []string{"", "\u0301", "\ufe0f", "\u20e3", "\u200d"} {
				g := string(rune(cp)) + suffix
				w := uax11.Width([]byte(g), ctx)
				if want := wantWidth(g, ea); w != want {
					return violf("width", "width of %+q is %d (context %d), should be %d", g, w, c.Ctx, want)
				}
				seen[w]++
			}
			if cp != 0xfffd && cp != 0 {
				if w, want := uax11.StringWidth(grapheme.StringFromString(string(rune(cp))), ctx), wantWidth(string(rune(cp)), ea); w != want {
					return violf("width", "string width of %+q is %d (context %d), should be %d", string(rune(cp)), w, c.Ctx, want)
				}
			}
			o.Add("code_points", 1)
		}
		for w, n := range seen {
			o.Add(fmt.Sprintf("width_%d", w), n)
		}
		o.Nontrivial(c.Lo, c.Ctx)
		return nil
	}
	s := string(c.Text)
	gs := grapheme.StringFromString(s)
	total := 0
	for i := 0; i < gs.Len(); i++ {
		g := gs.Nth(i)
		w, want := uax11.Width([]byte(g), ctx), wantWidth(g, ea)
		if w != want {
			return violf("width", "width of grapheme %+q is %d (context %d), should be %d", g, w, c.Ctx, want)
		}
		total += want
		o.Add("graphemes", 1)
	}
	if w := uax11.StringWidth(gs, ctx); w != total {
		return violf("sum", "text %+q context %d: width %d, the widths of its graphemes add up to %d", clip(s, 200), c.Ctx, w, total)
	}
	// a grapheme string of any kind
	parts := partsString{}
	if utf8.ValidString(s) {
		for rs := []rune(s); len(rs) > 0; {
			k := 1 + len(parts)%3
			if k > len(rs) {
				k = len(rs)
			}
			parts, rs = append(parts, string(rs[:k])), rs[k:]
		}
		o.Add("other_strings", 1)
	}
	sum := 0
	for _, g := range parts {
		sum += uax11.Width([]byte(g), ctx)
	}
	if w := uax11.StringWidth(parts, ctx); w != sum {
		return violf("sum", "text %+q in parts %q context %d: width %d, the widths of the parts add up to %d", clip(s, 200), clip(fmt.Sprint(parts), 300), c.Ctx, w, sum)
	}
	// ill-formed: nothing to display
	if r, n := utf8.DecodeRuneInString(s); r == utf8.RuneError && n <= 1 {
		if w := uax11.Width([]byte(s), ctx); w != 0 {
			return violf("ill-formed", "width of %+q is %d", clip(s, 100), w)
		}
		o.Add("ill_formed", 1)
	}
	if total > 0 {
		o.Nontrivial(s, c.Ctx)
		o.Sample("context %d: %+q has width %d", c.Ctx, clip(s, 60), total)
	}
	return nil
}

// partsString is a grapheme.String with arbitrary graphemes.
type partsString []string

func (p partsString) Nth(n int) string { return p[n] }
func (p partsString) Len() int         { return len(p) }
func (p partsString) String() string   { return strings.Join(p, "") }

func genE01(i int, r *rand.Rand, tier string) interface{} {
	c := widthCase{Ctx: r.Intn(widthCtxs), Lo: -1}
	if i < 2*0x1100 {
		c.Ctx = 1 + i%2
		if r.Intn(2) == 0 { // other contexts with the same answers
			c.Ctx = [][]int{{0, 1, 3, 6, 9}, {2, 4, 5, 7, 8}}[i%2][r.Intn(5)]
		}
		c.Lo = i / 2 * 256
		return c
	}
	if c.Text = q2(noBad(genAny(r, textLen(r)))); c.Text == "" {
		c.Text = "\u200b"
	}
	if r.Intn(8) == 0 {
		c.Text = Q(spoil(r, string(c.Text)))
	}
	if r.Intn(4000) == 0 { // tens of thousands of columns
		t := string(noBad(genAny(r, 1+r.Intn(20)))) + string(rune(1+r.Intn(126)))
		c.Text = Q(strings.Repeat(t, 32766/len(t)))
		if t = string(rune(1 + r.Intn(126))); r.Intn(2) == 0 {
			c.Text = Q(strings.Repeat(t, 32766-r.Intn(300)))
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		c.Hist = append(c.Hist, q2(noBad(genAny(r, r.Intn(6)))))
	}
	return c
}

// --- E02: contexts -------------------------------------------------------------------------------

type ctxCase struct {
	Force  bool   `json:"force,omitempty"`
	Script string `json:"script,omitempty"`
	Locale string `json:"locale,omitempty"`
	Env    bool   `json:"env,omitempty"` // context from the environment
	LcAll  string `json:"lc_all,omitempty"`
	Lang   string `json:"lang,omitempty"`
	EA     bool   `json:"ea"` // expected
	First  int    `json:"first,omitempty"`
	Text   Q      `json:"text"`
}

var eaLocales = strings.Fields("zh zh-CN zh-TW zh-HK zh-Hans zh-Hant zh-Hant-TW zh-Hans-SG zh-MO ja ja-JP ko ko-KR vi vi-VN th th-TH mn mn-MN my my-MM km km-KH ja-Jpan ko-Kore lo lo-LA bn bn-BD jv-Java ban-Bali su-Latn-x")
var latinLocales = strings.Fields("en en-US en-GB de de-DE de-AT fr fr-FR fr-CA es es-MX it it-IT pt pt-BR pt-PT nl da sv nb fi pl cs sk hu ro bg ru ru-RU uk el el-GR tr he ar ar-EG fa hi hi-IN ta et lv lt hr sl ka hy is ga")

// localeScripts are the scripts in which languages are usually written.
var localeScripts = map[string]string{"zh": "Hans", "zh-CN": "Hans", "zh-TW": "Hant", "zh-HK": "Hant", "zh-Hans": "Hans", "zh-Hant": "Hant", "zh-Hant-TW": "Hant", "ja": "Jpan", "ja-JP": "Jpan",
	"ko": "Kore", "ko-KR": "Kore", "vi": "Latn", "th": "Thai", "th-TH": "Thai", "mn": "Cyrl", "my": "Mymr", "km": "Khmr", "bn": "Beng",
	"en": "Latn", "en-US": "Latn", "de": "Latn", "fr": "Latn", "ru": "Cyrl", "el": "Grek", "he": "Hebr", "ar": "Arab", "hi": "Deva"}

var eaScripts = strings.Fields("Bopo Hanb Hani Hans Hant Hang Hira Kana Lana Kitl Kits Nkdb Nkgb Plrd Batk Beng Bugi Mymr Cham Java Khmr Laoo Lisu Mtei Thai Yiii Bali Khar Rjng Roro Tglg Wole Buhd Tagb")
var latinScripts = strings.Fields("Latn Cyrl Grek Arab Hebr Armn Geor Deva Taml Cher Ethi Goth Runr Copt")

func runE02(c ctxCase, o *Obs) *Viol {
	var ctx *uax11.Context
	if c.Env {
		a, hadA := os.LookupEnv("LC_ALL")
		l, hadL := os.LookupEnv("LANG")
		setenv("LC_ALL", c.LcAll, c.LcAll != "")
		setenv("LANG", c.Lang, c.Lang != "")
		ctx = uax11.ContextFromEnvironment()
		setenv("LC_ALL", a, hadA)
		setenv("LANG", l, hadL)
		if ctx == nil {
			return violf("nil", "no context from environment LC_ALL=%q LANG=%q", c.LcAll, c.Lang)
		}
	} else {
		ctx = &uax11.Context{ForceEastAsian: c.Force, Locale: c.Locale}
		if c.Script != "" {
			scr, err := language.ParseScript(c.Script)
			if err != nil {
				return nil
			}
			ctx.Script = scr
		}
	}
	probe := []string{"ש", "∣", "A", "世", "ｱ", "Ａ", "¡", "\u0415", "カ", "1", "́", "한", "😀", "1️⃣"}
	texts := append([]string{string(c.Text)}, probe...)
	for k := range texts { // any first use of the context
		g := texts[(k+c.First)%len(texts)]
		gs := grapheme.StringFromString(g)
		want := 0
		for i := 0; i < gs.Len(); i++ {
			want += wantWidth(gs.Nth(i), c.EA)
		}
		var w int
		if gs.Len() == 1 && (k+c.First)%2 == 0 {
			w = uax11.Width([]byte(g), ctx)
		} else {
			w = uax11.StringWidth(gs, ctx)
		}
		if w != want {
			return violf("context", "%+v: width of %+q is %d, should be %d", c, g, w, want)
		}
		o.Add("widths", 1)
	}
	if c.Force != ctx.ForceEastAsian {
		return violf("context", "ForceEastAsian of the context has changed")
	}
	if !c.Env && ctx.Locale != c.Locale {
		return violf("context", "locale of the context has changed to %q", ctx.Locale)
	}
	if s := ctx.Script.String(); c.Script != "" && s != c.Script {
		return violf("context", "script of the context has changed from %q to %q", c.Script, s)
	}
	// an unspecified script, if filled in, is the one usual for the locale
	if c.Script == "" && !c.Force && !c.Env {
		if want, ok := localeScripts[c.Locale]; ok {
			if s := ctx.Script.String(); s != want && ctx.Script != (language.Script{}) {
				return violf("script", "script of the context with locale %q is %q, should be %q", c.Locale, s, want)
			}
			o.Add("scripts_derived", 1)
		}
	}
	// the predefined contexts are what they were
	if w := uax11.Width([]byte("ש"), uax11.LatinContext); w != 1 {
		return violf("predefined", "Latin context is broken")
	}
	if w := uax11.Width([]byte("ש"), uax11.EastAsianContext); w != 2 {
		return violf("predefined", "East Asian context is broken")
	}
	o.Add(fmt.Sprintf("east_asian_%v", c.EA), 1)
	o.Nontrivial(c.Force, c.Script, c.Locale, c.LcAll, c.Lang)
	o.Sample("%+v", c)
	return nil
}

func setenv(k, v string, set bool) {
	if set {
		os.Setenv(k, v)
	} else {
		os.Unsetenv(k)
	}
}

func genE02(i int, r *rand.Rand, tier string) interface{} {
	c := ctxCase{First: r.Intn(100), Text: q2(noBad(genMixed(r, 1+r.Intn(8))))}
	locale := func(ea bool) string {
		if ea {
			return eaLocales[r.Intn(len(eaLocales)-1)]
		}
		return latinLocales[r.Intn(len(latinLocales))]
	}
	switch r.Intn(5) {
	case 0: // locale only
		c.EA = r.Intn(2) == 0
		c.Locale = locale(c.EA)
	case 1: // a script decides, if East Asian
		if r.Intn(2) == 0 {
			c.EA = true
			c.Script = eaScripts[r.Intn(len(eaScripts))]
			if r.Intn(2) == 0 {
				c.Locale = locale(r.Intn(2) == 0)
			}
		} else {
			c.Script = latinScripts[r.Intn(len(latinScripts))]
			if r.Intn(2) == 0 {
				c.Locale = locale(false)
			}
		}
	case 2: // forced
		c.Force, c.EA = true, true
		if r.Intn(2) == 0 {
			c.Locale = locale(r.Intn(2) == 0)
		}
		if r.Intn(2) == 0 {
			c.Script = latinScripts[r.Intn(len(latinScripts))]
		}
	case 3: // nothing or junk
		c.Locale = []string{"", "xx-junk-locale", "!!", "und", "C", "POSIX"}[r.Intn(6)]
	case 4:
		c.Env = true
		unix := func(l string) string {
			p := strings.Split(l, "-")
			s := p[0]
			if len(p) > 1 && len(p[1]) == 2 {
				s += "_" + p[1]
			}
			return s + []string{"", ".UTF-8", ".utf8"}[r.Intn(3)]
		}
		c.EA = r.Intn(2) == 0
		switch r.Intn(4) {
		case 0:
			c.LcAll = unix(locale(c.EA))
			c.Lang = unix(locale(r.Intn(2) == 0))
		case 1:
			c.LcAll = unix(locale(c.EA))
		case 2:
			c.Lang = unix(locale(c.EA))
		case 3: // no locale at all: en-US
			c.EA = false
		}
		if strings.HasPrefix(c.LcAll+c.Lang, "jv") || strings.HasPrefix(c.LcAll+c.Lang, "ban") {
			return genE02(i, r, tier) // needs the script, which a unix locale does not have
		}
	}
	return c
}

func init() {
	register(&Prop{ID: "G02", Rule: "a text with at least one grapheme; distinct texts are counted",
		N: tierN(400000, 6000000), Gen: genG02, Decode: decodeAs[strCase](), Shrink: shrinkStr,
		Run:         func(c interface{}, o *Obs) *Viol { return runG02(c.(strCase), o) },
		Assumptions: []string{"text without U+0000 and U+FFFD (listed findings of G01)", "between 32766 and 65535 bytes both documented limits are accepted"}})
	register(&Prop{ID: "E01", Rule: "a block of 256 code points (in 5 combinations each), or a text of non-zero width; distinct ones are counted",
		N: tierN(400000, 6000000), Gen: genE01, Decode: decodeAs[widthCase](),
		Run:         func(c interface{}, o *Obs) *Viol { return runE01(c.(widthCase), o) },
		Assumptions: []string{"East_Asian_Width as in golang.org/x/text (a dependency)", "text without U+0000 and U+FFFD (listed findings of G01)"}})
	register(&Prop{ID: "E02", Rule: "a context; distinct combinations of script, locale, flag and environment are counted",
		N: tierN(200000, 1000000), Gen: genE02, Decode: decodeAs[ctxCase](),
		Run:         func(c interface{}, o *Obs) *Viol { return runE02(c.(ctxCase), o) },
		Assumptions: []string{"the classification of locales outside of the lists in the harness is not decided"}})
}
