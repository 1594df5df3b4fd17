package main

import (
	"math/rand"

	"github.com/npillmayer/uax/verif/ref"
)

// --- text workloads -------------------------------------------------------------

var phrases = []string{
	"Hello World! It's 5 o'clock.", "The quick (“brown”) fox can’t jump 32.3 feet, right?",
	"größer naïve façade", "שלום עולם", "צה\"ל ו-א'", "مرحبا 123 بالعالم", "العربية (test) 45.6",
	"こんにちは世界カタカナ", "안녕하세요 각각 ㅎㅏㄴ", "ก็ภาษาไทย", "हिन्दी क्षेत्र", "தமிழ் மொழி",
	"👨‍👩‍👧‍👦👍🏽🏳️‍🌈", "🇩🇪🇫🇷🇯🇵🇺", "e\u0301\u0327o\u0308", "a\r\nb\nc\rd\u2028e\u0085f", "1️⃣ #️⃣ *️⃣",
	"3.14,15 1,000.00 $5.99 50% _foo_bar9 x_1", "a.b:c·d’e", "\u0600\u0661 \U000110BD\U00011083", "don't–stop—now…",
	"tab\tsep  double   triple", "\u200dzwj\u200d \u00adsoft\u00adhyphen", "ℹ️Ⓜ️🅰️‍🅱️ \u2139\u200d\u24c2",
}

func pick(r *rand.Rand, s string) rune {
	rs := []rune(s)
	return rs[r.Intn(len(rs))]
}

// runeOfGB returns some character of a grapheme class (favouring the common ones).
func runeOfGB(r *rand.Rand, c ref.GB) rune {
	if c == ref.GBOther {
		return pick(r, "abcxyzXYZ 019_.,:;'\"()[]éßאבגداب中文カ\u00a0\u3000\u2014")
	}
	m := ref.GBMembers[c]
	if r.Intn(4) > 0 {
		switch c {
		case ref.GBExtend:
			return pick(r, "\u0300\u0301\u0308\u200c\u093c\ufe0f\U0001f3fd\u0e31\u20e3")
		case ref.GBSpacingMark:
			return pick(r, "\u0903\u093e\u0e33\u0bbf")
		case ref.GBExtPict:
			return pick(r, "👨👩❤🏳🌈©☺ℹⓂ")
		case ref.GBControl:
			return pick(r, "\u0001\t\u200b\u00ad\u2028\u0085\u200e\u2060")
		case ref.GBRI:
			return pick(r, "🇩🇪🇦🇿")
		}
	}
	return m[r.Intn(len(m))]
}

func runeOfWB(r *rand.Rand, c ref.WB) rune {
	if c == ref.WBOther {
		return pick(r, "()[]!?-+*/$%@中文あก็\u0e01\u2014\t")
	}
	m := ref.WBMembers[c]
	if r.Intn(4) > 0 {
		switch c {
		case ref.WBALetter:
			return pick(r, "abcxyzABCéßдω\u0627\u0628ℹⓂ🅰")
		case ref.WBHebrew:
			return pick(r, "אבגש")
		case ref.WBNumeric:
			return pick(r, "0123456789\u0661\u066c")
		case ref.WBExtend:
			return pick(r, "\u0300\u0301\u0308\ufe0f\U0001f3fd\u05b0")
		case ref.WBFormat:
			return pick(r, "\u00ad\u2060\u200e\ufeff")
		case ref.WBKatakana:
			return pick(r, "カタナー")
		}
	}
	return m[r.Intn(len(m))]
}

func textLen(r *rand.Rand) int {
	switch r.Intn(20) {
	case 0:
		return r.Intn(3)
	case 1, 2:
		return 20 + r.Intn(60)
	case 3:
		return 100 + r.Intn(300)
	}
	return 1 + r.Intn(14)
}

// genGB makes a text from random grapheme classes.
func genGB(r *rand.Rand, n int) []rune {
	out := make([]rune, 0, n)
	sub := r.Intn(3) == 0 // restrict to a small alphabet of classes for dense interaction
	var alpha []ref.GB
	for i := 0; i < 2+r.Intn(4); i++ {
		alpha = append(alpha, ref.GB(r.Intn(int(ref.GBCount))))
	}
	for len(out) < n {
		c := ref.GB(r.Intn(int(ref.GBCount)))
		if sub {
			c = alpha[r.Intn(len(alpha))]
		}
		rep := 1
		if r.Intn(12) == 0 {
			rep = 1 + r.Intn(6)
		}
		for ; rep > 0; rep-- {
			out = append(out, runeOfGB(r, c))
		}
	}
	return stretch(r, out[:n], n)
}

// edgeLen is a length near one of the sizes where buffers and counters may change their ways.
func edgeLen(r *rand.Rand) int {
	return []int{16, 32, 64, 100, 128, 256, 512, 1024, 2048}[r.Intn(9)] - 3 + r.Intn(9)
}

// upTo cuts off the text after n characters.
func upTo(n int, rs []rune) []rune {
	if len(rs) > n {
		return rs[:n:n]
	}
	return rs
}

// frames are starts and ends of clusters or words, with extending characters in between.
var frames = [][3]string{{"\U0001f600", "\u200d\U0001f469"}, {"\u00a9", "\u200d\u2764"}, {"a", "'a", "\u00ad\u200d"}, {"a", "1", "\u00ad\u200d"},
	{"\u05d0", "\"\u05d0", "\u200d\u00ad"}, {"1", ",1", "\u00ad"}, {"\u30a2", "\u30a2", "\u00ad"}, {"_", "a", "\u00ad"}, {"\U0001f1e9", "\U0001f1ea\U0001f1eb", "\u00ad"},
	{"\uac00", "\u11a8"}, {"1", "a", "\u200d"}, {"\u0600", "a"}, {"a:", "a", "\u00ad"}, {"1.", "1", "\u00ad"}}

// stretch inserts, into some of the not too short texts, a long run of characters of a class.
func stretch(r *rand.Rand, out []rune, n int) []rune {
	if n < 20 || r.Intn(40) > 0 {
		return out
	}
	c, w := ref.GB(r.Intn(int(ref.GBCount))), ref.WB(r.Intn(int(ref.WBCount)))
	var run []rune
	kind, one := r.Intn(3), r.Intn(2) == 0
	k := edgeLen(r)
	if r.Intn(1500) == 0 {
		k = 32760 + r.Intn(16)
	}
	for ; k > 0; k-- {
		switch {
		case one && len(run) > 0:
			run = append(run, run[0])
		case kind == 0:
			run = append(run, runeOfGB(r, c))
		case kind == 1:
			run = append(run, runeOfWB(r, w))
		default:
			run = append(run, pick(r, "\u0300\u0301\u200d\u00ad\U0001f1e9"))
		}
	}
	if r.Intn(2) == 0 { // within something which the run does not take apart
		f := frames[r.Intn(len(frames))]
		for i := range run {
			if run[i] = '\u0301'; !one {
				run[i] = pick(r, "\u0300\u0301\u20e3\ufe0f")
			}
			if f[2] != "" && r.Intn(5) == 0 {
				run[i] = pick(r, f[2])
			}
		}
		run = append(append([]rune(f[0]), run...), []rune(f[1])...)
	}
	at := r.Intn(len(out) + 1)
	return append(out[:at:at], append(run, out[at:]...)...)
}

func genWB(r *rand.Rand, n int) []rune {
	out := make([]rune, 0, n)
	sub := r.Intn(3) == 0
	var alpha []ref.WB
	for i := 0; i < 2+r.Intn(4); i++ {
		alpha = append(alpha, ref.WB(r.Intn(int(ref.WBCount))))
	}
	for len(out) < n {
		c := ref.WB(r.Intn(int(ref.WBCount)))
		if sub {
			c = alpha[r.Intn(len(alpha))]
		}
		rep := 1
		if r.Intn(12) == 0 {
			rep = 1 + r.Intn(6)
		}
		for ; rep > 0; rep-- {
			out = append(out, runeOfWB(r, c))
		}
	}
	return stretch(r, out[:n], n)
}

// genMixed makes a text by splicing phrases.
func genMixed(r *rand.Rand, n int) []rune {
	var out []rune
	for len(out) < n {
		p := []rune(phrases[r.Intn(len(phrases))])
		a := r.Intn(len(p))
		b := a + 1 + r.Intn(len(p)-a)
		out = append(out, p[a:b]...)
		if r.Intn(3) == 0 {
			out = append(out, ' ')
		}
	}
	return out[:n]
}

// genAny picks one of the text workloads.
func genAny(r *rand.Rand, n int) []rune {
	switch r.Intn(4) {
	case 0:
		return genGB(r, n)
	case 1:
		return genWB(r, n)
	case 2:
		return genASCII(r, n)
	}
	return genMixed(r, n)
}

func genASCII(r *rand.Rand, n int) []rune {
	out := make([]rune, n)
	for i := range out {
		out[i] = pick(r, "abc abc  xyz.,'\"012\n\r\t_-(:)")
	}
	return out
}

// spoil inserts ill-formed UTF-8 into s.
func spoil(r *rand.Rand, s string) string {
	bad := []string{"\xff", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xed\xa0\x80", "\xfe\xfe", "\xf8\x88\x80\x80\x80"}
	b := []byte(s)
	for k := 1 + r.Intn(4); k > 0; k-- {
		at := r.Intn(len(b) + 1)
		b = append(b[:at:at], append([]byte(bad[r.Intn(len(bad))]), b[at:]...)...)
	}
	return string(b)
}

func q2(rs []rune) Q { return Q(string(rs)) }
