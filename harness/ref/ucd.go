package ref

import (
	_ "embed"
	"strconv"
	"strings"
)

//go:embed data/classes.txt
var classData string

// Emoji property bits.
const (
	Emoji = 1 << iota
	EmojiPresentation
	EmojiModifier
	EmojiModifierBase
	EmojiComponent
	ExtendedPictographic
)

const maxRune = 0x10FFFF

var gbNames = map[string]GB{"Other": GBOther, "CR": GBCR, "LF": GBLF, "Control": GBControl, "Extend": GBExtend,
	"ZWJ": GBZWJ, "Regional_Indicator": GBRI, "Prepend": GBPrepend, "SpacingMark": GBSpacingMark,
	"L": GBL, "V": GBV, "T": GBT, "LV": GBLV, "LVT": GBLVT}

var wbNames = map[string]WB{"Other": WBOther, "CR": WBCR, "LF": WBLF, "Newline": WBNewline, "Extend": WBExtend,
	"ZWJ": WBZWJ, "Format": WBFormat, "Regional_Indicator": WBRI, "Katakana": WBKatakana, "Hebrew_Letter": WBHebrew,
	"ALetter": WBALetter, "Single_Quote": WBSingleQuote, "Double_Quote": WBDoubleQuote, "MidNumLet": WBMidNumLet,
	"MidLetter": WBMidLetter, "MidNum": WBMidNum, "Numeric": WBNumeric, "ExtendNumLet": WBExtendNumLet,
	"WSegSpace": WBWSegSpace}

var gbOf [maxRune + 1]GB
var wbOf [maxRune + 1]WB
var emojiOf [maxRune + 1]byte

// GBMembers and WBMembers list all code points per class (class Other: assigned ones are not listed).
var GBMembers [GBCount][]rune
var WBMembers [WBCount][]rune

func init() {
	for _, l := range strings.Split(classData, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Fields(l)
		lo, _ := strconv.ParseInt(f[0], 16, 32)
		hi, _ := strconv.ParseInt(f[1], 16, 32)
		e, _ := strconv.Atoi(f[4])
		g, ok1 := gbNames[f[2]]
		w, ok2 := wbNames[f[3]]
		if !ok1 || !ok2 {
			panic("golden class table: " + l)
		}
		for c := lo; c <= hi; c++ {
			gbOf[c], wbOf[c], emojiOf[c] = g, w, byte(e)
		}
	}
	for c := rune(1); c <= maxRune; c++ {
		if c >= 0xD800 && c < 0xE000 || c == 0xFFFD {
			continue
		}
		g, w := GBOf(c), wbOf[c]
		if g != GBOther {
			GBMembers[g] = append(GBMembers[g], c)
		}
		if w != WBOther {
			WBMembers[w] = append(WBMembers[w], c)
		} else if IsEP(c) {
			WBMembers[WBExtPict] = append(WBMembers[WBExtPict], c)
		}
	}
}

// RawGB is the Grapheme_Cluster_Break value proper.
func RawGB(r rune) GB { return gbOf[r] }

// GBOf is the Grapheme_Cluster_Break value with Extended_Pictographic folded in.
func GBOf(r rune) GB {
	if r < 0 || r > maxRune {
		return GBOther
	}
	if gbOf[r] == GBOther && IsEP(r) {
		return GBExtPict
	}
	return gbOf[r]
}

// WBOf is the Word_Break value.
func WBOf(r rune) WB {
	if r < 0 || r > maxRune {
		return WBOther
	}
	return wbOf[r]
}

// IsEP tells if r is Extended_Pictographic.
func IsEP(r rune) bool { return EmojiBits(r)&ExtendedPictographic != 0 }

// EmojiBits returns the emoji property bits of r.
func EmojiBits(r rune) byte {
	if r < 0 || r > maxRune {
		return 0
	}
	return emojiOf[r]
}

// GraphemesOf splits text into extended grapheme clusters.
func GraphemesOf(text []rune) [][]rune {
	c := make([]GB, len(text))
	for i, r := range text {
		c[i] = GBOf(r)
	}
	return cut(text, GraphemeBreaks(c))
}

// WordsOf splits text at word boundaries.
func WordsOf(text []rune) [][]rune {
	c := make([]WB, len(text))
	ep := make([]bool, len(text))
	for i, r := range text {
		c[i], ep[i] = WBOf(r), IsEP(r)
	}
	return cut(text, WordBreaks(c, ep))
}

func cut(text []rune, br []bool) [][]rune {
	var out [][]rune
	from := 0
	for i, b := range br {
		if b {
			out = append(out, text[from:i+1])
			from = i + 1
		}
	}
	return out
}
