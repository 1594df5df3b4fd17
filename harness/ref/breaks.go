// Package ref holds independent reference models: direct transcriptions of the
// Unicode annexes, working on whole arrays with look-behind and look-ahead. They
// share no code with npillmayer/uax and use class tables of their own (ucd.go).
package ref

// GB is a Grapheme_Cluster_Break value (with Extended_Pictographic folded in, which
// is disjoint from all the other values in the supported Unicode version).
type GB byte

// Grapheme classes.
const (
	GBOther GB = iota
	GBCR
	GBLF
	GBControl
	GBExtend
	GBZWJ
	GBRI
	GBPrepend
	GBSpacingMark
	GBL
	GBV
	GBT
	GBLV
	GBLVT
	GBExtPict
	GBCount
)

// GraphemeBreaks returns br where br[i] tells if there is a boundary after
// character i (UAX #29, rules GB3 to GB999; GB1/GB2 make the last one true).
func GraphemeBreaks(c []GB) []bool {
	n := len(c)
	br := make([]bool, n)
	ctl := func(x GB) bool { return x == GBCR || x == GBLF || x == GBControl }
	for i := 0; i < n; i++ {
		if i == n-1 {
			br[i] = true // GB2
			continue
		}
		a, b := c[i], c[i+1]
		switch {
		case a == GBCR && b == GBLF: // GB3
			br[i] = false
		case ctl(a) || ctl(b): // GB4, GB5
			br[i] = true
		case a == GBL && (b == GBL || b == GBV || b == GBLV || b == GBLVT): // GB6
			br[i] = false
		case (a == GBLV || a == GBV) && (b == GBV || b == GBT): // GB7
			br[i] = false
		case (a == GBLVT || a == GBT) && b == GBT: // GB8
			br[i] = false
		case b == GBExtend || b == GBZWJ: // GB9
			br[i] = false
		case b == GBSpacingMark: // GB9a
			br[i] = false
		case a == GBPrepend: // GB9b
			br[i] = false
		case a == GBZWJ && b == GBExtPict: // GB11
			j := i - 1
			for j >= 0 && c[j] == GBExtend {
				j--
			}
			br[i] = !(j >= 0 && c[j] == GBExtPict)
		case a == GBRI && b == GBRI: // GB12, GB13
			k := 0
			for j := i; j >= 0 && c[j] == GBRI; j-- {
				k++
			}
			br[i] = k%2 == 0
		default: // GB999
			br[i] = true
		}
	}
	return br
}

// WB is a Word_Break value.
type WB byte

// Word classes.
const (
	WBOther WB = iota
	WBCR
	WBLF
	WBNewline
	WBExtend
	WBZWJ
	WBFormat
	WBRI
	WBKatakana
	WBHebrew
	WBALetter
	WBSingleQuote
	WBDoubleQuote
	WBMidNumLet
	WBMidLetter
	WBMidNum
	WBNumeric
	WBExtendNumLet
	WBWSegSpace
	WBExtPict
	WBCount
)

// WordBreaks is GraphemeBreaks for word boundaries (rules WB3 to WB999).
// ep marks the characters which are Extended_Pictographic.
func WordBreaks(c []WB, ep []bool) []bool {
	n := len(c)
	br := make([]bool, n)
	nl := func(x WB) bool { return x == WBCR || x == WBLF || x == WBNewline }
	ign := func(x WB) bool { return x == WBExtend || x == WBFormat || x == WBZWJ }
	ah := func(x WB) bool { return x == WBALetter || x == WBHebrew }
	mnlq := func(x WB) bool { return x == WBMidNumLet || x == WBSingleQuote }
	const none = WBCount
	// prev returns the class and index of the closest non-ignored character at or before j (WB4)
	prev := func(j int) (WB, int) {
		for ; j >= 0; j-- {
			if ign(c[j]) {
				if j > 0 && !nl(c[j-1]) {
					continue
				}
				return c[j], j // ignorable after sot or newline stands for itself
			}
			return c[j], j
		}
		return none, -1
	}
	next := func(j int) WB {
		for ; j < n; j++ {
			if !ign(c[j]) {
				return c[j]
			}
		}
		return none
	}
	for i := 0; i < n; i++ {
		if i == n-1 {
			br[i] = true
			continue
		}
		a, b := c[i], c[i+1]
		if a == WBCR && b == WBLF { // WB3
			continue
		}
		if nl(a) || nl(b) { // WB3a, WB3b
			br[i] = true
			continue
		}
		if a == WBZWJ && ep[i+1] { // WB3c
			continue
		}
		if a == WBWSegSpace && b == WBWSegSpace { // WB3d
			continue
		}
		if ign(b) { // WB4
			continue
		}
		p, pi := prev(i)
		pp := WB(none)
		if pi > 0 {
			pp, _ = prev(pi - 1)
		}
		q := next(i + 2)
		switch {
		case ah(p) && ah(b): // WB5
		case ah(p) && (b == WBMidLetter || mnlq(b)) && ah(q): // WB6
		case ah(pp) && (p == WBMidLetter || mnlq(p)) && ah(b): // WB7
		case p == WBHebrew && b == WBSingleQuote: // WB7a
		case p == WBHebrew && b == WBDoubleQuote && q == WBHebrew: // WB7b
		case pp == WBHebrew && p == WBDoubleQuote && b == WBHebrew: // WB7c
		case p == WBNumeric && b == WBNumeric: // WB8
		case ah(p) && b == WBNumeric: // WB9
		case p == WBNumeric && ah(b): // WB10
		case pp == WBNumeric && (p == WBMidNum || mnlq(p)) && b == WBNumeric: // WB11
		case p == WBNumeric && (b == WBMidNum || mnlq(b)) && q == WBNumeric: // WB12
		case p == WBKatakana && b == WBKatakana: // WB13
		case (ah(p) || p == WBNumeric || p == WBKatakana || p == WBExtendNumLet) && b == WBExtendNumLet: // WB13a
		case p == WBExtendNumLet && (ah(b) || b == WBNumeric || b == WBKatakana): // WB13b
		case p == WBRI && b == WBRI: // WB15, WB16
			k, j := 0, pi
			for j >= 0 {
				x, xi := prev(j)
				if x != WBRI {
					break
				}
				k++
				j = xi - 1
			}
			br[i] = k%2 == 0
		default:
			br[i] = true
		}
	}
	return br
}
