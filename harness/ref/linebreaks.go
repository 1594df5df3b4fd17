package ref

import (
	_ "embed"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// Line breaking: UAX #14 as of Unicode 10 (the version of the repository's LineBreakTest.txt), with numbers
// as regular expressions (example 7 of section 8.2), like that file.

//go:embed data/linebreak.txt
var lineData string

// LB is a line breaking class.
type LB byte

const (
	lbNone LB = iota
	lbAL
	lbB2
	lbBA
	lbBB
	lbBK
	lbCB
	lbCL
	lbCM
	lbCP
	lbCR
	lbEB
	lbEM
	lbEX
	lbGL
	lbH2
	lbH3
	lbHL
	lbHY
	lbID
	lbIN
	lbIS
	lbJL
	lbJT
	lbJV
	lbLF
	lbNL
	lbNS
	lbNU
	lbOP
	lbPO
	lbPR
	lbQU
	lbRI
	lbSP
	lbSY
	lbWJ
	lbZW
	lbZWJ
	LBCount
)

var lbNames = map[string]LB{"AL": lbAL, "B2": lbB2, "BA": lbBA, "BB": lbBB, "BK": lbBK, "CB": lbCB, "CL": lbCL, "CM": lbCM, "CP": lbCP, "CR": lbCR, "EB": lbEB, "EM": lbEM, "EX": lbEX, "GL": lbGL, "H2": lbH2, "H3": lbH3, "HL": lbHL, "HY": lbHY, "ID": lbID, "IN": lbIN, "IS": lbIS, "JL": lbJL, "JT": lbJT, "JV": lbJV, "LF": lbLF, "NL": lbNL, "NS": lbNS, "NU": lbNU, "OP": lbOP, "PO": lbPO, "PR": lbPR, "QU": lbQU, "RI": lbRI, "SP": lbSP, "SY": lbSY, "WJ": lbWJ, "ZW": lbZW, "ZWJ": lbZWJ}

var lbOnce sync.Once
var lbOf []LB

// LBMembers lists the characters which resolve to a class (rule LB1).
var LBMembers [LBCount][]rune

func setupLB() {
	lbOf = make([]LB, maxRune+1)
	for i := range lbOf {
		lbOf[i] = lbAL
	}
	for _, l := range strings.Split(lineData, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Fields(l)
		lo, _ := strconv.ParseInt(f[0], 16, 32)
		hi, _ := strconv.ParseInt(f[1], 16, 32)
		for c := lo; c <= hi; c++ {
			k, ok := lbNames[f[2]]
			switch f[2] {
			case "AI", "SG", "XX":
				k = lbAL
			case "CJ":
				k = lbNS
			case "SA":
				k = lbAL
				if unicode.In(rune(c), unicode.Mn, unicode.Mc) {
					k = lbCM
				}
			default:
				if !ok {
					panic("line break data: " + l)
				}
			}
			lbOf[c] = k
			if c > 0 && !(c >= 0xD800 && c < 0xE000) && f[2] != "XX" {
				LBMembers[k] = append(LBMembers[k], rune(c))
			}
		}
	}
}

// LBName is for messages.
func LBName(c LB) string {
	for n, k := range lbNames {
		if k == c {
			return n
		}
	}
	return "?"
}

// LBOf is the resolved class of a character.
func LBOf(r rune) LB {
	lbOnce.Do(setupLB)
	return lbOf[r]
}

// IsLBNewline tells if a line must end after r (unless it is a CR before a LF).
func IsLBNewline(r rune) bool { return inLB(LBOf(r), lbBK, lbCR, lbLF, lbNL) }

// LinesOf splits text at break opportunities.
func LinesOf(text []rune) [][]rune {
	c := make([]LB, len(text))
	for i, r := range text {
		c[i] = LBOf(r)
	}
	return cut(text, LineBreaks(c)[1:])
}

// LineBreaks: result[i] tells if there is a break opportunity before position i
func LineBreaks(raw []LB) []bool {
	n := len(raw)
	brk := make([]bool, n+1)
	if n == 0 {
		return brk
	}
	brk[n] = true
	cl := make([]LB, n)
	att := make([]bool, n) // attached by LB9
	for i, c := range raw {
		if c == lbCM || c == lbZWJ {
			if i > 0 && !inLB(raw[i-1], lbBK, lbCR, lbLF, lbNL, lbSP, lbZW) {
				cl[i] = cl[i-1]
				att[i] = true
			} else {
				cl[i] = lbAL
			}
		} else {
			cl[i] = c
		}
	}
	for i := 1; i < n; i++ {
		brk[i] = lineBreak(raw, cl, att, i)
	}
	return brk
}
func inLB(c LB, l ...LB) bool {
	for _, x := range l {
		if x == c {
			return true
		}
	}
	return false
}

func lineBreak(raw, cls []LB, att []bool, i int) bool {
	r0, r1 := raw[i-1], raw[i]
	if inLB(r0, lbBK, lbLF, lbNL) || r0 == lbCR && r1 != lbLF {
		return true
	}
	if r0 == lbCR {
		return false
	}
	if inLB(r1, lbBK, lbCR, lbLF, lbNL) {
		return false
	}
	if inLB(r1, lbSP, lbZW) {
		return false
	}
	k := i - 1
	for k >= 0 && raw[k] == lbSP {
		k--
	}
	if k >= 0 && raw[k] == lbZW {
		return true
	}
	if r0 == lbZWJ && inLB(r1, lbID, lbEB, lbEM) {
		return false
	}
	if att[i] {
		return false
	}
	// collapsed sequence before i
	var p []LB
	for j := 0; j < i; j++ {
		if !att[j] {
			p = append(p, cls[j])
		}
	}
	a, b := p[len(p)-1], cls[i]
	prev := func(k int) LB {
		if len(p)-k < 0 {
			return lbNone
		}
		return p[len(p)-k]
	}
	// next
	if a == lbWJ || b == lbWJ {
		return false
	}
	if a == lbGL {
		return false
	}
	if b == lbGL && !inLB(a, lbSP, lbBA, lbHY) {
		return false
	}
	numAt := func() bool { // p ends with NU (NU|SY|IS)*
		for j := len(p) - 1; j >= 0; j-- {
			if p[j] == lbNU {
				return true
			}
			if !inLB(p[j], lbSY, lbIS) {
				return false
			}
		}
		return false
	}
	if b == lbEX {
		return false
	}
	if a != lbNU && inLB(b, lbCL, lbCP, lbIS, lbSY) {
		return false
	}
	if inLB(b, lbCL, lbCP, lbIS, lbSY) {
		return false
	} // NU x via LB25
	q := len(p) - 1
	for q >= 0 && p[q] == lbSP {
		q--
	}
	bs := lbNone
	if q >= 0 {
		bs = p[q]
	}
	if bs == lbOP {
		return false
	}
	if bs == lbQU && b == lbOP {
		return false
	}
	if inLB(bs, lbCL, lbCP) && b == lbNS {
		return false
	}
	if bs == lbB2 && b == lbB2 {
		return false
	}
	if a == lbSP {
		return true
	}
	if a == lbQU || b == lbQU {
		return false
	}
	if a == lbCB || b == lbCB {
		return true
	}
	if inLB(b, lbBA, lbHY, lbNS) || a == lbBB {
		return false
	}
	if inLB(a, lbHY, lbBA) && prev(2) == lbHL {
		return false
	}
	if a == lbSY && b == lbHL {
		return false
	}
	if b == lbIN && inLB(a, lbAL, lbHL, lbEX, lbID, lbEB, lbEM, lbIN, lbNU) {
		return false
	}
	al := func(c LB) bool { return c == lbAL || c == lbHL }
	idx := func(c LB) bool { return inLB(c, lbID, lbEB, lbEM) }
	if al(a) && b == lbNU || a == lbNU && al(b) {
		return false
	}
	if a == lbPR && idx(b) || idx(a) && b == lbPO {
		return false
	}
	if inLB(a, lbPR, lbPO) && al(b) || al(a) && inLB(b, lbPR, lbPO) {
		return false
	}
	// 25
	if inLB(a, lbPR, lbPO) {
		if b == lbNU {
			return false
		}
		if inLB(b, lbOP, lbHY) && nextLB(cls, att, i, lbNU) {
			return false
		}
	}
	if inLB(a, lbOP, lbHY) && b == lbNU {
		return false
	}
	if inLB(b, lbNU, lbSY, lbIS) && numAt() {
		return false
	}
	if inLB(b, lbPO, lbPR) {
		if numAt() {
			return false
		}
		if inLB(a, lbCL, lbCP) {
			p2 := p
			p = p[:len(p)-1]
			ok := numAt()
			p = p2
			if ok {
				return false
			}
		}
	}
	h := func(c LB) bool { return inLB(c, lbJL, lbJV, lbJT, lbH2, lbH3) }
	if a == lbJL && inLB(b, lbJL, lbJV, lbH2, lbH3) {
		return false
	}
	if inLB(a, lbJV, lbH2) && inLB(b, lbJV, lbJT) {
		return false
	}
	if inLB(a, lbJT, lbH3) && b == lbJT {
		return false
	}
	if h(a) && inLB(b, lbIN, lbPO) || a == lbPR && h(b) {
		return false
	}
	if al(a) && al(b) {
		return false
	}
	if a == lbIS && al(b) {
		return false
	}
	if (al(a) || a == lbNU) && b == lbOP {
		return false
	}
	if a == lbCP && (al(b) || b == lbNU) {
		return false
	}
	if a == lbRI && b == lbRI {
		m := 0
		for j := len(p) - 1; j >= 0 && p[j] == lbRI; j-- {
			m++
		}
		return m%2 == 0
	}
	if a == lbEB && b == lbEM {
		return false
	}
	return true
}
func nextLB(cls []LB, att []bool, i int, c LB) bool {
	for j := i + 1; j < len(cls); j++ {
		if !att[j] {
			return cls[j] == c
		}
	}
	return false
}
