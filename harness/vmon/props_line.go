//go:build uax14

package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"strings"
	"sync"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax14"
	"github.com/npillmayer/uax/verif/ref"
)

// Package uax14 lacks its class table; it is added by an overlay (see run.sh).

var lbFavourites = map[string]string{"AL": "abcxyzäéωя#", "BA": "\t\u2010\u2003|", "BB": "\u00b4", "BK": "\u000b\u000c\u2028\u2029", "CL": "}】」", "CM": "\u0300\u0308\u0001\ufe0f\u05b0",
	"CP": ")]", "EB": "👦👨", "EM": "🏽🏿", "EX": "!?", "GL": "\u00a0\u202f", "HL": "אבשת", "HY": "-", "ID": "中文あ🌈😀", "IN": "\u2026", "IS": ".,:;", "NS": "\u3005\u30fc\u3063‼",
	"NU": "0123456789", "OP": "([{【", "PO": "%\u00b0¢", "PR": "$€+№", "QU": "\"'“”«»", "RI": "🇩🇪🇫🇷"}

func runeOfLB(r *rand.Rand, c ref.LB) rune {
	if c == 0 {
		c++
	}
	ref.LBOf('a')
	if f := lbFavourites[ref.LBName(c)]; f != "" && r.Intn(4) > 0 {
		return pick(r, f)
	}
	m := ref.LBMembers[c]
	return m[r.Intn(len(m))]
}

// pieces which start long rules
var lbParts = []string{"$(12.35)", "2,1234", "(12)¢", "12.54¢", "$-9", "€ 5", "\u200b  ", "“ (", "( a", ") 々", "— —", "א-", "א\u2010", "/א", "…", "🇩🇪", "🇫", "👨🏽", "🏳\u200d🌈", "각", "가",
	"$가", "가%", "a\u0308", "\u0308", "\u200d", "-\u0308", ")\u200d", "(\u0301", "1", "9%", ".5", ",a", "e.g.", "(s)", "\r\n", "\n", "\u00a0", "\u2060", "\ufffc", "\"", " ", "-", "!", "中", "a", "9\u0301"}

func genLB(r *rand.Rand, n int) []rune {
	var out []rune
	if r.Intn(3) == 0 {
		sub := lbParts
		if r.Intn(2) == 0 {
			sub = nil
			for k := 2 + r.Intn(4); k > 0; k-- {
				sub = append(sub, lbParts[r.Intn(len(lbParts))])
			}
		}
		for len(out) < n {
			out = append(out, []rune(sub[r.Intn(len(sub))])...)
		}
		return stretchLB(r, out, n)
	}
	sub := r.Intn(2) == 0
	var alpha []ref.LB
	for i := 0; i < 2+r.Intn(5); i++ {
		alpha = append(alpha, 1+ref.LB(r.Intn(int(ref.LBCount)-1)))
	}
	for len(out) < n {
		c := 1 + ref.LB(r.Intn(int(ref.LBCount)-1))
		if sub {
			c = alpha[r.Intn(len(alpha))]
		}
		rep := 1
		if r.Intn(12) == 0 {
			rep = 1 + r.Intn(6)
		}
		for ; rep > 0; rep-- {
			out = append(out, runeOfLB(r, c))
		}
	}
	return stretchLB(r, out, n)
}

// stretchLB inserts, into some of the not too short texts, a long run of characters of a class or
// of spaces, digits and the like, where rules look back over any number of characters.
func stretchLB(r *rand.Rand, out []rune, n int) []rune {
	if n < 10 || r.Intn(25) > 0 {
		return out
	}
	k := edgeLen(r)
	if r.Intn(2) == 0 {
		k = 20 + r.Intn(100)
	}
	c := 1 + ref.LB(r.Intn(int(ref.LBCount)-1))
	set := []string{" ", " ", "0123456789", "0123.,/", "\u0300\u0308", "\U0001f1e9", ""}[r.Intn(7)]
	run := make([]rune, k)
	for i := range run {
		if run[i] = runeOfLB(r, c); set != "" {
			run[i] = pick(r, set)
		}
	}
	pre := []string{"", "", "\u200b", "(", ")", "\u2014", "\"", "$", "a", "\u05d0"}[r.Intn(10)]
	post := []string{"", "", "(", ")", "\u2014", "%", "\u3005", "a", "-", "}", "\u0300"}[r.Intn(11)]
	at := r.Intn(len(out) + 1)
	ins := append(append([]rune(pre), run...), []rune(post)...)
	return append(out[:at:at], append(ins, out[at:]...)...)
}

// --- L02: concurrent line breakers ---------------------------------------------------------

type lineConc struct {
	Texts [][]Q `json:"texts"` // per goroutine
	Jit   int64 `json:"jit"`
	Setup bool  `json:"setup,omitempty"`
}

func lineDigest(b *uax14.LineWrap, text string) string {
	h := fnv.New64a()
	s := segment.NewSegmenter(b)
	s.Init(strings.NewReader(text))
	for s.Next() {
		p, _ := s.Penalties()
		fmt.Fprintf(h, "%q %d;", s.Text(), p)
	}
	fmt.Fprint(h, s.Err())
	return fmt.Sprintf("%x", h.Sum64())
}

func runL02(c lineConc, o *Obs) *Viol {
	got := make([][]string, len(c.Texts))
	pan := make([]interface{}, len(c.Texts))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range c.Texts {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Jit + int64(g)))
			<-start
			pan[g] = protect(func() {
				if c.Setup && g%2 == 0 {
					uax14.SetupClasses()
				}
				b := uax14.NewLineWrap()
				for _, t := range c.Texts[g] {
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					if r.Intn(2) == 0 {
						b = uax14.NewLineWrap()
					}
					got[g] = append(got[g], lineDigest(b, string(t)))
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	for g, p := range pan {
		if p != nil {
			return violf("panic", "goroutine %d panicked: %v", g, p)
		}
	}
	n := 0
	for g, ts := range c.Texts {
		for k, t := range ts {
			if want := lineDigest(uax14.NewLineWrap(), string(t)); got[g][k] != want {
				return violf("interference", "goroutine %d of %d, text %+q: lines differ when running concurrently", g, len(c.Texts), clip(string(t), 300))
			}
			n++
		}
	}
	o.Add("texts", n)
	o.Add("goroutines", len(c.Texts))
	o.Nontrivial(fmt.Sprint(c))
	o.Sample("%d goroutines broke %d texts into lines", len(c.Texts), n)
	return nil
}

func init() {
	newLine = func() uax.UnicodeBreaker { return uax14.NewLineWrap() }
	genLine = genLB
	bp := breakProp{
		classes: int(ref.LBCount) - 1,
		repr:    func(r *rand.Rand, c int) rune { return runeOfLB(r, ref.LB(c+1)) },
		want:    ref.LinesOf,
		breaker: func(w int) uax.UnicodeBreaker { return uax14.NewLineWrap() },
		gen:     genLB,
		newline: ref.IsLBNewline,
		eotMust: true,
		full: func(tier string) int {
			if tier == "thorough" {
				return 4
			}
			return 3
		},
	}
	ref.LBOf('a')
	register(&Prop{ID: "L01", Rule: "a text in which the Unicode rules both break and join; distinct texts are counted",
		N: tierN(300000, 6000000),
		Gen: func(i int, r *rand.Rand, tier string) interface{} {
			k := bp.classes
			if tier != "thorough" && i >= k*k && i < 2*k*k && i%3 != 0 { // a third of the sequences of length 4
				return breakCase{Text: q2(genLB(r, textLen(r)))}
			}
			return bp.genCase(i, r, tier)
		}, Decode: decodeAs[breakCase](), Shrink: bp.shrink,
		Run: func(c interface{}, o *Obs) *Viol { return bp.check(c.(breakCase), o) },
		Assumptions: []string{"text without U+0000 (the interface between segmenter and breakers uses rune 0 as end-of-text)",
			"the class table, which the repository lacks, is made from the Line_Break data of Unicode 15 and added by an overlay; rules as of Unicode 10"},
	})
	register(&Prop{ID: "L02", Race: true, Rule: "a set of texts broken into lines concurrently; distinct ones are counted",
		N: tierN(800, 20000),
		Gen: func(i int, r *rand.Rand, tier string) interface{} {
			c := lineConc{Jit: r.Int63n(1 << 40), Setup: r.Intn(3) == 0}
			for g := 2 + r.Intn(7); g > 0; g-- {
				var ts []Q
				for k := 1 + r.Intn(4); k > 0; k-- {
					// long runs take a line breaker quadratic time, too much with the race detector
					ts = append(ts, q2(upTo(250, genLB(r, 1+r.Intn(40)))))
				}
				c.Texts = append(c.Texts, ts)
			}
			return c
		},
		Decode: decodeAs[lineConc](), Fresh: func(t string) int { return 12 },
		Run:         func(c interface{}, o *Obs) *Viol { return runL02(c.(lineConc), o) },
		Assumptions: []string{"every goroutine uses line breakers and segmenters of its own", "the class table is added by an overlay"}})
}
