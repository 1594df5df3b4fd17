package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/npillmayer/uax/internal/ucdparse"
)

// --- U05: conformance test files of the Unicode character database --------------------------

type tfLine struct {
	Kind    int    `json:"k,omitempty"` // 0 test, 1 comment line, 2 blank line
	Segs    []Q    `json:"s,omitempty"`
	Comment *Q     `json:"c,omitempty"`
	Pad     string `json:"pad,omitempty"` // white space in front
	Sep     string `json:"sep"`           // white space between the tokens
	Lower   bool   `json:"lower,omitempty"`
	Lead    bool   `json:"lead,omitempty"` // starts with × instead of ÷
}

type tfCase struct {
	Lines  []tfLine `json:"lines"`
	End    string   `json:"end"`              // line end
	NoLast bool     `json:"nolast,omitempty"` // the last line is not ended
	Long   int      `json:"long,omitempty"`   // 1 + index of a line which is too long for the reader
}

func (l tfLine) text() string {
	switch l.Kind {
	case 1:
		return l.Pad + "#" + string(*l.Comment)
	case 2:
		return l.Pad
	}
	tok := []string{"÷"}
	if l.Lead {
		tok[0] = "×"
	}
	for _, s := range l.Segs {
		for k, c := range []rune(string(s)) {
			if k > 0 {
				tok = append(tok, "×")
			}
			f := "%04X"
			if l.Lower {
				f = "%04x"
			}
			tok = append(tok, fmt.Sprintf(f, c))
		}
		tok = append(tok, "÷")
	}
	t := l.Pad + strings.Join(tok, l.Sep)
	if l.Comment != nil {
		t += "\t#" + string(*l.Comment)
	}
	return t
}

func genU05(i int, r *rand.Rand, tier string) interface{} {
	c := tfCase{End: []string{"\n", "\n", "\r\n"}[r.Intn(3)], NoLast: r.Intn(4) == 0}
	n := r.Intn(12)
	if r.Intn(20) == 0 {
		n = 100 + r.Intn(1500) // beyond any buffer
	}
	for k := 0; k < n; k++ {
		l := tfLine{Sep: []string{" ", " ", "  ", "\t"}[r.Intn(4)], Lower: r.Intn(6) == 0, Lead: r.Intn(10) == 0}
		if r.Intn(6) == 0 {
			l.Pad = []string{" ", "\t", "   "}[r.Intn(3)]
		}
		if r.Intn(5) > 0 {
			cm := Q([]string{" ÷ [0.2] SPACE (Other) × [9.0] COMBINING DIAERESIS (Extend_FE) ÷ [0.3]", "", " a", " # twice # ##", " 100% ×", "÷ 0041 ÷", "ÄÖÜ"}[r.Intn(7)])
			l.Comment = &cm
		}
		switch r.Intn(8) {
		case 0:
			if l.Kind = 1; l.Comment == nil {
				cm := Q("")
				l.Comment = &cm
			}
		case 1:
			l.Kind = 2
		default:
			m := 1 + r.Intn(5)
			if r.Intn(60) == 0 {
				m = r.Intn(300)
			}
			for ; m > 0; m-- {
				var s []rune
				for q := 1 + r.Intn(4); q > 0; q-- {
					switch r.Intn(5) {
					case 0:
						s = append(s, rune(r.Intn(0x80)))
					case 1:
						s = append(s, []rune{0, 1, 0xa, 0xd, 0x20, 0xd7, 0xf7, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff}[r.Intn(14)])
					case 2:
						s = append(s, 0x10000+rune(r.Intn(0x100000)))
					default:
						s = append(s, rune(r.Intn(0xd800)))
					}
				}
				l.Segs = append(l.Segs, Q(string(s)))
			}
			if r.Intn(60) == 0 { // one with many characters
				l.Segs = append(l.Segs, Q(strings.Repeat("äx", 300+r.Intn(1200))))
			}
		}
		c.Lines = append(c.Lines, l)
	}
	if n > 0 && r.Intn(25) == 0 {
		c.Long = 1 + r.Intn(n)
	}
	return c
}

func runU05(c tfCase, o *Obs) *Viol {
	dir, err := os.MkdirTemp("", "vmon-tf-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "Test.txt")
	if tf := ucdparse.OpenTestFile(name, nil); tf != nil {
		return violf("missing", "a file which does not exist is opened")
	}
	var b strings.Builder
	var want []tfLine
	cut := false
	for k, l := range c.Lines {
		t := l.text()
		if k == c.Long-1 {
			t, cut = t+strings.Repeat(" ", 70000), true
		}
		if b.WriteString(t); k < len(c.Lines)-1 || !c.NoLast {
			b.WriteString(c.End)
		}
		if l.Kind == 0 && !cut {
			want = append(want, l)
		}
	}
	if err := os.WriteFile(name, []byte(b.String()), 0o644); err != nil {
		panic(err)
	}
	tf := ucdparse.OpenTestFile(name, nil)
	if tf == nil {
		return violf("open", "a file which exists is not opened")
	}
	defer tf.Close()
	n := 0
	for ; tf.Scan(); n++ {
		if n >= len(want) {
			if cut { // a test behind a line which is too long
				return violf("long", "test %q is read behind a line which cannot be read", clip(tf.Text(), 200))
			}
			return violf("extra", "only %d tests in the file, then %q", len(want), clip(tf.Text(), 200))
		}
		w := want[n]
		for rep := 0; rep < 2; rep++ { // reading does not consume
			in, out := ucdparse.BreakTestInput(tf.Text())
			var segs []string
			for _, s := range w.Segs {
				segs = append(segs, string(s))
			}
			if in != strings.Join(segs, "") {
				return violf("input", "test %d (%q): input is %+q, should be %+q", n, clip(w.text(), 300), clip(in, 300), clip(strings.Join(segs, ""), 300))
			}
			if fmt.Sprintf("%q", out) != fmt.Sprintf("%q", segs) {
				return violf("segments", "test %d (%q): segments are %+q, should be %+q", n, clip(w.text(), 300), out, segs)
			}
			cm := ""
			if w.Comment != nil {
				cm = strings.TrimSpace(string(*w.Comment))
			}
			if g := strings.TrimSpace(tf.Comment()); g != cm {
				return violf("comment", "test %d (%q): comment is %q, should be %q", n, clip(w.text(), 300), g, cm)
			}
		}
		o.Add("tests_read", 1)
	}
	if n < len(want) {
		return violf("lost", "%d of %d tests were read, then %v", n, len(want), tf.Err())
	}
	if cut != (tf.Err() != nil) {
		return violf("error", "line too long: %v, error: %v", cut, tf.Err())
	}
	if !cut && tf.Scan() {
		return violf("end", "scanning goes on after the end: %q", tf.Text())
	}
	o.Add("comment_and_blank_lines", len(c.Lines)-len(want))
	if cut {
		o.Add("unreadable_lines", 1)
	}
	if n > 0 {
		o.Nontrivial(b.String())
		o.Sample("%d tests, first %q", n, want[0].text())
	}
	return nil
}

func init() {
	register(&Prop{ID: "U05", Rule: "a file with at least one test, all of whose tests were compared; distinct files are counted",
		N: tierN(60000, 1000000), Gen: genU05, Decode: decodeAs[tfCase](),
		Run: func(c interface{}, o *Obs) *Viol { return runU05(c.(tfCase), o) },
		Shrink: func(x interface{}) (l []interface{}) {
			c := x.(tfCase)
			for k := range c.Lines {
				d := c
				d.Lines = append(append([]tfLine{}, c.Lines[:k]...), c.Lines[k+1:]...)
				if d.Long > k+1 {
					d.Long--
				} else if d.Long == k+1 {
					continue
				}
				l = append(l, d)
			}
			return
		},
		Assumptions: []string{"scratch files in the temporary directory; characters other than surrogates (which text cannot hold)"},
	})
}
