package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"bytes"

	"github.com/npillmayer/uax/internal/ucdparse"
	"github.com/npillmayer/uax/verif/ref"
)

// --- U01: from UCD files to range tables --------------------------------------------------

type ucdItem struct {
	Kind    int      `json:"k,omitempty"` // 0 item, 1 comment line, 2 blank line
	Lo      rune     `json:"lo,omitempty"`
	Hi      rune     `json:"hi,omitempty"`
	Fields  []string `json:"f,omitempty"`
	Comment string   `json:"c,omitempty"`
	Pad     int      `json:"pad,omitempty"`
	Dots    bool     `json:"dots,omitempty"` // write single characters as a range
	Lower   bool     `json:"lower,omitempty"`
	Tab     bool     `json:"tab,omitempty"` // pad with tabs
}

type ucdCase struct {
	Items  []ucdItem `json:"items"`
	Field  int       `json:"field"`            // category field (1: code points, 2: first field …)
	Prefix string    `json:"prefix,omitempty"` // of table names
	EOL    int       `json:"eol,omitempty"`    // 0 LF, 1 CRLF, 2: no newline at the end, 3 CR, 4 all kinds
	Chunk  int       `json:"chunk,omitempty"`  // bytes per read (0: as many as wanted)
	Fill   int       `json:"fill,omitempty"`   // number of comment lines in front
	CLI    bool      `json:"cli,omitempty"`    // run the generator program against a local server
}

func (c ucdCase) file() string {
	var sb strings.Builder
	eol := "\n"
	switch c.EOL {
	case 1:
		eol = "\r\n"
	case 3:
		eol = "\r"
	}
	for i := 0; i < c.Fill; i++ {
		fmt.Fprintf(&sb, "# 0041..00%d ; comment %s%s", i%90+10, strings.Repeat("=", i%60), eol)
	}
	for n, it := range c.Items {
		if c.EOL == 4 {
			eol = []string{"\n", "\r", "\r\n"}[n*n%7%3]
			if n < len(c.Items)-1 && c.Items[n+1].Kind == 2 && c.Items[n+1].Pad == 0 && eol == "\r" {
				eol = "\n" // an empty line may follow with a LF of its own
			}
		}
		pad := strings.Repeat(" ", it.Pad)
		if it.Tab {
			pad = strings.Repeat("\t", it.Pad)
		}
		switch it.Kind {
		case 1:
			sb.WriteString("# " + it.Comment)
		case 2:
			sb.WriteString(pad)
		default:
			cps := fmt.Sprintf("%04X", it.Lo)
			if it.Lo != it.Hi || it.Dots {
				cps = fmt.Sprintf("%04X..%04X", it.Lo, it.Hi)
			}
			if it.Lower {
				cps = strings.ToLower(cps)
			}
			sb.WriteString(cps + pad)
			for i, f := range it.Fields {
				sb.WriteString(";")
				if it.Pad > 0 {
					sb.WriteString(pad[:1])
				}
				sb.WriteString(f)
				if it.Pad > 2 || it.Tab && i == 0 && it.Pad > 0 {
					sb.WriteString(pad[:1])
				}
			}
			if it.Comment != "" {
				sb.WriteString(" # " + it.Comment)
			}
		}
		sb.WriteString(eol)
	}
	s := sb.String()
	if c.EOL == 2 {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

var devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

// quiet runs f without its output (the parser writes debugging output to stdout)
func quiet(f func()) {
	out := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = out }()
	f()
}

// want: the code points per category
func (c ucdCase) want() map[string]map[rune]bool {
	out := map[string]map[rune]bool{}
	for _, it := range c.Items {
		if it.Kind != 0 || len(it.Fields) < c.Field-1 {
			continue
		}
		cat := it.Fields[c.Field-2]
		if cat == "" {
			continue
		}
		if c.Prefix != "" {
			cat = c.Prefix + "_" + cat
		}
		if out[cat] == nil {
			out[cat] = map[rune]bool{}
		}
		for r := it.Lo; r <= it.Hi; r++ {
			out[cat][r] = true
		}
	}
	return out
}

// sizedReader gives n bytes at a time, at most.
type sizedReader struct {
	r io.Reader
	n int
}

func (c *sizedReader) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

func runU01(c ucdCase, o *Obs) *Viol {
	text := c.file()
	// 1. the parser delivers every item, in order
	type item struct {
		lo, hi rune
		cat    string
		com    string
		fields []string
		line   int
	}
	var got []item
	var err error
	pv := protect(func() {
		quiet(func() {
			var rd io.Reader = strings.NewReader(text)
			if c.Chunk > 0 {
				rd = &sizedReader{strings.NewReader(text), c.Chunk}
			}
			err = ucdparse.Parse(rd, func(t *ucdparse.Token) {
				l, r := t.Range()
				if len(t.Fields) == 0 && l == 0 && r == 0 {
					return // start of document
				}
				it := item{l, r, strings.TrimSpace(t.Field(c.Field - 1)), t.Comment, nil, t.LineNo}
				for i := range t.Fields {
					it.fields = append(it.fields, strings.TrimSpace(t.Field(i+1)))
				}
				got = append(got, it)
			})
		})
	})
	if pv != nil {
		return violf("panic", "parser: %v", pv)
	}
	if err != nil {
		return violf("error", "parser: %v for\n%s", err, text)
	}
	k := 0
	for n, it := range c.Items {
		if it.Kind != 0 {
			continue
		}
		if k < len(got) && got[k].line != c.Fill+n+1 {
			return violf("items", "item %04X..%04X of line %d is reported at line %d, file\n%s", it.Lo, it.Hi, c.Fill+n+1, got[k].line, clip(text, 2000))
		}
		if k >= len(got) {
			return violf("items", "item %04X..%04X is missing, file\n%s", it.Lo, it.Hi, text)
		}
		g := got[k]
		k++
		if g.lo != it.Lo || g.hi != it.Hi || strings.Join(g.fields, ";") != strings.Join(it.Fields, ";") || g.com != strings.TrimSpace(it.Comment) {
			return violf("items", "item is %+v, should be %+v, file\n%s", g, it, text)
		}
		if c.Field-2 < len(it.Fields) && g.cat != it.Fields[c.Field-2] {
			return violf("items", "category is %q, should be %q", g.cat, it.Fields[c.Field-2])
		}
		o.Add("items", 1)
	}
	if k != len(got) {
		return violf("items", "%d items too many: %+v, file\n%s", len(got)-k, got[k], text)
	}
	// 2. range tables
	want := c.want()
	var src string
	if c.CLI {
		var v *Viol
		if src, v = runTablegen(c, text); v != nil {
			return v
		}
		o.Add("generator_runs", 1)
	} else {
		coll := map[string]*ucdparse.RangeTableCollector{}
		for _, g := range got {
			if g.cat == "" {
				continue
			}
			cat := g.cat
			if c.Prefix != "" {
				cat = c.Prefix + "_" + cat
			}
			if coll[cat] == nil {
				coll[cat] = &ucdparse.RangeTableCollector{Cat: cat}
			}
			coll[cat].Append(g.lo, g.hi)
		}
		var buf bytes.Buffer
		buf.WriteString("package p\nimport \"unicode\"\n")
		for _, t := range coll {
			t.Output(&buf)
		}
		src = buf.String()
	}
	tabs, public, err := evalTables(src)
	if err != nil {
		return violf("source", "generated source: %v\n%s", err, clip(src, 2000))
	}
	if len(tabs) != len(want) {
		return violf("tables", "%d tables for %d categories", len(tabs), len(want))
	}
	cross := map[string]bool{} // categories with an item which is part of the BMP only partly
	for _, it := range c.Items {
		if it.Kind == 0 && it.Lo <= 0xffff && it.Hi > 0xffff && len(it.Fields) >= c.Field-1 {
			cat := it.Fields[c.Field-2]
			if c.Prefix != "" {
				cat = c.Prefix + "_" + cat
			}
			cross[cat] = true
		}
	}
	for cat, set := range want {
		t := tabs["_"+cat]
		if t == nil {
			return violf("tables", "no table for %s", cat)
		}
		if c.CLI && public[cat] != "_"+cat {
			return violf("tables", "public variable of %s refers to %q", cat, public[cat])
		}
		if v := checkTable(cat, t, set, cross[cat], o); v != nil {
			return v
		}
	}
	if len(want) > 0 {
		o.Nontrivial(text, c.Field, c.Prefix)
		o.Sample("%d items, %d categories, first: %s", k, len(want), clip(strings.SplitN(text, "\n", 2)[0], 80))
	}
	return nil
}

// checkTable checks that a table is well-formed, and has exactly the members of set
func checkTable(name string, t *unicode.RangeTable, set map[rune]bool, cross bool, o *Obs) *Viol {
	last, latin := rune(-2), 0
	n := 0
	rng := func(lo, hi, stride uint32, r32 bool) string {
		switch {
		case lo > hi:
			return "low > high"
		case rune(lo) <= last:
			return "not ascending"
		case stride != 1:
			return "stride"
		case r32 != (hi > 0xffff) || r32 && lo <= 0xffff && !cross:
			return "in the wrong list"
		}
		last = rune(hi)
		for r := rune(lo); r <= rune(hi); r++ {
			if !set[r] {
				return fmt.Sprintf("contains %U", r)
			}
			n++
		}
		if hi <= unicode.MaxLatin1 {
			latin++
		}
		return ""
	}
	for _, r := range t.R16 {
		if s := rng(uint32(r.Lo), uint32(r.Hi), uint32(r.Stride), false); s != "" {
			return violf("table", "table %s, range %04X..%04X: %s", name, r.Lo, r.Hi, s)
		}
	}
	for _, r := range t.R32 {
		if s := rng(r.Lo, r.Hi, r.Stride, true); s != "" {
			return violf("table", "table %s, range %04X..%04X: %s", name, r.Lo, r.Hi, s)
		}
	}
	if t.LatinOffset != latin {
		return violf("table", "table %s: LatinOffset is %d, should be %d", name, t.LatinOffset, latin)
	}
	for r := range set {
		if !unicode.Is(t, r) {
			return violf("table", "table %s does not have %U", name, r)
		}
	}
	if n != len(set) {
		return violf("table", "table %s has %d characters, should have %d", name, n, len(set))
	}
	o.Add("tables", 1)
	o.Add("table_members", n)
	return nil
}

// evalTables reads the range tables out of Go source code
func evalTables(src string) (map[string]*unicode.RangeTable, map[string]string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return nil, nil, err
	}
	tabs := map[string]*unicode.RangeTable{}
	public := map[string]string{}
	num := func(e ast.Expr) uint32 {
		if l, ok := e.(*ast.BasicLit); ok {
			if n, err2 := strconv.ParseUint(l.Value, 0, 32); err2 == nil {
				return uint32(n)
			}
		}
		err = fmt.Errorf("not a number at %v", fs.Position(e.Pos()))
		return 0
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Names) != 1 || len(vs.Values) != 1 {
				return nil, nil, fmt.Errorf("unexpected declaration")
			}
			name := vs.Names[0].Name
			if id, ok := vs.Values[0].(*ast.Ident); ok {
				public[name] = id.Name
				continue
			}
			u, ok := vs.Values[0].(*ast.UnaryExpr)
			if !ok {
				return nil, nil, fmt.Errorf("unexpected value of %s", name)
			}
			cl, ok := u.X.(*ast.CompositeLit)
			if !ok {
				return nil, nil, fmt.Errorf("unexpected value of %s", name)
			}
			if tabs[name] != nil {
				return nil, nil, fmt.Errorf("%s is there twice", name)
			}
			t := &unicode.RangeTable{}
			tabs[name] = t
			for _, e := range cl.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return nil, nil, fmt.Errorf("table %s without keys", name)
				}
				switch kv.Key.(*ast.Ident).Name {
				case "R16", "R32":
					for _, x := range kv.Value.(*ast.CompositeLit).Elts {
						r := x.(*ast.CompositeLit).Elts
						if len(r) != 3 {
							return nil, nil, fmt.Errorf("range in %s", name)
						}
						a, b, s := num(r[0]), num(r[1]), num(r[2])
						if kv.Key.(*ast.Ident).Name == "R32" {
							t.R32 = append(t.R32, unicode.Range32{Lo: a, Hi: b, Stride: s})
						} else if a > 0xffff || b > 0xffff || s > 0xffff {
							return nil, nil, fmt.Errorf("overflow in %s", name)
						} else {
							t.R16 = append(t.R16, unicode.Range16{Lo: uint16(a), Hi: uint16(b), Stride: uint16(s)})
						}
					}
				case "LatinOffset":
					t.LatinOffset = int(num(kv.Value))
				default:
					return nil, nil, fmt.Errorf("unknown key in %s", name)
				}
			}
		}
	}
	return tabs, public, err
}

// runTablegen serves text at the loopback interface and runs the generator program.
func runTablegen(c ucdCase, text string) (string, *Viol) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, text) }))
	defer srv.Close()
	dir, err := os.MkdirTemp("", "vmon-tablegen-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.go")
	args := []string{"-p", "p", "-f", strconv.Itoa(c.Field), "-o", out, "-u", srv.URL + "/ucd.txt"}
	if c.Prefix != "" {
		args = append(args, "-x", c.Prefix)
	}
	self, _ := os.Executable()
	cmd := exec.Command(filepath.Join(filepath.Dir(self), "tablegen"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "NO_PROXY=*", "no_proxy=*")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	done := make(chan error, 1)
	go func() { done <- cmd.Run() }()
	select {
	case err = <-done:
	case <-time.After(30 * time.Second):
		cmd.Process.Kill()
		return "", violf("cli-hang", "generator program does not end")
	}
	if err != nil {
		return "", violf("cli", "generator program: %v\n%s", err, clip(errb.String(), 800))
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return "", violf("cli", "generator program: %v\n%s", err, clip(errb.String(), 800))
	}
	return string(b), nil
}

func genU01(i int, r *rand.Rand, tier string) interface{} {
	c := ucdCase{Field: 2, EOL: r.Intn(5), CLI: i%100 == 0}
	if r.Intn(3) == 0 {
		c.Chunk = []int{1, 2, 3, 7, 64, 4095, 4096, 4097}[r.Intn(8)]
	}
	switch r.Intn(60) {
	case 0, 1, 2:
		c.Fill = 60 + r.Intn(60) // around the initial buffer size
	case 3:
		c.Fill = 1100 + r.Intn(400) // around the maximal buffer size
	}
	if r.Intn(2) == 0 {
		c.Prefix = []string{"ARAB", "X", "UIPC", "b1"}[r.Intn(4)]
	}
	nf := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		nf = 5 + r.Intn(12) // UnicodeData.txt has 14
		if r.Intn(3) == 0 {
			nf += r.Intn(60)
		}
	}
	c.Field = 2 + r.Intn(nf)
	cats := []string{"Na", "W", "F", "Top_And_Right", "AL", "x9", "Bottom", "A"}
	cats = cats[:1+r.Intn(len(cats))]
	n := r.Intn(12)
	if r.Intn(10) == 0 {
		n = r.Intn(80)
	}
	var items []ucdItem
	cross, tabs, lower := r.Intn(3) == 0, r.Intn(4) == 0, r.Intn(8) == 0
	cp := rune(r.Intn(80))
	if r.Intn(3) == 0 {
		cp = 0
	}
	switch r.Intn(7) {
	case 0:
		cp = 0xff00 + rune(r.Intn(0x100))
	case 1:
		cp = 0x10000 - rune(r.Intn(6))
	case 2:
		cp = 0xf0 + rune(r.Intn(16))
	case 3:
		cp = 0x10000 + rune(r.Intn(0x2000))
	case 4:
		cp = []rune{0x1ff80, 0x2f800, 0x7ff80, 0xe0000, 0xfff80, 0x100000, 0x10fe00, 0xfffe0}[r.Intn(8)] + rune(r.Intn(64))
	}
	for k := 0; k < n; k++ {
		it := ucdItem{Lo: cp, Pad: r.Intn(4), Dots: r.Intn(15) == 0}
		it.Hi = cp
		if r.Intn(2) == 0 {
			it.Hi += rune(r.Intn(40))
		}
		if it.Lo <= 0xffff && it.Hi > 0xffff && !cross {
			it.Hi = 0xffff
		}
		it.Tab = tabs && r.Intn(2) == 0
		it.Lower = lower
		cp = it.Hi + 1
		switch r.Intn(8) {
		case 0, 1, 2:
			cp += rune(r.Intn(6))
		case 3:
			cp += rune(r.Intn(300))
		case 4:
			if r.Intn(3) == 0 {
				cp += rune(r.Intn(0x8000))
			}
		}
		if cp > 0x10ff00 {
			n = k + 1
		}
		for f := 0; f < nf; f++ {
			it.Fields = append(it.Fields, []string{"ARABIC LETTER", "No_Joining_Group", "foo", "0041 0301", "Ünïcode"}[r.Intn(5)])
		}
		for f := range it.Fields { // as in UnicodeData.txt
			if r.Intn(6) == 0 {
				it.Fields[f] = ""
			}
		}
		it.Fields[c.Field-2] = cats[r.Intn(len(cats))]
		if r.Intn(20) == 0 {
			it.Fields[c.Field-2] = ""
		}
		if r.Intn(2) == 0 {
			it.Comment = []string{"Cc    [18] <control-000E>..<control-001F>", "Mc", "x; y; z", "LATIN …", "E0.0   [1] (#️)       hash sign", "#", "a # b # c"}[r.Intn(7)]
			if r.Intn(40) == 0 {
				it.Comment = strings.Repeat("long ; ", 20+r.Intn(100)) + "end"
			}
		}
		items = append(items, it)
	}
	if r.Intn(3) == 0 { // grouped by category, as in many UCD files
		sort.SliceStable(items, func(a, b int) bool { return items[a].Fields[c.Field-2] < items[b].Fields[c.Field-2] })
	}
	for _, it := range items {
		for r.Intn(5) == 0 {
			if r.Intn(2) == 0 {
				c.Items = append(c.Items, ucdItem{Kind: 1, Comment: []string{"", "@missing: 0000..10FFFF; NA", "0041;X", "===="}[r.Intn(4)]})
			} else {
				c.Items = append(c.Items, ucdItem{Kind: 2, Pad: r.Intn(3), Tab: tabs})
			}
		}
		c.Items = append(c.Items, it)
	}
	if r.Intn(2) == 0 {
		c.Items = append(c.Items, ucdItem{Kind: 1, Comment: "EOF"})
	}
	return c
}

// --- U02: the tables of package shaping ----------------------------------------------------------

func runU02(c classCase, o *Obs) *Viol {
	gold := ref.Shaping()
	if len(gold) != len(shapingTables) {
		return violf("tables", "%d tables, should be %d", len(shapingTables), len(gold))
	}
	if c.Lo < 0 { // structure of table number N
		var names []string
		for n := range gold {
			names = append(names, n)
		}
		sort.Strings(names)
		name := names[c.N%len(names)]
		set := map[rune]bool{}
		for _, g := range gold[name] {
			for r := g[0]; r <= g[1]; r++ {
				set[r] = true
			}
		}
		o.Nontrivial(name)
		o.Sample("%s: %d characters", name, len(set))
		return checkTable(name, shapingTables[name], set, false, o)
	}
	for name, t := range shapingTables {
		in := map[rune]bool{}
		for _, g := range gold[name] {
			for r := max(g[0], rune(c.Lo)); r <= g[1] && r < rune(c.Lo+c.N); r++ {
				in[r] = true
			}
		}
		for r := rune(c.Lo); r < rune(c.Lo+c.N); r++ {
			if unicode.Is(t, r) != in[r] {
				return violf("member", "%U in table %s: %v", r, name, !in[r])
			}
		}
		o.Add("lookups", c.N)
		o.Add("members", len(in))
	}
	o.Nontrivial(c.Lo)
	return nil
}

func init() {
	register(&Prop{ID: "U01", Rule: "a UCD file with at least one categorized item; distinct files are counted",
		N: tierN(160000, 600000), Gen: genU01, Decode: decodeAs[ucdCase](),
		Run: func(c interface{}, o *Obs) *Viol { return runU01(c.(ucdCase), o) },
		Shrink: func(x interface{}) []interface{} {
			c := x.(ucdCase)
			var out []interface{}
			if c.Fill > 0 {
				d, e := c, c
				d.Fill, e.Fill = 0, c.Fill/2
				out = append(out, d, e)
			}
			for i := range c.Items {
				d := c
				d.Items = append(append([]ucdItem{}, c.Items[:i]...), c.Items[i+1:]...)
				out = append(out, d)
			}
			return out
		},
		Assumptions: []string{"code point ranges ascend within a category, as in the Unicode data files", "no line exceeds 64 KiB"}})
	register(&Prop{ID: "U02", Rule: "a block of 256 code points looked up in all 56 tables, or the structure of a table",
		N: func(string) int { return 0x1100 + 56 },
		Gen: func(i int, r *rand.Rand, tier string) interface{} {
			if i < 56 {
				return classCase{-1, i}
			}
			return classCase{(i - 56) * 256, 256}
		},
		Decode:      decodeAs[classCase](),
		Run:         func(c interface{}, o *Obs) *Viol { return runU02(c.(classCase), o) },
		Assumptions: []string{"Unicode 13.0; tables ARAB_T and ARAB_U have the explicitly listed characters only"}})
}
