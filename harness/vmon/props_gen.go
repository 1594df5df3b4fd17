package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// --- U03: the class generators ---------------------------------------------------------------

type genItem struct {
	Lo   rune   `json:"lo"`
	Hi   rune   `json:"hi"`
	Cls  string `json:"cls"`
	Text string `json:"t,omitempty"` // comment
}

type genCaseT struct {
	Gen     string    `json:"gen"`
	Items   []genItem `json:"items"`
	Style   int       `json:"style"` // 0 compact, 1 padded
	Compile bool      `json:"compile,omitempty"`
	V       bool      `json:"v,omitempty"`
}

type genSpec struct {
	dir, data, out, pkg, typ, tabs string
	classes                        []string
}

// what the generators are documented to write, and where they read from
var genSpecs = map[string]genSpec{
	"grapheme": {"grapheme", "GraphemeBreakProperty.txt", "graphemeclasses.go", "grapheme", "GraphemeClass", "rangeFromGraphemeClass",
		strings.Fields("CR LF Prepend Control Extend Regional_Indicator SpacingMark L V T LV LVT ZWJ")},
	"uax29": {"uax29", "WordBreakProperty.txt", "uax29classes.go", "uax29", "UAX29Class", "rangeFromUAX29Class",
		strings.Fields("ALetter CR Double_Quote Extend ExtendNumLet Format Hebrew_Letter Katakana LF MidLetter MidNum MidNumLet Newline Numeric Regional_Indicator Single_Quote WSegSpace ZWJ")},
	"emoji": {"emoji", "emoji-data.txt", "emojiclasses.go", "emoji", "EmojisClass", "rangeFromEmojisClass",
		strings.Fields("Emoji Emoji_Presentation Emoji_Modifier Emoji_Modifier_Base Emoji_Component Extended_Pictographic")},
	"uax14": {"uax14", "LineBreak.txt", "uax14classes.go", "uax14", "UAX14Class", "rangeFromUAX14Class",
		strings.Fields("AI AL B2 BA BB BK CB CJ CL CM CP CR EB EM EX GL H2 H3 HL HY ID IN IS JL JT JV LF NL NS NU OP PO PR QU RI SA SG SP SY WJ XX ZW ZWJ")},
}

func (c genCaseT) file() string {
	var sb strings.Builder
	sb.WriteString("# Data-1.0.0.txt\n# © Unicode®, Inc.\n#\n# ================\n\n")
	for i, it := range c.Items {
		cp := fmt.Sprintf("%04X", it.Lo)
		if it.Hi != it.Lo {
			cp = fmt.Sprintf("%04X..%04X", it.Lo, it.Hi)
		}
		cls := it.Cls
		if c.Gen == "brackets" {
			cls = fmt.Sprintf("%04X; %s", it.Hi, it.Cls)
			cp = fmt.Sprintf("%04X", it.Lo)
			fmt.Fprintf(&sb, "%s; %s # %s\n", cp, cls, it.Text)
			continue
		}
		if c.Style == 0 {
			fmt.Fprintf(&sb, "%s;%s", cp, cls)
		} else {
			fmt.Fprintf(&sb, "%-14s; %s", cp, cls)
		}
		if it.Text != "" || c.Style == 1 {
			fmt.Fprintf(&sb, " # %s", it.Text)
		}
		sb.WriteString("\n")
		if i%7 == 3 {
			sb.WriteString("\n# Total code points: 17\n\n")
		}
	}
	sb.WriteString("\n# EOF\n")
	return sb.String()
}

func runU03(c genCaseT, o *Obs) *Viol {
	dir, err := os.MkdirTemp("", "vmon-gen-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	gp, wd := filepath.Join(dir, "gopath"), filepath.Join(dir, "wd")
	os.MkdirAll(filepath.Join(gp, "etc"), 0o755)
	os.MkdirAll(wd, 0o755)
	spec := genSpecs[c.Gen]
	self, _ := os.Executable()
	cmd := exec.Command(filepath.Join(filepath.Dir(self), "gen-"+c.Gen))
	if c.V {
		cmd.Args = append(cmd.Args, "-v")
	}
	in := filepath.Join(gp, "etc", spec.data)
	if c.Gen == "brackets" {
		in = filepath.Join(wd, "BidiBrackets.txt")
		cmd.Args = []string{cmd.Path, "-o", "pairs.go", "-pkg", "abc", "-trace", "E"}
		spec.out, spec.pkg = "pairs.go", "abc"
	}
	if err := os.WriteFile(in, []byte(c.file()), 0o644); err != nil {
		panic(err)
	}
	cmd.Dir = wd
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOPATH=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "GOPATH="+gp)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	done := make(chan error, 1)
	go func() { done <- cmd.Run() }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		return violf("gen-hang", "generator %s does not end", c.Gen)
	}
	if err != nil {
		return violf("gen-exit", "generator %s: %v\n%s", c.Gen, err, clip(eb.String(), 800))
	}
	src, err := os.ReadFile(filepath.Join(wd, spec.out))
	if err != nil {
		return violf("gen-output", "generator %s wrote no %s: %v", c.Gen, spec.out, err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, spec.out, src, 0)
	if err != nil {
		return violf("gen-syntax", "%s written by generator %s is not Go: %v", spec.out, c.Gen, err)
	}
	if f.Name.Name != spec.pkg {
		return violf("gen-package", "%s declares package %s", spec.out, f.Name.Name)
	}
	o.Add("runs_"+c.Gen, 1)
	o.Add("items", len(c.Items))
	fp, _ := json.Marshal(c.Items)
	o.Nontrivial(c.Gen, string(fp), c.Style)
	o.Sample("generator %s, %d items", c.Gen, len(c.Items))
	if c.Gen == "brackets" {
		return checkPairs(c, f, fset)
	}
	if v := checkClassFile(c, spec, f, o); v != nil {
		return v
	}
	if !c.Compile {
		return nil
	}
	// it must compile in place of the file in the repository
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]map[string]string{"Replace": {"/repo/" + spec.dir + "/" + spec.out: filepath.Join(wd, spec.out)}})
	os.WriteFile(ov, b, 0o644)
	bc := exec.Command("go", "build", "-overlay", ov, "./"+spec.dir)
	bc.Dir = "/repo"
	if out, err := bc.CombinedOutput(); err != nil {
		return violf("gen-compile", "package %s does not compile with the %s which the generator wrote:\n%s", spec.dir, spec.out, clip(string(out), 1500))
	}
	o.Add("compiled", 1)
	return nil
}

func checkPairs(c genCaseT, f *ast.File, fset *token.FileSet) *Viol {
	if _, err := (&types.Config{}).Check("abc", fset, []*ast.File{f}, nil); err != nil {
		return violf("gen-compile", "bracket pairs do not compile: %v", err)
	}
	var got, want []string
	ast.Inspect(f, func(n ast.Node) bool {
		if cl, ok := n.(*ast.CompositeLit); ok && len(cl.Elts) == 2 && cl.Type == nil {
			s := ""
			for _, e := range cl.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return true
				}
				k, _ := litRune(kv.Value)
				s += fmt.Sprintf("%s=%U ", kv.Key.(*ast.Ident).Name, k)
			}
			got = append(got, s)
		}
		return true
	})
	for _, it := range c.Items {
		if it.Cls == "o" {
			want = append(want, fmt.Sprintf("o=%U c=%U ", it.Lo, it.Hi))
		}
	}
	if !sameStrings(got, want) {
		return violf("gen-pairs", "bracket pairs: got %v\nwant %v", got, want)
	}
	return nil
}

func litRune(e ast.Expr) (rune, bool) {
	b, ok := e.(*ast.BasicLit)
	if !ok {
		return 0, false
	}
	if b.Kind == token.CHAR {
		s, err := strconv.Unquote(b.Value)
		r := []rune(s)
		return r[0], err == nil && len(r) == 1
	}
	n, err := strconv.ParseInt(b.Value, 0, 32)
	return rune(n), err == nil
}

func checkClassFile(c genCaseT, spec genSpec, f *ast.File, o *Obs) *Viol {
	consts, names, index := map[string]int{}, "", []int{}
	vars, tabOf := map[string]bool{}, map[string]string{}
	sets := map[string]map[rune]bool{}
	var bad *Viol
	num := func(e ast.Expr) int {
		r, ok := litRune(e)
		if !ok {
			return -1
		}
		return int(r)
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			vs, ok := s.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, n := range vs.Names {
				vars[n.Name] = true
				if i >= len(vs.Values) {
					continue
				}
				switch x := vs.Values[i].(type) {
				case *ast.BasicLit:
					if x.Kind == token.STRING {
						names, _ = strconv.Unquote(x.Value)
					} else {
						consts[n.Name] = num(x)
					}
				case *ast.CompositeLit:
					for _, e := range x.Elts {
						index = append(index, num(e))
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		as, ok := n.(*ast.AssignStmt)
		if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
			return true
		}
		switch l := as.Lhs[0].(type) {
		case *ast.Ident:
			call, ok := as.Rhs[0].(*ast.CallExpr)
			if !ok || sets[l.Name] != nil {
				if sets[l.Name] != nil {
					bad = violf("gen-table", "table %s is assigned twice", l.Name)
				}
				return true
			}
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "make" {
				return true
			}
			set := map[rune]bool{}
			for _, a := range call.Args {
				r, ok := litRune(a)
				if !ok {
					bad = violf("gen-table", "table %s has an entry which is no code point", l.Name)
				}
				set[r] = true
			}
			sets[l.Name] = set
		case *ast.IndexExpr:
			k := ""
			ast.Inspect(l.Index, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && id.Name != "int" {
					k = id.Name
				}
				return true
			})
			if id, ok := as.Rhs[0].(*ast.Ident); ok {
				tabOf[k] = id.Name
			}
		}
		return true
	})
	if bad != nil {
		return bad
	}
	want := map[string]map[rune]bool{}
	for _, it := range c.Items {
		if want[it.Cls] == nil {
			want[it.Cls] = map[rune]bool{}
		}
		for r := it.Lo; r <= it.Hi; r++ {
			want[it.Cls][r] = true
		}
	}
	for i, cl := range spec.classes {
		if k, ok := consts[cl+"Class"]; !ok || k != i {
			return violf("gen-const", "constant %sClass is %d (%v), should be %d", cl, k, ok, i)
		}
		if i+1 >= len(index) || index[i] < 0 || index[i+1] > len(names) || index[i] > index[i+1] || names[index[i]:index[i+1]] != cl+"Class" {
			return violf("gen-name", "name of class %s is wrong", cl)
		}
		if !vars[cl] {
			return violf("gen-var", "no variable for the range table of class %s", cl)
		}
		got := sets[cl]
		for r := range want[cl] {
			if !got[r] {
				return violf("gen-missing", "%U of class %s is not in its table", r, cl)
			}
		}
		for r := range got {
			if !want[cl][r] {
				return violf("gen-extra", "%U is in the table of class %s but not in the data file", r, cl)
			}
		}
		if len(got) > 0 && tabOf[cl+"Class"] != cl {
			return violf("gen-lookup", "the look-up table for class %s is %q", cl, tabOf[cl+"Class"])
		}
		o.Add("code_points", len(got))
	}
	if len(sets) > len(want) {
		return violf("gen-table", "%d tables for %d classes", len(sets), len(want))
	}
	return nil
}

func genU03(i int, r *rand.Rand, tier string) interface{} {
	c := genCaseT{Gen: []string{"grapheme", "uax29", "emoji", "uax14", "brackets"}[i%5], Style: r.Intn(2), Compile: i%40 < 5, V: r.Intn(4) == 0}
	if c.Gen == "brackets" {
		cp := rune(0x28)
		for n := 1 + r.Intn(30); n > 0; n-- {
			it := genItem{Lo: cp, Hi: cp + 1 + rune(r.Intn(2)), Cls: "o", Text: "LEFT BRACKET"}
			c.Items = append(c.Items, it)
			if r.Intn(8) > 0 {
				c.Items = append(c.Items, genItem{Lo: it.Hi, Hi: it.Lo, Cls: "c", Text: "RIGHT BRACKET"})
			}
			if cp = it.Hi + 1 + rune(r.Intn(0x400)); r.Intn(20) == 0 {
				cp += 0x8000
			}
			if cp >= 0xd000 && cp < 0xe000 { // no surrogates
				cp = 0xe000
			}
		}
		return c
	}
	classes := genSpecs[c.Gen].classes
	cp := rune(r.Intn(0x60))
	byClass := r.Intn(2) == 0 // grouped by class, as in most files, or by code point, as in LineBreak.txt
	n := 1 + r.Intn(40)
	items := map[string][]genItem{}
	for k := 0; k < n; k++ {
		it := genItem{Lo: cp, Cls: classes[r.Intn(len(classes))], Text: []string{"", "Cc    [18] <control-000E>..<control-001F>", "Lo       LETTER", "E1.0 [1] (😀) x; y"}[r.Intn(4)]}
		it.Hi = cp
		if r.Intn(2) == 0 {
			it.Hi += rune(r.Intn(60))
		}
		items[it.Cls] = append(items[it.Cls], it)
		if !byClass {
			c.Items = append(c.Items, it)
		}
		cp = it.Hi + 1
		switch r.Intn(6) {
		case 0:
			cp += rune(r.Intn(6))
		case 1:
			cp += rune(r.Intn(0x300))
		case 2:
			cp += rune(r.Intn(0x4000))
		}
		if cp > 0x10ff00 {
			break
		}
		if r.Intn(25) == 0 && cp < 0xd800 { // surrogates are listed in UCD files, too
			cp = 0xd800
		}
	}
	if byClass {
		for _, cl := range classes {
			c.Items = append(c.Items, items[cl]...)
		}
	}
	return c
}

func init() {
	register(&Prop{ID: "U03", Rule: "a data file with its generated source; distinct files are counted",
		N: tierN(2000, 8000), Gen: genU03, Decode: decodeAs[genCaseT](),
		Run: func(c interface{}, o *Obs) *Viol { return runU03(c.(genCaseT), o) },
		Shrink: func(x interface{}) []interface{} {
			c := x.(genCaseT)
			var out []interface{}
			for i := range c.Items {
				d := c
				d.Items = append(append([]genItem{}, c.Items[:i]...), c.Items[i+1:]...)
				out = append(out, d)
			}
			return out
		},
		Assumptions: []string{"data files are formatted uniformly and use the class names of their property, as the Unicode data files do"}})
}
