package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/npillmayer/uax/internal/ucdparse"
)

// --- U04: data files which cannot be read, or are malformed ------------------------------

type ucdErrCase struct {
	File   ucdCase `json:"file"`
	Kind   string  `json:"kind"`            // read, long, item; command line only: status, missing, outdir, space
	At     int     `json:"at"`              // read: bytes before the failure; others: index of an item
	Chunk  int     `json:"chunk,omitempty"` // read: bytes per call (0: all)
	Once   bool    `json:"once,omitempty"`  // read: end of file after the failure
	Line   string  `json:"line,omitempty"`  // item: the malformed line
	Prog   string  `json:"prog,omitempty"`  // "" library, tablegen, or a class generator
	Status int     `json:"status,omitempty"`

	Gen *genCaseT `json:"gen,omitempty"` // missing, outdir, space: valid data for a class generator
}

var errFault = errors.New("connection reset")

type faultReader struct {
	s     string
	at    int
	chunk int
	once  bool
	pos   int
	hit   bool
}

func (f *faultReader) Read(b []byte) (int, error) {
	n := min(f.at-f.pos, len(b))
	if f.chunk > 0 {
		n = min(n, f.chunk)
	}
	if n <= 0 {
		if f.hit && f.once {
			return 0, io.EOF
		}
		f.hit = true
		return 0, errFault
	}
	copy(b, f.s[f.pos:f.pos+n])
	f.pos += n
	return n, nil
}

// text gives the data file including the malformed part
func (c ucdErrCase) text() string {
	switch c.Kind {
	case "long", "item":
		l := strings.SplitAfter(c.File.file(), "\n")
		at := min(c.At, len(l))
		line := c.Line + "\n"
		if c.Kind == "long" {
			line = "# " + strings.Repeat("x", 70000) + "\n"
		}
		return strings.Join(l[:at], "") + line + strings.Join(l[at:], "")
	}
	return c.File.file()
}

func runU04(c ucdErrCase, o *Obs) *Viol {
	o.Nontrivial(c.Kind, c.Prog, c.At, c.Chunk, c.Line, c.File.file())
	o.Add("faults_"+c.Kind, 1)
	if c.Prog != "" {
		o.Add("runs_"+c.Prog, 1)
		return runU04Prog(c, o)
	}
	text := c.text()
	var rd io.Reader = strings.NewReader(text)
	if c.Kind == "read" {
		rd = &faultReader{s: text, at: min(c.At, len(text)), chunk: c.Chunk, once: c.Once}
	}
	var good []string // in order
	for _, it := range c.File.Items {
		if it.Kind == 0 {
			good = append(good, fmt.Sprintf("%X %X %s", it.Lo, it.Hi, strings.Join(it.Fields, ";")))
		}
	}
	var got []string
	var err error
	pv := protect(func() {
		quiet(func() {
			err = ucdparse.Parse(rd, func(t *ucdparse.Token) {
				l, r := t.Range()
				if t.Error != nil || len(t.Fields) == 0 && l == 0 && r == 0 {
					return
				}
				s := fmt.Sprintf("%X %X ", l, r)
				for i := range t.Fields {
					if i > 0 {
						s += ";"
					}
					s += strings.TrimSpace(t.Field(i + 1))
				}
				got = append(got, s)
				if len(got) > len(good)+10 {
					panic("far too many items")
				}
			})
		})
	})
	if pv != nil {
		return violf("panic", "parser: %v", pv)
	}
	if err == nil {
		if c.Kind == "long" && sameStrings(got, good) {
			return nil
		}
		return violf("unreported", "fault %s %q at %d is not reported (items %d of %d)", c.Kind, c.Line, c.At, len(got), len(good))
	}
	if c.Kind == "read" && !errors.Is(err, errFault) {
		return violf("error", "error is %v instead of the reader's", err)
	}
	// what has been delivered is in the file; the line in which the reader failed may be incomplete
	if c.Kind == "read" && len(got) > 0 {
		got = got[:len(got)-1]
	}
	k := 0
	for _, g := range got {
		for k < len(good) && good[k] != g {
			k++
		}
		if k == len(good) {
			return violf("wrong", "item %q is not in the data file (%s)", g, c.Kind)
		}
		k++
	}
	o.Add("items_before_fault", len(got))
	o.Sample("fault %s at %d: %v", c.Kind, c.At, err)
	return nil
}

// runU04Prog: the programs must fail instead of writing (incomplete) tables
func runU04Prog(c ucdErrCase, o *Obs) *Viol {
	dir, err := os.MkdirTemp("", "vmon-generr-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	bin := filepath.Dir(self)
	text := c.text()
	var args, env []string
	out := "out.go"
	if c.Prog == "tablegen" {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			switch c.Kind {
			case "status":
				w.WriteHeader(c.Status)
				if c.Status == http.StatusPartialContent { // not all of the file
					io.WriteString(w, text[:len(text)/2])
					break
				}
				io.WriteString(w, "<html>\n<title>error; sorry</title>\n</html>\n")
			case "read":
				w.Header().Set("Content-Length", fmt.Sprint(len(text)+1))
				io.WriteString(w, text[:min(c.At, len(text))])
			default:
				io.WriteString(w, text)
			}
		}))
		defer srv.Close()
		args = []string{filepath.Join(bin, "tablegen"), "-p", "p", "-f", fmt.Sprint(c.File.Field), "-o", filepath.Join(dir, "out.go"), "-u", srv.URL + "/x.txt"}
		env = append(os.Environ(), "NO_PROXY=*", "no_proxy=*")
		if c.Kind == "missing" { // nobody listens
			srv.Close()
		}
	} else {
		spec := genSpecs[c.Prog]
		os.MkdirAll(filepath.Join(dir, "etc"), 0o755)
		in := filepath.Join(dir, "etc", spec.data)
		args = []string{filepath.Join(bin, "gen-"+c.Prog)}
		out = spec.out
		if c.Prog == "brackets" {
			in = filepath.Join(dir, "BidiBrackets.txt")
			out = "x.go"
			args = append(args, "-o", out, "-pkg", "abc", "-trace", "E")
		}
		if c.Gen != nil {
			text = c.Gen.file()
		}
		if c.Kind != "missing" {
			os.WriteFile(in, []byte(text), 0o644)
		}
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "GOPATH=") {
				env = append(env, e)
			}
		}
		env = append(env, "GOPATH="+dir)
	}
	out = filepath.Join(dir, out)
	run := func(args ...string) (string, error, bool) {
		cmd := exec.Command(args[0], args[1:]...)
		cmd.Env, cmd.Dir = env, dir
		var errb bytes.Buffer
		cmd.Stderr = &errb
		done := make(chan error, 1)
		go func() { done <- cmd.Run() }()
		select {
		case err := <-done:
			return errb.String(), err, false
		case <-time.After(30 * time.Second):
			cmd.Process.Kill()
			return "", nil, true
		}
	}
	what := fmt.Sprintf("%s %q %d", c.Kind, c.Line, c.Status)
	switch c.Kind {
	case "outdir": // there is a directory in place of the output file
		os.MkdirAll(filepath.Join(out, "x"), 0o755)
	case "space": // the output file cannot be written completely
		if msg, err, hang := run(args...); err != nil || hang {
			return violf("cli-fails", "program %s fails without any fault: %v\n%s", c.Prog, err, clip(msg, 800))
		}
		fi, err := os.Stat(out)
		if err != nil || fi.Size() == 0 {
			return violf("cli-output", "program %s writes no output: %v", c.Prog, err)
		}
		os.Remove(out)
		blocks := int(fi.Size()-1) / 1024 // bash counts in units of 1024 bytes
		if n := c.At; n > 0 {             // all but the end
			blocks = max(0, blocks-(n-1)%(blocks+1))
		}
		o.Add("output_limits", 1)
		what = fmt.Sprintf("disk full after %d KiB of %d bytes", blocks, fi.Size())
		args = append([]string{"/bin/bash", "-c", fmt.Sprintf(`ulimit -f %d; exec "$0" "$@"`, blocks)}, args...)
	}
	msg, err, hang := run(args...)
	if hang {
		return violf("cli-hang", "program %s does not end (fault %s)", c.Prog, what)
	}
	if err == nil {
		return violf("cli-unreported", "program %s succeeds in spite of fault %s", c.Prog, what)
	}
	if _, ok := err.(*exec.ExitError); !ok || strings.Contains(msg, "goroutine 1 [") {
		return violf("cli", "program %s: %v\n%s", c.Prog, err, clip(msg, 800))
	}
	o.Sample("%s with fault %s: %v", c.Prog, what, err)
	return nil
}

func genU04(i int, r *rand.Rand, tier string) interface{} {
	c := ucdErrCase{File: genU01(1, r, tier).(ucdCase), Kind: []string{"read", "read", "item", "item", "long"}[r.Intn(5)]}
	c.File.CLI = false
	n := len(c.File.file())
	switch c.Kind {
	case "read":
		c.At = r.Intn(n + 1)
		if r.Intn(4) == 0 {
			c.At = n
		}
		c.Chunk = []int{0, 1, 7, 100}[r.Intn(4)]
		c.Once = r.Intn(3) == 0
	default:
		c.At = r.Intn(len(c.File.Items) + 1)
		c.Line = []string{"123456789;A", "0041..123456789;A", "110000;A", "0041..FFFFFF ; A # x", "garbage", "<html>", "; A", "XYZ;A", "0041..;A", "0050..004F;A", "..0041;A", "\t;A;A;A"}[r.Intn(12)]
	}
	if c.File.EOL == 2 {
		c.File.EOL = 0
	}
	if i%60 == 0 {
		c.Prog = []string{"tablegen", "grapheme", "uax29", "emoji", "uax14", "brackets"}[(i/60)%6]
		switch {
		case c.Prog == "tablegen":
			if r.Intn(3) == 0 {
				c.Kind, c.Status = "status", []int{404, 500, 403, 301, 503, 204, 206, 410, 300}[r.Intn(9)]
			}
			if c.Kind == "long" {
				c.Kind, c.Line = "item", "garbage"
			}
			if k := r.Intn(8); k < 3 {
				c.Kind = []string{"missing", "outdir", "space"}[k]
			}
		case r.Intn(2) == 0:
			c.Kind = []string{"missing", "outdir", "space", "space", "space"}[r.Intn(5)]
			g := genU03(map[string]int{"grapheme": 0, "uax29": 1, "emoji": 2, "uax14": 3, "brackets": 4}[c.Prog], r, tier).(genCaseT)
			c.Gen, c.File.Items = &g, nil
			if c.At = 0; r.Intn(2) == 0 {
				c.At = 1 + r.Intn(1000)
			}
		default:
			c.Kind = "item"
			if c.Line == "" {
				c.Line = "123456789;A"
			}
			cl := strings.Fields("L CR ZW Emoji")
			for k := range c.File.Items {
				for f := range c.File.Items[k].Fields {
					c.File.Items[k].Fields[f] = cl[r.Intn(2)]
				}
			}
			c.At = r.Intn(len(c.File.Items) + 1)
			if c.Prog == "brackets" {
				c.File.Items = nil
				c.At = 0
			}
		}
	}
	return c
}

func init() {
	register(&Prop{ID: "U04", Rule: "a data file with a fault; distinct pairs are counted",
		N: tierN(120000, 500000), Gen: genU04, Decode: decodeAs[ucdErrCase](),
		Run: func(c interface{}, o *Obs) *Viol { return runU04(c.(ucdErrCase), o) },
		Shrink: func(x interface{}) []interface{} {
			c := x.(ucdErrCase)
			var out []interface{}
			for i := range c.File.Items {
				d := c
				d.File.Items = append(append([]ucdItem{}, c.File.Items[:i]...), c.File.Items[i+1:]...)
				d.At = min(d.At, len(d.File.file()))
				if d.Kind != "read" {
					d.At = min(c.At, len(d.File.Items))
				}
				out = append(out, d)
			}
			return out
		},
		Assumptions: []string{"a file which ends early without any error of the reader cannot be told from a complete one"}})
}
