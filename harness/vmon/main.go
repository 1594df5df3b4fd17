package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// supervisor: vmon -prop ID -tier quick -seed 1 -verif /verif
// worker:     vmon -prop ID ... -worker FROM -stride S -n N -out F -journal F
// one case:   vmon -prop ID -one CASE.json  (prints verdict JSON; used for known findings and replays)

func main() {
	propID := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "verif dir (evidence, replays, known findings)")
	worker := flag.Int("worker", -1, "worker: first case index")
	stride := flag.Int("stride", 1, "worker: stride")
	n := flag.Int("n", 0, "worker: number of cases")
	out := flag.String("out", "", "worker: result file")
	journal := flag.String("journal", "", "worker: journal file")
	one := flag.String("one", "", "run a single case from a replay file")
	list := flag.Bool("list", false, "list properties")
	helper := flag.String("helper", "", "internal helper process")
	cases := flag.Int("cases", 0, "override number of cases")
	gen := flag.Int("gen", -1, "print case i")
	flag.Parse()
	if *list {
		for id := range props {
			fmt.Println(id)
		}
		return
	}
	if *helper != "" {
		helperMain(*helper, flag.Args())
		return
	}
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(3)
	}
	switch {
	case *gen >= 0:
		b, _ := json.Marshal(p.Gen(*gen, caseRand(p.ID, *seed, *gen), *tier))
		fmt.Println(string(b))
	case *one != "":
		oneMain(p, *one)
	case *worker >= 0:
		workerMain(p, *tier, *seed, *worker, *n, *stride, *out, *journal)
	default:
		os.Exit(supervise(p, *tier, *seed, *verif, *cases))
	}
}

type replayFile struct {
	Property string          `json:"property"`
	Tier     string          `json:"tier"`
	Seed     int64           `json:"seed"`
	Index    int             `json:"index"`
	Case     json.RawMessage `json:"case"`
	Sig      string          `json:"sig"`
	Msg      string          `json:"msg"`
}

func oneMain(p *Prop, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	c, err := p.Decode(rf.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go watchdog(p)
	v := runCase(p, c, newObs())
	if v == nil {
		fmt.Println("OK")
		os.Exit(0)
	}
	j, _ := json.Marshal(v)
	fmt.Println("VIOL " + string(j))
	os.Exit(1)
}

// --- known findings ------------------------------------------------------------

type knownFinding struct {
	ID       string          `json:"id"`
	Property string          `json:"property"`
	What     string          `json:"what"`
	Case     json.RawMessage `json:"case"`
	Sig      string          `json:"sig"`
	MsgHas   string          `json:"msg_has,omitempty"`
}

func loadKnown(verif, prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "{") {
			continue // comments and "fixed:" records
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings:", err)
			os.Exit(3)
		}
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func runOne(p *Prop, dir string, c json.RawMessage) *Viol {
	f := filepath.Join(dir, fmt.Sprintf("one-%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(replayFile{Property: p.ID, Case: c})
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command(os.Args[0], "-prop", p.ID, "-one", f)
	cmd.Env = workerEnv()
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err == nil {
		return nil
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "VIOL ") {
			var v Viol
			json.Unmarshal([]byte(l[5:]), &v)
			return &v
		}
	}
	return crashViol(err, se.String())
}

func workerEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GOTRACEBACK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
}

func crashViol(err error, stderr string) *Viol {
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	if len(stderr) > 6000 {
		if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
			stderr = stderr[i:]
		}
		if len(stderr) > 6000 {
			stderr = stderr[:6000]
		}
	}
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		return violf("race", "the race detector reported a data race:\n%s", stderr)
	case strings.Contains(stderr, "MONITOR-HANG"):
		return violf("hang", "%s", stderr)
	case strings.Contains(stderr, "MONITOR-MEM"):
		return violf("memory", "%s", stderr)
	case strings.Contains(stderr, "fatal error:"):
		return violf("fatal", "the runtime stopped the process:\n%s", stderr)
	case strings.Contains(stderr, "panic:"):
		return violf("panic", "a goroutine of the code under test panicked:\n%s", stderr)
	}
	return violf("crash", "worker ended with %v (code %d):\n%s", err, code, stderr)
}

// --- supervisor ------------------------------------------------------------------

func supervise(p *Prop, tier string, seed int64, verif string, override int) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "vmon-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	violations := 0
	var violLines []string
	report := func(rf replayFile) {
		violations++
		rd := filepath.Join(verif, "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, tier, seed, rf.Index))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path))
		fmt.Printf("--- %s: %s\ncase: %s\n%s\n", p.ID, rf.Sig, clip(string(rf.Case), 1500), clip(rf.Msg, 4000))
	}
	// known findings first, each in a process of its own
	known := loadKnown(verif, p.ID)
	for i, k := range known {
		v := runOne(p, dir, k.Case)
		switch {
		case v == nil:
			fmt.Printf("note: known finding %s no longer fails\n", k.ID)
		case v.Sig == k.Sig && strings.Contains(v.Msg, k.MsgHas):
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k.ID, k.What)
		default:
			report(replayFile{Property: p.ID, Tier: tier, Seed: seed, Index: -1 - i, Case: k.Case, Sig: v.Sig,
				Msg: fmt.Sprintf("input of known finding %s fails in a different way (listed: %s): %s", k.ID, k.Sig, v.Msg)})
		}
	}
	// workload
	n := p.N(tier)
	if override > 0 {
		n = override
	}
	procs := p.Procs
	if procs == 0 {
		procs = runtime.NumCPU()
	}
	if procs > n {
		procs = n
	}
	type job struct{ from, n, stride int }
	jobs := make(chan job, n+procs)
	if p.Fresh != nil && p.Fresh(tier) > 0 {
		per := p.Fresh(tier)
		for a := 0; a < n; a += per {
			b := a + per
			if b > n {
				b = n
			}
			jobs <- job{a, b, 1}
		}
	} else {
		for w := 0; w < procs; w++ {
			jobs <- job{w, n, procs}
		}
	}
	close(jobs)
	var mu sync.Mutex
	events := map[string]int64{}
	distinct := map[uint64]struct{}{}
	var samples []string
	var evals int64
	stop := false
	internalErr := ""
	var wg sync.WaitGroup
	for w := 0; w < procs; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			jn := 0
			for j := range jobs {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					continue
				}
				jn++
				of := filepath.Join(dir, fmt.Sprintf("out-%d-%d.json", w, jn))
				jf := filepath.Join(dir, fmt.Sprintf("journal-%d", w))
				cmd := exec.Command(os.Args[0], "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
					"-worker", strconv.Itoa(j.from), "-n", strconv.Itoa(j.n), "-stride", strconv.Itoa(j.stride),
					"-out", of, "-journal", jf)
				cmd.Env = workerEnv()
				var se bytes.Buffer
				cmd.Stderr = &limitedWriter{buf: &se, max: 1 << 20}
				cmd.Stdout = nil
				err := cmd.Run()
				mu.Lock()
				if err != nil {
					v := crashViol(err, se.String())
					idx := j.from
					if b, e := os.ReadFile(jf); e == nil {
						if k, e := strconv.Atoi(strings.TrimSpace(string(b))); e == nil {
							idx = k
						}
					}
					if v.Sig == "crash" {
						internalErr = v.Msg
					} else if violations < 3 {
						cj, _ := json.Marshal(p.Gen(idx, caseRand(p.ID, seed, idx), tier))
						report(replayFile{Property: p.ID, Tier: tier, Seed: seed, Index: idx, Case: cj, Sig: v.Sig, Msg: v.Msg})
					}
					stop = true
					mu.Unlock()
					continue
				}
				var res workerResult
				b, e := os.ReadFile(of)
				if e == nil {
					e = json.Unmarshal(b, &res)
				}
				if e != nil {
					internalErr = e.Error()
					stop = true
					mu.Unlock()
					continue
				}
				evals += res.Evaluations
				for k, v := range res.Events {
					if strings.HasPrefix(k, "max_") {
						if v > events[k] {
							events[k] = v
						}
					} else {
						events[k] += v
					}
				}
				if len(samples) < 8 {
					samples = append(samples, res.Samples...)
				}
				if fp, e := os.ReadFile(of + ".fp"); e == nil {
					for i := 0; i+8 <= len(fp); i += 8 {
						var h uint64
						for k := 7; k >= 0; k-- {
							h = h<<8 | uint64(fp[i+k])
						}
						distinct[h] = struct{}{}
					}
				}
				os.Remove(of)
				os.Remove(of + ".fp")
				if res.Violation != nil {
					stop = true
					if violations < 3 {
						report(replayFile{Property: p.ID, Tier: tier, Seed: seed, Index: res.Violation.Index,
							Case: res.Violation.Case, Sig: res.Violation.Sig, Msg: res.Violation.Msg})
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	// evidence
	var sm []string
	for _, k := range sortedKeys(events) {
		sm = append(sm, fmt.Sprintf("observed %s = %d", k, events[k]))
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	sm = append(sm, samples...)
	for _, k := range known {
		sm = append(sm, "known finding checked: "+k.ID+" "+k.What)
	}
	assum := p.Assumptions
	if assum == nil {
		assum = []string{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(distinct),
			"rule": p.Rule, "samples": sm,
		},
		"assumptions": assum,
		"wall_s":      float64(int(time.Since(t0).Seconds()*10)) / 10,
		"violations":  violations,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, l := range violLines {
		fmt.Println(l)
	}
	if violations > 0 {
		return 1
	}
	if internalErr != "" {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", internalErr)
		return 3
	}
	if len(distinct) == 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing nontrivial was observed")
		return 3
	}
	if p.Final != nil {
		if msg := p.Final(events); msg != "" {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", msg)
			return 3
		}
	}
	fmt.Printf("%s held on %d evaluations (%d distinct nontrivial), %.1f s\n", p.ID, evals, len(distinct), time.Since(t0).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type limitedWriter struct {
	buf *bytes.Buffer
	max int
}

func (w *limitedWriter) Write(b []byte) (int, error) {
	if room := w.max - w.buf.Len(); room > 0 {
		if len(b) > room {
			w.buf.Write(b[:room])
		} else {
			w.buf.Write(b)
		}
	}
	return len(b), nil
}
