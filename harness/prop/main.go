package prop

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Main is the entry point of every check binary.
//
//	run <prop> <tier>        the check; root is the directory that holds evidence/
//	replay <file>            re-run one stored failure, bypassing generation
//	list                     facets
//	gen <prop> <facet> <n>   print n generated cases (for inspection)
func Main() {
	if len(os.Args) < 2 {
		fatalf("usage: run|replay|list|gen")
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "single":
		singleMain(os.Args[2:])
	case "list":
		for _, f := range facets {
			fmt.Println(f.Prop, f.Name, f.Quick, f.Thorough)
		}
	case "replay":
		replayMain(os.Args[2])
	case "gen":
		genMain(os.Args[2:])
	case "run":
		os.Exit(runMain(os.Args[2], os.Args[3]))
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	wd, _ := os.Getwd()
	return wd
}

func replayMain(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var fl failure
	if err := json.Unmarshal(b, &fl); err != nil {
		fatalf("%v", err)
	}
	out, kind := single(fl.Prop, fl.Facet, path, 20)
	fmt.Println(out)
	if kind == "fail" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", fl.Prop, path)
		os.Exit(1)
	}
	if kind != "ok" {
		os.Exit(2)
	}
}

func genMain(args []string) {
	f := findFacet(args[0], args[1])
	n, _ := strconv.Atoi(args[2])
	seed := hash64(os.Getenv("VERIF_SEED"), "gen")
	st := newStats(f.Name, os.DevNull)
	_ = st
	setupRapid(n, seed, "1s")
	rapidCheck(func(t *rapidT) {
		c := f.gen(t)
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
	})
}

type finding struct {
	ID       string          `json:"id"`
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Status   string          `json:"status"` // known | fixed
	What     string          `json:"what"`
	Record   string          `json:"record,omitempty"` // "fixed: property=<id> <commit> <what failed>"
	Case     json.RawMessage `json:"case,omitempty"`
}

func loadFindings() []finding {
	var doc struct {
		Findings []finding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fatalf("known_findings.json: %v", err)
	}
	return doc.Findings
}

// single runs one case in a fresh child.
// kind: ok | fail | error
func single(prop, facet, caseFile string, repeat int) (out, kind string) {
	cmd := exec.Command("/bin/sh", "-c", `ulimit -t 120; exec "$0" "$@"`, self(), "single", prop, facet, caseFile, strconv.Itoa(repeat))
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	o := buf.String()
	if len(o) > 4000 {
		o = o[:4000] + "..."
	}
	if err == nil {
		return o, "ok"
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return err.Error(), "error"
	}
	switch {
	case ee.ExitCode() == 1:
		return o, "fail"
	case ee.ExitCode() == exitHang:
		return "no result within " + caseLimit.String() + " for a case that normally takes milliseconds", "fail"
	case ee.ExitCode() == exitMem:
		return "memory use grew without bound", "fail"
	case strings.Contains(buf.String(), "goroutine stack exceeds"):
		return "stack overflow\n" + o, "fail"
	case ee.ExitCode() == 2 && (strings.Contains(buf.String(), "fatal error:") || strings.Contains(buf.String(), "panic:")):
		return o, "fail"
	case strings.Contains(ee.String(), "cpu time limit") || strings.Contains(ee.String(), "CPU time limit"):
		return "CPU time limit exceeded", "fail"
	}
	return ee.String() + "\n" + o, "error"
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	return p
}

type job struct {
	f       *Facet
	shard   int
	nshards int
	count   int
}

type jobResult struct {
	job
	res  Result
	died string // description when the worker died
	cur  string
	out  string
}

func runMain(prop, tier string) int {
	start := time.Now()
	fs := facetsOf(prop)
	if len(fs) == 0 {
		fatalf("unknown property %s", prop)
	}
	seedStr := os.Getenv("VERIF_SEED")
	seed, err := strconv.Atoi(seedStr)
	if err != nil {
		seed = 1
		seedStr = "1"
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(tmp)
	os.Setenv("VERIF_TMP", tmp)
	cores := runtime.NumCPU()
	if cores > 8 {
		cores = 8
	}

	violations := 0
	errorsSeen := 0
	var knownLines []string
	replayDir := filepath.Join(root(), "replay")

	report := func(fl failure) {
		for _, k := range loadFindings() {
			if k.Status == "known" && k.Property == prop && k.Facet == fl.Facet && len(k.Case) > 0 && jsonEqual(k.Case, fl.Case) {
				return
			}
		}
		os.MkdirAll(replayDir, 0755)
		name := fmt.Sprintf("%s-%s-%08x.json", prop, strings.ReplaceAll(fl.Facet, " ", "-"), uint32(hash64(string(fl.Case))))
		path := filepath.Join(replayDir, name)
		b, _ := json.MarshalIndent(fl, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		msg := fl.Err
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		fmt.Printf("--- %s/%s failed:\n%s\n", prop, fl.Facet, msg)
		cs := string(fl.Case)
		if len(cs) < 3000 {
			fmt.Printf("case: %s\n", cs)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		violations++
	}

	// 1. known findings and regressions (fixed defects, stored replays)
	regressions := 0
	for _, k := range loadFindings() {
		if k.Property != prop || len(k.Case) == 0 {
			continue
		}
		if findFacet(prop, k.Facet) == nil {
			fmt.Fprintf(os.Stderr, "known finding %s names no facet\n", k.ID)
			errorsSeen++
			continue
		}
		p := filepath.Join(tmp, "finding.json")
		os.WriteFile(p, k.Case, 0644)
		out, kind := single(prop, k.Facet, p, 3)
		regressions++
		switch {
		case kind == "error":
			fmt.Fprintf(os.Stderr, "finding %s: %s\n", k.ID, out)
			errorsSeen++
		case kind == "fail" && k.Status == "known":
			knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", prop, k.ID, k.What))
		case kind == "ok" && k.Status == "known":
			fmt.Printf("note: known finding %s no longer fails\n", k.ID)
		case kind == "fail":
			report(failure{Prop: prop, Facet: k.Facet, Err: "regression of " + k.ID + " (" + k.What + ")\n" + out, Case: k.Case})
		}
	}
	for _, l := range knownLines {
		fmt.Println(l)
	}
	stored, _ := filepath.Glob(filepath.Join(root(), "regressions", prop, "*.json"))
	sort.Strings(stored)
	for _, p := range stored {
		b, err := os.ReadFile(p)
		var fl failure
		if err != nil || json.Unmarshal(b, &fl) != nil || findFacet(prop, fl.Facet) == nil {
			fmt.Fprintf(os.Stderr, "bad regression file %s\n", p)
			errorsSeen++
			continue
		}
		out, kind := single(prop, fl.Facet, p, 3)
		regressions++
		switch kind {
		case "error":
			fmt.Fprintf(os.Stderr, "%s: %s\n", p, out)
			errorsSeen++
		case "fail":
			report(failure{Prop: prop, Facet: fl.Facet, Err: "stored case " + filepath.Base(p) + "\n" + out, Case: fl.Case})
		}
	}

	// 2. search
	var jobs []job
	for _, f := range fs {
		n := f.Quick
		if tier != "quick" {
			n = f.Thorough
		}
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			if x, err := strconv.ParseFloat(s, 64); err == nil {
				n = int(float64(n) * x)
			}
		}
		shards := cores
		if f.MaxShards > 0 && f.MaxShards < shards {
			shards = f.MaxShards
		}
		if f.enum == nil {
			if n == 0 {
				continue
			}
			for shards > 1 && n/shards < 4 {
				shards--
			}
		}
		if only := os.Getenv("VERIF_FACET"); only != "" && only != f.Name {
			continue
		}
		for i := 0; i < shards; i++ {
			c := n / shards
			if i < n%shards {
				c++
			}
			jobs = append(jobs, job{f, i, shards, c})
		}
	}
	results := make([]jobResult, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, cores)
	for i := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			results[i] = runJob(prop, tier, seedStr, tmp, i, jobs[i])
		}(i)
	}
	wg.Wait()

	agg := map[string]*Result{}
	seen := map[string]map[uint64]bool{}
	bestFail := map[string]*failure{}
	for _, r := range results {
		a := agg[r.f.Name]
		if a == nil {
			a = &Result{Facet: r.f.Name, Labels: map[string]int{}, Excluded: map[string]int{}, Complete: true}
			agg[r.f.Name] = a
		}
		a.Evaluations += r.res.Evaluations
		if h, err := os.ReadFile(r.out + ".h"); err == nil {
			set := seen[r.f.Name]
			if set == nil {
				set = map[uint64]bool{}
				seen[r.f.Name] = set
			}
			for ; len(h) >= 8; h = h[8:] {
				set[binary.LittleEndian.Uint64(h)] = true
			}
			a.Distinct = len(set)
		}
		a.Work += r.res.Work
		a.Complete = a.Complete && r.res.Complete
		for k, v := range r.res.Labels {
			a.Labels[k] += v
		}
		for k, v := range r.res.Excluded {
			a.Excluded[k] += v
		}
		if len(a.Samples) < 3 {
			a.Samples = append(a.Samples, r.res.Samples...)
		}
		if r.res.Infra != "" {
			fmt.Fprintf(os.Stderr, "%s/%s: %s\n", prop, r.f.Name, r.res.Infra)
			errorsSeen++
		}
		if r.died != "" {
			// A worker died: decide on the single case it was running.
			b, err := os.ReadFile(r.cur)
			if err != nil || !json.Valid(b) {
				fmt.Fprintf(os.Stderr, "%s/%s: worker died (%s), no case\n", prop, r.f.Name, r.died)
				errorsSeen++
				continue
			}
			if bf := bestFail[r.f.Name]; bf != nil && bf.Kind == "died" {
				continue // one confirmed death per facet is enough
			}
			out1, k1 := single(prop, r.f.Name, r.cur, 1)
			k2 := ""
			if k1 == "fail" {
				_, k2 = single(prop, r.f.Name, r.cur, 1)
			}
			if k1 == "fail" && k2 == "fail" {
				if bestFail[r.f.Name] == nil {
					bestFail[r.f.Name] = &failure{Prop: prop, Facet: r.f.Name, Err: out1, Case: b, Kind: "died"}
				}
			} else {
				fmt.Fprintf(os.Stderr, "%s/%s: worker died (%s), not confirmed (%s %s): %s\n", prop, r.f.Name, r.died, k1, k2, out1)
				errorsSeen++
			}
			continue
		}
		if r.res.Failed {
			fl := &failure{Prop: prop, Facet: r.f.Name, Err: r.res.Err, Case: r.res.Case}
			if b := bestFail[r.f.Name]; b == nil || b.Kind == "died" || len(fl.Case) < len(b.Case) {
				bestFail[r.f.Name] = fl
			}
		}
	}
	for _, f := range fs {
		if fl := bestFail[f.Name]; fl != nil {
			report(*fl)
		}
	}

	writeEvidence(prop, tier, seed, fs, agg, regressions, len(knownLines), violations, time.Since(start))
	switch {
	case violations > 0:
		return 1
	case errorsSeen > 0:
		return 2
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", prop, tier, time.Since(start).Seconds())
	return 0
}

func jsonEqual(a, b json.RawMessage) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return bytes.Equal(mustJSON(x), mustJSON(y))
}

func runJob(prop, tier, seedStr, tmp string, i int, j job) jobResult {
	out := filepath.Join(tmp, fmt.Sprintf("out%d.json", i))
	cur := filepath.Join(tmp, fmt.Sprintf("case%d.json", i))
	seed := hash64(seedStr, prop, j.f.Name, strconv.Itoa(j.shard)) >> 1
	if seed == 0 {
		seed = 1
	}
	cmd := exec.Command(self(), "worker", prop, j.f.Name, strconv.Itoa(j.shard), strconv.Itoa(j.nshards),
		strconv.Itoa(j.count), strconv.FormatUint(seed, 10), tier, out, cur)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	jr := jobResult{job: j, cur: cur, out: out}
	if b, rerr := os.ReadFile(out); rerr == nil && err == nil {
		if uerr := json.Unmarshal(b, &jr.res); uerr != nil {
			jr.res.Infra = uerr.Error()
		}
		return jr
	}
	o := buf.String()
	if len(o) > 1500 {
		o = o[:1500]
	}
	jr.died = fmt.Sprintf("%v: %s", err, o)
	return jr
}

func writeEvidence(prop, tier string, seed int, fs []*Facet, agg map[string]*Result, regr, known, violations int, wall time.Duration) {
	type facetEv struct {
		Facet       string         `json:"facet"`
		Rule        string         `json:"rule"`
		Evaluations int            `json:"evaluations"`
		Distinct    int            `json:"distinct_nontrivial"`
		Inner       int            `json:"inner_executions,omitempty"`
		Classes     map[string]int `json:"classes,omitempty"`
		Excluded    map[string]int `json:"excluded_known_findings,omitempty"`
		Exhaustive  bool           `json:"exhaustive,omitempty"`
	}
	var evs []facetEv
	var samples []interface{}
	var rules []string
	total, distinct, inner := 0, 0, 0
	for _, f := range fs {
		a := agg[f.Name]
		if a == nil {
			continue
		}
		total += a.Evaluations
		distinct += a.Distinct
		inner += a.Work
		rules = append(rules, f.Name+": "+f.Rule)
		evs = append(evs, facetEv{f.Name, f.Rule, a.Evaluations, a.Distinct, a.Work, a.Labels, a.Excluded, f.enum != nil && a.Complete})
		for i, s := range a.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"facet": f.Name, "case": s})
			}
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": total, "distinct_nontrivial": distinct,
			"rule": strings.Join(rules, " | "), "samples": samples,
			"facets": evs, "inner_executions": inner,
			"stored_cases_replayed": regr, "known_findings_reproduced": known,
		},
		"wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{"the Go toolchain and standard library are correct", "generated inputs only: absence of failures is evidence, not proof"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root(), "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644); err != nil {
		fatalf("%v", err)
	}
}
