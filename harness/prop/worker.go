package prop

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// tb is the minimal rapid.TB for running outside "go test".
type tb struct {
	failed bool
	quiet  bool
}

type failNow struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Log(a ...any)              {}
func (t *tb) Skipf(f string, a ...any)  { panic(failNow{}) }
func (t *tb) Skip(a ...any)             { panic(failNow{}) }
func (t *tb) SkipNow()                  { panic(failNow{}) }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; lastTB = fmt.Sprintf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; lastTB = fmt.Sprint(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(failNow{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(failNow{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

var lastTB string

var caseLimit = 45 * time.Second

const (
	exitHang = 87
	exitMem  = 88
)

func setLimits() {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	go func() {
		var ms runtime.MemStats
		for n := 0; ; n++ {
			time.Sleep(500 * time.Millisecond)
			if s := caseStarted.Load(); s != 0 && time.Since(time.Unix(0, s)) > caseLimit {
				os.Exit(exitHang)
			}
			if n%4 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 5<<30 {
					os.Exit(exitMem)
				}
			}
		}
	}()
	var rl syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_CORE, &rl) == nil {
		rl.Cur = 0
		syscall.Setrlimit(syscall.RLIMIT_CORE, &rl)
	}
}

type stats struct {
	res     Result
	seen    map[uint64]bool
	curPath string
	cur     *os.File
	labels  map[string]int
}

func (s *stats) begin(b []byte) {
	if s.cur == nil {
		f, err := os.Create(s.curPath)
		if err != nil {
			fatalf("cannot write case file: %v", err)
		}
		s.cur = f
	}
	s.cur.Truncate(0)
	s.cur.WriteAt(b, 0)
	caseStarted.Store(time.Now().UnixNano())
}

func (s *stats) end() { caseStarted.Store(0) }

func (s *stats) record(b []byte, r *Rec) {
	s.res.Evaluations++
	s.res.Work += r.Work
	for k, n := range r.labels {
		if n > 0 {
			s.res.Labels[k]++
		}
	}
	if r.excluded != "" {
		s.res.Excluded[r.excluded]++
	}
	if r.nontrivial {
		h := hash64(string(b))
		if !s.seen[h] {
			s.seen[h] = true
			s.res.Distinct++
			n := s.res.Distinct
			// keep a few samples spread over the run
			if len(b) < 6000 && (n == 3 || n == 40 || n == 400) {
				s.res.Samples = append(s.res.Samples, append([]byte(nil), b...))
			}
		}
	}
}

func newStats(facet, cur string) *stats {
	return &stats{res: Result{Facet: facet, Labels: map[string]int{}, Excluded: map[string]int{}}, seen: map[uint64]bool{}, curPath: cur}
}

// workerMain: worker <prop> <facet> <shard> <nshards> <count> <seed> <tier> <outfile> <casefile>
func workerMain(args []string) {
	f := findFacet(args[0], args[1])
	if f == nil {
		fatalf("no facet %s/%s", args[0], args[1])
	}
	shard, _ := strconv.Atoi(args[2])
	nshards, _ := strconv.Atoi(args[3])
	count, _ := strconv.Atoi(args[4])
	seed, _ := strconv.ParseUint(args[5], 10, 64)
	tier, out, cur := args[6], args[7], args[8]
	setLimits()
	if f.cleanup != nil {
		defer f.cleanup()
	}
	st := newStats(f.Name, cur)
	switch {
	case f.enum != nil:
		n := f.enum()
		for i := shard; i < n; i += nshards {
			c := f.at(i)
			b := mustJSON(c)
			st.begin(b)
			r := new(Rec)
			err := f.runCheck(c, r)
			st.end()
			st.record(b, r)
			if err != nil {
				st.fail(b, err)
				break
			}
		}
		st.res.Complete = !st.res.Failed
	case f.batch != nil:
		runBatch(f, st, count, seed, tier)
	default:
		runRapid(f, st, count, seed, tier, nil)
	}
	st.finish(out)
}

func (s *stats) finish(out string) {
	b, err := json.Marshal(s.res)
	if err != nil {
		fatalf("%v", err)
	}
	h := make([]byte, 0, 8*len(s.seen))
	for k := range s.seen {
		h = binary.LittleEndian.AppendUint64(h, k)
	}
	if err := os.WriteFile(out+".h", h, 0644); err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		fatalf("%v", err)
	}
}

func (s *stats) fail(b []byte, err error) {
	if ie, ok := err.(InfraError); ok {
		s.res.Infra = ie.Error()
		return
	}
	s.res.Failed = true
	s.res.Err = err.Error()
	s.res.Case = append([]byte(nil), b...)
}

func setupRapid(count int, seed uint64, shrink string) {
	if flag.Lookup("test.v") == nil {
		testing.Init()
	}
	if !flag.Parsed() {
		flag.CommandLine.Parse(nil)
	}
	if seed == 0 {
		seed = 0x9e3779b97f4a7c15
	}
	for k, v := range map[string]string{
		"rapid.checks":     strconv.Itoa(count),
		"rapid.seed":       strconv.FormatUint(seed, 10),
		"rapid.nofailfile": "true",
		"rapid.shrinktime": shrink,
	} {
		if err := flag.Set(k, v); err != nil {
			fatalf("flag %s: %v", k, err)
		}
	}
}

func rapidCheck(fn func(t *rapid.T)) (failed bool) {
	t := new(tb)
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failNow); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(t, fn)
	}()
	return t.failed
}

func shrinkTime(tier string) string {
	if tier == "quick" {
		return "8s"
	}
	return "30s"
}

// runRapid searches; verdict, when not nil, is consulted before the oracle
// (batch mode: failures already established by the batch run).
func runRapid(f *Facet, st *stats, count int, seed uint64, tier string, verdict func(b []byte) (error, bool)) {
	setupRapid(count, seed, shrinkTime(tier))
	failing := false
	failed := rapidCheck(func(t *rapid.T) {
		if st.res.Infra != "" {
			t.Skip("infrastructure failed")
		}
		c := f.gen(t)
		b := mustJSON(c)
		r := new(Rec)
		st.begin(b)
		var err error
		known := false
		if verdict != nil {
			err, known = verdict(b)
		}
		if !known {
			err = f.runCheck(c, r)
		}
		st.end()
		if !failing && verdict == nil {
			st.record(b, r)
		}
		if err != nil {
			if _, ok := err.(InfraError); ok {
				st.res.Infra = err.Error()
				return
			}
			failing = true
			st.fail(b, err)
			t.Fatalf("%s", "oracle failed")
		}
	})
	if failed && !st.res.Failed && st.res.Infra == "" {
		st.res.Infra = "generator failure: " + lastTB
	}
}

func runBatch(f *Facet, st *stats, count int, seed uint64, tier string) {
	// pass 1: collect the cases
	var cases []interface{}
	var raw [][]byte
	setupRapid(count, seed, "1s")
	if rapidCheck(func(t *rapid.T) {
		c := f.gen(t)
		cases = append(cases, c)
		raw = append(raw, mustJSON(c))
	}) {
		st.res.Infra = "generator failure: " + lastTB
		return
	}
	verdicts := map[string]error{}
	anyFail := false
	for i := 0; i < len(cases); i += f.BatchSize {
		j := i + f.BatchSize
		if j > len(cases) {
			j = len(cases)
		}
		recs := make([]*Rec, j-i)
		for k := range recs {
			recs[k] = new(Rec)
		}
		os.WriteFile(st.curPath, raw[i], 0644)
		errs := f.batch(cases[i:j], recs)
		for k, err := range errs {
			if ie, ok := err.(InfraError); ok {
				st.res.Infra = ie.Error()
				return
			}
			st.record(raw[i+k], recs[k])
			verdicts[string(raw[i+k])] = err
			if err != nil {
				anyFail = true
				if !st.res.Failed {
					st.fail(raw[i+k], err)
				}
			}
		}
		if anyFail {
			break
		}
	}
	if !anyFail {
		return
	}
	// pass 2: same seed, verdicts known; unknown cases are shrink candidates.
	runRapid(f, st, count, seed, tier, func(b []byte) (error, bool) {
		err, ok := verdicts[string(b)]
		if ok {
			return err, true
		}
		// cases of later batches that were not run yet
		for i := range raw {
			if string(raw[i]) == string(b) {
				return nil, true
			}
		}
		return nil, false
	})
}

// singleMain: single <prop> <facet> <casefile> [repeat]; exit 1 when the oracle fails.
func singleMain(args []string) {
	f := findFacet(args[0], args[1])
	if f == nil {
		fatalf("no facet %s/%s", args[0], args[1])
	}
	b, err := os.ReadFile(args[2])
	if err != nil {
		fatalf("%v", err)
	}
	var fl failure
	if json.Unmarshal(b, &fl) == nil && fl.Facet != "" && len(fl.Case) > 0 {
		b = fl.Case
	}
	n := 1
	if len(args) > 3 {
		n, _ = strconv.Atoi(args[3])
	}
	c, err := f.decode(b)
	if err != nil {
		fatalf("decode case: %v", err)
	}
	setLimits()
	for i := 0; i < n; i++ {
		caseStarted.Store(time.Now().UnixNano())
		err := f.runCheck(c, new(Rec))
		caseStarted.Store(0)
		if _, ok := err.(InfraError); ok {
			if f.cleanup != nil {
				f.cleanup()
			}
			fatalf("%v", err)
		}
		if err != nil {
			fmt.Printf("%s\n", err)
			if f.cleanup != nil {
				f.cleanup()
			}
			os.Exit(1)
		}
	}
	if f.cleanup != nil {
		f.cleanup()
	}
}
