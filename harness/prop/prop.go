// Package prop is the runner shared by all checks: it drives generated-input
// search with pgregory.net/rapid, one worker process per facet and shard,
// shrinks failures, stores them as JSON replay files and writes evidence.
package prop

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"

	"pgregory.net/rapid"
)

// Rec collects what one case looked like.
type Rec struct {
	labels     map[string]int
	nontrivial bool
	excluded   string
	Work       int // inner executions beyond 1 (positions, sub-elements, ...)
}

// Label counts the case in the named class.
func (r *Rec) Label(s string) {
	if r == nil {
		return
	}
	if r.labels == nil {
		r.labels = map[string]int{}
	}
	r.labels[s]++
}

// Labelf is Label with formatting.
func (r *Rec) Labelf(format string, a ...interface{}) { r.Label(fmt.Sprintf(format, a...)) }

// LabelIf labels when cond.
func (r *Rec) LabelIf(cond bool, s string) {
	if cond {
		r.Label(s)
	}
}

// Nontrivial marks the case as non-trivial by the facet's rule.
func (r *Rec) Nontrivial(cond bool) {
	if cond && r != nil {
		r.nontrivial = true
	}
}

// Exclude notes that the case falls in a known-finding class and was not judged.
func (r *Rec) Exclude(what string) {
	if r != nil {
		r.excluded = what
	}
}

// InfraError is an error of the machinery, not of the code under test.
type InfraError struct{ Err error }

func (e InfraError) Error() string { return "infrastructure: " + e.Err.Error() }

func Infra(format string, a ...interface{}) error {
	return InfraError{fmt.Errorf(format, a...)}
}

// Facet is one executable statement of (part of) a property.
type Facet struct {
	Prop, Name string
	Rule       string
	Quick      int // total cases in the quick tier
	Thorough   int
	MaxShards  int // 0: as many as there are cores
	gen        func(t *rapid.T) interface{}
	decode     func([]byte) (interface{}, error)
	check      func(c interface{}, r *Rec) error
	enum       func() int // optional: enumerated cases instead of random ones
	at         func(i int) interface{}
	batch      func(cases []interface{}, r []*Rec) []error
	BatchSize  int
	cleanup    func()
}

var facets []*Facet

// Opt adjusts a facet.
type Opt func(*Facet)

func Counts(quick, thorough int) Opt {
	return func(f *Facet) { f.Quick, f.Thorough = quick, thorough }
}
func Shards(n int) Opt      { return func(f *Facet) { f.MaxShards = n } }
func Cleanup(fn func()) Opt { return func(f *Facet) { f.cleanup = fn } }

// Register adds a facet with a random generator. C must survive JSON.
func Register[C any](prop, name, rule string, gen func(*rapid.T) C, check func(C, *Rec) error, opts ...Opt) *Facet {
	f := &Facet{Prop: prop, Name: name, Rule: rule, Quick: 1000, Thorough: 20000}
	f.gen = func(t *rapid.T) interface{} { return gen(t) }
	f.decode = func(b []byte) (interface{}, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	f.check = func(c interface{}, r *Rec) error { return check(c.(C), r) }
	for _, o := range opts {
		o(f)
	}
	facets = append(facets, f)
	return f
}

// Enumerate adds a facet that walks a finite list of cases completely.
func Enumerate[C any](prop, name, rule string, n func() int, at func(int) C, check func(C, *Rec) error, opts ...Opt) *Facet {
	f := Register[C](prop, name, rule, nil, check, opts...)
	f.enum = n
	f.at = func(i int) interface{} { return at(i) }
	return f
}

// Batch makes the facet verify cases in batches of n (for oracles that need
// an external build). check stays in use for single cases: shrinking, replay.
func Batch[C any](n int, fn func(cases []C, r []*Rec) []error) Opt {
	return func(f *Facet) {
		f.BatchSize = n
		f.batch = func(cs []interface{}, r []*Rec) []error {
			xs := make([]C, len(cs))
			for i, c := range cs {
				xs[i] = c.(C)
			}
			return fn(xs, r)
		}
	}
}

func facetsOf(prop string) (out []*Facet) {
	for _, f := range facets {
		if f.Prop == prop {
			out = append(out, f)
		}
	}
	return out
}

func findFacet(prop, name string) *Facet {
	for _, f := range facets {
		if f.Prop == prop && f.Name == name {
			return f
		}
	}
	return nil
}

// runCheck runs the oracle, turning panics into failures.
func (f *Facet) runCheck(c interface{}, r *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if isRapidPanic(p) {
				panic(p)
			}
			if e, ok := p.(InfraError); ok {
				err = e
				return
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()
	return f.check(c, r)
}

func isRapidPanic(p interface{}) bool {
	return strings.HasPrefix(fmt.Sprintf("%T", p), "rapid.")
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	skip := true
	for _, l := range lines {
		if skip {
			if strings.HasPrefix(l, "panic(") {
				skip = false
			}
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func hash64(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// Result is what one worker reports.
type Result struct {
	Facet       string
	Evaluations int
	Distinct    int
	Work        int
	Excluded    map[string]int
	Labels      map[string]int
	Samples     []json.RawMessage
	Failed      bool
	Err         string
	Infra       string
	Case        json.RawMessage
	Complete    bool
}

type failure struct {
	Prop  string          `json:"property"`
	Facet string          `json:"facet"`
	Err   string          `json:"error"`
	Case  json.RawMessage `json:"case"`
	Kind  string          `json:"kind,omitempty"`
}

var caseStarted atomic.Int64 // unix nanos of the running case; 0 = idle

func sortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fatalf(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}
