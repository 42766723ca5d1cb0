// Package vt records what a check observed and what it decided.
package vt

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Violation is one broken instance of the property.
type Violation struct {
	Key     string      `json:"key"` // stable identifier of the failing input / history
	What    string      `json:"what"`
	Witness interface{} `json:"witness,omitempty"`
}

type result struct {
	Property   string                 `json:"property"`
	Done       bool                   `json:"done"`
	Evals      int                    `json:"evaluations"`
	Distinct   int                    `json:"distinct_nontrivial"`
	Rule       string                 `json:"rule"`
	Samples    []interface{}          `json:"samples"`
	Extra      map[string]interface{} `json:"extra"`
	Violations []Violation            `json:"violations"`
	Inconcl    []string               `json:"inconclusive"`
}

// Rec collects the results of one worker.
type Rec struct {
	mu    sync.Mutex
	res   result
	seen  map[string]bool
	sets  map[string]map[string]bool
	out   string
	cur   string
	Seed  int64
	Tier  string
	T     *testing.T
	kinds map[string]int
	all   int
	first time.Time
}

// New starts recording for a property. rule says how cases are made and what makes one non-trivial.
func New(t *testing.T, id, rule string) *Rec {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	r := &Rec{T: t, Seed: seed, Tier: os.Getenv("VERIF_TIER"), out: os.Getenv("VT_OUT"), cur: os.Getenv("VT_CUR"),
		seen: map[string]bool{}, sets: map[string]map[string]bool{}, kinds: map[string]int{}}
	r.res.Property = id
	r.res.Rule = rule
	r.res.Extra = map[string]interface{}{}
	r.res.Samples = []interface{}{}
	r.res.Violations = []Violation{}
	return r
}

// Thorough tells whether this is the deep tier.
func (r *Rec) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough tier.
func (r *Rec) Pick(q, th int) int {
	if r.Thorough() {
		return th
	}
	return q
}

// Rng returns a generator for the given stream name, from VERIF_SEED.
func (r *Rec) Rng(stream string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s", r.Seed, r.res.Property, stream)))
	var s int64
	for i := 0; i < 8; i++ {
		s = s<<8 | int64(h[i])
	}
	return rand.New(rand.NewSource(s))
}

// Case counts one evaluated case. sig identifies what was observed (not only what was asked for).
func (r *Rec) Case(sig string, nontrivial bool, sample interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Evals++
	if !nontrivial {
		return
	}
	h := sha256.Sum256([]byte(sig))
	k := hex.EncodeToString(h[:12])
	if !r.seen[k] {
		r.seen[k] = true
		r.res.Distinct++
		if len(r.res.Samples) < 6 && sample != nil {
			r.res.Samples = append(r.res.Samples, sample)
		}
	}
}

// Add adds n to an observation counter reported in the evidence.
func (r *Rec) Add(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v, _ := r.res.Extra[name].(int)
	r.res.Extra[name] = v + n
}

// Max keeps the largest value of an observation reported in the evidence.
func (r *Rec) Max(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if v, _ := r.res.Extra[name].(int); n > v {
		r.res.Extra[name] = n
	}
}

// Seen adds a value to a set whose size is reported in the evidence.
func (r *Rec) Seen(name, val string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sets[name] == nil {
		r.sets[name] = map[string]bool{}
	}
	r.sets[name][val] = true
	r.res.Extra[name] = len(r.sets[name])
}

// Set stores an arbitrary observation.
func (r *Rec) Set(name string, v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Extra[name] = v
}

// Violation reports a broken instance. At most 5 of one key prefix (text before ':') are kept.
func (r *Rec) Violation(key, what string, witness interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.all++; r.all == 1 {
		r.first = time.Now()
	}
	r.kinds[key]++
	if r.kinds[key] > 3 || len(r.res.Violations) > 40 {
		return
	}
	r.res.Violations = append(r.res.Violations, Violation{key, what, witness})
	r.flush()
}

// NumViolations returns the number of violations so far.  It is large once the first one is a while ago, code that
// is known to be wrong may also be very slow.
func (r *Rec) NumViolations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.all > 0 && time.Since(r.first) > 40*time.Second {
		return r.all + 1000
	}
	return r.all
}

// Inconclusive reports that something could not be decided.
func (r *Rec) Inconclusive(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Inconcl = append(r.res.Inconcl, what)
	r.flush()
}

// Current notes what is about to run, so that a crash can be attributed to its input.
func (r *Rec) Current(s string) {
	if r.cur != "" {
		os.WriteFile(r.cur, []byte(s), 0o644)
	}
}

func (r *Rec) flush() {
	if r.out == "" {
		return
	}
	b, err := json.MarshalIndent(r.res, "", " ")
	if err != nil {
		b = []byte(`{"done":false,"inconclusive":["cannot encode result: ` + strings.ReplaceAll(err.Error(), `"`, `'`) + `"]}`)
	}
	os.WriteFile(r.out+".tmp", b, 0o644)
	os.Rename(r.out+".tmp", r.out)
}

// Finish writes the result.
func (r *Rec) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = true
	r.flush()
	if r.out == "" {
		b, _ := json.MarshalIndent(r.res, "", " ")
		fmt.Println(string(b))
	}
	for _, v := range r.res.Violations {
		r.T.Logf("VIOLATION %s: %s", v.Key, v.What)
	}
}

// MonnyFrames reports whether a stack contains code of the monny module.
func MonnyFrames(stack string) bool {
	return strings.Contains(stack, "github.com/BTBurke/monny/")
}

// Guard runs f; a panic whose stack passes through monny's code is a violation, any other is re-raised.
func (r *Rec) Guard(key string, witness func() interface{}, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if !MonnyFrames(st) {
				panic(p)
			}
			r.Violation(key, fmt.Sprintf("panic in monny's code: %v", p), map[string]interface{}{"case": witness(), "stack": Trim(st, 4000)})
			ok = false
		}
	}()
	f()
	return true
}

// Trim shortens s.
func Trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// AllStacks returns the stacks of all goroutines.
func AllStacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// Pool runs f(0..n-1) on p goroutines.
func Pool(p, n int, f func(i int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < p; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Pool runs f(0..n-1) on p goroutines, and stops handing out cases once six violations are known.
func (r *Rec) Pool(p, n int, f func(i int)) {
	Pool(p, n, func(i int) {
		if r.NumViolations() < 6 {
			f(i)
		}
	})
}
