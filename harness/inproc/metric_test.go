package inproc

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"github.com/BTBurke/monny/pkg/metric"
	"github.com/anishathalye/porcupine"
	"github.com/go-logfmt/logfmt"

	"verif/harness/vt"
)

type win struct {
	start time.Time
	n     int
}

// winModel is the specification of a windowed counter.
type winModel struct {
	d    time.Duration
	hist []win // completed windows
	cur  win
}

func (m *winModel) roll(now time.Time) bool { return m.d > 0 && now.After(m.cur.start.Add(m.d)) }
func (m *winModel) add(now time.Time, n int) {
	if m.roll(now) {
		m.hist = append(m.hist, m.cur)
		m.cur = win{start: now}
	}
	m.cur.n += n
}
func (m *winModel) value(now time.Time) int {
	if m.roll(now) {
		return 0
	}
	return m.cur.n
}
func (m *winModel) history(now time.Time, incl bool, max int, maxd time.Duration) []win {
	l := append([]win{}, m.hist...)
	if incl || m.roll(now) {
		l = append(l, m.cur)
	}
	if maxd > 0 {
		var f []win
		for _, w := range l {
			if now.Sub(w.start) <= maxd {
				f = append(f, w)
			}
		}
		l = f
	}
	if max > 0 && len(l) > max {
		l = l[len(l)-max:]
	}
	return l
}

type wcounter interface {
	Value() int
	Add(uint)
	Reset()
	History() []metric.Counter
	HistoryInclusive() []metric.Counter
}

func wins(h []metric.Counter) []win {
	var out []win
	for i := range h {
		out = append(out, win{h[i].Start(), h[i].Value()})
	}
	return out
}

func sameWins(a, b []win) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].n != b[i].n || !a[i].start.Equal(b[i].start) {
			return false
		}
	}
	return true
}

func showWins(l []win, t0 time.Time) string {
	var s []string
	for _, w := range l {
		s = append(s, fmt.Sprintf("%v:%d", w.start.Sub(t0), w.n))
	}
	if len(s) > 30 {
		s = append(s[:15], append([]string{"…"}, s[len(s)-10:]...)...)
	}
	return "[" + strings.Join(s, " ") + "]"
}

// counterProgram drives one counter in a bubble.  It serves C23 (counts, no limits unless asked) and C24 (limits, snapshots).
func counterProgram(rec *vt.Rec, id string, seed int64, desc string) {
	rng := rand.New(rand.NewSource(seed))
	t0 := time.Now()
	time.Sleep(time.Duration(rng.Intn(1000)) * time.Millisecond)
	d := []time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute, 24 * time.Hour, time.Duration(1 + rng.Int63n(1e12))}[rng.Intn(6)]
	zero := id == "C23" && rng.Intn(6) == 0
	max, maxd := 0, time.Duration(0)
	var c wcounter
	kind := ""
	var tr []string
	ok := rec.Guard("panic", func() interface{} { return map[string]interface{}{"case": desc, "kind": kind, "ops": tail(tr)} }, func() {
		switch {
		case zero:
			d = 0
			switch rng.Intn(3) {
			case 0:
				kind = "zero-value WindowedCounter"
				c = &metric.WindowedCounter{}
			case 1:
				kind = "NewWindowedCounter(0)"
				c = metric.NewWindowedCounter(0)
			default:
				kind = "NewConcurrentWindowedCounter(0)"
				c = metric.NewConcurrentWindowedCounter(0)
			}
		case id == "C23" && rng.Intn(3) == 0:
			kind = fmt.Sprintf("NewConcurrentWindowedCounter(%v)", d)
			c = metric.NewConcurrentWindowedCounter(d)
		default:
			w := metric.NewWindowedCounter(d)
			if id == "C24" {
				if rng.Intn(3) > 0 {
					max = 1 + rng.Intn(6)
				}
				if rng.Intn(3) > 0 {
					maxd = time.Duration(1+rng.Intn(12))*d + time.Duration(rng.Int63n(int64(d)))
				}
				w.MaxHistory, w.MaxHistoryDuration = max, maxd
			}
			kind = fmt.Sprintf("NewWindowedCounter(%v) max %d, %v", d, max, maxd)
			c = w
		}
		m := &winModel{d: d, cur: win{start: time.Now()}}
		total := 0
		type held struct {
			h    []metric.Counter
			want []win
			op   int
		}
		var hs []held
		rolled := 0
		fail := func(key, what string) {
			rec.Violation(key, what, map[string]interface{}{"case": desc, "kind": kind, "ops": tail(tr)})
		}
		steps := 5 + rng.Intn(60)
		for k := 0; k < steps; k++ {
			now := time.Now()
			switch rng.Intn(10) {
			case 0, 1, 2, 3:
				n := rng.Intn(5)
				switch rng.Intn(20) {
				case 0, 1:
					n = rng.Intn(1000000)
				case 2:
					n = rng.Intn(1 << (20 + rng.Intn(36))) // at most 65 of them: the sum stays below 2^62
				}
				c.Add(uint(n))
				if m.roll(now) {
					rolled++
				}
				m.add(now, n)
				total += n
				tr = append(tr, fmt.Sprintf("%v add %d", now.Sub(t0), n))
			case 4:
				if rng.Intn(4) == 0 {
					c.Reset()
					m.hist, m.cur, total = nil, win{start: now}, 0
					tr = append(tr, fmt.Sprintf("%v reset", now.Sub(t0)))
				}
			case 5:
				tr = append(tr, fmt.Sprintf("%v value", now.Sub(t0)))
				if g, w := c.Value(), m.value(now); g != w {
					fail("value", fmt.Sprintf("the current value is %d instead of %d", g, w))
					return
				}
			case 6, 7:
				incl := rng.Intn(2) == 0
				var h []metric.Counter
				if incl {
					h = c.HistoryInclusive()
				} else {
					h = c.History()
				}
				tr = append(tr, fmt.Sprintf("%v history inclusive=%v", now.Sub(t0), incl))
				g := wins(h)
				hs = append(hs, held{h, g, len(tr)})
				if zero {
					break
				}
				w := m.history(now, incl, max, maxd)
				if !sameWins(g, w) {
					fail("history", fmt.Sprintf("the history (inclusive=%v) is %s instead of %s", incl, showWins(g, t0), showWins(w, t0)))
					return
				}
				for i := range h {
					if h[i].Duration() != d {
						fail("duration", fmt.Sprintf("a window of length %v has duration %v", d, h[i].Duration()))
					}
				}
			default:
				// times never fall exactly on the end of a window
				var s time.Duration
				switch {
				case d == 0:
					s = time.Duration(rng.Int63n(int64(time.Hour)))
				case rng.Intn(3) == 0:
					s = time.Duration(rng.Int63n(int64(d)))
				case rng.Intn(3) == 0:
					s = time.Duration(rng.Intn(4))*d + 1
				default:
					s = time.Duration(rng.Int63n(3 * int64(d)))
				}
				time.Sleep(s)
				for d > 0 && time.Now().Equal(m.cur.start.Add(d)) || maxd > 0 && boundary(m, maxd) {
					time.Sleep(1)
				}
			}
			// conservation, whenever no limit is set
			if max == 0 && maxd == 0 {
				sum := 0
				for _, w := range wins(c.HistoryInclusive()) {
					sum += w.n
				}
				if sum != total {
					fail("conservation", fmt.Sprintf("all windows together count %d instead of %d", sum, total))
					return
				}
			}
			if zero {
				if g := c.Value(); g != total {
					fail("value", fmt.Sprintf("a counter without window length has value %d instead of %d", g, total))
					return
				}
			}
		}
		for _, h := range hs {
			if !sameWins(wins(h.h), h.want) {
				fail("snapshot", fmt.Sprintf("a history returned at operation %d changed from %s to %s", h.op, showWins(h.want, t0), showWins(wins(h.h), t0)))
			}
		}
		rec.Add("windows_completed", rolled)
		rec.Add("histories_read", len(hs))
		rec.Case(kind+strings.Join(tr, ","), rolled > 0 || zero, map[string]interface{}{"kind": kind, "ops": tail(tr)})
	})
	_ = ok
}

func boundary(m *winModel, maxd time.Duration) bool {
	now := time.Now()
	for _, w := range append(append([]win{}, m.hist...), m.cur) {
		if now.Sub(w.start) == maxd {
			return true
		}
	}
	return false
}

func runCounters(t *testing.T, id, rule string, q, th int) {
	rec := vt.New(t, id, rule)
	defer rec.Finish()
	var desc atomic.Value
	desc.Store("")
	watch(rec, func() string { return desc.Load().(string) })
	rng := rec.Rng("prog")
	n := rec.Pick(q, th)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		seed := rng.Int63()
		d := fmt.Sprintf("program %d seed %d", i, seed)
		desc.Store(d)
		rec.Current(d)
		bubble(t, func(t *testing.T) { counterProgram(rec, id, seed, d) })
		step()
	}
	for i := 0; i < rec.Pick(4, 60) && rec.NumViolations() < 5; i++ {
		seed := rng.Int63()
		d := fmt.Sprintf("long history %d seed %d", i, seed)
		desc.Store(d)
		rec.Current(d)
		bubble(t, func(t *testing.T) { longHistory(rec, id, i, seed, d) })
		step()
	}
	if id == "C23" {
		// plain counters
		for i := 0; i < 500; i++ {
			var c metric.CounterI = metric.NewCounter()
			if i%2 == 0 {
				c = metric.NewConcurrentCounter()
			}
			total := 0
			for k := rng.Intn(50); k > 0; k-- {
				x := rng.Intn(1000)
				if rng.Intn(8) == 0 {
					x = rng.Intn(1 << (20 + rng.Intn(36)))
				}
				c.Add(uint(x))
				total += x
				if rng.Intn(20) == 0 {
					c.Reset()
					total = 0
				}
				if c.Value() != total {
					rec.Violation("plain", fmt.Sprintf("a plain counter has value %d instead of %d", c.Value(), total), nil)
				}
			}
			rec.Case(fmt.Sprint("plain", i, total), total > 0, nil)
		}
	}
}

// longHistory completes thousands of windows.
func longHistory(rec *vt.Rec, id string, i int, seed int64, desc string) {
	rng := rand.New(rand.NewSource(seed))
	d := time.Duration(1 + rng.Int63n(1e10))
	n := 1200 + rng.Intn(5000)
	if i == 0 {
		n = 10000 + rng.Intn(8000)
	}
	var c wcounter = metric.NewConcurrentWindowedCounter(d)
	max, maxd := 0, time.Duration(0)
	kind := fmt.Sprintf("NewConcurrentWindowedCounter(%v)", d)
	if i%2 == 0 {
		w := metric.NewWindowedCounter(d)
		if id == "C24" && i%4 != 0 {
			max = 500 + rng.Intn(n)
			maxd = time.Duration(500+rng.Intn(n)) * 2 * d
			w.MaxHistory, w.MaxHistoryDuration = max, maxd
		}
		c = w
		kind = fmt.Sprintf("NewWindowedCounter(%v) max %d, %v", d, max, maxd)
	}
	t0 := time.Now()
	m := &winModel{d: d, cur: win{start: t0}}
	wit := func() interface{} {
		return map[string]interface{}{"case": desc, "kind": kind, "additions": n}
	}
	rec.Guard("panic", wit, func() {
		for k := 0; k < n; k++ {
			x := rng.Intn(9)
			c.Add(uint(x))
			m.add(time.Now(), x)
			if rng.Intn(4) > 0 {
				time.Sleep(d + 1 + time.Duration(rng.Int63n(int64(d))))
			}
			for time.Now().Equal(m.cur.start.Add(d)) {
				time.Sleep(1)
			}
			if k%700 == 699 || k == n-1 {
				for maxd > 0 && boundary(m, maxd) {
					time.Sleep(1)
				}
				for _, incl := range []bool{false, true} {
					h := c.History()
					if incl {
						h = c.HistoryInclusive()
					}
					w := m.history(time.Now(), incl, max, maxd)
					if g := wins(h); !sameWins(g, w) {
						rec.Violation("history", fmt.Sprintf("the history (inclusive=%v) after %d additions has %d windows instead of %d, or others: %s, %s", incl, k+1, len(g), len(w), showWins(g, t0), showWins(w, t0)), wit())
						return
					}
				}
				step()
			}
		}
		rec.Add("windows_completed", len(m.hist))
		rec.Max("longest_history", len(m.hist))
		rec.Case(fmt.Sprint(kind, n, len(m.hist)), true, wit())
	})
}

func TestC23(t *testing.T) {
	runCounters(t, "C23", "a case is one generated program of additions, resets and reads at generated virtual times on a windowed counter (any window length, none, or the zero value; plain or concurrent type), every result compared with a list-of-windows model and the sum of all windows with the total after every step; distinct by the program, non-trivial when a window was completed or the counter has no window", 6000, 200000)
}

func TestC24(t *testing.T) {
	runCounters(t, "C24", "a case is one generated program on a windowed counter with generated history limits at generated virtual times; every history is compared with the model and all returned histories are re-examined at the end; distinct by the program, non-trivial when a window was completed", 6000, 200000)
}

// C25
func TestC25(t *testing.T) {
	rec := vt.New(t, "C25", "a case is one recorded concurrent history of 3-5 goroutines on a concurrent counter (plain or windowed) under the race detector, decided by a linearizability checker; or one longer concurrent run whose sums must be conserved; distinct by the observed history, non-trivial when operations overlapped")
	defer rec.Finish()
	watch(rec, func() string { return "counters" })
	type in struct {
		op string
		n  int
	}
	model := porcupine.Model{
		Init: func() interface{} { return 0 },
		Step: func(st, input, output interface{}) (bool, interface{}) {
			x := input.(in)
			v := st.(int)
			switch x.op {
			case "add":
				return true, v + x.n
			case "reset":
				return true, 0
			case "history": // window still open: no completed window
				return output.(int) == 0, v
			default:
				return output.(int) == v, v
			}
		},
		Equal:             func(a, b interface{}) bool { return a == b },
		DescribeOperation: func(i, o interface{}) string { return fmt.Sprintf("%v -> %v", i, o) },
	}
	rng := rec.Rng("conc")
	m := rec.Pick(3000, 80000)
	for i := 0; i < m && rec.NumViolations() < 5; i++ {
		step()
		var c metric.CounterI
		windowed := i%2 == 0
		if windowed {
			c = metric.NewConcurrentWindowedCounter(time.Hour)
		} else {
			c = metric.NewConcurrentCounter()
		}
		g := 3 + rng.Intn(3)
		var mu sync.Mutex
		var ops []porcupine.Operation
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < g; k++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			k := k
			go func() {
				defer wg.Done()
				<-start
				var mine []porcupine.Operation
				for j := 0; j < 6; j++ {
					x := in{op: []string{"add", "add", "add", "value", "value", "reset", "inclusive", "history"}[r.Intn(8)], n: 1 + r.Intn(9)}
					// amounts of any magnitude are added at once
					if r.Intn(3) == 0 {
						x.n *= []int{17, 1001, 70001, 5000011, 300000007}[r.Intn(5)]
					}
					if x.op == "reset" && r.Intn(2) == 0 {
						x.op = "add"
					}
					if !windowed && (x.op == "inclusive" || x.op == "history") {
						x.op = "value"
					}
					out := 0
					a := int64(time.Since(epoch))
					switch x.op {
					case "add":
						c.Add(uint(x.n))
					case "reset":
						c.Reset()
					case "value":
						out = c.Value()
					case "inclusive":
						for _, w := range c.(*metric.ConcurrentWindowedCounter).HistoryInclusive() {
							out += w.Value()
						}
					case "history":
						for _, w := range c.(*metric.ConcurrentWindowedCounter).History() {
							out += w.Value()
						}
					}
					mine = append(mine, porcupine.Operation{ClientId: k, Input: x, Output: out, Call: a, Return: int64(time.Since(epoch))})
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
				mu.Lock()
				ops = append(ops, mine...)
				mu.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		ov := overlaps(ops)
		switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
		case porcupine.Illegal:
			rec.Violation("linearizability", "a concurrent history of counter operations has no sequential explanation", describeOps(model, ops))
		case porcupine.Unknown:
			rec.Add("histories_undecided", 1)
		default:
			rec.Add("histories_linearizable", 1)
		}
		rec.Add("overlapping_operations", ov)
		rec.Case(fmt.Sprint(windowed, describeOps(model, ops)), ov > 0, nil)
	}
	// short real windows: conservation while windows roll over and readers read
	for i := 0; i < rec.Pick(60, 1500) && rec.NumViolations() < 5; i++ {
		d := time.Duration(20+rng.Intn(2000)) * time.Microsecond
		c := metric.NewConcurrentWindowedCounter(d)
		p := metric.NewConcurrentCounter()
		resets := i%3 == 2
		var total atomic.Int64
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for k := 0; k < 4; k++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				defer wg.Done()
				for j := 0; j < 400; j++ {
					n := r.Intn(4)
					c.Add(uint(n))
					p.Add(uint(n))
					total.Add(int64(n))
					if resets && j%20 == 0 {
						c.Reset()
					}
					if j%50 == 0 {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
				}
			}()
		}
		var rg sync.WaitGroup
		var windows atomic.Int64
		for k := 0; k < 3; k++ {
			rg.Add(1)
			k := k
			go func() {
				defer rg.Done()
				last := 0
				var keep [][]metric.Counter
				var sums []int
				for {
					select {
					case <-stop:
						for q := range keep {
							if s := sumC(keep[q]); s != sums[q] {
								rec.Violation("snapshot", fmt.Sprintf("a history read during concurrent additions changed its sum from %d to %d", sums[q], s), d.String())
							}
						}
						return
					default:
					}
					var h []metric.Counter
					if k == 0 {
						h = c.History()
					} else {
						h = c.HistoryInclusive()
					}
					for q := 1; q < len(h); q++ {
						if gap := h[q].Start().Sub(h[q-1].Start()); gap < d {
							rec.Violation("order", fmt.Sprintf("a history read during concurrent additions lists a window started %v after the one before, windows last %v", gap, d), d.String())
							return
						}
					}
					if resets {
						if len(h) > 0 {
							windows.Store(int64(len(h)))
						}
						_ = c.Value()
						continue
					}
					s := sumC(h)
					if s < last {
						rec.Violation("conservation", fmt.Sprintf("the windows of a counter that is only added to sum up to %d after %d", s, last), d.String())
						return
					}
					last = s
					windows.Store(int64(len(h)))
					if len(keep) < 200 {
						keep = append(keep, h)
						sums = append(sums, s)
					}
					_ = c.Value()
					_ = p.Value()
				}
			}()
		}
		wg.Wait()
		close(stop)
		rg.Wait()
		step()
		if s := sumC(c.HistoryInclusive()); s > int(total.Load()) || s != int(total.Load()) && !resets {
			rec.Violation("conservation", fmt.Sprintf("after concurrent additions of %d in total all windows together count %d", total.Load(), s), d.String())
		}
		if p.Value() != int(total.Load()) {
			rec.Violation("conservation", fmt.Sprintf("after concurrent additions of %d in total the counter's value is %d", total.Load(), p.Value()), nil)
		}
		rec.Add("windows_completed_concurrently", int(windows.Load()))
		rec.Case(fmt.Sprint("long", d, windows.Load(), total.Load()), windows.Load() > 1, map[string]interface{}{"window": d.String(), "windows": windows.Load(), "total": total.Load()})
	}
}

func sumC(h []metric.Counter) int {
	s := 0
	for i := range h {
		s += h[i].Value()
	}
	return s
}

func eqf(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func rfloat(r *rand.Rand) float64 {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return math.Inf(1 - 2*r.Intn(2))
	case 2:
		return math.NaN()
	case 3:
		return math.MaxFloat64
	}
	return r.NormFloat64() * 100
}

// C26
func TestC26(t *testing.T) {
	rec := vt.New(t, "C26", "a case is one generated program of record, read, reset on a series of generated capacity and initial values, compared with a list model after every read; returned slices are kept, altered and re-examined; distinct by the program, non-trivial when the capacity was exceeded")
	defer rec.Finish()
	watch(rec, func() string { return "series" })
	rng := rec.Rng("prog")
	n := rec.Pick(6000, 300000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		step()
		seed := rng.Int63()
		r := rand.New(rand.NewSource(seed))
		capn := []int{1, 2, 3, 4, 7, 50, 1 + r.Intn(300)}[r.Intn(7)]
		var tr []string
		wit := func() interface{} { return map[string]interface{}{"capacity": capn, "ops": tail(tr)} }
		rec.Guard("panic", wit, func() {
			var opts []metric.SeriesOption
			var model, ini []float64
			if r.Intn(3) == 0 {
				for k := r.Intn(2*capn + 2); k > 0; k-- {
					ini = append(ini, rfloat(r))
				}
				opts = append(opts, metric.WithValues(ini))
				model = append(model, ini...)
				tr = append(tr, fmt.Sprintf("initial %v", ini))
			}
			name := ""
			if r.Intn(3) == 0 {
				name = "n_" + fmt.Sprint(r.Intn(5))
				opts = append(opts, metric.WithName(name, map[string]string{"a": "b"}))
			}
			r.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
			s, err := metric.NewSeries(capn, opts...)
			if err != nil {
				rec.Violation("construct", "a series could not be created: "+err.Error(), wit())
				return
			}
			if name != "" && s.Name() != name+"[a=b]" {
				rec.Violation("name", "a series has the name "+s.Name(), wit())
			}
			for k := range ini {
				ini[k] = -99
			}
			type held struct{ got, want []float64 }
			var hs []held
			check := func() bool {
				want := make([]float64, capn)
				if len(model) >= capn {
					copy(want, model[len(model)-capn:])
				} else {
					copy(want, model)
				}
				g := s.Values()
				if !eqf(g, want) {
					rec.Violation("values", fmt.Sprintf("a series of capacity %d returns %v instead of %v", capn, g, want), wit())
					return false
				}
				if s.Count() != len(model) || s.Capacity() != capn {
					rec.Violation("count", fmt.Sprintf("count %d, capacity %d instead of %d, %d", s.Count(), s.Capacity(), len(model), capn), wit())
					return false
				}
				h := held{g, append([]float64{}, g...)}
				if r.Intn(2) == 0 {
					for q := range g {
						g[q] = -1234.5
					}
					g2 := append(g, 1)
					_ = g2
					h.want = append([]float64{}, g...)
				}
				hs = append(hs, h)
				return true
			}
			over := false
			steps := r.Intn(3*capn + 30)
			if i%400 == 7 {
				// many observations, only the capacity of them matters
				for k := 20000 + r.Intn(rec.Pick(60000, 3000000)); k > 0; k-- {
					v := float64(k) / 8
					s.Record(v)
					model = append(model, v)
				}
				over = true
				tr = append(tr, fmt.Sprintf("record %d values", len(model)))
				rec.Add("long_series_observations", len(model))
			}
			for k := steps; k > 0; k-- {
				switch r.Intn(14) {
				case 0:
					if r.Intn(3) == 0 {
						s.Reset()
						model = nil
						tr = append(tr, "reset")
					}
				case 1, 2, 3:
					tr = append(tr, "values")
					if !check() {
						return
					}
				default:
					v := rfloat(r)
					s.Record(v)
					model = append(model, v)
					over = over || len(model) > capn
					tr = append(tr, fmt.Sprint("record ", v))
				}
			}
			if !check() {
				return
			}
			for _, h := range hs {
				if !eqf(h.got, h.want) {
					rec.Violation("copy-changed", fmt.Sprintf("returned values changed from %v to %v", h.want, h.got), wit())
				}
			}
			rec.Case(fmt.Sprint(capn, tr), over, map[string]interface{}{"capacity": capn, "ops": tail(tr)})
		})
	}
	// few, large series: capacities over a million, more than 2^24 observations
	for _, x := range [][2]int{{1<<20 + 1 + rng.Intn(1000), 3 << 20}, {3<<20 + rng.Intn(1000), 1000}, {7, 1<<24 + 1000 + rng.Intn(1000)}, {100003, 1<<24 + rng.Intn(200000)}} {
		capn, obs := x[0], x[1]
		wit := fmt.Sprintf("capacity %d, %d observations", capn, obs)
		rec.Guard("panic", func() interface{} { return wit }, func() {
			s, err := metric.NewSeries(capn)
			if err != nil {
				rec.Violation("construct", "a series could not be created: "+err.Error(), wit)
				return
			}
			for k := 0; k < obs; k++ {
				s.Record(float64(k) + 0.5)
				if k&0xfffff == 0 {
					step()
				}
			}
			g := s.Values()
			if len(g) != capn || s.Count() != obs || s.Capacity() != capn {
				rec.Violation("count", fmt.Sprintf("count %d, capacity %d, %d values instead of %d, %d", s.Count(), s.Capacity(), len(g), obs, capn), wit)
				return
			}
			for k, v := range g {
				w := float64(k) + 0.5
				if obs >= capn {
					w = float64(obs-capn+k) + 0.5
				} else if k >= obs {
					w = 0
				}
				if v != w {
					rec.Violation("values", fmt.Sprintf("value %d is %v instead of %v", k, v, w), wit)
					return
				}
			}
			rec.Add("long_series_observations", obs)
			rec.Case(wit, true, wit)
		})
	}
	for _, capn := range []int{0, -1, -100} {
		if s, err := metric.NewSeries(capn); err == nil || s != nil {
			rec.Violation("capacity", fmt.Sprintf("a series of capacity %d was created", capn), nil)
		}
	}
	if _, err := metric.NewSeries(3, metric.WithName("", nil)); err == nil {
		rec.Violation("name", "a series with an empty name was created", nil)
	}
}

// C27
func TestC27(t *testing.T) {
	rec := vt.New(t, "C27", "a case is one generated schedule of observations by one or several goroutines against a sampled series with generated window, aggregate, capacity and initial values on a virtual clock, compared after every window with a per-window model, up to and after the cleanup; or a concurrent real-time run under the race detector whose sum must be conserved; distinct by schedule and observed values, non-trivial when a window with observations elapsed")
	defer rec.Finish()
	var desc atomic.Value
	desc.Store("")
	watch(rec, func() string { return desc.Load().(string) })
	rng := rec.Rng("prog")
	n := rec.Pick(1500, 50000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		seed := rng.Int63()
		d := fmt.Sprintf("program %d seed %d", i, seed)
		desc.Store(d)
		rec.Current(d)
		bubble(t, func(t *testing.T) { sampledProgram(rec, seed, d) })
		step()
	}
	// the aggregates themselves
	for i := 0; i < 500; i++ {
		var o []float64
		m := rng.Intn(8)
		if i%50 == 0 {
			m = rng.Intn(20000)
		}
		for k := m; k > 0; k-- {
			o = append(o, float64(rng.Intn(2000)-1000)/8)
		}
		keep := append([]float64{}, o...)
		for name, f := range aggregates {
			if g, w := f.f(o), f.want(o); !sameAgg(name, g, w, 2000) {
				rec.Violation("aggregate:"+name, fmt.Sprintf("the %s of %d observations %v is %v instead of %v", name, len(o), vt.Trim(fmt.Sprint(o), 300), g, w), nil)
			}
			if !eqf(o, keep) {
				rec.Violation("aggregate:"+name, "the "+name+" changed its input", fmt.Sprint(keep, o))
			}
		}
	}
	// minimum and maximum are exact over the whole range of floating point numbers
	for i := 0; i < 2000; i++ {
		var o []float64
		for k := 1 + rng.Intn(6); k > 0; k-- {
			v := math.Float64frombits(rng.Uint64())
			switch rng.Intn(3) {
			case 0:
				v = rng.NormFloat64() * math.Pow(10, float64(rng.Intn(20)-10))
			case 1:
				if len(o) > 0 { // a close neighbour
					v = math.Nextafter(o[rng.Intn(len(o))], math.Inf(1-2*rng.Intn(2)))
				}
			}
			if math.IsNaN(v) {
				v = math.Inf(1 - 2*rng.Intn(2))
			}
			o = append(o, v)
		}
		for _, name := range []string{"minimum", "maximum"} {
			f := aggregates[name]
			if g, w := f.f(o), f.want(o); g != w {
				rec.Violation("aggregate:"+name, fmt.Sprintf("the %s of %v is %v instead of %v", name, o, g, w), nil)
			}
		}
	}
	// real time, many goroutines
	for i := 0; i < rec.Pick(25, 400) && rec.NumViolations() < 5; i++ {
		step()
		desc.Store("real time run")
		w := time.Duration(200+rng.Intn(2000)) * time.Microsecond
		direct := i%5 == 0
		if direct {
			w = 0
		}
		s, done, err := metric.NewSampledSeries(200000, w, metric.SampleSum)
		if err != nil {
			rec.Violation("construct", err.Error(), nil)
			return
		}
		var wg, rg sync.WaitGroup
		var total atomic.Int64
		stop := make(chan struct{})
		for k := 0; k < 4; k++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				defer wg.Done()
				for j := 0; j < 300; j++ {
					v := 1 + r.Intn(5)
					s.Record(float64(v))
					total.Add(int64(v))
					if j%20 == 0 {
						time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
					}
				}
			}()
		}
		rg.Add(1)
		go func() {
			defer rg.Done()
			last := 0.0
			for {
				select {
				case <-stop:
					return
				default:
				}
				sum := 0.0
				for _, v := range s.Values() {
					sum += v
				}
				if sum < last {
					rec.Violation("lost", fmt.Sprintf("the samples sum up to %v after %v", sum, last), nil)
				}
				last = sum
				_, _, _ = s.Count(), s.Capacity(), s.Name()
				time.Sleep(20 * time.Microsecond)
			}
		}()
		wg.Wait()
		dl := time.Now().Add(20 * time.Second)
		sum := 0.0
		for {
			sum = 0
			for _, v := range s.Values() {
				sum += v
			}
			if sum == float64(total.Load()) || time.Now().After(dl) {
				break
			}
			step()
			time.Sleep(w + time.Millisecond)
		}
		if sum != float64(total.Load()) {
			rec.Violation("lost", fmt.Sprintf("concurrent observations of %d in total gave samples of %v in total", total.Load(), sum), map[string]interface{}{"window": w.String()})
		}
		close(stop)
		rg.Wait()
		done()
		c := s.Count()
		time.Sleep(3 * w)
		if s.Count() != c {
			rec.Violation("after-cleanup", "samples were added after the cleanup function had returned", nil)
		}
		rec.Add("samples_real_time", c)
		rec.Case(fmt.Sprint("real", w, c, total.Load()), true, map[string]interface{}{"window": w.String(), "samples": c, "total": total.Load()})
	}
}

// sameAgg compares aggregates of observations of at most the given magnitude.  All are exact but averages, which
// may be rounded differently.
func sameAgg(name string, g, w, scale float64) bool {
	return g == w || name == "average" && math.Abs(g-w) <= 1e-9*scale
}

func sameSamples(name string, g, w []float64) bool {
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		// undefined values are stored as such where there is no aggregate
		if !(math.IsNaN(g[i]) && math.IsNaN(w[i])) && !sameAgg(name, g[i], w[i], 1000) {
			return false
		}
	}
	return true
}

type agg struct{ f, want func([]float64) float64 }

var aggregates = map[string]agg{
	"sum": {metric.SampleSum, func(o []float64) float64 {
		s := 0.0
		for _, v := range o {
			s += v
		}
		return s
	}},
	"average": {metric.SampleAverage, func(o []float64) float64 {
		if len(o) == 0 {
			return 0
		}
		s := 0.0
		for _, v := range o {
			s += v
		}
		return s / float64(len(o))
	}},
	"minimum": {metric.SampleMin, func(o []float64) float64 {
		if len(o) == 0 {
			return 0
		}
		c := append([]float64{}, o...)
		sort.Float64s(c)
		return c[0]
	}},
	"maximum": {metric.SampleMax, func(o []float64) float64 {
		if len(o) == 0 {
			return 0
		}
		c := append([]float64{}, o...)
		sort.Float64s(c)
		return c[len(c)-1]
	}},
}

func sampledProgram(rec *vt.Rec, seed int64, desc string) {
	r := rand.New(rand.NewSource(seed))
	w := []time.Duration{time.Millisecond, time.Second, 15 * time.Second, time.Duration(2 + r.Int63n(1e11)), 0}[r.Intn(5)]
	if r.Intn(8) == 0 {
		w = time.Hour + time.Duration(r.Int63n(int64(60*24*time.Hour)))
	}
	names := []string{"sum", "average", "minimum", "maximum", "digest"}
	an := names[r.Intn(5)]
	a := aggregates[an]
	value := func() float64 { return float64(r.Intn(4000)-1000) / 4 }
	if an == "digest" {
		// an aggregate that sees every observation exactly, in whatever order
		digest := func(o []float64) float64 {
			n := uint64(len(o)) << 20
			for _, v := range o {
				n += math.Float64bits(v) >> 7 % 1000003
			}
			return float64(n)
		}
		a = agg{digest, digest}
		odd := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e300, 5e-324, 0, math.Copysign(0, -1)}
		value = func() float64 {
			if r.Intn(3) == 0 {
				return odd[r.Intn(len(odd))]
			}
			return r.NormFloat64()
		}
	}
	capn := []int{1, 2, 5, 50}[r.Intn(4)]
	var opts []metric.SeriesOption
	var model []float64
	if r.Intn(3) == 0 {
		ini := []float64{1, 2, 3}[:r.Intn(4)]
		opts = append(opts, metric.WithValues(ini))
		model = append(model, ini...)
	}
	var tr []string
	wit := func() interface{} {
		return map[string]interface{}{"case": desc, "window": w.String(), "aggregate": an, "capacity": capn, "ops": tail(tr)}
	}
	s, done, err := metric.NewSampledSeries(capn, w, a.f, opts...)
	if err != nil {
		rec.Violation("construct", err.Error(), wit())
		return
	}
	t0 := time.Now()
	check := func(when string) bool {
		synctest.Wait()
		want := make([]float64, capn)
		if len(model) >= capn {
			copy(want, model[len(model)-capn:])
		} else {
			copy(want, model)
		}
		if g := s.Values(); !sameSamples(an, g, want) || s.Count() != len(model) || s.Capacity() != capn {
			rec.Violation("samples", fmt.Sprintf("%s the series holds %v (count %d) instead of %v (count %d)", when, g, s.Count(), want, len(model)), wit())
			return false
		}
		return true
	}
	var pending []float64
	nonempty := 0
	windows := 1 + r.Intn(12)
	flood := w > 0 && r.Intn(60) == 0
	step1 := w
	if w == 0 {
		step1 = time.Second
	}
	for k := 0; k < windows; k++ {
		// moments inside this window, never on its borders
		m := r.Intn(5)
		var at []time.Duration
		for j := 0; j < m; j++ {
			at = append(at, time.Duration(1+r.Int63n(int64(step1)-1)))
		}
		sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
		for _, x := range at {
			time.Sleep(t0.Add(time.Duration(k)*step1 + x).Sub(time.Now()))
			if r.Intn(25) == 0 {
				s.Reset()
				pending, model = nil, nil
				tr = append(tr, fmt.Sprintf("%v reset", time.Since(t0)))
				continue
			}
			g := 1
			if w > 0 && r.Intn(4) == 0 {
				g = 2 + r.Intn(4)
			}
			if flood && r.Intn(4) == 0 {
				// very many observations within a window
				n := 3000 + r.Intn(100000)
				for j := 0; j < n; j++ {
					v := value()
					pending = append(pending, v)
					s.Record(v)
				}
				tr = append(tr, fmt.Sprintf("%v record %d observations", time.Since(t0), n))
				rec.Max("observations_in_a_window", len(pending))
			}
			var wg sync.WaitGroup
			for j := 0; j < g; j++ {
				v := value()
				pending = append(pending, v)
				tr = append(tr, fmt.Sprintf("%v record %v", time.Since(t0), v))
				wg.Add(1)
				go func() { defer wg.Done(); s.Record(v) }()
			}
			wg.Wait()
			if w == 0 {
				model = append(model, pending...)
				pending = nil
				nonempty++
				if !check("right after recording without a window") {
					return
				}
			} else if r.Intn(3) == 0 && !check("within a window") {
				return
			}
		}
		time.Sleep(t0.Add(time.Duration(k+1) * step1).Sub(time.Now()))
		if w > 0 {
			if len(pending) > 0 {
				nonempty++
				model = append(model, a.want(pending))
			} else {
				model = append(model, 0)
			}
			pending = nil
		}
		if !check(fmt.Sprintf("after window %d", k+1)) {
			return
		}
	}
	// cleanup
	if w > 0 {
		time.Sleep(time.Duration(1 + r.Int63n(int64(step1)-1)))
	}
	if r.Intn(2) == 0 && w > 0 {
		s.Record(5)
	}
	done()
	if !check("after cleanup") {
		return
	}
	time.Sleep(20 * step1)
	if w > 0 {
		s.Record(7)
		time.Sleep(20 * step1)
	}
	if !check("long after cleanup") {
		return
	}
	if l := leftovers("pkg/metric"); len(l) > 0 {
		rec.Violation("goroutines", "a sampling goroutine remains after cleanup", wit())
	}
	rec.Add("windows", windows)
	rec.Case(fmt.Sprint(w, an, capn, tr, model), nonempty > 0, map[string]interface{}{"window": w.String(), "aggregate": an, "capacity": capn, "ops": tail(tr), "samples": fmt.Sprint(model)})
}

// C28
func ident(r *rand.Rand) string {
	const l = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	const x = l + "0123456789.-/"
	n := 1 + r.Intn(8)
	if r.Intn(2) == 0 {
		n = 1
	}
	b := []byte{l[r.Intn(len(l))]}
	for len(b) < n {
		b = append(b, x[r.Intn(len(x))])
	}
	return string(b)
}

func mdValue(r *rand.Rand) string {
	pool := []string{"null", "true", "0", "@a", "@", "=", "\"", "\\", "]", "[", " ", "a b", " a", "a ", "a=b", "\n", "\t", "\u00e9", "\u2028", "\u00a0", "\U0001F600", "\x7f", "'", "b@c", "a]", "] @x", "x] y=z", "\"a\"", "\\n", "\r", "\u0085", "\ufffd", "\x00"}
	s := ""
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Intn(3) == 0 {
			s += pool[r.Intn(len(pool))]
		} else {
			s += ident(r)
		}
	}
	switch r.Intn(60) {
	case 0:
		s = strings.Repeat(s, 1+r.Intn(60))
	case 1:
		if r.Intn(8) == 0 {
			s = strings.Repeat(s+"-", r.Intn(3000))
		}
		if r.Intn(40) == 0 {
			s = strings.Repeat(s+"-", 1+(70000+r.Intn(200000))/(len(s)+1))
		}
	}
	if !utf8.ValidString(s) || s == "" {
		return "v"
	}
	return s
}

// parseName is the reader of rendered names.
func parseName(s string) (string, map[string]string, []string, error) {
	i := strings.IndexByte(s, '[')
	if i < 0 {
		return s, nil, nil, nil
	}
	if !strings.HasSuffix(s, "]") {
		return "", nil, nil, fmt.Errorf("no closing bracket")
	}
	name, body := s[:i], s[i+1:len(s)-1]
	quoted := false
	for j := 0; j < len(body); j++ {
		switch c := body[j]; {
		case quoted && c == '\\':
			j++
		case c == '"':
			quoted = !quoted
		case c == ' ' && !quoted && (j == 0 || j == len(body)-1 || body[j-1] == ' '):
			return "", nil, nil, fmt.Errorf("superfluous blank at byte %d of the metadata", j)
		}
	}
	md := map[string]string{}
	var order []string
	if len(body) > 50000 {
		// beyond what the logfmt reader takes
		quoted, from := false, 0
		for j := 0; j <= len(body); j++ {
			if j < len(body) {
				if quoted && body[j] == '\\' {
					j++
					continue
				}
				if body[j] == '"' {
					quoted = !quoted
				}
				if quoted || body[j] != ' ' {
					continue
				}
			}
			k, v, ok := strings.Cut(body[from:j], "=")
			from = j + 1
			order = append(order, k)
			if strings.HasPrefix(k, "@") != !ok {
				return "", nil, nil, fmt.Errorf("key %q with a value: %v", vt.Trim(k, 100), ok)
			}
			if strings.HasPrefix(v, "\"") {
				if err := json.Unmarshal([]byte(v), &v); err != nil {
					return "", nil, nil, err
				}
			}
			md[strings.TrimPrefix(k, "@")] = v
		}
		return name, md, order, nil
	}
	d := logfmt.NewDecoder(strings.NewReader(body))
	for d.ScanRecord() {
		for d.ScanKeyval() {
			k := string(d.Key())
			order = append(order, k)
			if strings.HasPrefix(k, "@") {
				if d.Value() != nil {
					return "", nil, nil, fmt.Errorf("annotation %s has a value", k)
				}
				md[k[1:]] = ""
				continue
			}
			if d.Value() == nil {
				return "", nil, nil, fmt.Errorf("key %s has no value", k)
			}
			md[k] = string(d.Value())
		}
	}
	return name, md, order, d.Err()
}

func TestC28(t *testing.T) {
	rec := vt.New(t, "C28", "a case is one generated sequence of creating, copying and extending names (in shuffled orders); every rendering is parsed back, compared with the model's contents, order and with all earlier renderings of other contents; distinct by the text, non-trivial when it has metadata")
	defer rec.Finish()
	watch(rec, func() string { return "names" })
	rng := rec.Rng("prog")
	n := rec.Pick(6000, 300000)
	texts := map[string]string{} // text -> canonical contents
	canon := map[string]string{} // contents -> text
	type nm struct {
		n    metric.Name
		base string
		md   map[string]string
	}
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		step()
		r := rand.New(rand.NewSource(rng.Int63()))
		var tr []string
		wit := func() interface{} { return tail(tr) }
		rec.Guard("panic", wit, func() {
			var all []*nm
			mk := func(r *rand.Rand) map[string]string {
				m := map[string]string{}
				for k := r.Intn(4); k > 0; k-- {
					if r.Intn(3) == 0 {
						m[ident(r)] = ""
					} else {
						m[ident(r)] = mdValue(r)
					}
				}
				return m
			}
			check := func(x *nm) bool {
				s := x.n.String()
				base, md, order, err := parseName(s)
				if err != nil || base != x.base || len(md) != len(x.md) || (len(md) > 0 && !reflect.DeepEqual(md, x.md)) {
					rec.Violation("parse", fmt.Sprintf("the name %q with %s renders as %s, which reads as %q with %s (%v)", x.base, vt.Trim(fmt.Sprintf("%q", x.md), 400), vt.Trim(fmt.Sprintf("%q", s), 400), base, vt.Trim(fmt.Sprintf("%q", md), 400), err), wit())
					return false
				}
				var ks, as []string
				for k, v := range x.md {
					if v == "" {
						as = append(as, "@"+k)
					} else {
						ks = append(ks, k)
					}
				}
				sort.Strings(ks)
				sort.Strings(as)
				if len(order) > 0 && !eqs(order, append(ks, as...)) {
					rec.Violation("order", fmt.Sprintf("%q lists %v instead of %v", s, order, append(ks, as...)), wit())
					return false
				}
				c := x.base
				for _, k := range ks {
					c += fmt.Sprintf(" %q=%q", k, x.md[k])
				}
				for _, k := range as {
					c += " " + k
				}
				if o, ok := texts[s]; ok && o != c {
					rec.Violation("collision", fmt.Sprintf("different contents %s and %s both render as %q", o, c, s), wit())
					return false
				}
				if o, ok := canon[c]; ok && o != s {
					rec.Violation("canonical", fmt.Sprintf("the same contents %s render as %q and as %q", c, o, s), wit())
					return false
				}
				texts[s], canon[c] = c, s
				rec.Case(s, len(x.md) > 0, s)
				return true
			}
			for k := 2 + r.Intn(10); k > 0; k-- {
				switch op := r.Intn(6); {
				case op == 0 || len(all) == 0:
					var m, arg map[string]string
					switch r.Intn(4) {
					case 0:
					case 1:
						arg = map[string]string{}
					default:
						m = mk(r)
						arg = map[string]string{}
						for a, b := range m {
							arg[a] = b
						}
					}
					if m == nil {
						m = map[string]string{}
					}
					x := &nm{base: ident(r), md: m}
					x.n = metric.NewName(x.base, arg)
					tr = append(tr, fmt.Sprintf("NewName(%q, %q)", x.base, arg))
					if arg != nil && r.Intn(2) == 0 {
						// the caller goes on using its map
						arg["later"] = "change"
						tr = append(tr, "caller changes its map")
					}
					all = append(all, x)
				case op == 1:
					x := all[r.Intn(len(all))]
					m := map[string]string{}
					for a, b := range x.md {
						m[a] = b
					}
					y := &nm{n: metric.NewNameFrom(x.n), base: x.base, md: m}
					tr = append(tr, "copy of "+x.n.String())
					if y.n.String() != x.n.String() {
						rec.Violation("copy", fmt.Sprintf("a copy of %q renders as %q", x.n.String(), y.n.String()), wit())
						return
					}
					all = append(all, y)
				case op == 2:
					x := all[r.Intn(len(all))]
					var l []string
					for k := r.Intn(3); k >= 0; k-- {
						l = append(l, ident(r))
					}
					x.n.AddAnnotation(l...)
					for _, a := range l {
						x.md[a] = ""
					}
					tr = append(tr, fmt.Sprintf("AddAnnotation(%q)", l))
				default:
					x := all[r.Intn(len(all))]
					m := mk(r)
					x.n.AddMetadata(m)
					for a, b := range m {
						x.md[a] = b
					}
					tr = append(tr, fmt.Sprintf("AddMetadata(%q)", m))
				}
				for _, x := range all {
					if !check(x) {
						return
					}
				}
			}
			// the same contents added in another order render the same
			x := all[r.Intn(len(all))]
			var ks []string
			for k := range x.md {
				ks = append(ks, k)
			}
			r.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
			y := metric.NewName(x.base, nil)
			for _, k := range ks {
				if x.md[k] == "" && r.Intn(2) == 0 {
					y.AddAnnotation(k)
				} else {
					y.AddMetadata(map[string]string{k: x.md[k]})
				}
			}
			if y.String() != x.n.String() {
				rec.Violation("canonical", fmt.Sprintf("the same contents render as %q and as %q", x.n.String(), y.String()), wit())
			}
		})
	}
	rec.Set("distinct_texts", len(texts))
}
