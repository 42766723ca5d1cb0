package inproc

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/rng"

	"verif/harness/vt"
)

// graph is a generated transition graph and the options that declare it.
type graph struct {
	all     []fsm.State
	initial fsm.State
	edges   map[[2]fsm.State]bool
	stop    bool
	opts    []fsm.MachineOption
	text    []string
}

func (g *graph) declare(f, to fsm.State) { g.edges[[2]fsm.State{f, to}] = true }

func newGraph(r *rand.Rand) *graph {
	g := &graph{edges: map[[2]fsm.State]bool{}, stop: r.Intn(2) == 0}
	for k := 1 + r.Intn(6); k >= 0; k-- {
		g.all = append(g.all, fsm.State([]string{"", "a", "A", " a", "a ", "state one", "state two", "ä", "x"}[r.Intn(9)]+strings.Repeat("s", r.Intn(3))))
	}
	most := 4
	if r.Intn(60) == 0 { // a large graph
		for k := 20 + r.Intn(200); k >= 0; k-- {
			g.all = append(g.all, fsm.State(fmt.Sprint("state", k)))
		}
		most = 300
	}
	g.initial = g.all[r.Intn(len(g.all))]
	st := func() fsm.State { return g.all[r.Intn(len(g.all))] }
	stopAt := r.Intn(4)
	n := r.Intn(4)
	for k := 0; k <= n || k <= stopAt; k++ {
		if g.stop && k == stopAt {
			for more := 0; more == 0 || r.Intn(8) == 0 && more < 4; more++ {
				g.opts = append(g.opts, fsm.WithStoppable())
			}
			g.text = append(g.text, "stoppable")
		}
		if k > n {
			continue
		}
		if r.Intn(2) == 0 {
			f, to := st(), st()
			g.declare(f, to)
			g.opts = append(g.opts, fsm.WithTransition(fsm.Transition{From: f, To: to}))
			g.text = append(g.text, fmt.Sprintf("%q->%q", f, to))
			continue
		}
		var l [][]fsm.Transition
		for j := r.Intn(5); j > 0; j-- {
			f := st()
			var tos []fsm.State
			for i := r.Intn(most); i > 0; i-- {
				to := st()
				tos = append(tos, to)
				g.declare(f, to)
			}
			l = append(l, fsm.T(f, tos...))
			g.text = append(g.text, fmt.Sprintf("T(%q, %q)", f, tos))
		}
		g.opts = append(g.opts, fsm.WithTransitions(l...))
	}
	return g
}

func (g *graph) pick(r *rand.Rand, from fsm.State, good bool) fsm.State {
	if good {
		var l []fsm.State
		for _, x := range g.all {
			if g.edges[[2]fsm.State{from, x}] {
				l = append(l, x)
			}
		}
		if len(l) > 0 {
			return l[r.Intn(len(l))]
		}
	}
	if r.Intn(8) == 0 {
		return fsm.State("unknown")
	}
	return g.all[r.Intn(len(g.all))]
}

func TestC34(t *testing.T) {
	rec := vt.New(t, "C34", "a case is one generated transition graph with a sequence of transition, query and reset requests; state and errors are compared with the model after each; distinct by graph and walk, non-trivial when transitions were made and refused")
	defer rec.Finish()
	var cur atomic.Value
	cur.Store("")
	watch(rec, func() string { return cur.Load().(string) })
	seeds := rec.Rng("prog")
	for i, n := 0, rec.Pick(30000, 1000000); i < n && rec.NumViolations() < 5; i++ {
		step()
		seed := seeds.Int63()
		cur.Store(fmt.Sprintf("graph %d seed %d", i, seed))
		r := rand.New(rand.NewSource(seed))
		g := newGraph(r)
		var tr []string
		wit := func() interface{} {
			return map[string]interface{}{"initial": g.initial, "options": g.text, "steps": tail(tr)}
		}
		rec.Guard("panic", wit, func() {
			m, err := fsm.NewMachine(g.initial, g.opts...)
			if err != nil {
				rec.Violation("construct", "the machine cannot be made: "+err.Error(), wit())
				return
			}
			// a second machine of the same options is independent
			other, err := fsm.NewMachine(g.initial, g.opts...)
			if err != nil {
				rec.Violation("construct", "the machine cannot be made: "+err.Error(), wit())
				return
			}
			st, stopped := g.initial, false
			made, refused, stops := 0, 0, 0
			for k := r.Intn(60); k >= 0; k-- {
				if m.State() != st {
					rec.Violation("state", fmt.Sprintf("the state is %q instead of %q", m.State(), st), wit())
					return
				}
				switch r.Intn(8) {
				case 0:
					tr = append(tr, "Reset")
					m.Reset()
					st, stopped = g.initial, false
				case 1, 2:
					a, b := g.pick(r, "", false), g.pick(r, "", false)
					if m.Allowable(a, b) != g.edges[[2]fsm.State{a, b}] {
						rec.Violation("allowable", fmt.Sprintf("Allowable(%q, %q) is %v", a, b, !g.edges[[2]fsm.State{a, b}]), wit())
						return
					}
				default:
					to := g.pick(r, st, r.Intn(3) != 0)
					ok := g.edges[[2]fsm.State{st, to}] && !(g.stop && stopped)
					err := m.Transition(to)
					tr = append(tr, fmt.Sprintf("Transition(%q) = %v", to, err))
					switch {
					case ok && err != nil:
						rec.Violation("refused", fmt.Sprintf("the declared transition from %q to %q is refused: %v", st, to, err), wit())
						return
					case !ok && err == nil:
						rec.Violation("made", fmt.Sprintf("the transition from %q to %q (declared %v, stopped %v) is not refused", st, to, g.edges[[2]fsm.State{st, to}], stopped), wit())
						return
					case ok:
						st = to
						made++
					default:
						stops += b2i(g.stop && stopped)
						stopped = true
						refused++
					}
				}
			}
			if m.State() != st {
				rec.Violation("state", fmt.Sprintf("the state is %q instead of %q", m.State(), st), wit())
				return
			}
			if other.State() != g.initial {
				rec.Violation("shared", fmt.Sprintf("another machine has moved to %q", other.State()), wit())
				return
			}
			if to := g.pick(r, g.initial, true); g.edges[[2]fsm.State{g.initial, to}] {
				if err := other.Transition(to); err != nil {
					rec.Violation("shared", fmt.Sprintf("another machine refuses a declared transition: %v", err), wit())
					return
				}
			}
			rec.Add("transitions_made", made)
			rec.Add("transitions_refused", refused)
			rec.Add("requests_while_stopped", stops)
			rec.Case(fmt.Sprint(g.initial, g.text, tr), made > 0 && refused > 0, wit())
		})
	}
}

func TestC35(t *testing.T) {
	rec := vt.New(t, "C35", "a case is one generated graph of a nonce-protected machine with a sequence of attempts using current, stale, altered, truncated, extended, missing and foreign nonces; distinct by graph and walk, non-trivial when attempts were accepted and refused for their nonce")
	defer rec.Finish()
	var cur atomic.Value
	cur.Store("")
	watch(rec, func() string { return cur.Load().(string) })
	seeds := rec.Rng("prog")
	used := map[string]bool{}
	var order []string
	for i, n := 0, rec.Pick(6000, 200000); i < n && rec.NumViolations() < 5; i++ {
		step()
		seed := seeds.Int63()
		cur.Store(fmt.Sprintf("graph %d seed %d", i, seed))
		r := rand.New(rand.NewSource(seed))
		g := newGraph(r)
		var tr []string
		wit := func() interface{} {
			return map[string]interface{}{"initial": g.initial, "options": g.text, "steps": tail(tr)}
		}
		rec.Guard("panic", wit, func() {
			m, err := fsm.NewMachineNonce(g.initial, g.opts...)
			if err != nil {
				rec.Violation("construct", "the machine cannot be made: "+err.Error(), wit())
				return
			}
			st, stopped := g.initial, false
			var mine [][]byte
			// renewed checks that there is a nonce that was never used before
			renewed := func(why string) bool {
				n := m.Nonce()
				if len(n) < 8 {
					rec.Violation("nonce", fmt.Sprintf("the nonce after %s is %x", why, n), wit())
					return false
				}
				if used[string(n)] {
					rec.Violation("reuse", fmt.Sprintf("the nonce %x after %s has been used before", n, why), wit())
					return false
				}
				used[string(n)] = true
				order = append(order, string(n))
				mine = append(mine, append([]byte{}, n...))
				if r.Intn(4) == 0 {
					// the caller's copy is the caller's
					for j := range n {
						n[j] = 0
					}
				}
				return true
			}
			if !renewed("creation") {
				return
			}
			made, wrong := 0, 0
			for k := r.Intn(40); k >= 0; k-- {
				if m.State() != st {
					rec.Violation("state", fmt.Sprintf("the state is %q instead of %q", m.State(), st), wit())
					return
				}
				current := mine[len(mine)-1]
				if !bytes.Equal(m.Nonce(), current) {
					rec.Violation("nonce", fmt.Sprintf("the nonce changes from %x to %x without an attempt", current, m.Nonce()), wit())
					return
				}
				if r.Intn(10) == 0 {
					tr = append(tr, "Reset")
					if err := m.Reset(); err != nil {
						rec.Violation("reset", "Reset fails: "+err.Error(), wit())
						return
					}
					st, stopped = g.initial, false
					if !renewed("a reset") {
						return
					}
					continue
				}
				if r.Intn(6) == 0 {
					a, b := g.pick(r, "", false), g.pick(r, "", false)
					if m.Allowable(a, b) != g.edges[[2]fsm.State{a, b}] {
						rec.Violation("allowable", fmt.Sprintf("Allowable(%q, %q) is %v", a, b, !g.edges[[2]fsm.State{a, b}]), wit())
						return
					}
				}
				nonce, kind := append([]byte{}, current...), "current"
				if r.Intn(2) == 0 {
					switch r.Intn(9) {
					case 0:
						nonce, kind = nil, "missing"
					case 1:
						nonce, kind = []byte{}, "empty"
					case 2:
						nonce, kind = append([]byte{}, mine[r.Intn(len(mine))]...), "stale"
					case 3:
						nonce[r.Intn(len(nonce))] ^= 1 << r.Intn(8)
						kind = "one bit altered"
					case 4:
						nonce, kind = nonce[:r.Intn(len(nonce))], "truncated"
					case 5:
						nonce, kind = append(nonce, byte(r.Intn(256))), "extended"
					case 6:
						nonce, kind = []byte(order[r.Intn(len(order))]), "of another machine"
					case 7:
						for j := range nonce {
							nonce[j] = 0
						}
						kind = "zero"
					case 8:
						r.Shuffle(len(nonce), func(a, b int) { nonce[a], nonce[b] = nonce[b], nonce[a] })
						kind = "shuffled"
					}
				}
				right := bytes.Equal(nonce, current)
				to := g.pick(r, st, r.Intn(4) != 0)
				declared := g.edges[[2]fsm.State{st, to}]
				ok := declared && right && !(g.stop && stopped)
				err := m.Transition(to, nonce)
				tr = append(tr, fmt.Sprintf("Transition(%q, %s nonce) = %v", to, kind, err))
				switch {
				case ok && err != nil:
					rec.Violation("refused", fmt.Sprintf("the declared transition from %q to %q with the current nonce is refused: %v", st, to, err), wit())
					return
				case !ok && err == nil:
					rec.Violation("made", fmt.Sprintf("the transition from %q to %q with the %s nonce (declared %v, stopped %v) is not refused", st, to, kind, declared, stopped), wit())
					return
				case ok:
					st = to
					made++
				default:
					stopped = true
					wrong += b2i(!right)
				}
				rec.Add("attempts_with_nonce_"+strings.ReplaceAll(kind, " ", "_"), 1)
				if !renewed("an attempt") {
					return
				}
			}
			rec.Case(fmt.Sprint(g.initial, g.text, tr), made > 0 && wrong > 0, wit())
		})
	}
	// unpredictable: not derived from the time (the clock stands still in a bubble and is the same
	// in all of them), nor from a generator that starts alike in every process
	for k := 0; k < 30 && rec.NumViolations() == 0; k++ {
		bubble(t, func(*testing.T) {
			for _, n := range someNonces(5) {
				if used[n] {
					rec.Violation("predictable", fmt.Sprintf("the nonce %x is made again at the same time", n), nil)
				}
				used[n] = true
			}
		})
		rec.Add("nonces_at_the_same_instant", 5)
	}
	for k := 0; k < 4 && rec.NumViolations() == 0; k++ {
		cmd := exec.Command(os.Args[0], "-test.run=^TestNonceProcess$")
		cmd.Env = append(os.Environ(), "VT_NONCES=1", "GODEBUG=randautoseed=0")
		out, err := cmd.Output()
		all := strings.Fields(string(out))
		if err != nil || len(all) < 50 {
			rec.Inconclusive(fmt.Sprintf("no nonces from another process: %v %s", err, vt.Trim(string(out), 300)))
			break
		}
		for _, x := range all[:50] {
			if used[x] {
				rec.Violation("predictable", fmt.Sprintf("two processes make the nonce %s", x), nil)
				break
			}
			used[x] = true
		}
		rec.Add("nonces_of_other_processes", 50)
	}
	// unpredictable: no bit or byte is preferred, and consecutive nonces are unrelated
	if len(order) > 1000 {
		ones, total := map[int]int{}, len(order)
		var counts [256]int
		nb := 0
		for i, n := range order {
			for j := 0; j < len(n); j++ {
				counts[n[j]]++
				nb++
				for b := 0; b < 8; b++ {
					ones[j*8+b] += int(n[j] >> b & 1)
				}
			}
			if i > 0 && len(order[i-1]) == len(n) && len(n) >= 16 {
				d := 0
				for j := 0; j < len(n); j++ {
					d += bits.OnesCount8(n[j] ^ order[i-1][j])
				}
				if f := float64(d) / float64(8*len(n)); f < 0.15 || f > 0.85 {
					rec.Violation("predictable", fmt.Sprintf("consecutive nonces %x and %x differ in %d bits", order[i-1], n, d), nil)
					return
				}
			}
		}
		for b, c := range ones {
			if z := (float64(c) - float64(total)/2) / math.Sqrt(float64(total)/4); math.Abs(z) > 8 {
				rec.Violation("predictable", fmt.Sprintf("bit %d is set in %d of %d nonces", b, c, total), nil)
				return
			}
		}
		e := float64(nb) / 256
		chi := 0.0
		for _, c := range counts {
			chi += (float64(c) - e) * (float64(c) - e) / e
		}
		if (chi-255)/math.Sqrt(510) > 8 {
			rec.Violation("predictable", fmt.Sprintf("bytes of nonces are unevenly distributed (chi square %.0f for 255 degrees of freedom)", chi), nil)
		}
		rec.Set("nonces", total)
		rec.Set("nonce_byte_chi_square", chi)
	}
}

// someNonces makes machines and gives the nonces they have.
func someNonces(n int) (all []string) {
	for len(all) < n {
		m, err := fsm.NewMachineNonce("a", fsm.WithTransition(fsm.Transition{From: "a", To: "b"}))
		if err != nil {
			return
		}
		all = append(all, string(m.Nonce()))
		m.Transition("b", m.Nonce())
		all = append(all, string(m.Nonce()))
		m.Reset()
		all = append(all, string(m.Nonce()))
	}
	return all[:n]
}

// TestNonceProcess is run in processes of their own.
func TestNonceProcess(t *testing.T) {
	if os.Getenv("VT_NONCES") == "" {
		t.Skip()
	}
	for _, n := range someNonces(50) {
		fmt.Printf("%x\n", n)
	}
	os.Exit(0)
}

func TestC36(t *testing.T) {
	rec := vt.New(t, "C36", "a case is one generator and parameter set sampled many times; range, mean, variance, the share of every bin of a histogram, the tails and the correlation of consecutive values are compared with the requested distribution at eight standard errors; distinct by parameters, non-trivial always")
	defer rec.Finish()
	watch(rec, func() string { return "generators" })
	r := rec.Rng("params")
	n := rec.Pick(400000, 4000000)
	type job struct {
		poisson  bool
		mean, sd float64
	}
	var jobs []job
	for i, cases := 0, rec.Pick(60, 150); i < cases; i++ {
		mean := []float64{5, 0, -3, 20 * (r.Float64() - 0.5)}[r.Intn(4)]
		jobs = append(jobs, job{false, mean, []float64{1, 0, 0.01, 10, 10 * r.Float64()}[i%5]})
	}
	for i, cases := 0, rec.Pick(40, 100); i < cases; i++ {
		jobs = append(jobs, job{true, []float64{0, 0.01, 1, 20, 100, 500, 500 * r.Float64(), 5 * r.Float64(), 50 * r.Float64(), 300}[i%10], 0})
	}
	var wg sync.WaitGroup
	queue := make(chan job)
	for k := 0; k < runtime.GOMAXPROCS(0); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range queue {
				if rec.NumViolations() >= 5 {
					continue
				}
				desc := fmt.Sprintf("log-normal mean %v sd %v", j.mean, j.sd)
				if j.poisson {
					desc = fmt.Sprintf("poisson rate %v", j.mean)
				}
				rec.Guard("panic", func() interface{} { return desc }, func() {
					if j.poisson {
						poissonSample(rec, desc, j.mean, n)
					} else {
						logNormalSample(rec, desc, j.mean, j.sd, n)
					}
				})
			}
		}()
	}
	for _, j := range jobs {
		queue <- j
	}
	close(queue)
	wg.Wait()
	// the far tails of all log-normal samples together
	if total := tails[4].Load(); total > 0 && rec.NumViolations() == 0 {
		cdf := func(z float64) float64 { return 0.5 * math.Erfc(-z/math.Sqrt2) }
		for k, z := range tailBounds {
			e := cdf(-z) * float64(total)
			if got := float64(tails[k].Load()); math.Abs(got-e) > 8*math.Sqrt(e)+20 {
				rec.Violation("lognormal-tail", fmt.Sprintf("%v of all %d log-normal values are beyond %v standard deviations on one side, expected are %.1f", got, total, z, e), nil)
			}
		}
		rec.Set("values_in_far_tails", int(tails[0].Load()+tails[1].Load()))
	}
}

// tails counts log-normal values below -4, above 4, below -4.5, above 4.5 standard deviations, and all.
var (
	tails      [5]atomic.Int64
	tailBounds = [4]float64{4, 4, 4.5, 4.5}
)

// share reports a share of the values that is more than eight standard errors off, if enough are expected for that.
func share(rec *vt.Rec, key, desc, what string, got int, p float64, n int) {
	e := p * float64(n)
	if e < 200 || float64(n)-e < 200 {
		// too few are expected: there must not be many more
		if e < 200 && float64(got) > 3*e+100 || e >= 200 && float64(n-got) > 3*(float64(n)-e)+100 {
			rec.Violation(key, fmt.Sprintf("%s: %d of %d values %s, expected are %.1f", desc, got, n, what, e), nil)
		}
		return
	}
	if math.Abs(float64(got)-e) > 8*math.Sqrt(e*(1-p)) {
		rec.Violation(key, fmt.Sprintf("%s: %d of %d values %s, expected are %.1f", desc, got, n, what, e), nil)
	}
	rec.Add("shares_compared", 1)
}

func logNormalSample(rec *vt.Rec, desc string, mean, sd float64, n int) {
	g := rng.NewLogNormalRNG(mean, sd)
	s, q, corr, prev := 0.0, 0.0, 0.0, 0.0
	var bins [80]int // of 0.1 standard deviations from -4 to 4
	low, high := 0, 0
	var far [2]int
	seen := map[float64]bool{}
	last := math.NaN()
	repeats := 0
	for j := 0; j < n; j++ {
		v := g.Rand()
		if j%1000 == 0 {
			step()
		}
		if !(v > 0) || math.IsInf(v, 0) {
			rec.Violation("lognormal-range", fmt.Sprintf("%s yields %v", desc, v), nil)
			return
		}
		x := math.Log(v) - mean
		s += x
		q += x * x
		corr += x * prev
		prev = x
		if sd > 0.001 {
			switch z := x / sd; {
			case z < -4:
				low++
				if z < -4.5 {
					far[0]++
				}
			case z >= 4:
				high++
				if z > 4.5 {
					far[1]++
				}
			default:
				bins[int(math.Min(79, math.Floor((z+4)*10)))]++
			}
		}
		if j < 1000 {
			seen[v] = true
		}
		if v == last {
			repeats++
		}
		last = v
	}
	nf := float64(n)
	m := s / nf
	sv := math.Sqrt(math.Max(0, q/nf-m*m))
	if math.Abs(m) > 8*sd/math.Sqrt(nf)+1e-9 {
		rec.Violation("lognormal-mean", fmt.Sprintf("%s: the logarithms have mean %v", desc, mean+m), nil)
	}
	if math.Abs(sv-sd) > 8*sd/math.Sqrt(2*nf)+1e-9 {
		rec.Violation("lognormal-sd", fmt.Sprintf("%s: the logarithms have standard deviation %v", desc, sv), nil)
	}
	if sd > 0.001 {
		for k, c := range []int{low, high, far[0], far[1], n} {
			tails[k].Add(int64(c))
		}
		if c := corr / nf / (sd * sd); math.Abs(c) > 8/math.Sqrt(nf) {
			rec.Violation("lognormal-correlation", fmt.Sprintf("%s: consecutive values have correlation %v", desc, c), nil)
		}
		cdf := func(z float64) float64 { return 0.5 * math.Erfc(-z/math.Sqrt2) }
		for b, got := range bins {
			z := float64(b)/10 - 4
			share(rec, "lognormal-shape", desc, fmt.Sprintf("are between %.1f and %.1f standard deviations from the mean", z, z+0.1), got, cdf(z+0.1)-cdf(z), n)
		}
		share(rec, "lognormal-tail", desc, "are more than 4 standard deviations below the mean", low, cdf(-4), n)
		share(rec, "lognormal-tail", desc, "are more than 4 standard deviations above the mean", high, cdf(-4), n)
		if len(seen) < 990 || repeats > n/1000 {
			rec.Violation("lognormal-repeats", fmt.Sprintf("%s: only %d different values among 1000", desc, len(seen)), nil)
		}
	}
	rec.Add("values", n)
	rec.Case(desc, true, map[string]interface{}{"generator": desc, "mean": mean + m, "sd": sv})
}

func poissonSample(rec *vt.Rec, desc string, l float64, n int) {
	g := rng.NewPoissonRNG(l)
	s, q, corr, prev := 0.0, 0.0, 0.0, 0.0
	counts := map[int]int{}
	for j := 0; j < n; j++ {
		v := g.Rand()
		if j%1000 == 0 {
			step()
		}
		if !(v >= 0) || v != math.Trunc(v) || math.IsInf(v, 0) {
			rec.Violation("poisson-range", fmt.Sprintf("%s yields %v", desc, v), nil)
			return
		}
		x := v - l
		s += x
		q += x * x
		corr += x * prev
		prev = x
		counts[int(v)]++
	}
	nf := float64(n)
	mean, va := s/nf, q/nf
	if math.Abs(mean) > 8*math.Sqrt(l/nf)+1e-9 {
		rec.Violation("poisson-mean", fmt.Sprintf("%s: the mean is %v", desc, l+mean), nil)
	}
	if math.Abs(va-l) > 8*math.Sqrt((l+2*l*l)/nf)+1e-9 {
		rec.Violation("poisson-variance", fmt.Sprintf("%s: the variance is %v", desc, va), nil)
	}
	if c := corr / nf; l*nf > 1000 && math.Abs(c) > 8*math.Sqrt(l*l+l/50)/math.Sqrt(nf) {
		rec.Violation("poisson-correlation", fmt.Sprintf("%s: consecutive values have covariance %v", desc, c), nil)
	}
	for k := 0; k < 2000; k++ {
		p := 0.0
		if l > 0 {
			lg, _ := math.Lgamma(float64(k) + 1)
			p = math.Exp(float64(k)*math.Log(l) - l - lg)
		} else if k == 0 {
			p = 1
		}
		if p*nf >= 200 || counts[k] > 0 {
			share(rec, "poisson-shape", desc, fmt.Sprintf("are %d", k), counts[k], p, n)
		}
	}
	rec.Add("values", n)
	rec.Case(desc, true, map[string]interface{}{"generator": desc, "mean": l + mean, "variance": va})
}
