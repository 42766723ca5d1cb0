package inproc

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/stat"

	"verif/harness/vt"
)

var states = []fsm.State{stat.Reset, stat.UCLInitial, stat.TestingUCL, stat.UCLTrip, stat.LCLInitial, stat.TestingLCL, stat.LCLTrip}

var legal = map[fsm.State][]fsm.State{
	stat.Reset:      {stat.UCLInitial, stat.LCLInitial},
	stat.UCLInitial: {stat.TestingUCL, stat.Reset},
	stat.TestingUCL: {stat.UCLTrip, stat.Reset},
	stat.UCLTrip:    {stat.LCLInitial, stat.Reset},
	stat.LCLInitial: {stat.TestingLCL, stat.Reset},
	stat.TestingLCL: {stat.LCLTrip, stat.Reset},
	stat.LCLTrip:    {stat.Reset},
}

func isLegal(a, b fsm.State) bool {
	for _, s := range legal[a] {
		if s == b {
			return true
		}
	}
	return false
}

// statCfg describes a statistic so that several equal ones can be made.
type statCfg struct {
	poisson bool
	lambda  float64
	n       int
	k       stat.K
}

func (c statCfg) String() string {
	return fmt.Sprintf("poisson=%v lambda=%v baseline=%d k=%T(%v)", c.poisson, c.lambda, c.n, c.k, c.k)
}

func (c statCfg) make(name string) *stat.TestStatistic {
	s, err := stat.NewEWMAStatistic(name, c.lambda, c.pdf())
	if err != nil {
		panic("harness: " + err.Error())
	}
	return s
}

func (c statCfg) pdf() stat.PDF {
	if c.poisson {
		return stat.NewPoisson(c.n, 0, nil, c.k)
	}
	return stat.NewLogNormal(c.n, c.k)
}

func (c statCfg) transform(o float64) float64 {
	if c.poisson {
		return o
	}
	return math.Log(o)
}

func bad(x float64) bool { return math.IsNaN(x) || math.IsInf(x, 0) }

func randCfg(r *rand.Rand) statCfg {
	c := statCfg{poisson: r.Intn(2) == 0}
	c.lambda = []float64{0.25, 1, 0.05 + 0.95*r.Float64(), 0.5, 0.01 + 0.1*r.Float64()}[r.Intn(5)]
	c.n = []int{2, 3, 5, 50, 2 + r.Intn(30), 1 + r.Intn(100)}[r.Intn(6)]
	if r.Intn(25) == 0 {
		c.n = []int{150, 300, 1000, 100 + r.Intn(500)}[r.Intn(4)]
	}
	if !c.poisson && c.n < 2 {
		c.n = 2
	}
	switch r.Intn(4) {
	case 0:
		c.k = stat.KErrorRate([]float64{0.05, 0.01, 0.1, 0.001 + 0.3*r.Float64()}[r.Intn(4)])
	default:
		c.k = stat.KFixed(0.2 + 7*r.Float64())
	}
	return c
}

// source draws observations; its level can be shifted during a run.
type source struct {
	r          *rand.Rand
	poisson    bool
	mu, sd     float64
	shift      float64
	transition int
	flat       bool
	level      float64
}

func newSource(r *rand.Rand, poisson bool) *source {
	s := &source{r: r, poisson: poisson}
	s.flat = r.Intn(8) == 0
	if poisson {
		s.mu = []float64{2, 20, 1000, 0.5 + 100*r.Float64()}[r.Intn(4)]
		s.sd = math.Sqrt(s.mu)
	} else {
		s.mu = []float64{5, 0, -8, 3, 20 * (r.Float64() - 0.5)}[r.Intn(5)]
		s.sd = []float64{1, 0.3, 0.05 + 2*r.Float64()}[r.Intn(3)]
		if r.Intn(12) == 0 {
			// hardly any spread, around 1
			s.mu, s.sd = 0, []float64{1e-3, 1e-5, 3e-6, 1e-10}[r.Intn(4)]
		}
	}
	return s
}

func (s *source) next() float64 {
	if s.r.Intn(40) == 0 { // the level changes: up, down or back to normal
		s.shift = []float64{0, 0, 1, -1, 3, -3, 8, -8, 6 * s.r.NormFloat64()}[s.r.Intn(9)]
	}
	x := s.mu + s.sd*(s.r.NormFloat64()+s.shift)
	if s.flat { // a coarse clock: the same value most of the time
		if s.level == 0 || s.r.Intn(70) == 0 {
			s.level = x
		}
		x = s.level
	}
	if s.poisson {
		x = math.Max(0, math.Round(x))
		if s.r.Intn(8) == 0 {
			x += s.r.Float64() // counts averaged over a window need not be whole
		}
		return x
	}
	return math.Exp(x)
}

func invalid(r *rand.Rand, poisson bool) float64 {
	l := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}
	if !poisson {
		l = append(l, 0, math.Copysign(0, -1), -1, -1e-300, -math.MaxFloat64, -r.Float64()*100)
	}
	return l[r.Intn(len(l))]
}

// refStat is the specification of an EWMA statistic.
type refStat struct {
	cfg          statCfg
	k            float64
	st           fsm.State
	seen         []float64 // transformed observations since the series was last emptied
	value, limit float64
	set          bool // value and limit are defined
	scale        float64
}

func (m *refStat) baseline(dir float64) (value, limit float64, ok, sure bool) {
	n := m.cfg.n
	if len(m.seen) < n {
		return 0, 0, false, true
	}
	b := m.seen[len(m.seen)-n:]
	mean, big := 0.0, 0.0
	for _, x := range b {
		mean += x
		big = math.Max(big, math.Abs(x))
	}
	mean /= float64(n)
	v := mean
	if !m.cfg.poisson {
		v = 0
		for _, x := range b {
			v += (x - mean) * (x - mean)
		}
		v /= float64(n - 1)
	}
	if !m.cfg.poisson && n > 1 {
		// constant observations have no variance, exactly
		constant := true
		for _, x := range b {
			constant = constant && x == b[0]
		}
		if constant {
			return mean, 0, false, true
		}
	}
	if math.Abs(v) <= 1e-10*(big*big) || bad(v) {
		return mean, 0, v > 0, false
	}
	m.scale = big
	sd := math.Sqrt(math.Max(0, v) * m.cfg.lambda / (2 - m.cfg.lambda))
	return mean, mean + dir*m.k*sd, v > 0, true
}

// record returns false when rounding decides the outcome.
func (m *refStat) record(x float64) bool {
	m.seen = append(m.seen, x)
	switch m.st {
	case stat.TestingUCL, stat.TestingLCL:
		m.value = m.cfg.lambda*x + (1-m.cfg.lambda)*m.value
		m.scale = math.Max(m.scale, math.Abs(x))
		if math.Abs(m.value-m.limit) <= 1e-8*math.Max(m.scale, math.Abs(m.limit)) {
			return false
		}
		if m.st == stat.TestingUCL && m.value >= m.limit {
			m.st = stat.UCLTrip
		} else if m.st == stat.TestingLCL && m.value <= m.limit {
			m.st = stat.LCLTrip
		}
	case stat.Reset, stat.UCLInitial, stat.LCLInitial:
		if m.st == stat.Reset {
			m.st = stat.UCLInitial
			m.seen = []float64{x}
			m.set = false
		}
		dir, next := 1.0, stat.TestingUCL
		if m.st == stat.LCLInitial {
			dir, next = -1, stat.TestingLCL
		}
		mean, limit, ok, sure := m.baseline(dir)
		if !sure {
			return false
		}
		if ok {
			m.st, m.value, m.limit, m.set = next, mean, limit, true
		}
	}
	return true
}

func near(a, b, scale float64) bool {
	return math.Abs(a-b) <= 1e-7*math.Max(scale, math.Max(math.Abs(a), math.Abs(b)))
}

func TestC29(t *testing.T) {
	rec := vt.New(t, "C29", "a case is one generated history of a statistic: observations with level shifts, and state changes; state, value, limit and alarm are compared with the formulas after every step; distinct by configuration and visited states, non-trivial when it left the baseline phase")
	defer rec.Finish()
	var cur atomic.Value
	cur.Store("")
	watch(rec, func() string { return cur.Load().(string) })
	rng := rec.Rng("prog")
	for i, n := 0, rec.Pick(6000, 250000); i < n && rec.NumViolations() < 5; i++ {
		step()
		seed := rng.Int63()
		cur.Store(fmt.Sprintf("history %d seed %d", i, seed))
		ewmaHistory(rec, rand.New(rand.NewSource(seed)))
	}
}

func ewmaHistory(rec *vt.Rec, r *rand.Rand) {
	c := randCfg(r)
	var tr []string
	wit := func() interface{} {
		return map[string]interface{}{"statistic": c.String(), "last steps": tail(tr)}
	}
	rec.Guard("panic", wit, func() {
		pdf := c.pdf()
		s, err := stat.NewEWMAStatistic("s", c.lambda, pdf)
		if err != nil {
			rec.Violation("construct", "a statistic cannot be made: "+err.Error(), wit())
			return
		}
		k, err := pdf.K()
		if err != nil {
			rec.Violation("k", "no k: "+err.Error(), wit())
			return
		}
		if f, ok := c.k.(stat.KFixed); ok && float64(f) != k {
			rec.Violation("k", fmt.Sprintf("a fixed k of %v is used as %v", float64(f), k), wit())
			return
		}
		m := &refStat{cfg: c, k: k, st: stat.UCLInitial}
		src := newSource(r, c.poisson)
		visited := string(m.st)
		alarms := 0
		cmp := func() bool {
			st := s.State()
			if st != m.st {
				rec.Violation("state", fmt.Sprintf("the state is %s instead of %s (value %v limit %v)", st, m.st, m.value, m.limit), wit())
				return false
			}
			if a := m.st == stat.UCLTrip || m.st == stat.LCLTrip; s.HasAlarmed() != a {
				rec.Violation("alarm", fmt.Sprintf("HasAlarmed is %v in state %s", !a, m.st), wit())
				return false
			}
			if m.set {
				if !near(s.Limit(), m.limit, m.scale) {
					rec.Violation("limit", fmt.Sprintf("the limit is %v instead of %v in state %s", s.Limit(), m.limit, m.st), wit())
					return false
				}
				if !near(s.Value(), m.value, m.scale) {
					rec.Violation("value", fmt.Sprintf("the value is %v instead of %v in state %s", s.Value(), m.value, m.st), wit())
					return false
				}
			}
			return true
		}
		if !cmp() {
			return
		}
		for i, steps := 0, 2*c.n+20+r.Intn(300); i < steps; i++ {
			if r.Intn(25) == 0 || (alarms > 0 && s.HasAlarmed() && r.Intn(6) == 0) {
				// a sensible request: do not skip the baseline phase
				var to []fsm.State
				for _, x := range legal[m.st] {
					if x != stat.TestingUCL && x != stat.TestingLCL && (x != stat.Reset || r.Intn(3) == 0) {
						to = append(to, x)
					}
				}
				if len(to) > 0 {
					x := to[r.Intn(len(to))]
					reset := r.Intn(2) == 0 || m.st == stat.Reset
					tr = append(tr, fmt.Sprintf("Transition(%s, %v)", x, reset))
					if err := s.Transition(x, reset); err != nil {
						rec.Violation("transition", fmt.Sprintf("the state change from %s to %s is refused: %v", m.st, x, err), wit())
						return
					}
					m.st = x
					if reset {
						m.seen = nil
					}
					if x == stat.Reset {
						m.set = false
					}
					visited += ">" + string(x)
					if !cmp() {
						return
					}
				}
				continue
			}
			o := src.next()
			x := c.transform(o)
			if bad(x) {
				continue
			}
			// sometimes land next to the limit
			if m.set && r.Intn(10) == 0 && (m.st == stat.TestingUCL || m.st == stat.TestingLCL) {
				d := 1e-4 * math.Max(m.scale, math.Abs(m.limit)) * (2*r.Float64() - 1)
				x = (m.limit + d - (1-c.lambda)*m.value) / c.lambda
				o = x
				if !c.poisson {
					o = math.Exp(x)
				}
				x = c.transform(o)
				if bad(x) || c.poisson && x < 0 {
					continue
				}
				rec.Add("observations_next_to_the_limit", 1)
			}
			before := m.st
			tr = append(tr, fmt.Sprintf("Record(%v)", o))
			if err := s.Record(o); err != nil {
				rec.Violation("record", fmt.Sprintf("the valid observation %v is refused in state %s: %v", o, before, err), wit())
				return
			}
			rec.Add("observations", 1)
			if !m.record(x) {
				rec.Add("histories_cut_short_as_rounding_decides", 1)
				return
			}
			if m.st != before {
				visited += ">" + string(m.st)
				if m.st == stat.UCLTrip || m.st == stat.LCLTrip {
					alarms++
					rec.Add("alarms", 1)
				}
			}
			if !cmp() {
				return
			}
		}
		s.Done()
		rec.Add("histories_with_alarm", b2i(alarms > 0))
		rec.Case(c.String()+visited, strings.Contains(visited, "testing"), map[string]interface{}{"statistic": c.String(), "states": visited})
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type snap struct {
	st   fsm.State
	v, l float64
	al   bool
}

func snapOf(s *stat.TestStatistic) snap { return snap{s.State(), s.Value(), s.Limit(), s.HasAlarmed()} }

func (a snap) eq(b snap) bool {
	return a.st == b.st && a.al == b.al && (a.v == b.v || a.v != a.v && b.v != b.v) && (a.l == b.l || a.l != a.l && b.l != b.l)
}

func TestC30(t *testing.T) {
	rec := vt.New(t, "C30", "a case is one history run twice, with and without interspersed invalid observations and refused state changes; both must agree exactly after every step, and after a reset with a new statistic; distinct by configuration and visited states, non-trivial when something was inserted")
	defer rec.Finish()
	var cur atomic.Value
	cur.Store("")
	watch(rec, func() string { return cur.Load().(string) })
	rng := rec.Rng("prog")
	for i, n := 0, rec.Pick(4000, 200000); i < n && rec.NumViolations() < 5; i++ {
		step()
		seed := rng.Int63()
		cur.Store(fmt.Sprintf("history %d seed %d", i, seed))
		r := rand.New(rand.NewSource(seed))
		c := randCfg(r)
		var tr []string
		wit := func() interface{} {
			return map[string]interface{}{"statistic": c.String(), "last steps": tail(tr)}
		}
		rec.Guard("panic", wit, func() {
			a, b := c.make("s"), c.make("s")
			defer a.Done()
			defer b.Done()
			var fresh *stat.TestStatistic
			src := newSource(r, c.poisson)
			inserted := 0
			visited := ""
			for k, steps := 0, 2*c.n+20+r.Intn(200); k < steps; k++ {
				for r.Intn(5) == 0 {
					inserted++
					before := snapOf(a)
					if r.Intn(2) == 0 {
						o := invalid(r, c.poisson)
						tr = append(tr, fmt.Sprintf("Record(%v) invalid", o))
						rec.Add("invalid_observations", 1)
						if err := a.Record(o); err == nil {
							rec.Violation("accepted", fmt.Sprintf("the invalid observation %v is accepted in state %s", o, before.st), wit())
							return
						}
					} else {
						to := states[r.Intn(len(states))]
						if r.Intn(20) == 0 {
							to = fsm.State("nonsense")
						}
						if isLegal(before.st, to) {
							continue
						}
						reset := r.Intn(2) == 0
						tr = append(tr, fmt.Sprintf("Transition(%s, %v) not allowed", to, reset))
						rec.Add("refused_transitions", 1)
						if err := a.Transition(to, reset); err == nil {
							rec.Violation("allowed", fmt.Sprintf("the state change from %s to %s is not refused", before.st, to), wit())
							return
						}
					}
					if after := snapOf(a); !before.eq(after) {
						rec.Violation("touched", fmt.Sprintf("%s changes the statistic from %v to %v", tr[len(tr)-1], before, after), wit())
						return
					}
				}
				if r.Intn(30) == 0 || a.HasAlarmed() && r.Intn(8) == 0 {
					l := legal[a.State()]
					to := l[r.Intn(len(l))]
					reset := r.Intn(2) == 0
					tr = append(tr, fmt.Sprintf("Transition(%s, %v)", to, reset))
					e1, e2 := a.Transition(to, reset), b.Transition(to, reset)
					if e1 != nil || e2 != nil {
						rec.Violation("refused", fmt.Sprintf("the legal state change to %s is refused: %v %v", to, e1, e2), wit())
						return
					}
					if fresh != nil {
						fresh.Done()
						fresh = nil
					}
					if to == stat.Reset {
						fresh = c.make("s")
						rec.Add("resets", 1)
					}
				} else {
					o := src.next()
					if bad(c.transform(o)) {
						continue
					}
					tr = append(tr, fmt.Sprintf("Record(%v)", o))
					st := a.State()
					if err := a.Record(o); err != nil {
						rec.Violation("valid", fmt.Sprintf("the valid observation %v is refused in state %s: %v", o, st, err), wit())
						return
					}
					b.Record(o)
					rec.Add("observations", 1)
					if fresh != nil {
						if err := fresh.Record(o); err != nil {
							rec.Violation("valid", fmt.Sprintf("the valid observation %v is refused by a new statistic: %v", o, err), wit())
							return
						}
						if x, y := snapOf(a), snapOf(fresh); x.st != y.st || (y.st != stat.UCLInitial && !x.eq(y)) {
							rec.Violation("reset", fmt.Sprintf("after a reset the statistic is %v but a new one is %v", x, y), wit())
							return
						}
					}
				}
				if x, y := snapOf(a), snapOf(b); !x.eq(y) {
					rec.Violation("effect", fmt.Sprintf("with ignored inputs the statistic is %v, without %v", x, y), wit())
					return
				}
				if s := string(a.State()); !strings.HasSuffix(visited, ">"+s) {
					visited += ">" + s
				}
			}
			if fresh != nil {
				fresh.Done()
			}
			rec.Case(c.String()+visited, inserted > 0, map[string]interface{}{"statistic": c.String(), "states": visited, "inserted": inserted})
		})
	}
}

func TestC31(t *testing.T) {
	rec := vt.New(t, "C31", "a case is one observation sequence (with state changes) fed to two log-normal statistics, one of them multiplied by a constant; their states must agree after every step; distinct by configuration, scale and visited states, non-trivial when testing was reached")
	defer rec.Finish()
	var cur atomic.Value
	cur.Store("")
	watch(rec, func() string { return cur.Load().(string) })
	rng := rec.Rng("prog")
	for i, n := 0, rec.Pick(4000, 200000); i < n && rec.NumViolations() < 5; i++ {
		step()
		seed := rng.Int63()
		cur.Store(fmt.Sprintf("history %d seed %d", i, seed))
		r := rand.New(rand.NewSource(seed))
		c := randCfg(r)
		c.poisson = false
		if c.n < 2 {
			c.n = 2
		}
		scale := []float64{1e-3, 1e3, 1e-6, 1e-9, 1e9, 60, 1e30, 1e-30, math.Exp(40 * (r.Float64() - 0.5))}[r.Intn(9)]
		var tr []string
		wit := func() interface{} {
			return map[string]interface{}{"statistic": c.String(), "scale": scale, "last steps": tail(tr)}
		}
		rec.Guard("panic", wit, func() {
			composite := r.Intn(4) == 0
			var a, b *stat.TestStatistic
			var ta, tb *stat.Test
			if composite {
				// the default test, with its two statistics
				var err error
				ta, err = stat.NewLogNormalTest(metric.NewName("a", nil))
				if err == nil {
					tb, err = stat.NewLogNormalTest(metric.NewName("b", nil))
				}
				if err != nil {
					rec.Violation("construct", "the default test cannot be made: "+err.Error(), wit())
					return
				}
				c.n = 50
			} else {
				a, b = c.make("a"), c.make("b")
			}
			sts := func() (string, string) {
				if composite {
					return fmt.Sprint(ta.State()), fmt.Sprint(tb.State())
				}
				return string(a.State()), string(b.State())
			}
			src := newSource(r, false)
			if r.Intn(5) == 0 {
				// hardly any spread
				src.sd = []float64{1e-3, 1e-5, 1e-6}[r.Intn(3)]
			}
			visited := ""
			sure := true
			big := 0.0
			for k, steps := 0, 3*c.n+20+r.Intn(200); k < steps && sure; k++ {
				if r.Intn(30) == 0 {
					to := states[r.Intn(len(states))]
					reset := r.Intn(2) == 0
					tr = append(tr, fmt.Sprintf("Transition(%s, %v)", to, reset))
					if (to == stat.TestingUCL || to == stat.TestingLCL) && r.Intn(4) != 0 {
						continue
					}
					if to == stat.TestingUCL || to == stat.TestingLCL {
						continue // would test against a limit from before
					}
					if composite {
						ta.Transition(to, reset)
						tb.Transition(to, reset)
					} else {
						a.Transition(to, reset)
						b.Transition(to, reset)
					}
				} else {
					o := src.next()
					if bad(math.Log(o)) || bad(math.Log(o*scale)) || o*scale < 1e-300 || o < 1e-300 {
						continue
					}
					big = math.Max(big, math.Max(math.Abs(math.Log(o)), math.Abs(math.Log(o*scale))))
					tr = append(tr, fmt.Sprintf("Record(%v)", o))
					var e1, e2 error
					if composite {
						e1, e2 = ta.Record(o), tb.Record(o*scale)
					} else {
						e1, e2 = a.Record(o), b.Record(o*scale)
					}
					rec.Add("observations", 1)
					if (e1 == nil) != (e2 == nil) {
						rec.Violation("error", fmt.Sprintf("recording %v gives %v, recording it scaled gives %v", o, e1, e2), wit())
						return
					}
					if composite {
						for _, m := range []map[string]float64{ta.Metric(), tb.Metric()} {
							for n, l := range m {
								if strings.Contains(n, "value=limit") {
									v := m[strings.Replace(n, "value=limit", "value=current", 1)]
									if v != l && math.Abs(v-l) < 1e-10*math.Max(1, big) {
										sure = false
									}
								}
							}
						}
					} else {
						for _, x := range []*stat.TestStatistic{a, b} {
							if x.Value() != x.Limit() && math.Abs(x.Value()-x.Limit()) < 1e-10*math.Max(1, big) {
								sure = false
							}
						}
					}
				}
				s1, s2 := sts()
				if s1 != s2 && sure {
					rec.Violation("scale", fmt.Sprintf("the state is %s, but %s when measured in another unit", s1, s2), wit())
					return
				}
				if !strings.HasSuffix(visited, ">"+s1) {
					visited += ">" + s1
				}
			}
			if composite {
				ta.Done()
				tb.Done()
			}
			if strings.Contains(visited, "trip") {
				rec.Add("histories_with_alarm", 1)
			}
			rec.Case(fmt.Sprint(c, scale, visited), strings.Contains(visited, "testing"), map[string]interface{}{"statistic": c.String(), "scale": scale, "states": visited})
		})
	}
}

// poissonTable draws Poisson numbers by inversion.
type poissonTable struct{ cum []float64 }

func newPoissonTable(l float64) *poissonTable {
	t := &poissonTable{}
	p, c := math.Exp(-l), 0.0
	for k := 0; c < 1-1e-15 && k < int(l*10+100); k++ {
		c += p
		t.cum = append(t.cum, c)
		p *= l / float64(k+1)
	}
	return t
}

func (t *poissonTable) draw(r *rand.Rand) float64 {
	u := r.Float64()
	lo, hi := 0, len(t.cum)-1
	for lo < hi {
		m := (lo + hi) / 2
		if t.cum[m] < u {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return float64(lo)
}

func TestC32(t *testing.T) {
	rec := vt.New(t, "C32", "a case is one simulated run of a statistic configured for an error rate; distinct by seed and outcome, non-trivial when it reached testing")
	defer rec.Finish()
	watch(rec, func() string { return "simulations" })
	mkLN := func(rate float64) *stat.TestStatistic {
		s, err := stat.NewEWMAStatistic("s", 0.25, stat.NewLogNormal(50, stat.KErrorRate(rate)))
		if err != nil {
			panic("harness: " + err.Error())
		}
		return s
	}
	mkP := func(rate float64) *stat.TestStatistic {
		s, err := stat.NewEWMAStatistic("s", 0.25, stat.NewPoisson(50, 0, nil, stat.KErrorRate(rate)))
		if err != nil {
			panic("harness: " + err.Error())
		}
		return s
	}
	pt := newPoissonTable(20)
	kinds := []struct {
		name string
		make func() *stat.TestStatistic
		draw func(r *rand.Rand, shift float64) float64
		rate float64
	}{
		{rate: 0.05, name: "default log-normal", make: stat.DefaultLogNormalEWMA, draw: func(r *rand.Rand, s float64) float64 { return math.Exp(5 + r.NormFloat64() + s) }},
		{rate: 0.05, name: "log-normal", make: func() *stat.TestStatistic { return mkLN(0.05) }, draw: func(r *rand.Rand, s float64) float64 { return math.Exp(-2 + 0.5*(r.NormFloat64()+s)) }},
		{rate: 0.05, name: "poisson", make: func() *stat.TestStatistic { return mkP(0.05) }, draw: func(r *rand.Rand, s float64) float64 {
			if s == 0 {
				return pt.draw(r)
			}
			return shifted(s).draw(r)
		}},
		{rate: 0.01, name: "poisson at one percent", make: func() *stat.TestStatistic { return mkP(0.01) }, draw: func(r *rand.Rand, s float64) float64 { return pt.draw(r) }},
		{rate: 0.01, name: "log-normal at one percent", make: func() *stat.TestStatistic { return mkLN(0.01) }, draw: func(r *rand.Rand, s float64) float64 { return math.Exp(5 + r.NormFloat64()) }},
	}
	const run = 100000
	for _, k := range kinds {
		runs := rec.Pick(1500, 10000)
		var alarms int64
		base := rec.Rng("stationary " + k.name)
		seeds := make([]int64, runs)
		for i := range seeds {
			seeds[i] = base.Int63()
		}
		var obs int64
		vt.Pool(runtime.NumCPU(), runs, func(i int) {
			r := rand.New(rand.NewSource(seeds[i]))
			s := k.make()
			defer s.Done()
			n := 0
			for ; n < run; n++ {
				if n%1000 == 0 {
					step()
				}
				if err := s.Record(k.draw(r, 0)); err != nil {
					rec.Violation("record", fmt.Sprintf("%s: observation refused: %v", k.name, err), nil)
					return
				}
				if n == 100 && s.State() == stat.UCLInitial {
					rec.Violation("stuck", fmt.Sprintf("%s: still gathering a baseline of 50 after 100 observations", k.name), map[string]interface{}{"seed": seeds[i]})
					return
				}
				if s.HasAlarmed() {
					atomic.AddInt64(&alarms, 1)
					break
				}
			}
			atomic.AddInt64(&obs, int64(n))
			rec.Case(fmt.Sprint(k.name, seeds[i], n), true, map[string]interface{}{"statistic": k.name, "observations until alarm or end": n})
		})
		f := float64(alarms) / float64(runs)
		rec.Set("false alarm rate "+k.name, f)
		rec.Add("observations", int(obs))
		if f < k.rate/3 || f > 3*k.rate {
			rec.Violation("rate:"+k.name, fmt.Sprintf("%s: %.4f of %d stationary runs of %d observations raise an alarm, for a configured rate of %v", k.name, f, runs, run, k.rate), nil)
		}
		if k.rate != 0.05 {
			continue
		}
		// sustained shifts of the mean, in standard deviations.  The bounds are several times what is usual.
		for _, sh := range []struct {
			sd    float64
			max   int
			share float64
		}{{1, 20000, 0.9}, {1.5, 10000, 1}, {2, 1000, 1}, {3, 100, 1}, {5, 30, 1}} {
			var worst, missed int64
			d := rec.Pick(200, 2000)
			b := rec.Rng(fmt.Sprint("shift", k.name, sh.sd))
			ss := make([]int64, d)
			for i := range ss {
				ss[i] = b.Int63()
			}
			vt.Pool(runtime.NumCPU(), d, func(i int) {
				r := rand.New(rand.NewSource(ss[i]))
				s := k.make()
				defer s.Done()
				for n := 0; n < 100; n++ {
					s.Record(k.draw(r, 0))
				}
				n := 0
				for ; n < sh.max && !s.HasAlarmed(); n++ {
					s.Record(k.draw(r, sh.sd))
				}
				step()
				for {
					w := atomic.LoadInt64(&worst)
					if int64(n) <= w || atomic.CompareAndSwapInt64(&worst, w, int64(n)) {
						break
					}
				}
				rec.Case(fmt.Sprint(k.name, ss[i], n), true, nil)
				if !s.HasAlarmed() {
					atomic.AddInt64(&missed, 1)
				}
			})
			rec.Set(fmt.Sprintf("longest detection %s shift %v", k.name, sh.sd), worst)
			rec.Set(fmt.Sprintf("missed %s shift %v", k.name, sh.sd), missed)
			if float64(d-int(missed)) < sh.share*float64(d) {
				rec.Violation("missed:"+k.name, fmt.Sprintf("%s: an upward shift by %v standard deviations is not detected within %d observations in %d of %d runs", k.name, sh.sd, sh.max, missed, d), nil)
			}
		}
	}
	// smaller configured error rates give wider limits
	r := rec.Rng("rates")
	for i, n := 0, rec.Pick(2000, 50000); i < n; i++ {
		step()
		a := math.Exp(-15 * r.Float64())
		b := a * (0.3 + 0.69*r.Float64())
		if i == 0 {
			a, b = 0.05, 0.01
		}
		for _, p := range []bool{false, true} {
			c1, c2 := statCfg{p, 0.25, 50, stat.KErrorRate(a)}, statCfg{p, 0.25, 50, stat.KErrorRate(b)}
			k1, e1 := c1.pdf().K()
			k2, e2 := c2.pdf().K()
			if e1 != nil || e2 != nil || !(k2 > k1) {
				rec.Violation("k", fmt.Sprintf("k is %v (%v) for an error rate of %v and %v (%v) for %v (poisson %v)", k1, e1, a, k2, e2, b, p), nil)
				continue
			}
			if i < 200 {
				s1, s2 := c1.make("a"), c2.make("b")
				src := newSource(r, p)
				var l1, l2 float64
				for s1.State() == stat.UCLInitial {
					o := src.next()
					s1.Record(o)
					s2.Record(o)
				}
				l1, l2 = s1.Limit(), s2.Limit()
				if !(l2 > l1) || s1.Value() != s2.Value() {
					rec.Violation("limit", fmt.Sprintf("the limit is %v for an error rate of %v and %v for %v (poisson %v)", l1, a, l2, b, p), nil)
				}
				s1.Done()
				s2.Done()
			}
			rec.Case(fmt.Sprint("rate", a, b, p), true, nil)
		}
	}
	windowedPoisson(t, rec)
}

// windowedPoisson feeds single events to the default Poisson test, whose statistics add up the events of 15 second windows.
func windowedPoisson(t *testing.T, rec *vt.Rec) {
	for i, n := 0, rec.Pick(4, 40); i < n; i++ {
		seed := rec.Rng(fmt.Sprint("windowed", i)).Int63()
		missed := false
		bubble(t, func(t *testing.T) {
			r := rand.New(rand.NewSource(seed))
			tt, err := stat.NewPoissonTest(metric.NewName("events", nil))
			if err != nil {
				rec.Violation("construct", "the default Poisson test cannot be made: "+err.Error(), nil)
				return
			}
			defer tt.Done()
			k, err := stat.NewPoisson(50, 15*time.Second, metric.SampleSum, stat.KErrorRate(0.05)).K()
			if err != nil {
				rec.Violation("k", "no k: "+err.Error(), nil)
				return
			}
			began := time.Now()
			sums := map[int]float64{} // events of every window
			compared := map[string]bool{}
			events := func(d time.Duration, perSecond float64) {
				for end := time.Now().Add(d); time.Now().Before(end) && !tt.HasAlarmed(); {
					time.Sleep(time.Duration(r.ExpFloat64() / perSecond * float64(time.Second)))
					synctest.Wait()
					w := int(time.Since(began) / (15 * time.Second))
					before := tt.State()
					tt.Record(1)
					sums[w]++
					// the limits are those of the last fifty windows
					for j, st := range tt.State() {
						if before[j] != stat.UCLInitial || st == stat.UCLInitial {
							continue
						}
						mean := 0.0
						for q := w - 50; q < w; q++ {
							mean += sums[q] / 50
						}
						name, lambda := "ewma", 0.25
						if j == 1 {
							name, lambda = "shewart", 1
						}
						want := mean + k*math.Sqrt(lambda/(2-lambda)*mean)
						got := tt.Metric()["events[strategy="+name+" type=estimator value=limit]"]
						if w == 50 && !near(got, want, want) {
							rec.Violation("windowed-limit", fmt.Sprintf("after fifty windows of %v events on average the limit of %s is %v instead of %v", mean, name, got, want), map[string]interface{}{"seed": seed})
						}
						compared[name] = w == 50
						rec.Add("windowed_limits_compared", b2i(w == 50))
					}
				}
			}
			events(20*time.Minute, 20.0/15)
			if tt.HasAlarmed() {
				rec.Violation("windowed-false-alarm", "the default Poisson test raises an alarm within 20 minutes of unchanged traffic", map[string]interface{}{"seed": seed, "metric": tt.Metric()})
				return
			}
			events(time.Hour, 10*20.0/15)
			missed = !tt.HasAlarmed()
			step()
			rec.Case(fmt.Sprint("windowed", seed), true, nil)
		})
		if missed {
			rec.Violation("windowed-raw", "the default Poisson test does not detect a tenfold rate of events within an hour: after the baseline of 15 second windows it compares each single observation with the limit", map[string]interface{}{"seed": seed})
			return
		}
	}
}

var shiftTables sync.Map

func shifted(s float64) *poissonTable {
	if t, ok := shiftTables.Load(s); ok {
		return t.(*poissonTable)
	}
	t := newPoissonTable(20 + s*math.Sqrt(20))
	shiftTables.Store(s, t)
	return t
}

func TestC33(t *testing.T) {
	rec := vt.New(t, "C33", "a case is one history of a composite test and of equal single statistics fed with the same observations and requests; they are compared after every step; distinct by the statistics and visited states, non-trivial with at least two statistics")
	defer rec.Finish()
	var cur atomic.Value
	cur.Store("")
	watch(rec, func() string { return cur.Load().(string) })
	rng := rec.Rng("prog")
	for i, n := 0, rec.Pick(3000, 120000); i < n && rec.NumViolations() < 5; i++ {
		step()
		seed := rng.Int63()
		cur.Store(fmt.Sprintf("history %d seed %d", i, seed))
		if i%20 == 0 {
			bubble(t, func(t *testing.T) { compositeHistory(rec, rand.New(rand.NewSource(seed)), true) })
			bubble(t, func(t *testing.T) { finishTest(rec, rand.New(rand.NewSource(seed+1))) })
		} else {
			compositeHistory(rec, rand.New(rand.NewSource(seed)), false)
		}
	}
}

// finishTest ends tests of several windowed and other statistics, which may have the same names.
func finishTest(rec *vt.Rec, r *rand.Rand) {
	var cfgs []string
	wit := func() interface{} { return cfgs }
	rec.Guard("panic", wit, func() {
		var opts []stat.TestOption
		windows := 0
		for k := 1 + r.Intn(5); k > 0; k-- {
			name := []string{"ewma", "shewart", "x", "y" + fmt.Sprint(k)}[r.Intn(4)]
			lambda := []float64{0.25, 1, 0.5}[r.Intn(3)]
			n := []int{2, 10, 50}[r.Intn(3)]
			var pdf stat.PDF
			var w time.Duration
			if r.Intn(4) == 0 {
				pdf = stat.NewLogNormal(n, stat.KErrorRate(0.05))
			} else {
				w = []time.Duration{0, 15 * time.Second, 200 * time.Millisecond, time.Hour}[r.Intn(4)]
				pdf = stat.NewPoisson(n, w, []func([]float64) float64{metric.SampleSum, metric.SampleAverage, metric.SampleMax}[r.Intn(3)], stat.KFixed(4))
			}
			if w > 0 {
				windows++
			}
			cfgs = append(cfgs, fmt.Sprintf("%s lambda %v %s %d window %v", name, lambda, pdf, n, w))
			s, err := stat.NewEWMAStatistic(name, lambda, pdf)
			if err != nil {
				rec.Violation("construct", "the statistic cannot be made: "+err.Error(), wit())
				return
			}
			opts = append(opts, stat.WithStatistic(s))
		}
		test, err := stat.NewPoissonTest(metric.NewName("t", nil), opts...)
		if err != nil {
			rec.Violation("construct", "the test cannot be made: "+err.Error(), wit())
			return
		}
		for k := r.Intn(100); k > 0; k-- {
			test.Record(1 + 10*r.Float64())
			if r.Intn(5) == 0 {
				time.Sleep(time.Duration(r.Intn(30000)) * time.Millisecond)
			}
		}
		time.Sleep(time.Duration(r.Intn(30000))*time.Millisecond + 333*time.Microsecond)
		synctest.Wait()
		test.Done()
		synctest.Wait()
		if l := leftovers("pkg/metric"); len(l) > 0 {
			rec.Violation("leak", fmt.Sprintf("%d of %d windowed statistics are still being sampled after the test is done", len(l), windows), map[string]interface{}{"case": wit(), "goroutine": l[0]})
		}
		rec.Add("windowed_statistics_finished", windows)
		rec.Case("finish "+fmt.Sprint(cfgs), windows > 1, cfgs)
	})
}

// documented returns the statistics that the default tests are documented to have.
func documented(pdf func() stat.PDF) []*stat.TestStatistic {
	var out []*stat.TestStatistic
	for _, c := range []struct {
		name   string
		lambda float64
	}{{"ewma", 0.25}, {"shewart", 1}} {
		s, err := stat.NewEWMAStatistic(c.name, c.lambda, pdf())
		if err != nil {
			panic(err)
		}
		out = append(out, s)
	}
	return out
}

func compositeHistory(rec *vt.Rec, r *rand.Rand, windowed bool) {
	var tr []string
	var cfgs []string
	md := map[string]string{}
	for k := r.Intn(4); k > 0; k-- {
		md["m"+ident(r)] = mdValue(r)
	}
	base := ident(r) + "x"
	wit := func() interface{} {
		return map[string]interface{}{"statistics": cfgs, "name": base, "metadata": md, "last steps": tail(tr)}
	}
	rec.Guard("panic", wit, func() {
		var arg map[string]string
		if len(md) > 0 || r.Intn(2) == 0 {
			arg = md
		}
		name := metric.NewName(base, arg)
		before := name.String()
		poisson := r.Intn(2) == 0
		var twins []*stat.TestStatistic
		var test *stat.Test
		var err error
		mk := stat.NewLogNormalTest
		if poisson {
			mk = stat.NewPoissonTest
		}
		switch {
		case windowed:
			poisson = r.Intn(2) == 0
			if poisson {
				test, err = stat.NewPoissonTest(name)
				if r.Intn(2) == 0 {
					twins = []*stat.TestStatistic{stat.DefaultPoissonEWMA(), stat.DefaultPoissonShewart()}
				} else {
					twins = documented(func() stat.PDF { return stat.NewPoisson(50, 15*time.Second, metric.SampleSum, stat.KErrorRate(0.05)) })
				}
				cfgs = []string{"default poisson"}
			} else {
				test, err = stat.NewLogNormalTest(name)
				if r.Intn(2) == 0 {
					twins = []*stat.TestStatistic{stat.DefaultLogNormalEWMA(), stat.DefaultLogNormalShewart()}
				} else {
					twins = documented(func() stat.PDF { return stat.NewLogNormal(50, stat.KErrorRate(0.05)) })
				}
				cfgs = []string{"default log-normal"}
			}
		default:
			var opts []stat.TestOption
			for k := 1 + r.Intn([]int{4, 4, 4, 12}[r.Intn(4)]); k > 0; k-- {
				c := randCfg(r)
				if r.Intn(4) != 0 {
					c.poisson = poisson
				}
				if !c.poisson && c.n < 2 {
					c.n = 2
				}
				n := fmt.Sprintf("s%d", k)
				twins = append(twins, c.make(n))
				opts = append(opts, stat.WithStatistic(c.make(n)))
				cfgs = append(cfgs, n+" "+c.String())
			}
			test, err = mk(name, opts...)
		}
		if err != nil {
			rec.Violation("construct", "the test cannot be made: "+err.Error(), wit())
			return
		}
		done := false
		defer func() {
			if !done {
				test.Done()
				for _, s := range twins {
					s.Done()
				}
			}
		}()
		visited, alarms, refusals := "", 0, 0
		cmp := func() bool {
			st := test.State()
			if len(st) != len(twins) {
				rec.Violation("states", fmt.Sprintf("%d states for %d statistics", len(st), len(twins)), wit())
				return false
			}
			any := false
			m := test.Metric()
			if len(m) != 2*len(twins) {
				rec.Violation("metrics", fmt.Sprintf("%d metrics for %d statistics: %v", len(m), len(twins), m), wit())
				return false
			}
			for i, s := range twins {
				if st[i] != s.State() {
					rec.Violation("state", fmt.Sprintf("statistic %s is in state %s instead of %s", s.Name(), st[i], s.State()), wit())
					return false
				}
				any = any || s.HasAlarmed()
				for _, w := range []struct {
					k string
					v float64
				}{{"current", s.Value()}, {"limit", s.Limit()}} {
					full := map[string]string{}
					for a, b := range md {
						full[a] = b
					}
					full["strategy"], full["type"], full["value"] = s.Name(), "estimator", w.k
					n := metric.NewName(base, full).String()
					v, ok := m[n]
					if !ok {
						rec.Violation("metric", fmt.Sprintf("there is no metric %q in %v", n, m), wit())
						return false
					}
					if v != w.v && !(v != v && w.v != w.v) {
						rec.Violation("metric", fmt.Sprintf("metric %q is %v instead of %v", n, v, w.v), wit())
						return false
					}
				}
			}
			if test.HasAlarmed() != any {
				rec.Violation("alarm", fmt.Sprintf("the test reports alarm %v but its statistics are %v", !any, st), wit())
				return false
			}
			if test.Name() != before || name.String() != before {
				rec.Violation("name", fmt.Sprintf("the test's name is %q (given name %q) instead of %q", test.Name(), name.String(), before), wit())
				return false
			}
			if any {
				alarms++
			}
			if s := fmt.Sprint(st); !strings.HasSuffix(visited, s) {
				visited += s
			}
			return true
		}
		if !cmp() {
			return
		}
		src := newSource(r, poisson)
		steps := 60 + r.Intn(200)
		if windowed {
			steps = 300 + r.Intn(300)
		}
		for k := 0; k < steps; k++ {
			if windowed {
				if r.Intn(2) == 0 {
					// off the window boundaries, so that all windows hold the same observations
					time.Sleep(time.Duration(r.Intn(20000))*time.Millisecond + time.Duration(1+r.Intn(999))*time.Microsecond)
					synctest.Wait()
				}
			}
			if r.Intn(20) == 0 {
				to := states[r.Intn(len(states))]
				if r.Intn(2) == 0 {
					l := legal[twins[r.Intn(len(twins))].State()]
					to = l[r.Intn(len(l))]
				}
				reset := r.Intn(2) == 0
				tr = append(tr, fmt.Sprintf("Transition(%s, %v)", to, reset))
				got := test.Transition(to, reset)
				var want error
				some := false
				for _, s := range twins {
					if err := s.Transition(to, reset); err != nil {
						if want == nil {
							want = err
						}
					} else {
						some = true
					}
				}
				if want != nil && some {
					rec.Add("requests_refused_by_some_statistics", 1)
				}
				if want != nil {
					refusals++
				}
				if (got == nil) != (want == nil) || got != nil && got.Error() != want.Error() {
					rec.Violation("refusal", fmt.Sprintf("the request for %s returns %v instead of %v", to, got, want), wit())
					return
				}
			} else {
				o := src.next()
				if r.Intn(15) == 0 {
					o = invalid(r, poisson)
				}
				tr = append(tr, fmt.Sprintf("Record(%v)", o))
				got := test.Record(o)
				fail := false
				for _, s := range twins {
					if err := s.Record(o); err != nil {
						fail = true
					}
				}
				rec.Add("observations", 1)
				if (got != nil) != fail {
					rec.Violation("record", fmt.Sprintf("recording %v returns %v", o, got), wit())
					return
				}
			}
			if !cmp() {
				return
			}
		}
		done = true
		test.Done()
		for _, s := range twins {
			s.Done()
		}
		if windowed {
			synctest.Wait()
			if l := leftovers("pkg/metric"); len(l) > 0 {
				rec.Violation("leak", fmt.Sprintf("%d goroutines are left after the test is done", len(l)), map[string]interface{}{"case": wit(), "goroutine": l[0]})
			}
			rec.Add("tests_with_windows", 1)
		}
		rec.Add("steps_alarmed", alarms)
		rec.Add("refused_requests", refusals)
		rec.Case(fmt.Sprint(cfgs, visited), len(twins) > 1, map[string]interface{}{"statistics": cfgs, "states": visited})
	})
}
