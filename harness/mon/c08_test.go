package mon

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// TestC08 checks rate-limited alerts.
func TestC08(t *testing.T) {
	rec := vt.New(t, "C08", "a case is one run of monny (through its exported API, where the rate options live) with quantity q and period p over a child whose matching lines are numbered; gated cases wait for the server to have received the k-th alert-rate report; the log is checked for: every report justified by q matches within p, no match in two acknowledged reports, a report for every q accumulated matches, and no plain alert; non-trivial always (matches present); distinct by q, p, pattern and received log")
	type cs struct {
		name   string
		q      int
		p      string
		pd     time.Duration
		faults []string
		hold   bool
		steps  func(dir string, q *rand.Rand) []Step
		want   int  // minimal number of alert-rate reports, -1: not stated
		none   bool // no report may be sent at all
		giveUp bool // the faults are one unanswered attempt, which is given up
		strict bool // fewer than q matches may stay unreported
		rules  []string
		window bool // a report is due if monny's end is within the period of the mark
	}
	m := func(n int) Step { return w(1+n%2, fmt.Sprintf("%d ERROR\n", n)) }
	g := func(dir string, k int) Step {
		return Step{Op: "gate", Path: filepath.Join(dir, fmt.Sprintf("rate%d", k)), Ms: 25000}
	}
	// rounds of q matches, each followed by waiting for its report
	rounds := func(q, n, gap int) func(string, *rand.Rand) []Step {
		return func(dir string, r *rand.Rand) []Step {
			var st []Step
			k := 0
			for i := 0; i < n; i++ {
				for j := 0; j < q; j++ {
					st = append(st, m(k))
					k++
					if r.Intn(3) == 0 {
						st = append(st, w(1, "nothing here\n"))
					}
					if gap > 0 {
						st = append(st, slp(r.Intn(gap)))
					}
				}
				st = append(st, g(dir, i))
			}
			return st
		}
	}
	burst := func(n, gap int) func(string, *rand.Rand) []Step {
		return func(dir string, r *rand.Rand) []Step {
			var st []Step
			for k := 0; k < n; k++ {
				st = append(st, m(k))
				if gap > 0 {
					st = append(st, slp(r.Intn(gap)))
				}
			}
			return st
		}
	}
	var cases []cs
	for rep := 0; rep < rec.Pick(1, 6); rep++ {
		for _, q := range []int{1, 2, 3, 5, 10} {
			for _, p := range []string{"", "1h"} {
				pd, _ := time.ParseDuration(p)
				cases = append(cases,
					cs{name: "rounds", q: q, p: p, pd: pd, steps: rounds(q, 3, 0), want: 3, strict: true},
					cs{name: "rounds slow", q: q, p: p, pd: pd, steps: rounds(q, 2, 20), want: 2, strict: true},
					cs{name: "faulty rounds", q: q, p: p, pd: pd, steps: rounds(q, 2, 5), want: 2, strict: true, faults: []string{unavail, nack}},
					cs{name: "burst", q: q, p: p, pd: pd, steps: burst(4*q+1, 0), want: 1, strict: true},
					cs{name: "slow burst", q: q, p: p, pd: pd, steps: burst(3*q+q/2, 30), want: 1, strict: true},
					cs{name: "held", q: q, p: p, pd: pd, hold: true, want: 2, strict: true, steps: func(dir string, r *rand.Rand) []Step {
						st := rounds(q, 2, 3)(dir, r) // the second is awaited while the first is unanswered
						return append(st, mark(filepath.Join(dir, "ack0")))
					}},
					cs{name: "held, more than needed", q: q, p: p, pd: pd, hold: true, want: 1, strict: true, steps: func(dir string, r *rand.Rand) []Step {
						st := append(burst(q, 0)(dir, r), g(dir, 0))
						for k := 0; k < q/2; k++ {
							st = append(st, m(1000+k))
						}
						st = append(st, slp(r.Intn(30)), mark(filepath.Join(dir, "ack0")), slp(r.Intn(30)))
						for k := 0; k < q-q/2; k++ {
							st = append(st, m(2000+k))
						}
						return append(st, g(dir, 1))
					}},
				)
				if q > 1 {
					cases = append(cases, cs{name: "below", q: q, p: p, pd: pd, steps: burst(q-1, 5), none: true, strict: true})
				}
			}
		}
		// a report that was given up has not reported its matches
		for _, q := range []int{1, 2, 5} {
			q := q
			cases = append(cases, cs{name: "given up", q: q, p: []string{"", "1h"}[q%2], pd: time.Duration(q%2) * time.Hour, want: 1, strict: true, giveUp: true, faults: []string{hang}, steps: func(dir string, r *rand.Rand) []Step {
				return append(burst(q, 0)(dir, r), Step{Op: "gate", Path: filepath.Join(dir, "givenup0"), Ms: 30000}, m(100), slp(300))
			}})
		}
		for _, q := range []int{100, 300, 1500} {
			cases = append(cases, cs{name: "many", q: q, p: []string{"", "1h"}[q/100%2], pd: time.Duration(q/100%2) * time.Hour, want: 2, strict: true, steps: rounds(q, 2, 0)},
				cs{name: "many, below", q: q, steps: burst(q-1, 0), none: true, strict: true})
		}
		for _, q := range []int{2, 3, 4} {
			q := q
			cases = append(cases,
				cs{name: "spaced", q: q, p: "150ms", pd: 150 * time.Millisecond, want: -1, steps: func(dir string, r *rand.Rand) []Step {
					var st []Step
					for k := 0; k < q+2; k++ {
						st = append(st, m(k), slp(500))
					}
					return st
				}},
				cs{name: "stale then too few", q: q, p: "1s", pd: time.Second, want: -1, steps: func(dir string, r *rand.Rand) []Step {
					st := append(burst(q-1, 0)(dir, r), slp(1800))
					for k := 0; k < q-1; k++ {
						st = append(st, m(100+k))
					}
					return append(st, slp(200))
				}},
				cs{name: "stale then enough", q: q, p: "4s", pd: 4 * time.Second, want: 1, steps: func(dir string, r *rand.Rand) []Step {
					st := append(burst(q-1, 0)(dir, r), slp(4500))
					for k := 0; k < q; k++ {
						st = append(st, m(100+k))
					}
					return append(st, g(dir, 0))
				}},
				cs{name: "round, pause, round", q: q, p: "1s", pd: time.Second, want: -1, steps: func(dir string, r *rand.Rand) []Step {
					st := append(burst(q, 0)(dir, r), slp(300))
					for k := 0; k < q-1; k++ { // within the period of the first ones, which are used up
						st = append(st, m(100+k))
					}
					return append(st, slp(300))
				}},
			)
		}
	}
	for rep := 0; rep < rec.Pick(1, 4); rep++ {
		// several rules match a line, and the same line comes again
		for k, q := range []int{2, 3, 4, 6, 12} {
			q, p := q, []string{"", "1h"}[(rep+k)%2]
			pd, _ := time.ParseDuration(p)
			rules := []string{"ERROR", "same", "^", "R+", "line$", "E.*O", "(?i)SAME", " ", ".", "[A-Z]+"}
			same := func(n int) []Step {
				var st []Step
				for i := 0; i < n; i++ {
					st = append(st, w(1+i%2, "same ERROR, ERROR line\n"))
				}
				return st
			}
			cases = append(cases,
				cs{name: "same line", q: q, p: p, pd: pd, want: 3, strict: true, steps: func(dir string, r *rand.Rand) []Step {
					var st []Step
					for i := 0; i < 3; i++ {
						st = append(append(st, same(q)...), g(dir, i))
					}
					return st
				}},
				cs{name: "same line, below", q: q, p: p, pd: pd, none: true, strict: true, steps: func(dir string, r *rand.Rand) []Step { return same(q - 1) }},
				cs{name: "two rules", q: q, p: p, pd: pd, want: 2, strict: true, rules: rules[:2], steps: func(dir string, r *rand.Rand) []Step {
					var st []Step
					for i := 0; i < 2; i++ {
						st = append(append(st, same((q+1)/2)...), g(dir, i))
					}
					return st
				}},
				cs{name: "two rules, below", q: q, p: p, pd: pd, none: true, strict: true, rules: rules[:2], steps: func(dir string, r *rand.Rand) []Step { return same((q - 1) / 2) }},
				cs{name: "ten rules", q: q, p: p, pd: pd, want: 2, strict: true, rules: rules, steps: func(dir string, r *rand.Rand) []Step {
					var st []Step
					for i := 0; i < 2; i++ {
						st = append(append(st, same((q+9)/10)...), g(dir, i))
					}
					return st
				}},
				cs{name: "ten rules, other lines", q: q, p: p, pd: pd, want: 1, strict: true, rules: rules, steps: func(dir string, r *rand.Rand) []Step {
					var st []Step
					for i := 0; i < q; i++ {
						st = append(st, w(1, fmt.Sprintf("%d ERROR\n", i)), w(2, fmt.Sprintf("%d\n", i)))
					}
					return st
				}},
			)
		}
		// q matches that lie just within the period, and just not
		for _, p := range []string{"700ms", "1s", "1500ms", "2s"} {
			pd, _ := time.ParseDuration(p)
			ms := int(pd / time.Millisecond)
			for k, gap := range []int{ms - 30, ms - 45, ms - 110, ms - 250, ms * 6 / 10, ms * 8 / 10, ms*102/100 + 15, ms * 115 / 100, ms * 14 / 10} {
				gap, q := gap, 2+(k+rep+ms)%3
				t0 := func(dir string) Step { return mark(filepath.Join(dir, "t0")) }
				within := func(dir string, r *rand.Rand) []Step {
					st := []Step{t0(dir), m(0)}
					for k := 1; k < q-1 && gap < ms; k++ { // at any time between
						st = append(st, m(k))
					}
					return append(st, slp(gap), m(100))
				}
				cases = append(cases,
					cs{name: fmt.Sprint("window ", gap), q: q, p: p, pd: pd, want: -1, window: true, steps: within})
				if k%3 == 1 {
					cases = append(cases,
						cs{name: fmt.Sprint("window after stale matches ", gap), q: q, p: p, pd: pd, want: -1, window: true, steps: func(dir string, r *rand.Rand) []Step {
							st := []Step{m(1000)}
							for k := 1; k < q-1; k++ {
								st = append(st, m(1000+k))
							}
							return append(append(st, slp(ms+300)), within(dir, r)...)
						}})
				}
			}
		}
	}
	notReached := 0
	var slowMu sync.Mutex
	slow := map[string]int{}
	rec.Pool(16, len(cases), func(i int) {
		c := cases[i]
		attempt := 0
	again:
		q := rec.Rng(fmt.Sprint("case", i))
		dir := Dir()
		defer os.RemoveAll(dir)
		var mu sync.Mutex
		n, idx := 0, map[*pb.Report]int{}
		s := NewSrv(func(_ int, rep *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			if rep.ReportReason != pb.ReportReason_AlertRate {
				return ack
			}
			idx[rep] = n
			n++
			if n <= len(c.faults) {
				return c.faults[n-1]
			}
			return ack
		})
		defer s.Close()
		s.onGot = func(_ int, rep *pb.Report) {
			if rep.ReportReason == pb.ReportReason_AlertRate {
				mu.Lock()
				k := idx[rep] - len(c.faults) // with faults the first attempts repeat the first report
				mu.Unlock()
				if k < 0 {
					k = 0
				}
				touch(filepath.Join(dir, fmt.Sprintf("rate%d", k)))
			}
		}
		if c.hold {
			s.holdOn = func(_ int, rep *pb.Report) string {
				mu.Lock()
				defer mu.Unlock()
				if k, ok := idx[rep]; ok && k == 0 {
					return filepath.Join(dir, "ack0")
				}
				return ""
			}
		}
		st := c.steps(dir, q)
		sc := &Script{Steps: st, Exit: i % 2}
		opts := [][2]string{{"id", "c08"}, {"host", s.Addr}, {"insecure", ""}, {"no-error-reports", ""}, {"quantity", fmt.Sprint(c.q)}}
		if c.rules == nil {
			c.rules = []string{"ERROR"}
		}
		var res []*regexp.Regexp
		for _, x := range c.rules {
			opts = append(opts, [2]string{"rule", x})
			res = append(res, regexp.MustCompile(x))
		}
		if c.p != "" {
			opts = append(opts, [2]string{"period", c.p})
		}
		run := lib(dir, sc, opts, "")
		if c.giveUp {
			givenUp(&run, s, dir, 1)
		}
		out := run.Do()
		wit := map[string]interface{}{"case": c.name, "q": c.q, "p": c.p, "rules": c.rules, "steps": describe(st), "server_log": brief(s.Got()), "exit": out.Exit, "out": vt.Trim(string(out.Out), 300)}
		if !out.Common(rec, "rate", wit) {
			return
		}
		total := 0
		occurs := map[string]int{} // a match is one rule that matches one line
		for _, x := range st {
			if x.Op == "w" {
				line := strings.TrimSuffix(string(x.Data), "\n")
				for _, re := range res {
					if re.MatchString(line) {
						total++
						occurs[line]++
					}
				}
			}
		}
		used := map[string]int{}
		reports, reported := 0, 0
		for _, g := range s.Got() {
			if g.Rep.ReportReason == pb.ReportReason_Alert {
				rec.Violation("rate:plain", "a plain alert was sent although a quantity is configured", wit)
			}
			if g.Rep.ReportReason != pb.ReportReason_AlertRate {
				continue
			}
			ms, err := decodeMatches(g.Rep)
			if err != nil {
				rec.Violation("rate:json", "matches not decodable: "+err.Error(), wit)
				continue
			}
			var last time.Time
			for _, x := range ms {
				if x.Time.After(last) {
					last = x.Time
				}
			}
			in := 0
			var ages []string
			for _, x := range ms {
				ages = append(ages, fmt.Sprintf("%s -%v", x.Line, last.Sub(x.Time).Round(time.Millisecond)))
				if c.pd == 0 || last.Sub(x.Time) <= c.pd {
					in++
				}
			}
			if in < c.q {
				wit["matches"] = ages
				rec.Violation("rate:early", fmt.Sprintf("an alert-rate report was sent with %d matches within the period, quantity is %d", in, c.q), wit)
			}
			if g.Acked {
				reports++
				for _, x := range ms {
					used[x.Line]++
					if used[x.Line] == occurs[x.Line]+1 {
						wit["twice"] = x.Line
						rec.Violation("rate:double", "one match is counted in two acknowledged alert-rate reports: "+x.Line, wit)
					}
				}
				reported += len(ms)
			}
		}
		if c.none && reports > 0 {
			rec.Violation("rate:below", "a report was sent below the quantity", wit)
		}
		if c.window {
			// all q matches were seen, and counted, between the mark and monny's end
			b, err := os.ReadFile(filepath.Join(dir, "t0"))
			var ns int64
			if err == nil {
				ns, err = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
			}
			switch span := out.End.Sub(time.Unix(0, ns)); {
			case err != nil:
			case span <= c.pd && reports == 0:
				rec.Violation("rate:window", fmt.Sprintf("%d matches came within %v, the period is %v, but no alert-rate report was sent", c.q, span, c.pd), wit)
			case span <= c.pd:
				rec.Add("windows_reached", 1)
			case span <= c.pd*5/4 && attempt < 5 && reports == 0:
				attempt++
				goto again
			case reports == 0:
				slowMu.Lock()
				notReached++
				slowMu.Unlock()
			}
		}
		if c.want > 0 && reports < c.want {
			attempt++
			if c.pd > 0 && c.pd < time.Minute && attempt < 3 { // the lines may have been read too far apart on a busy machine
				slowMu.Lock()
				slow[c.name]++
				slowMu.Unlock()
				goto again
			}
			rec.Violation("rate:missing", fmt.Sprintf("%d alert-rate reports were acknowledged, the matches reach the quantity %d at least %d times", reports, c.q, c.want), wit)
		}
		if c.strict && total-reported >= c.q {
			rec.Violation("rate:unreported", fmt.Sprintf("%d of %d matches were never reported, quantity is %d", total-reported, total, c.q), wit)
		}
		rec.Add("alert_rate_reports", reports)
		rec.Add("matches", total)
		rec.Case(fmt.Sprint(c.name, c.q, c.p, brief2(s.Got()), reported), total > 0, map[string]interface{}{"case": c.name, "q": c.q, "p": c.p, "matches": total, "reports": reports, "reported": reported})
	})
	rec.Set("repeated_on_busy_machine", slow)
	rec.Set("windows_without_report", notReached)
	rec.Finish()
}
