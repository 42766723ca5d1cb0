package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

type usage struct{ Goroutines, Heap, Objects, Fds int }

// TestC38 checks that the resources monny uses do not grow with what it has relayed and reported.
func TestC38(t *testing.T) {
	rec := vt.New(t, "C38", "a case is one long run in phases of equal work (output relayed, matches alerted on, failed send attempts, matches below the configured rate); after each phase, once its output has come through and its reports are acknowledged or given up, the monitor's own goroutines, open files and live heap are read and must come back to what they were after the second phase; non-trivial always; distinct by phases, reports and measurements")
	type kase struct {
		name   string
		opts   [][2]string
		phases int
		work   func(k int) []Step
		lines  int // lines per phase
		alerts int // alerts per phase (lower bound), none if zero
		fault  string
		env    []string
		heapMB int // allowed growth of the live heap
		giveUp bool
	}
	var cases []kase
	flood := func(size, n int, fds ...int) func(int) []Step {
		b := append(bytes.Repeat([]byte{'y'}, size-1), '\n')
		return func(int) []Step {
			var st []Step
			for _, fd := range fds {
				st = append(st, Step{Op: "w", Fd: fd, Data: b, Rep: n / len(fds)})
			}
			return st
		}
	}
	matching := func(n, size int, ms int) func(int) []Step {
		return func(k int) []Step {
			var st []Step
			for j := 0; j < n; j++ {
				st = append(st, w(1+j%2, fmt.Sprintf("ERROR %d.%d %s\n", k, j, bytes.Repeat([]byte{'z'}, size))))
				if ms > 0 {
					st = append(st, slp(ms))
				}
			}
			return st
		}
	}
	for rep := 0; rep < rec.Pick(1, 5); rep++ {
		f := rec.Pick(1, 4)
		cases = append(cases,
			kase{name: "short lines", phases: 6, work: flood(100, 60000*f, 1), lines: 60000 * f, heapMB: 5},
			kase{name: "lines on both streams", phases: 6, work: flood(200, 40000*f, 1, 2), lines: 40000 * f, heapMB: 5, opts: [][2]string{{"stdout-history", "50"}, {"stderr-history", "3"}}},
			kase{name: "long lines", phases: 6, work: flood(40000, 300*f, 2), lines: 300 * f, heapMB: 8},
			kase{name: "rules that do not match", phases: 6, work: flood(100, 40000*f, 1, 2), lines: 40000 * f, heapMB: 5, opts: [][2]string{{"rule", "ERROR"}, {"rule-json", "a.b:x"}}},
			kase{name: "no history", phases: 6, work: flood(100, 60000*f, 1, 2), lines: 60000 * f, heapMB: 5, opts: [][2]string{{"stdout-history", "0"}, {"stderr-history", "0"}}},
			kase{name: "limits far away", phases: 6, work: flood(100, 40000*f, 1), lines: 40000 * f, heapMB: 5, opts: [][2]string{{"memory-warn", "8G"}, {"timeout-warn", "1h"}, {"timeout-kill", "2h"}}},
			kase{name: "alerts", phases: 8, work: matching(40*f, 100, 3), lines: 40 * f, alerts: 1, heapMB: 4, opts: [][2]string{{"rule", "ERROR"}}},
			kase{name: "alerts with large lines", phases: 6, work: matching(20*f, 50000, 5), lines: 20 * f, alerts: 1, heapMB: 5, opts: [][2]string{{"rule", "ERROR"}, {"stdout-history", "3"}, {"stderr-history", "3"}}},
			kase{name: "alerts with larger lines", phases: 8, work: matching(24*f, 150000, 5), lines: 24 * f, alerts: 1, heapMB: 6, opts: [][2]string{{"rule", "ERROR"}, {"stdout-history", "1"}, {"stderr-history", "1"}}},
			kase{name: "very short lines", phases: 6, work: flood(12, 150000*f, 1, 2), lines: 150000 * f, heapMB: 5},
			kase{name: "alerts in bursts", phases: 6, work: matching(60*f, 50, 0), lines: 60 * f, alerts: 1, heapMB: 4, opts: [][2]string{{"rule", "ERROR"}}},
		)
		for _, ft := range []string{unavail, intern, nack, drop, lost} {
			cases = append(cases, kase{name: "alerts, first attempt: " + ft, phases: 5, work: matching(15*f, 200, 4), lines: 15 * f, alerts: 1, fault: ft, heapMB: 4, opts: [][2]string{{"rule", "ERROR"}}})
		}
		cases = append(cases,
			kase{name: "alerts given up", phases: 4, work: matching(8, 100, 40), lines: 8, alerts: 1, fault: hang, env: []string{"MONNY_VERIF_SEND_TIMEOUT=400ms"}, giveUp: true, heapMB: 4, opts: [][2]string{{"rule", "ERROR"}}},
			// whatever arrived longer ago than the period cannot count any more
			kase{name: "below the rate", phases: 10, lines: 40, work: func(k int) []Step {
				var st []Step
				for j := 0; j < 4; j++ {
					st = append(st, matching(10, 60000, 0)(10*k+j)...)
					st = append(st, slp(80))
				}
				return st
			}, heapMB: 7, opts: [][2]string{{"rule", "ERROR"}, {"quantity", "100000"}, {"period", "60ms"}, {"stdout-history", "3"}, {"stderr-history", "3"}}},
			kase{name: "at the rate", phases: 8, work: matching(40, 2000, 2), lines: 40, alerts: 1, heapMB: 4, opts: [][2]string{{"rule", "ERROR"}, {"quantity", "5"}}},
		)
	}
	// how the open files develop while nothing but the sampling of memory goes on, seen from
	// outside because asking the monitor makes it collect garbage and with it forgotten files
	idle := rec.Pick(2, 8)
	rec.Pool(8, len(cases)+idle, func(i int) {
		if i < idle {
			idling(rec, i)
			return
		}
		c := cases[i-idle]
		dir := Dir()
		defer os.RemoveAll(dir)
		p := func(n string, k int) string { return filepath.Join(dir, fmt.Sprint(n, k)) }
		var mu sync.Mutex
		seen := map[string]int{}
		s := NewSrv(func(_ int, rep *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			if rep.ReportReason != pb.ReportReason_Alert && rep.ReportReason != pb.ReportReason_AlertRate {
				return ack
			}
			if c.giveUp {
				return hang
			}
			key := fmt.Sprint(rep.CreatedAt, string(rep.Matches))
			seen[key]++
			if c.fault != "" && seen[key] == 1 {
				return c.fault
			}
			return ack
		})
		defer s.Close()
		sc := &Script{}
		for k := 0; k < c.phases; k++ {
			sc.Steps = append(sc.Steps, c.work(k)...)
			sc.Steps = append(sc.Steps, mark(p("phase", k)), gate(p("go", k)))
		}
		opts := append([][2]string{{"id", "c38"}, {"host", s.Addr}, {"insecure", ""}, {"no-error-reports", ""}}, c.opts...)
		run := lib(dir, sc, opts, "")
		run.Env = c.env
		of, od, oc := watcher(dir, "x", nil)
		ef, ed, ec := watcher(dir, "x", nil)
		run.OutF, run.ErrF = of, ef
		run.HardS = 400
		asks := 0
		over := make(chan struct{})
		// measure asks the running monitor for its own figures
		measure := func() (u usage, ok bool) {
			touch(p("ask", asks))
			for {
				if b := readFile(p("got", asks)); b != nil {
					asks++
					return u, json.Unmarshal(b, &u) == nil
				}
				select {
				case <-over:
					return u, false
				case <-time.After(3 * time.Millisecond):
				}
			}
		}
		settled := func(k int) bool {
			if oc()+ec() < c.lines*(k+1) {
				return false
			}
			if c.alerts == 0 {
				return true
			}
			arrived, open := 0, 0
			per := map[string]bool{}
			for _, g := range s.Got() {
				key := fmt.Sprint(g.Rep.CreatedAt, string(g.Rep.Matches))
				if g.Acked {
					per[key] = true
				}
			}
			for _, g := range s.Got() {
				arrived++
				if !c.giveUp && !per[fmt.Sprint(g.Rep.CreatedAt, string(g.Rep.Matches))] {
					open++
				}
			}
			return arrived >= k+1 && open == 0
		}
		var base usage
		var bad, log []string
		ready := make(chan struct{})
		run.Bg = func(*os.Process) {
			defer close(ready)
			pause := func(d time.Duration) bool {
				select {
				case <-over:
					return false
				case <-time.After(d):
					return true
				}
			}
			for k := 0; k < c.phases; k++ {
				for !exists(p("phase", k)) || !settled(k) {
					if !pause(5 * time.Millisecond) {
						return
					}
				}
				lim := time.Now().Add(25 * time.Second)
				if k == 1 {
					lim = time.Now().Add(1500 * time.Millisecond) // the least figures seen for a while are the base
				}
				first := true
				for {
					u, ok := measure()
					if !ok {
						return
					}
					if k == 1 {
						if first || u.Goroutines < base.Goroutines {
							base.Goroutines = u.Goroutines
						}
						if first || u.Fds < base.Fds {
							base.Fds = u.Fds
						}
						if first || u.Heap < base.Heap {
							base.Heap = u.Heap
						}
						first = false
					}
					what := ""
					switch {
					case k == 0:
					case k == 1:
						what = "base"
					case u.Goroutines > base.Goroutines+4:
						what = fmt.Sprintf("%d goroutines after phase %d, %d after the second phase", u.Goroutines, k+1, base.Goroutines)
					case u.Fds > base.Fds+3:
						what = fmt.Sprintf("%d open files after phase %d, %d after the second phase", u.Fds, k+1, base.Fds)
					case k == c.phases-1 && u.Heap > base.Heap+c.heapMB<<20:
						what = fmt.Sprintf("%.1f MiB of live heap after phase %d, %.1f after the second phase", float64(u.Heap)/(1<<20), k+1, float64(base.Heap)/(1<<20))
					}
					if what == "" || time.Now().After(lim) {
						if k == 0 || k == 1 {
							what = ""
						}
						if what != "" {
							bad = append(bad, what)
						}
						log = append(log, fmt.Sprintf("%d goroutines, %d files, %.1f MiB", u.Goroutines, u.Fds, float64(u.Heap)/(1<<20)))
						break
					}
					if !pause(100 * time.Millisecond) {
						return
					}
				}
				if len(bad) > 0 {
					break
				}
				touch(p("go", k))
			}
			for k := 0; k < c.phases; k++ {
				touch(p("go", k))
			}
		}
		run.After = func() { close(over) }
		res := run.Do()
		of.Close()
		ef.Close()
		<-od
		<-ed
		<-ready
		wit := map[string]interface{}{"case": c.name, "phases": c.phases, "lines_per_phase": c.lines, "after_each_phase": log, "reports": len(s.Got())}
		if res.Unknown != "" || res.Hung != "" {
			wit["state"] = res.Hung
		}
		for _, b := range bad {
			rec.Violation("resources", b, wit)
		}
		if len(bad) > 0 || !res.Common(rec, "resources", wit) {
			return
		}
		if len(log) != c.phases {
			rec.Inconclusive(fmt.Sprintf("%s: only %d of %d phases were measured", c.name, len(log), c.phases))
			return
		}
		rec.Add("phases_measured", c.phases)
		rec.Add("measurements", asks)
		rec.Add("lines_relayed", c.lines*c.phases)
		rec.Add("reports", len(s.Got()))
		rec.Case(fmt.Sprint(c.name, log), true, map[string]interface{}{"case": c.name, "after_each_phase": log, "reports": len(s.Got())})
	})
	rec.Finish()
}

// idling watches the open files and threads of the real binary while the command does nothing.
func idling(rec *vt.Rec, i int) {
	dir := Dir()
	defer os.RemoveAll(dir)
	s := NewSrv(nil)
	defer s.Close()
	over := make(chan struct{})
	done := make(chan struct{})
	var files, threads []int
	n := rec.Pick(16, 40)
	sc := &Script{Steps: []Step{w(1, "on\n"), {Op: "alloc", N: 40}, gate(filepath.Join(dir, "idled"))}}
	if i%2 == 1 {
		// the command has ended, what it left in the background keeps its streams open
		sc.Steps = []Step{w(1, "on\n"), {Op: "spawn"}, {Op: "spawned"}, gate(filepath.Join(dir, "idled"))}
	}
	run := Run{Flags: flags(s, "c38", [][]string{{"--memory-warn", "20M", "--rule", "ERROR"}, nil, {"--memory-kill", "20G", "--timeout-kill", "2h"}}[i/2%3]...), Script: sc, Dir: dir, Sep: true, HardS: 200, After: func() { close(over) }}
	run.Bg = func(p *os.Process) {
		defer close(done)
		defer touch(filepath.Join(dir, "idled"))
		for k := 0; k < n; k++ {
			select {
			case <-over:
				return
			case <-time.After(time.Second):
			}
			fd, e1 := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.Pid))
			th, e2 := os.ReadDir(fmt.Sprintf("/proc/%d/task", p.Pid))
			if e1 != nil || e2 != nil {
				return
			}
			files, threads = append(files, len(fd)), append(threads, len(th))
		}
	}
	res := run.Do()
	<-done
	wit := map[string]interface{}{"case": "idle", "open_files_each_second": files, "threads_each_second": threads}
	if !res.Common(rec, "resources", wit) {
		return
	}
	if len(files) < n {
		rec.Inconclusive(fmt.Sprintf("idle: only %d of %d seconds were measured", len(files), n))
		return
	}
	// by the fourth second connections for an early report are as they will be
	least := func(a []int) int {
		m := a[0]
		for _, x := range a {
			m = min(m, x)
		}
		return m
	}
	if b, e := least(files[3:6]), least(files[n-3:]); e > b+3 {
		rec.Violation("resources", fmt.Sprintf("%d open files after %d s in which nothing happened, %d after 5 s", e, n, b), wit)
	}
	if b, e := least(threads[3:6]), least(threads[n-3:]); e > b+6 {
		rec.Violation("resources", fmt.Sprintf("%d threads after %d s in which nothing happened, %d after 5 s", e, n, b), wit)
	}
	rec.Case(fmt.Sprint("idle", files, threads), true, wit)
}
