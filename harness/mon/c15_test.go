package mon

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// TestC15 runs race-instrumented builds under mixed load; races are collected from the race runtime's log by ./check.
func TestC15(t *testing.T) {
	rec := vt.New(t, "C15", "a case is one run of a race-instrumented monny (or of a program using its exported API, for rate-limited rules) in which lines on both streams match rules while memory is sampled, warnings and kills fire and several reports are being sent, refused, dropped, delayed and acknowledged at the same time; any race report of the Go race runtime naming monny's code is a violation; non-trivial if at least two reports were sent; distinct by options and received log")
	type cs struct {
		name  string
		lib   bool
		flags [][2]string
		steps func(q *rand.Rand, dir string) []Step
		exit  int
		bg    func(*os.Process)
		tok   bool
		stdin int
		env   []string
		plan  []string
		full  int // this stream cannot be written to
		pause int // ms between the end of the command and waiting for its reports
	}
	chat := func(n, gap int) func(*rand.Rand, string) []Step {
		return func(q *rand.Rand, _ string) []Step {
			var st []Step
			for i := 0; i < n; i++ {
				st = append(st, w(1+q.Intn(2), fmt.Sprintf("%d %s\n", i, []string{"ERROR", "quiet", `{"a":{"b":"ERROR"},"c":[1,true,"x"]}`, strings.Repeat("y", 300)}[q.Intn(4)])))
				if gap > 0 {
					st = append(st, slp(q.Intn(gap)))
				}
			}
			return st
		}
	}
	with := func(f func(*rand.Rand, string) []Step, pre ...Step) func(*rand.Rand, string) []Step {
		return func(q *rand.Rand, d string) []Step { return append(append([]Step{}, pre...), f(q, d)...) }
	}
	then := func(f func(*rand.Rand, string) []Step, post ...Step) func(*rand.Rand, string) []Step {
		return func(q *rand.Rand, d string) []Step { return append(f(q, d), post...) }
	}
	R := [2]string{"rule", "ERROR"}
	R2 := [2]string{"rule-json", "a.b:ERR"}
	H := [2]string{"stdout-history", "3"}
	volley := func(n int) []Step { // so many matches at once that their reports are still being made afterwards
		return []Step{w(1, strings.Repeat("ERROR "+strings.Repeat("z", 200)+"\n", n/2)), w(2, strings.Repeat("ERROR\n", n/2))}
	}
	volleys := func(n int, post ...Step) func(*rand.Rand, string) []Step {
		return func(*rand.Rand, string) []Step { return append(volley(n), post...) }
	}
	// files that are there and files that are not, in turn and in rows
	wanted := func(n, row int) [][2]string {
		o := [][2]string{R}
		for k := 0; k < n; k++ {
			f := "/etc/passwd"
			if k/row%2 == 0 {
				f = fmt.Sprint("missing", k)
			}
			o = append(o, [2]string{"creates", f})
		}
		return o
	}
	var cases []cs
	for rep := 0; rep < rec.Pick(2, 20); rep++ {
		cases = append(cases,
			cs{name: "many alerts", flags: [][2]string{R, R2, H}, steps: chat(60, 0)},
			cs{name: "alerts with pauses", flags: [][2]string{R, R2}, steps: chat(60, 12), exit: 1},
			cs{name: "alerts, refused", flags: [][2]string{R, H}, steps: chat(40, 8), plan: []string{unavail, ack, nack, drop}},
			cs{name: "memory sampled and warned", flags: [][2]string{R, {"memory-warn", "20M"}}, steps: then(with(chat(50, 100), Step{Op: "alloc", N: 40}), slp(1500)), plan: []string{unavail, ack}},
			cs{name: "memory kill", flags: [][2]string{R, {"memory-warn", "20M"}, {"memory-kill", "30M"}}, steps: then(with(chat(50, 40), Step{Op: "alloc", N: 40}), slp(30000)), plan: []string{nack, ack}},
			cs{name: "memory kill while writing", flags: [][2]string{R, {"memory-kill", "30M"}}, steps: with(chat(3000, 20), Step{Op: "alloc", N: 40})},
			cs{name: "time warning while writing", flags: [][2]string{R, R2, {"timeout-warn", "150ms"}}, steps: chat(80, 10), exit: 2, plan: []string{ack, unavail}},
			cs{name: "time kill while writing", flags: [][2]string{R, {"timeout-warn", "50ms"}, {"timeout-kill", "300ms"}}, steps: chat(2000, 10), plan: []string{unavail, ack, ack}},
			cs{name: "interrupted while writing", flags: [][2]string{R, H}, steps: chat(2000, 10), bg: func(p *os.Process) { time.Sleep(400 * time.Millisecond); p.Signal(syscall.SIGINT) }},
			cs{name: "files missing", flags: [][2]string{R, {"creates", "a"}, {"creates", "b"}, {"creates", "c"}}, steps: chat(20, 0), exit: 1, plan: []string{unavail, ack, nack}},
			cs{name: "files there", flags: [][2]string{{"creates", "/etc"}, {"creates", "/etc/passwd"}, R}, steps: chat(20, 0)},
			cs{name: "daemon", flags: [][2]string{R, {"daemon", "true"}, {"stderr-history", "0"}}, steps: chat(50, 5)},
			cs{name: "giving up", flags: [][2]string{R, H}, steps: chat(30, 5), plan: []string{hang, unavail, hang, nack}, env: []string{"MONNY_VERIF_SEND_TIMEOUT=1s"}},
			cs{name: "giving up at once", flags: [][2]string{R}, steps: chat(60, 10), plan: []string{hang}, env: []string{"MONNY_VERIF_SEND_TIMEOUT=30ms"}, exit: 1},
			cs{name: "stdin relayed", flags: [][2]string{R}, steps: with(chat(20, 5), Step{Op: "stdin", Path: "in"}), stdin: 300000},
			cs{name: "stdin left", flags: [][2]string{R}, steps: chat(20, 5), stdin: 3000000},
			cs{name: "rate", lib: true, flags: [][2]string{R, {"quantity", "3"}}, steps: chat(60, 4), plan: []string{unavail, ack}},
			cs{name: "rate with period", lib: true, flags: [][2]string{R, {"quantity", "2"}, {"period", "50ms"}, {"timeout-warn", "100ms"}}, steps: chat(80, 10)},
			cs{name: "rate, daemon, memory", lib: true, flags: [][2]string{R, {"quantity", "5"}, {"period", "1h"}, {"memory-warn", "10M"}}, steps: with(chat(60, 40), Step{Op: "alloc", N: 30}), plan: []string{nack, ack}},
			cs{name: "crash reports on", lib: true, flags: [][2]string{R, {"reports-on", ""}}, steps: chat(40, 5), plan: []string{hang, unavail}, env: []string{"MONNY_VERIF_SEND_TIMEOUT=500ms"}},
			cs{name: "volley at the end", flags: [][2]string{R, {"stdout-history", "100"}}, steps: volleys(160)},
			cs{name: "volley, then failure", flags: [][2]string{R, {"stdout-history", "100"}}, steps: volleys(160), exit: 3},
			cs{name: "volley, files missing", flags: [][2]string{R, {"creates", "a"}, {"creates", "/etc"}, {"creates", "b"}}, steps: volleys(160)},
			cs{name: "volley at the warning", flags: [][2]string{R, {"timeout-warn", "200ms"}}, steps: func(*rand.Rand, string) []Step {
				var st []Step
				for i := 0; i < 40; i++ {
					st = append(append(st, volley(4)...), slp(10))
				}
				return st
			}},
			cs{name: "volley at the kill", flags: [][2]string{R, {"timeout-kill", "200ms"}}, steps: func(*rand.Rand, string) []Step {
				var st []Step
				for i := 0; i < 400; i++ {
					st = append(append(st, volley(6)...), slp(10))
				}
				return st
			}},
			cs{name: "many files in turn", flags: wanted(60, 1), steps: volleys(40)},
			cs{name: "many files in rows", flags: wanted(80, 20), steps: volleys(40), exit: 1},
			cs{name: "stderr not writable", full: 2, flags: [][2]string{R, H}, steps: chat(60, 5)},
			cs{name: "stdout not writable", full: 1, flags: [][2]string{R, {"creates", "a"}}, steps: chat(60, 5), exit: 1},
			cs{name: "waited for late", lib: true, pause: 300, flags: [][2]string{R, {"no-notify-on-success", ""}}, steps: chat(20, 0)},
			cs{name: "waited for late, failure", lib: true, pause: 150, flags: [][2]string{R, {"quantity", "7"}}, steps: chat(30, 2), exit: 1, plan: []string{unavail, ack, lost}},
			cs{name: "waited for late, given up", lib: true, pause: 700, flags: [][2]string{R, {"creates", "a"}}, steps: chat(20, 2), plan: []string{hang}, env: []string{"MONNY_VERIF_SEND_TIMEOUT=300ms"}},
			cs{name: "long lines", flags: [][2]string{R, R2}, steps: func(q *rand.Rand, _ string) []Step {
				var st []Step
				for i := 0; i < 12; i++ {
					st = append(st, w(1+i%2, strings.Repeat("ERROR ", 30000)+"\n"))
				}
				return st
			}},
		)
	}
	rec.Pool(8, len(cases), func(i int) {
		c := cases[i]
		q := rec.Rng(fmt.Sprint("case", i))
		dir := Dir()
		defer os.RemoveAll(dir)
		var mu sync.Mutex
		n := 0
		s := NewSrv(func(int, *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			if len(c.plan) == 0 {
				return ack
			}
			n++
			if n > 12 && c.env == nil {
				return ack
			}
			return c.plan[n%len(c.plan)]
		})
		defer s.Close()
		s.delay = func(i int, _ *pb.Report) time.Duration { return time.Duration(i%4) * 7 * time.Millisecond }
		st := c.steps(q, dir)
		for k := range st {
			if st[k].Path != "" {
				st[k].Path = filepath.Join(dir, st[k].Path)
			}
		}
		sc := &Script{Steps: st, Exit: c.exit}
		opts := append([][2]string{{"id", "c15"}, {"host", s.Addr}, {"insecure", "true"}, {"no-error-reports", "true"}}, c.flags...)
		var r Run
		if c.lib {
			var o [][2]string
			on := false
			for _, x := range opts {
				on = on || x[0] == "reports-on"
			}
			for _, x := range opts {
				if x[0] != "reports-on" && !(on && x[0] == "no-error-reports") {
					o = append(o, x)
				}
			}
			roll := ""
			if on {
				roll = "http://" + s.Addr + "/nothing"
			}
			r = lib(dir, sc, o, roll)
			if c.pause > 0 {
				r.Env = append(r.Env, fmt.Sprint("LIBMONNY_PAUSE_MS=", c.pause))
			}
		} else {
			r = Run{Script: sc, Dir: dir, Sep: true}
			for _, x := range opts {
				r.Flags = append(r.Flags, "--"+x[0]+"="+x[1])
			}
		}
		r.Env, r.Bg = append(r.Env, c.env...), c.bg
		if c.full > 0 {
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			must(err)
			defer f.Close()
			if c.full == 1 {
				r.OutF = f
			} else {
				r.ErrF = f
			}
		}
		if c.stdin > 0 {
			r.Stdin = strings.NewReader(strings.Repeat("0123456789", c.stdin/10))
		}
		res := r.Do()
		if res.Crash != "" || res.Hung != "" || res.Unknown != "" {
			rec.Add("runs_crashed_or_stuck", 1) // decided by C01 and C02
		}
		got := s.Got()
		rec.Add("reports_received", len(got))
		rec.Add("runs", 1)
		rec.Case(fmt.Sprint(c.name, brief2(got)), len(got) > 1, map[string]interface{}{"case": c.name, "options": c.flags, "reports": len(got)})
	})
	rec.Finish()
}
