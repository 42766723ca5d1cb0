package mon

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// watcher reads a stream and touches seen<N> when line "N ..." has come through.
func watcher(dir, prefix string, stall func()) (wr *os.File, done chan struct{}, count func() int) {
	pr, pw, err := os.Pipe()
	must(err)
	done = make(chan struct{})
	var mu sync.Mutex
	n := 0
	go func() {
		defer close(done)
		defer pr.Close()
		if stall != nil {
			stall()
		}
		var rest []byte
		b := make([]byte, 64<<10)
		for {
			k, err := pr.Read(b)
			rest = append(rest, b[:k]...)
			for {
				i := bytes.IndexByte(rest, '\n')
				if i < 0 {
					break
				}
				mu.Lock()
				n++
				mu.Unlock()
				l := string(rest[:i])
				rest = rest[i+1:]
				if strings.HasPrefix(l, "#") {
					touch(filepath.Join(dir, prefix+strings.Fields(l)[0][1:]))
				}
			}
			if err != nil {
				return
			}
		}
	}()
	return pw, done, func() int { mu.Lock(); defer mu.Unlock(); return n }
}

// TestC39 checks that streams pass through at once and independently of each other and of reports.
func TestC39(t *testing.T) {
	rec := vt.New(t, "C39", "a case is one run whose command writes a line and then waits until that line has come out of monny before it goes on (or, for input, whose writer waits until the command has read a piece before it sends the next), while the other stream is unread, reports are unanswered or refused, the server is down, or memory and time limits are active; non-trivial always; distinct by the pattern of the conversation")
	type kase struct {
		name   string
		flags  []string
		steps  func(dir string) []Step
		act    string // what the server does with alerts
		hold   bool   // alerts are unanswered until all lines have come through
		stall  int    // this stream is not read until the end
		kill   bool
		down   bool
		chunks [][]byte // conversation on stdin
		quick  bool     // the exchanges together must not take long, else it is tried again
	}
	pad := func(n int) string { return strings.Repeat("x", n) }
	line := func(fd, k, size int, text string) []Step {
		return []Step{w(fd, fmt.Sprintf("#%d.%d %s%s\n", fd, k, text, pad(size)))}
	}
	see := func(dir string, fd, k int) Step {
		return Step{Op: "gate", Path: filepath.Join(dir, fmt.Sprintf("seen%d.%d", fd, k)), Ms: 30000}
	}
	ladder := func(fds []int, n int, sizes []int, text string, between ...Step) func(string) []Step {
		return func(dir string) []Step {
			var st []Step
			for k := 0; k < n; k++ {
				fd := fds[k%len(fds)]
				st = append(st, line(fd, k, sizes[k%len(sizes)], text)...)
				st = append(st, see(dir, fd, k))
				st = append(st, between...)
			}
			return st
		}
	}
	var cases []kase
	for rep := 0; rep < rec.Pick(1, 10); rep++ {
		for _, fds := range [][]int{{1}, {2}, {1, 2}, {1, 1, 2}} {
			for _, sizes := range [][]int{{0}, {10, 4080, 4090, 5000}, {70000, 3}, {300000}} {
				cases = append(cases, kase{name: fmt.Sprint("conversation ", fds, sizes), steps: ladder(fds, 8, sizes, "")})
			}
			cases = append(cases,
				kase{name: fmt.Sprint("matching, unanswered ", fds), flags: []string{"--rule=ALERT"}, hold: true, steps: ladder(fds, 12, []int{20}, "ALERT ")},
				// the time for one exchange is a few milliseconds; a fixed delay per line adds up
				kase{name: fmt.Sprint("long conversation ", fds), quick: true, steps: func(dir string) []Step {
					return append([]Step{{Op: "deadline", Ms: 40000}}, ladder(fds, 250, []int{30}, "")(dir)...)
				}},
				kase{name: fmt.Sprint("many unanswered ", fds), flags: []string{"--rule=ALERT"}, hold: true, steps: func(dir string) []Step {
					var st []Step
					for k := 0; k < rec.Pick(300, 1200); k++ {
						st = append(st, w(fds[k%len(fds)], fmt.Sprintf("ALERT %d\n", k)))
					}
					return append(st, ladder(fds, 3, []int{20}, "ALERT ")(dir)...)
				}},
				kase{name: fmt.Sprint("very many unanswered ", fds), flags: []string{"--rule=ALERT"}, hold: true, steps: func(dir string) []Step {
					var st []Step
					n := rec.Pick(1500, 5000)
					if len(fds) != 2 {
						n = 10
					}
					for k := 0; k < n; k++ {
						st = append(st, w(fds[k%len(fds)], fmt.Sprintf("ALERT %d\n", k)))
						if k%100 == 99 {
							st = append(st, slp(40))
						}
					}
					return append(st, ladder(fds, 3, []int{20}, "ALERT ")(dir)...)
				}},
				kase{name: fmt.Sprint("matching, refused ", fds), flags: []string{"--rule=ALERT"}, act: "once", steps: ladder(fds, 6, []int{20}, "ALERT ")},
				kase{name: fmt.Sprint("rules that do not match ", fds), flags: []string{"--rule=ZZZ", "--rule-json=a.b:x", "--stdout-history=3"}, steps: ladder(fds, 12, []int{20, 9000}, "")},
				kase{name: fmt.Sprint("no history ", fds), flags: []string{"--stdout-history=0", "--stderr-history=0"}, steps: ladder(fds, 6, []int{20}, "")},
				kase{name: fmt.Sprint("with limits ", fds), flags: []string{"--timeout-warn=20ms", "--timeout-kill=5m", "--memory-warn=8G"}, hold: true, steps: ladder(fds, 4, []int{20}, "", slp(400))},
				kase{name: fmt.Sprint("daemon ", fds), flags: []string{"--daemon"}, steps: ladder(fds, 6, []int{5}, "", slp(20))},
			)
		}
		// a limit's report is unanswered when the next limit is reached
		cases = append(cases,
			kase{name: "warning unanswered, killed at the limit", kill: true, hold: true, flags: []string{"--timeout-warn=100ms", "--timeout-kill=1200ms"}, steps: func(dir string) []Step {
				return append(ladder([]int{1, 2}, 4, []int{20}, "")(dir), slp(15000))
			}},
			kase{name: "memory warning unanswered, killed at the time limit", kill: true, hold: true, flags: []string{"--memory-warn=20M", "--timeout-kill=3500ms"}, steps: func(dir string) []Step {
				return append(append([]Step{{Op: "alloc", N: 40}, {Op: "gate", Path: filepath.Join(dir, "memwarned"), Ms: 15000}}, ladder([]int{1, 2}, 4, []int{20}, "")(dir)...), slp(15000))
			}},
			kase{name: "memory warning unanswered, killed at the memory limit", kill: true, hold: true, flags: []string{"--memory-warn=20M", "--memory-kill=80M"}, steps: func(dir string) []Step {
				return append(append([]Step{{Op: "alloc", N: 40}, {Op: "gate", Path: filepath.Join(dir, "memwarned"), Ms: 15000}}, ladder([]int{1, 2}, 4, []int{20}, "")(dir)...), Step{Op: "alloc", N: 80}, slp(15000))
			}},
			kase{name: "warnings unanswered, lines go on", hold: true, flags: []string{"--timeout-warn=100ms", "--memory-warn=20M"}, steps: func(dir string) []Step {
				return append([]Step{{Op: "alloc", N: 40}, {Op: "gate", Path: filepath.Join(dir, "memwarned"), Ms: 15000}}, ladder([]int{1, 2}, 6, []int{20, 70000}, "", slp(50))(dir)...)
			}},
		)
		for _, st := range []int{1, 2} {
			st := st
			o := 3 - st
			flood := func(n int) Step {
				return Step{Op: "w", Fd: st, Data: []byte(pad(99) + "\n"), Rep: n}
			}
			cases = append(cases,
				// 100 KB fill the unread pipe behind monny and leave room in the one before it
				kase{name: fmt.Sprint("other stream unread ", st), stall: st, steps: func(dir string) []Step {
					return append([]Step{flood(1000)}, ladder([]int{o}, 10, []int{10, 5000}, "")(dir)...)
				}},
				kase{name: fmt.Sprint("other stream unread, matching ", st), stall: st, flags: []string{"--rule=ALERT"}, steps: func(dir string) []Step {
					return append(append([]Step{flood(1000)}, ladder([]int{o}, 3, []int{10}, "ALERT ")(dir)...), Step{Op: "gate", Path: filepath.Join(dir, "alerted"), Ms: 30000})
				}},
				kase{name: fmt.Sprint("unread, killed at the limit ", st), stall: st, kill: true, flags: []string{"--timeout-kill=900ms"}, steps: func(dir string) []Step {
					return []Step{flood(1000), slp(40000)}
				}},
				kase{name: fmt.Sprint("unread and blocked, killed at the limit ", st), stall: st, kill: true, flags: []string{"--timeout-kill=900ms", "--rule=xx"}, steps: func(dir string) []Step {
					return []Step{flood(10000), slp(40000)}
				}},
				kase{name: fmt.Sprint("closed other stream ", st), steps: func(dir string) []Step {
					return append([]Step{{Op: "close", Fd: st}}, ladder([]int{o}, 6, []int{10}, "")(dir)...)
				}},
			)
		}
		var big [][]byte
		for _, n := range []int{1, 1, 5, 4096, 100, 65536, 1, 70000, 3} {
			big = append(big, bytes.Repeat([]byte{byte('a' + len(big))}, n))
		}
		for _, ch := range [][][]byte{{[]byte("a"), []byte("b\n"), []byte("\n"), []byte("\x00")}, big} {
			cases = append(cases,
				kase{name: "input in pieces", chunks: ch},
				kase{name: "input in pieces, with rules", chunks: ch, flags: []string{"--rule=ALERT"}},
				kase{name: "input in pieces, output unread", chunks: ch, stall: 1, steps: func(dir string) []Step {
					return []Step{{Op: "w", Fd: 1, Data: []byte(pad(99) + "\n"), Rep: 1000}}
				}})
		}
	}
	var one func(c kase, try int)
	one = func(c kase, try int) {
		dir := Dir()
		defer os.RemoveAll(dir)
		p := func(n string) string { return filepath.Join(dir, n) }
		var mu sync.Mutex
		tries := map[string]int{}
		s := NewSrv(func(_ int, rep *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			k := string(rep.Matches)
			tries[k]++
			if c.act == "once" && rep.ReportReason == pb.ReportReason_Alert && tries[k] == 1 {
				return unavail
			}
			return ack
		})
		defer s.Close()
		s.onGot = func(_ int, rep *pb.Report) {
			switch rep.ReportReason {
			case pb.ReportReason_Alert:
				touch(p("alerted"))
			case pb.ReportReason_MemoryWarning:
				touch(p("memwarned"))
			case pb.ReportReason_Killed:
				touch(p("killed"))
			}
		}
		if c.hold {
			s.holdOn = func(_ int, rep *pb.Report) string {
				switch rep.ReportReason {
				case pb.ReportReason_Alert, pb.ReportReason_TimeWarning, pb.ReportReason_MemoryWarning:
					if c.kill {
						return p("killed")
					}
					return p("end")
				}
				return ""
			}
		}
		sc := &Script{Rec: p("rec"), End: p("end")}
		if c.steps != nil {
			sc.Steps = c.steps(dir)
		}
		var in io.Reader
		fed := make(chan bool, 1)
		if c.chunks != nil {
			pr, pw := io.Pipe()
			in = pr
			for k, ch := range c.chunks {
				sc.Steps = append(sc.Steps, Step{Op: "stdin", Path: p(fmt.Sprint("in", k)), N: len(ch)})
			}
			go func() {
				defer pw.Close()
				for k, ch := range c.chunks {
					pw.Write(ch)
					ok := false
					for lim := time.Now().Add(30 * time.Second); !ok && time.Now().Before(lim); time.Sleep(3 * time.Millisecond) {
						ok = exists(p(fmt.Sprint("in", k, ".n")))
					}
					if !ok {
						fed <- false
						return
					}
				}
				fed <- true
			}()
		}
		release := make(chan struct{})
		var once sync.Once
		free := func() { once.Do(func() { close(release) }) }
		wait := func(fd int) func() {
			if c.stall != fd {
				return nil
			}
			return func() { <-release }
		}
		of, od, _ := watcher(dir, "seen", wait(1))
		ef, ed, _ := watcher(dir, "seen", wait(2))
		bg := func(*os.Process) {
			// the unread stream is read once the command has ended
			for lim := time.Now().Add(70 * time.Second); time.Now().Before(lim) && !exists(p("end")); time.Sleep(5 * time.Millisecond) {
				if c.kill { // never read before monny has ended
					select {
					case <-release:
						return
					default:
					}
				}
			}
			if c.kill && c.hold {
				touch(p("killed")) // the command came to its end instead
			}
			if !c.kill {
				free()
			}
		}
		gone := true
		r := Run{Flags: append(append(flags(s, "prompt"), c.flags...), further(rec.Rng(fmt.Sprint("further", c.name, c.flags, len(c.chunks))), c.flags)...), Script: sc, Dir: dir, Sep: true, OutF: of, ErrF: ef, Bg: bg, Stdin: in, After: func() {
			gone = childGone(sc.Rec, 8*time.Second)
			free()
		}}
		res := r.Do()
		free()
		of.Close()
		ef.Close()
		<-od
		<-ed
		got := s.Got()
		wit := map[string]interface{}{"case": c.name, "flags": c.flags, "steps": describe(sc.Steps), "server_log": brief(got), "child_end": res.ChildEnd}
		if !res.Common(rec, "prompt", wit) {
			return
		}
		if c.kill {
			if len(s.Acked(pb.ReportReason_Killed)) != 1 || !gone {
				rec.Violation("prompt:kill", fmt.Sprintf("a command exceeded its limit while reports or output were not taken: %d kill reports, command gone: %v", len(s.Acked(pb.ReportReason_Killed)), gone), wit)
			}
		} else {
			if res.ChildEnd == nil {
				rec.Violation("prompt:end", "the command did not come to its end", wit)
				return
			}
			if m, ok := res.ChildEnd["missed"].([]interface{}); ok && len(m) > 0 {
				if c.quick && try < 2 { // a busy machine
					one(c, try+1)
					return
				}
				what := "a line written by the command did not come out while the command waited for it"
				if strings.HasSuffix(fmt.Sprint(m[0]), "alerted") {
					what = "an alert was not sent while the command waited for it"
				}
				rec.Violation("prompt:withheld", what, wit)
			}
		}
		if c.chunks != nil {
			select {
			case ok := <-fed:
				if !ok {
					rec.Violation("prompt:input", "a piece of the input did not reach the command before more was written", wit)
				}
			case <-time.After(5 * time.Second):
				rec.Violation("prompt:input", "the input was not consumed", wit)
			}
			for k, ch := range c.chunks {
				if !bytes.Equal(readFile(p(fmt.Sprint("in", k))), ch) {
					rec.Violation("prompt:input", fmt.Sprintf("piece %d of the input arrived altered", k), wit)
				}
			}
		}
		rec.Add("lines_awaited", strings.Count(fmt.Sprint(describe(sc.Steps)), "gate"))
		rec.Case(fmt.Sprint(c.name, c.flags, brief2(got)), true, map[string]interface{}{"case": c.name, "flags": c.flags, "log": brief2(got)})
	}
	rec.Pool(12, len(cases), func(i int) { one(cases[i], 0) })
	rec.Finish()
}
