package mon

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// sampling tells whether the process has another one's memory map open.
func sampling(pid int) bool {
	dir := fmt.Sprintf("/proc/%d/fd", pid)
	d, err := os.Open(dir)
	if err != nil {
		return false
	}
	defer d.Close()
	names, _ := d.Readdirnames(-1)
	for _, n := range names {
		if l, _ := os.Readlink(dir + "/" + n); strings.HasSuffix(l, "/smaps") {
			return true
		}
	}
	return false
}

// TestC37 checks what happens when monny itself is interrupted.
func TestC37(t *testing.T) {
	rec := vt.New(t, "C37", "a case is one run in which monny gets an interrupt signal once its event loop is known to run (the time warning, or an alert after it, has arrived at the server); the command records the signal, dies from it, ignores it, or writes on; sends are refused, dropped, delayed or unacknowledged at first; non-trivial always; distinct by options, command and received log")
	type kase struct {
		name   string
		flags  []string
		pre    []Step // before waiting for the signal
		post   []Step // after the signal was recorded
		mode   string // catch, default, ignore
		exit   int
		faults []string
		alert  bool // interrupt only after an alert arrived
		many   int  // so many more alerts before
		hold   bool // alerts are unanswered until after the interrupt
		sample bool // interrupt while the command's memory is being sampled
		warned bool // interrupt only after the memory warning
		noint  bool // monny is started with interrupts ignored
		warn   bool // the warnings are unanswered until after the interrupt
		again  int  // so many further interrupts while the report is unanswered
	}
	var cases []kase
	for rep := 0; rep < rec.Pick(1, 12); rep++ {
		for _, mode := range []string{"catch", "default", "ignore"} {
			for n, f := range [][]string{nil, {unavail}, {nack, intern}, {drop}, {lost}, {"code4", "code13"}} {
				for e := 0; e < 2; e++ {
					k := kase{name: fmt.Sprint("plain ", n), mode: mode, exit: e * 5, faults: f}
					switch (n + e) % 4 {
					case 1:
						k.flags = []string{"--no-notify-on-success", "--no-notify-on-failure"}
					case 2:
						k.flags = []string{"--daemon"}
					case 3:
						k.flags = []string{"--creates=nofile"}
					}
					cases = append(cases, k)
				}
			}
			var busy []Step
			for i := 0; i < 400; i++ {
				busy = append(busy, w(1+i%2, fmt.Sprintf("line %d\n", i)))
			}
			cases = append(cases,
				kase{name: "writes before", mode: mode, pre: busy},
				kase{name: "writes after", mode: mode, post: busy, exit: 3},
				kase{name: "limits far away", mode: mode, flags: []string{"--timeout-kill=10m", "--memory-kill=8G", "--memory-warn=4G"}},
				kase{name: "after an alert", mode: mode, flags: []string{"--rule=ALERT"}, alert: true},
				kase{name: "while an alert is unanswered", mode: mode, flags: []string{"--rule=ALERT"}, alert: true, hold: true},
				kase{name: "while many alerts are unanswered", mode: mode, flags: []string{"--rule=ALERT"}, alert: true, hold: true, many: 60, exit: 1},
				kase{name: "while a warning is unanswered", mode: mode, warn: true},
				kase{name: "while warnings are unanswered", mode: mode, warn: true, warned: true, exit: 4, flags: []string{"--memory-warn=20M", "--memory-kill=8G"}, pre: []Step{{Op: "alloc", N: 40}, gate("memwarned")}},
				kase{name: "interrupted again", mode: mode, again: 1},
				kase{name: "interrupted again and again", mode: mode, again: 5, faults: []string{unavail}, exit: 1},
				kase{name: "while memory is sampled", mode: mode, sample: true, pre: []Step{{Op: "maps", N: 25000}}},
				kase{name: "while memory is sampled, daemon's limits", mode: mode, sample: true, exit: 1, flags: []string{"--memory-warn=8G", "--memory-kill=8G"}, pre: []Step{{Op: "maps", N: 25000}}, post: busy},
				kase{name: "after a memory warning", mode: mode, warned: true, flags: []string{"--memory-warn=20M"}, pre: []Step{{Op: "alloc", N: 40}, gate("memwarned")}},
				kase{name: "after all warnings", mode: mode, warned: true, alert: true, exit: 2, flags: []string{"--memory-warn=20M", "--memory-kill=8G", "--timeout-kill=10m", "--rule=ALERT"}, pre: []Step{{Op: "alloc", N: 40}, gate("memwarned")}, faults: []string{nack}},
				kase{name: "started with interrupts ignored", mode: mode, noint: true},
				kase{name: "late", mode: mode, pre: []Step{slp(1500)}, flags: []string{"--memory-warn=4G"}},
				kase{name: "closed streams", mode: mode, pre: []Step{{Op: "close", Fd: 1}, {Op: "close", Fd: 2}}},
			)
		}
	}
	rec.Pool(16, len(cases), func(i int) {
		c := cases[i]
		dir := Dir()
		defer os.RemoveAll(dir)
		var mu sync.Mutex
		killedN, alerts := 0, 0
		s := NewSrv(func(_ int, rep *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			if rep.ReportReason == pb.ReportReason_Killed {
				killedN++
				if killedN <= len(c.faults) {
					return c.faults[killedN-1]
				}
			}
			return ack
		})
		defer s.Close()
		p := func(n string) string { return filepath.Join(dir, n) }
		s.onGot = func(_ int, rep *pb.Report) {
			switch rep.ReportReason {
			case pb.ReportReason_TimeWarning:
				touch(p("looping"))
			case pb.ReportReason_MemoryWarning:
				touch(p("memwarned"))
			case pb.ReportReason_Alert:
				mu.Lock()
				alerts++
				all := alerts > c.many
				mu.Unlock()
				if all {
					touch(p("alerted"))
				}
			case pb.ReportReason_Killed:
				touch(p("reported"))
			}
		}
		if c.hold {
			s.holdOn = func(_ int, rep *pb.Report) string {
				if rep.ReportReason == pb.ReportReason_Alert {
					return p("interrupted")
				}
				return ""
			}
		}
		if c.warn {
			s.holdOn = func(_ int, rep *pb.Report) string {
				if rep.ReportReason == pb.ReportReason_TimeWarning || rep.ReportReason == pb.ReportReason_MemoryWarning {
					return p("interrupted")
				}
				return ""
			}
		}
		if c.again > 0 {
			s.holdOn = func(_ int, rep *pb.Report) string {
				if rep.ReportReason == pb.ReportReason_Killed {
					return p("interrupted")
				}
				return ""
			}
		}
		sc := &Script{Exit: c.exit, Rec: p("rec"), End: p("end")}
		sc.Steps = append(sc.Steps, gate(p("looping")))
		for _, st := range c.pre {
			if st.Path != "" {
				st.Path = p(st.Path)
			}
			sc.Steps = append(sc.Steps, st)
		}
		for k := 0; k < c.many; k++ {
			sc.Steps = append(sc.Steps, w(1+k%2, fmt.Sprintf("ALERT %d\n", k)))
		}
		if c.alert {
			sc.Steps = append(sc.Steps, w(1, "ALERT now\n"))
		}
		switch c.mode {
		case "catch":
			sc.Steps = append(sc.Steps, Step{Op: "catch", N: int(syscall.SIGINT), Path: p("sig")})
		case "ignore":
			sc.Steps = append(sc.Steps, Step{Op: "ignore", N: int(syscall.SIGINT)}, mark(p("sig.ready")), gate(p("over")))
		default:
			sc.Steps = append(sc.Steps, Step{Op: "default", N: int(syscall.SIGINT)}, mark(p("sig.ready")), slp(30000))
		}
		if c.mode == "catch" && len(c.post) == 0 {
			sc.Steps = append(sc.Steps, gate(p("over"))) // cleans up for longer than monny runs
		}
		sc.Steps = append(sc.Steps, c.post...)
		var sentAt time.Time
		wait := func(path string, max time.Duration) bool {
			for lim := time.Now().Add(max); time.Now().Before(lim); time.Sleep(3 * time.Millisecond) {
				if exists(path) {
					return true
				}
			}
			return false
		}
		sent := make(chan bool, 1)
		bg := func(pr *os.Process) {
			ok := wait(p("sig.ready"), 60*time.Second) && (!c.alert || wait(p("alerted"), 20*time.Second))
			if ok && c.sample {
				for lim := time.Now().Add(8 * time.Second); !sampling(pr.Pid); {
					if time.Now().After(lim) {
						rec.Add("sampling_not_seen", 1)
						break
					}
				}
			}
			if ok {
				mu.Lock()
				sentAt = time.Now()
				mu.Unlock()
				pr.Signal(syscall.SIGINT)
			}
			if c.again > 0 && wait(p("reported"), 30*time.Second) {
				// the report waits for its answer while the user becomes impatient
				for k := 0; k < c.again; k++ {
					pr.Signal(syscall.SIGINT)
					time.Sleep(30 * time.Millisecond)
				}
			}
			if c.warn && c.mode == "catch" {
				wait(p("sig"), 20*time.Second)
			}
			if c.warn && c.mode == "default" {
				childGone(p("rec"), 10*time.Second)
			}
			if c.hold || c.warn || c.again > 0 {
				time.Sleep(300 * time.Millisecond)
				touch(p("interrupted"))
			}
			sent <- ok
		}
		gone, sawSig, wentOn := false, false, true
		r := Run{Flags: append(append(flags(s, "interrupt", "--timeout-warn=30ms"), c.flags...), further(rec.Rng(fmt.Sprint("further", i)), append([]string{"--timeout-warn"}, c.flags...))...), Script: sc, Dir: dir, Sep: true, Bg: bg, After: func() {
			// the command got the signal before monny ended, but may be scheduled later
			if c.mode == "catch" {
				sawSig = wait(p("sig"), 15*time.Second)
			}
			if c.mode == "default" {
				gone = childGone(sc.Rec, 15*time.Second)
			}
			touch(p("over"))
			if c.mode != "default" && len(c.post) == 0 {
				// it may take its time, but nothing ends it
				wentOn = wait(p("end"), 15*time.Second)
			}
		}}
		if c.noint {
			r.Bin = "/bin/sh"
			r.Flags = append([]string{"-c", `trap "" INT; exec "$0" "$@"`, monnyBin}, r.Flags...)
		}
		if c.mode == "ignore" {
			// monny may well wait for a command that ignores the interrupt
			r.Pend = nil
		}
		res := r.Do()
		got := s.Got()
		wit := map[string]interface{}{"case": c.name, "command": c.mode, "flags": c.flags, "faults": c.faults, "exit": c.exit, "server_log": brief(got), "monny_exit": res.Exit, "monny_signal": res.Sig.String()}
		if !res.Common(rec, "interrupt", wit) {
			return
		}
		ok := false
		select {
		case ok = <-sent:
		case <-time.After(time.Second):
		}
		if !ok || res.ChildRec == nil {
			rec.Inconclusive("the signal could not be sent: " + fmt.Sprint(wit))
			return
		}
		mu.Lock()
		at := sentAt
		mu.Unlock()
		ak := s.Acked(pb.ReportReason_Killed)
		if len(ak) != 1 {
			rec.Violation("interrupt:report", fmt.Sprintf("%d acknowledged reports of the interrupted run, expected exactly one", len(ak)), wit)
		}
		for _, g := range s.Received(pb.ReportReason_Killed) {
			if !g.Rep.Killed || g.Rep.KillReason != pb.KillReason_Signal || g.Rep.Success {
				rec.Violation("interrupt:facts", fmt.Sprintf("the report has killed=%v reason=%v success=%v", g.Rep.Killed, g.Rep.KillReason, g.Rep.Success), wit)
			}
			d, err := time.ParseDuration(g.Rep.Duration)
			if ct, isF := res.ChildRec["t"].(float64); isF {
				least := at.Sub(time.Unix(0, int64(ct)))
				if err != nil || d < least || d > res.End.Sub(res.Start) {
					rec.Violation("interrupt:duration", fmt.Sprintf("the report gives %q; the command had run for %v when the signal was sent", g.Rep.Duration, least), wit)
				}
			}
			if g.At.Before(at) {
				rec.Violation("interrupt:early", "reported as killed before the signal was sent", wit)
			}
		}
		for _, g := range ak {
			if g.AckAt.After(res.End) {
				rec.Violation("interrupt:late", "the report was not acknowledged before monny ended", wit)
			}
		}
		if n := len(s.Received(pb.ReportReason_Success)); n > 0 {
			rec.Violation("interrupt:success", "an interrupted run was reported as success", wit)
		}
		if c.alert && len(s.Acked(pb.ReportReason_Alert)) != 1+c.many {
			rec.Violation("interrupt:alert", fmt.Sprintf("%d alerts acknowledged, expected the %d sent before the interrupt", len(s.Acked(pb.ReportReason_Alert)), 1+c.many), wit)
		}
		switch c.mode {
		case "catch":
			if !sawSig {
				rec.Violation("interrupt:notpassed", "the command did not get the interrupt", wit)
			} else if b := string(readFile(p("sig"))); b != `"interrupt"` {
				rec.Violation("interrupt:notpassed", "the command got "+b+" instead of the interrupt", wit)
			}
		case "default":
			if !gone {
				rec.Violation("interrupt:notpassed", "the command still runs although the interrupt ends it", wit)
			}
		}
		if !wentOn {
			rec.Violation("interrupt:ended", "the command that does not end on the interrupt did not reach its own end", wit)
		}
		if res.Sig != 0 {
			rec.Violation("interrupt:died", "monny itself died from "+res.Sig.String()+" instead of handling it", wit)
		}
		rec.Add("interrupts_sent", 1)
		rec.Add("kill_reports", len(s.Received(pb.ReportReason_Killed)))
		rec.Case(fmt.Sprint(c.name, c.mode, c.flags, c.exit, brief2(got)), true, map[string]interface{}{"case": c.name, "command": c.mode, "flags": c.flags, "log": brief2(got)})
	})
	flushing(rec, "interrupt", true)
	atOnce(rec)
	rec.Finish()
}
