package mon

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// Runs in which the end of the command and another event (a limit, an interrupt) become known to monny
// at about the same time, in an order that is not monny's choice.

// oneOutcome checks that exactly one report of how the run ended was acknowledged before monny ended.
func oneOutcome(rec *vt.Rec, key string, s *Srv, res *Res, wit map[string]interface{}, kinds ...pb.ReportReason) {
	ak := s.Acked(kinds...)
	if len(ak) != 1 {
		rec.Violation(key, fmt.Sprintf("%d reports of the outcome were acknowledged, expected exactly one", len(ak)), wit)
		return
	}
	if ak[0].AckAt.After(res.End) {
		rec.Violation(key, "the report of the outcome was not acknowledged before monny ended", wit)
	}
	if n := len(s.Acked(pb.ReportReason_Success, pb.ReportReason_Failure, pb.ReportReason_Killed)); n != 1 {
		rec.Violation(key, fmt.Sprintf("%d reports of how the run ended", n), wit)
	}
}

// suspended: monny is stopped while the command ends, and finds the end together with an elapsed limit or an interrupt.
func suspended(rec *vt.Rec) {
	n := rec.Pick(32, 400)
	rec.Pool(12, n, func(i int) {
		dir := Dir()
		defer os.RemoveAll(dir)
		s := NewSrv(faultPlan([][]string{nil, nil, {unavail}, {drop}}[i/4%4]))
		defer s.Close()
		p := func(n string) string { return filepath.Join(dir, n) }
		limit, sig, exit := i%4 != 1, i%4 != 0, i%3%2*4
		fl := flags(s, "suspended")
		if limit {
			fl = append(fl, "--timeout-kill=900ms")
		}
		sc := &Script{Exit: exit, Steps: []Step{w(1, "out\n"), mark(p("up")), gate(p("go"))}, Rec: p("rec")}
		timely := make(chan bool, 1)
		bg := func(pr *os.Process) {
			t0 := time.Now()
			for !exists(p("up")) && time.Since(t0) < 20*time.Second {
				time.Sleep(time.Millisecond)
			}
			time.Sleep(100 * time.Millisecond)
			pr.Signal(syscall.SIGSTOP)
			timely <- time.Since(t0) < 700*time.Millisecond
			touch(p("go"))
			childGone(p("rec"), 10*time.Second)
			if sig {
				pr.Signal(syscall.SIGINT)
			}
			if d := 950*time.Millisecond - time.Since(t0); limit && d > 0 {
				time.Sleep(d)
			}
			pr.Signal(syscall.SIGCONT)
		}
		res := Run{Flags: fl, Script: sc, Dir: dir, Bg: bg, Sep: true}.Do()
		wit := map[string]interface{}{"case": "monny is stopped (SIGSTOP) while the command ends by itself", "kill_limit_elapsed_meanwhile": limit, "interrupted_meanwhile": sig, "exit": exit, "server_log": brief(s.Got()), "monny_exit": res.Exit, "monny_signal": res.Sig.String()}
		if !res.Common(rec, "suspended", wit) {
			return
		}
		if res.ChildEnd == nil || !<-timely {
			rec.Add("suspended_not_timely", 1)
			return
		}
		kinds := []pb.ReportReason{outcome(exit), pb.ReportReason_Killed}
		oneOutcome(rec, "suspended:outcome", s, res, wit, kinds...)
		rec.Add("suspended_runs", 1)
		rec.Add("suspended_reported_as_killed", len(s.Acked(pb.ReportReason_Killed)))
		rec.Case(fmt.Sprint("suspended", limit, sig, exit, brief2(s.Got())), true, map[string]interface{}{"case": wit["case"], "limit": limit, "interrupt": sig, "log": brief2(s.Got())})
	})
}

// lingering gives a socket for monny's stdout whose close takes until release is called: the peer does not read.
func lingering() (f *os.File, release func()) {
	lc := net.ListenConfig{Control: func(_, _ string, c syscall.RawConn) error { // inherited by the accepted connection
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 16384) })
	}}
	l, err := lc.Listen(context.Background(), "tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	acc := make(chan *net.TCPConn, 1)
	go func() {
		c, err := l.Accept()
		must(err)
		acc <- c.(*net.TCPConn)
	}()
	d := net.Dialer{}
	c, err := d.Dial("tcp", l.Addr().String())
	must(err)
	peer := <-acc
	tc := c.(*net.TCPConn)
	must(tc.SetWriteBuffer(4 << 20))
	must(tc.SetLinger(60))
	f, err = tc.File() // a duplicate, blocking
	must(err)
	tc.Close()
	return f, func() {
		peer.SetReadBuffer(4 << 20)
		go func() { io.Copy(io.Discard, peer); peer.Close() }()
	}
}

// flushing: the command has ended, but monny's stdout takes long to take the last output, when the limit elapses or
// the interrupt comes.
func flushing(rec *vt.Rec, key string, interrupt bool) {
	n := rec.Pick(8, 60)
	rec.Pool(8, n, func(i int) {
		dir := Dir()
		defer os.RemoveAll(dir)
		s := NewSrv(faultPlan([][]string{nil, {unavail}}[i/4%2]))
		defer s.Close()
		p := func(n string) string { return filepath.Join(dir, n) }
		f, release := lingering()
		exit := i % 2 * 3
		fl := flags(s, "flushing")
		if !interrupt || i%4 > 1 {
			fl = append(fl, []string{"--timeout-kill=2500ms", "--timeout-warn=2500ms"}[i/2%2])
		}
		var data []byte
		for len(data) < 150<<10 {
			data = append(data, fmt.Sprintf("line %d %s\n", len(data), "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")...)
		}
		sc := &Script{Exit: exit, Steps: []Step{gate(p("go")), wb(1, data)}, Rec: p("rec")}
		sent := false
		over := make(chan struct{})
		bg := func(pr *os.Process) {
			defer close(over)
			f.Close() // monny has the only descriptor now
			touch(p("go"))
			t0 := time.Now()
			for !exists(p("rec")) && time.Since(t0) < 20*time.Second {
				time.Sleep(5 * time.Millisecond)
			}
			reaped := false
			for lim := time.Now().Add(20 * time.Second); !reaped && time.Now().Before(lim); time.Sleep(5 * time.Millisecond) {
				reaped = childReaped(p("rec"))
			}
			if interrupt && reaped && procState(pr.Pid) != 0 && procState(pr.Pid) != 'Z' {
				sent = true
				pr.Signal(syscall.SIGINT)
				time.Sleep(300 * time.Millisecond)
			}
			if d := 3*time.Second - time.Since(t0); d > 0 {
				time.Sleep(d)
			}
			release()
		}
		res := Run{Flags: fl, Script: sc, Dir: dir, Bg: bg, OutF: f, Sep: true, Pend: func() bool {
			select {
			case <-over:
				return false
			default:
				return true
			}
		}}.Do()
		<-over
		wit := map[string]interface{}{"case": "the command has ended, but whoever reads monny's output does not take it yet (close of the socket lingers)", "flags": fl, "interrupted_after_the_end": sent, "exit": exit, "server_log": brief(s.Got()), "monny_exit": res.Exit, "monny_signal": res.Sig.String(), "child_end": res.ChildEnd}
		if !res.Common(rec, key, wit) {
			return
		}
		t, _ := res.ChildEnd["t"].(float64)
		if res.ChildEnd == nil || time.Unix(0, int64(t)).Sub(res.Start) > 2*time.Second {
			rec.Add("flushing_not_timely", 1)
			return
		}
		if interrupt {
			oneOutcome(rec, key+":flushing", s, res, wit, outcome(exit), pb.ReportReason_Killed)
		} else {
			if len(s.Received(pb.ReportReason_Killed)) > 0 {
				rec.Violation(key+":falsekill", "a command that ended before its limit was reported as killed", wit)
			}
			if len(s.Received(pb.ReportReason_TimeWarning)) > 0 {
				rec.Violation(key+":falsewarn", "a time warning was sent for a command that ended before the limit", wit)
			}
			oneOutcome(rec, key+":flushing", s, res, wit, outcome(exit))
		}
		if res.End.Sub(res.Start) > 2500*time.Millisecond {
			rec.Add("flushing_runs", 1)
		}
		rec.Case(fmt.Sprint("flushing", fl[len(fl)-1], exit, sent, brief2(s.Got())), true, map[string]interface{}{"case": wit["case"], "log": brief2(s.Got())})
	})
}

// childReaped tells whether the process recorded at path is gone, not even a zombie.
func childReaped(path string) bool {
	pid := recPid(path)
	return pid != 0 && procState(pid) == 0
}

// atOnce: monny is interrupted by the first thing the command does.  Monny's system calls are delayed
// (strace), so that also the moments right after the start of the command are met.
func atOnce(rec *vt.Rec) {
	strace, err := exec.LookPath("strace")
	if err == nil {
		err = exec.Command(strace, "-f", "-o", "/dev/null", "-e", "trace=close", "-e", "inject=close:delay_enter=1", "/bin/true").Run()
	}
	if err != nil {
		rec.Add("strace_not_usable", 1)
	}
	n := rec.Pick(14, 120)
	rec.Pool(7, n, func(i int) {
		dir := Dir()
		defer os.RemoveAll(dir)
		s := NewSrv(nil)
		defer s.Close()
		p := func(n string) string { return filepath.Join(dir, n) }
		run := Run{Flags: flags(s, "at-once", []string{"--no-notify-on-success", "--daemon", "--timeout-kill=10m"}[i%3]), Dir: dir, Sep: true,
			Cmd: []string{"/bin/sh", "-c", "echo $$ >" + p("pid") + "; kill -INT $PPID; exec sleep 20"}}
		if _, err := os.Stat("/usr/bin/perl"); err == nil {
			// it leaves the interrupt's effect alone, shells catch it and may lose it when they exec
			run.Cmd = []string{"/usr/bin/perl", "-e", "open F, '>', '" + p("pid") + "'; print F $$; close F; kill 2, getppid; sleep 20"}
		}
		how := "not traced"
		if err == nil && i%7 > 0 {
			d := []int{300, 1000, 3000, 10000, 500, 2000, 6000}[i%7]
			calls := []string{"close", "close,getpid", "close,futex,read"}[i/7%3]
			how = fmt.Sprintf("%s delayed by %d us", calls, d)
			run.Bin = strace
			run.Flags = append([]string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:delay_enter=%d", calls, d), monnyBin}, run.Flags...)
		}
		gone := true
		run.After = func() {
			lim := time.Now().Add(10 * time.Second)
			for !exists(p("pid")) && time.Now().Before(lim) {
				time.Sleep(10 * time.Millisecond)
			}
			pid := 0
			fmt.Sscan(string(readFile(p("pid"))), &pid)
			for gone = false; !gone && time.Now().Before(lim) && pid > 0; time.Sleep(10 * time.Millisecond) {
				st := procState(pid)
				gone = st == 0 || st == 'Z' || st == 'X'
			}
		}
		res := run.Do()
		wit := map[string]interface{}{"case": "interrupted by the first thing the command does", "system_calls": how, "server_log": brief(s.Got()), "monny_exit": res.Exit, "monny_signal": res.Sig.String()}
		if !res.Common(rec, "atonce", wit) {
			return
		}
		if res.Sig != 0 {
			rec.Violation("atonce:died", "monny died from "+res.Sig.String()+" instead of handling it", wit)
		}
		oneOutcome(rec, "atonce:report", s, res, wit, pb.ReportReason_Killed)
		for _, g := range s.Acked(pb.ReportReason_Killed) {
			if g.Rep.KillReason != pb.KillReason_Signal {
				rec.Violation("atonce:facts", "reported as killed for "+g.Rep.KillReason.String(), wit)
			}
		}
		if !gone {
			rec.Violation("atonce:notpassed", "the command still runs although the interrupt ends it", wit)
		}
		rec.Add("interrupts_at_once", 1)
		rec.Case(fmt.Sprint("at once", how, brief2(s.Got())), true, map[string]interface{}{"case": wit["case"], "system_calls": how, "log": brief2(s.Got())})
	})
}
