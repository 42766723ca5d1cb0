package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// outcome is the oracle for the final report of a run that monny did not kill.
func outcome(exit int) pb.ReportReason {
	if exit == 0 {
		return pb.ReportReason_Success
	}
	return pb.ReportReason_Failure
}

// checkOutcome verifies the server log of one run against the expected outcome report.
func checkOutcome(rec *vt.Rec, key string, s *Srv, res *Res, exit int, suppressed bool, lostOnly int, wit interface{}) bool {
	all := s.Got()
	wm := map[string]interface{}{"case": wit, "server_log": brief(all)}
	want := outcome(exit)
	other := pb.ReportReason_Success
	if want == other {
		other = pb.ReportReason_Failure
	}
	bad := false
	viol := func(k, what string) { bad = true; rec.Violation(key+":"+k, what, wm) }
	if n := len(s.Received(other)); n > 0 {
		viol("wrong", fmt.Sprintf("a %s report was sent although the command's exit code was %d", other, exit))
	}
	got := s.Received(want)
	acked := s.Acked(want)
	if suppressed {
		if len(got) > 0 {
			viol("suppressed", fmt.Sprintf("a %s report was sent although such reports are switched off", want))
		}
		return !bad
	}
	switch {
	case len(got) == 0:
		viol("missing", fmt.Sprintf("monny exited (code %d) without sending a %s report", res.Exit, want))
	case len(acked) == 0:
		viol("unacked", fmt.Sprintf("monny exited (code %d) before its %s report was acknowledged", res.Exit, want))
	case len(acked) > 1 && lostOnly == 0:
		viol("twice", fmt.Sprintf("the %s report was acknowledged %d times", want, len(acked)))
	case acked[0].AckAt.After(res.End):
		viol("late", "monny exited before its outcome report was acknowledged")
	}
	lost := 0
	for _, g := range got {
		if g.Act == "lost" {
			lost++
		}
	}
	if n := len(acked); n > 1+lost {
		viol("twice", fmt.Sprintf("the %s report was acknowledged %d times", want, n))
	}
	if len(acked) > 0 && len(got) > 0 {
		last := got[len(got)-1]
		if !last.Acked {
			viol("resent", "the outcome report was sent again after it had been acknowledged")
		}
	}
	return !bad
}

// TestC03 checks that the outcome report is acknowledged before monny ends, exactly once, or suppressed.
func TestC03(t *testing.T) {
	rec := vt.New(t, "C03", "a case is one run of the real binary against a recording report server that follows a fault script (refuse, reject, drop, lose the acknowledgement, delay, listen late, never answer); non-trivial: the run produced or suppressed an outcome report; distinct by the sequence of (reason, server action, ack) observed")
	type cs struct {
		exit   int
		sup    []string
		faults []string
		delay  int // ms before the answer
		late   int // ms until the server listens
		rules  int // matching lines
		hang   bool
		sig    bool
		more   []string // further settings
		cmd    []string // instead of the scripted child
		quiet  bool     // writes nothing
	}
	var cases []cs
	for code := 0; code < 256; code++ {
		cases = append(cases, cs{exit: code, quiet: code%2 == 0})
	}
	for k := 0; k < 30; k++ {
		cases = append(cases, cs{exit: k % 2, quiet: true, cmd: []string{[]string{"/bin/true", "/bin/false"}[k%2]}})
	}
	for _, exit := range []int{0, 1, 3, 255} {
		for _, sup := range [][]string{nil, {"--no-notify-on-success"}, {"--no-notify-on-failure"}, {"--no-notify-on-success", "--no-notify-on-failure"}} {
			cases = append(cases, cs{exit: exit, sup: sup})
			cases = append(cases, cs{exit: exit, sup: sup, faults: []string{unavail}})
		}
	}
	for _, exit := range []int{0, 2} {
		for _, f := range [][]string{{nack}, {intern}, {drop}, {lost}, {unavail, unavail}, {drop, nack}, {lost, lost}, {nack, intern, unavail}, {unavail, drop, lost, nack}, {lost, unavail, lost}} {
			cases = append(cases, cs{exit: exit, faults: f})
		}
		for code := 1; code <= 16; code++ {
			cases = append(cases, cs{exit: exit, faults: []string{fmt.Sprintf("code%d", code), nack, fmt.Sprintf("code%d", code)}[:1+code%3]})
		}
		for _, d := range []int{50, 400, 1500, 3000} {
			cases = append(cases, cs{exit: exit, delay: d})
		}
		cases = append(cases, cs{exit: exit, late: 300}, cs{exit: exit, late: 1500}, cs{exit: exit, late: 2500, faults: []string{nack}})
		cases = append(cases, cs{exit: exit, rules: 5}, cs{exit: exit, rules: 40, delay: 300}, cs{exit: exit, rules: 5, faults: []string{unavail, nack}})
		cases = append(cases, cs{exit: exit, hang: true}, cs{exit: exit, hang: true, rules: 5}, cs{exit: exit, hang: true, faults: []string{unavail}})
		cases = append(cases, cs{exit: exit, hang: true, late: 1 << 30})
	}
	// a long outage, slow answers (first, they take longest)
	cases = append([]cs{{exit: 1, delay: rec.Pick(66000, 400000)}, {delay: rec.Pick(64000, 200000), rules: 2}, {exit: 1, delay: 12000}, {faults: []string{unavail, drop, intern, unavail, nack, lost, unavail, drop}[:rec.Pick(7, 8)]}, {exit: 3, faults: []string{unavail, unavail, unavail, unavail, unavail, unavail}}}, cases...)
	cases = append(cases, cs{exit: -9, sig: true}, cs{exit: -9, sig: true, faults: []string{nack}})
	r := rec.Rng("c03")
	for i := 0; i < rec.Pick(60, 1200); i++ {
		c := cs{exit: []int{0, 0, 1, 7, 200}[r.Intn(5)]}
		for k := r.Intn(4); k > 0; k-- {
			c.faults = append(c.faults, []string{unavail, intern, nack, drop, lost}[r.Intn(5)])
		}
		if r.Intn(3) == 0 {
			c.delay = r.Intn(800)
		}
		if r.Intn(4) == 0 {
			c.late = r.Intn(1500)
		}
		if r.Intn(3) == 0 {
			c.rules = 1 + r.Intn(20)
		}
		for _, f := range [][]string{{"--daemon"}, {"--rule-json", "a:b"}, {"--stdout-history", "0"}, {"--stderr-history", "0"}, {"--memory-warn", "500G"}, {"--memory-kill", "600G"}, {"--timeout-warn", "50h"}, {"--timeout-kill", "60h"}, {"--creates", "/etc/passwd"}, {"--shell", "/bin/sh"}, {"--no-error-reports=false"}} {
			if r.Intn(3) == 0 {
				c.more = append(c.more, f...)
			}
		}
		if r.Intn(6) == 0 {
			c.sup = [][]string{{"--no-notify-on-success"}, {"--no-notify-on-failure"}, {"--no-notify-on-success", "--no-notify-on-failure"}, {"--no-notify-on-success=false"}}[r.Intn(4)]
		}
		cases = append(cases, c)
	}
	rec.Pool(2*par, len(cases), func(i int) {
		c := cases[i]
		n := map[string]int{}
		var nm sync.Mutex
		plan := func(_ int, rep *pb.Report) string { // the fault script applies to the outcome reports
			if c.hang && len(c.faults) == 0 {
				return hang
			}
			nm.Lock()
			defer nm.Unlock()
			k := "outcome"
			if rep.ReportReason != pb.ReportReason_Success && rep.ReportReason != pb.ReportReason_Failure {
				k = "other"
			}
			n[k]++
			if n[k] <= len(c.faults) {
				return c.faults[n[k]-1]
			}
			if c.hang {
				return hang
			}
			return ack
		}
		addr := "127.0.0.1:0"
		var s *Srv
		if c.late > 0 {
			addr = fmt.Sprintf("127.%d.%d.%d:17443", 1+i%250, 1+os.Getpid()%250, 1+(i/250)%250)
			s = &Srv{plan: plan, conns: map[string]net.Conn{}, stop: make(chan struct{}), Addr: addr}
			if c.late < 1<<20 {
				go func() {
					time.Sleep(time.Duration(c.late) * time.Millisecond)
					l, err := net.Listen("tcp", addr)
					must(err)
					s.serve(l)
				}()
			}
		} else {
			s = newSrvOn(addr, plan, nil)
		}
		s.delay = func(int, *pb.Report) time.Duration { return time.Duration(c.delay) * time.Millisecond }
		st := []Step{w(1, "out\n")}
		for k := 0; k < c.rules; k++ {
			st = append(st, w(1+k%2, fmt.Sprintf("MATCH %d\n", k)))
		}
		if c.sig {
			st = append(st, Step{Op: "sig", N: 9})
		}
		if c.quiet && c.rules == 0 {
			st = nil
		}
		run := Run{Flags: append(append(flags(s, fmt.Sprintf("c03-%d", i), "--rule", "MATCH"), c.sup...), c.more...), Script: &Script{Steps: st, Exit: c.exit & 255}}
		if c.cmd != nil {
			run.Script, run.Cmd = nil, c.cmd
		}
		if c.hang {
			run.Env = []string{"MONNY_VERIF_SEND_TIMEOUT=1500ms"}
		}
		if slow := time.Duration(c.delay) * time.Millisecond; slow > 20*time.Second {
			// nothing is wrong with monny while the server takes its time
			until := time.Now().Add(3*slow + 10*time.Second)
			run.Pend = func() bool { return time.Now().Before(until) }
			run.HardS = int(3*slow/time.Second) + 60
		}
		defer os.RemoveAll(run.Dir)
		res := run.Do()
		defer func() {
			if s.gs != nil {
				s.Close()
			}
		}()
		time.Sleep(20 * time.Millisecond)
		sup := false
		for _, f := range c.sup {
			sup = sup || (c.exit == 0 && f == "--no-notify-on-success") || (c.exit != 0 && f == "--no-notify-on-failure")
		}
		wit := fmt.Sprintf("%+v", c)
		if !res.Common(rec, "outcome", map[string]interface{}{"case": wit, "server_log": brief(s.Got())}) {
			return
		}
		if c.hang {
			if c.late == 0 && len(s.Received(outcome(c.exit))) == 0 {
				rec.Violation("outcome:missing", "no outcome report was attempted", map[string]interface{}{"case": wit, "server_log": brief(s.Got())})
			}
			if d := res.End.Sub(res.Start); d < 1400*time.Millisecond {
				rec.Violation("outcome:gaveup", fmt.Sprintf("monny gave up after %v although its sending deadline is 1.5 s", d), wit)
			}
		} else {
			checkOutcome(rec, "outcome", s, res, c.exit, sup, 0, wit)
		}
		rec.Add("reports_received", len(s.Got()))
		rec.Add("reports_acked", len(s.Acked()))
		rec.Case(fmt.Sprint(c.exit, c.sup, brief2(s.Got()), c.hang), true, map[string]interface{}{"case": wit, "server_log": brief(s.Got()), "monny_exit": res.Exit})
	})
	suspended(rec)
	rec.Finish()
}

func brief2(gs []Got) []string {
	out := []string{}
	for _, g := range gs {
		out = append(out, fmt.Sprint(g.Rep.ReportReason, g.Act, g.Acked))
	}
	return out
}

// renamed are arguments of unshare for a command on a host of another name.
func renamed(name string, cmd ...string) []string {
	return append([]string{"-Ur", "--uts", "sh", "-c", `hostname "$0" && exec "$@"`, name}, cmd...)
}

// TestC04 checks the facts in every report.
func TestC04(t *testing.T) {
	rec := vt.New(t, "C04", "a case is one run of the real binary over a child with known exit status and self-measured run time; every report's fields are compared with the child's own record and the harness's bracket around the run; non-trivial if at least one report was acknowledged; distinct by exit status, report reasons and rounded duration")
	host, _ := os.Hostname()
	type cs struct {
		exit   int
		ms     int
		args   []string
		id     string
		faults []string
		sig    int
		rule   bool
		flags  []string
		env    []string
		host   string
		closes bool // the streams are closed before the last part of the run
	}
	var cases []cs
	for _, e := range []int{0, 1, 2, 3, 42, 126, 127, 128, 129, 130, 137, 254, 255} {
		cases = append(cases, cs{exit: e, ms: (e * 37) % 250, id: fmt.Sprintf("id-%d", e)})
	}
	for _, ms := range []int{0, 1, 10, 100, 900, 1000, 1100, 1900, 2500} {
		cases = append(cases, cs{ms: ms, id: "a b/c@d.e", exit: ms % 2})
	}
	for _, s := range []int{1, 2, 6, 9, 11, 15} {
		cases = append(cases, cs{sig: s, id: "sig", ms: 50})
	}
	cases = append(cases, cs{args: []string{"a b", "--flag=x", "", "é", "tail"}, id: "é", rule: true, ms: 120}, cs{args: []string{"-i", "fake", "--rule", "z"}, id: "x", rule: true, exit: 4, ms: 30})
	cases = append(cases, cs{id: "faulty", faults: []string{unavail, nack}, ms: 60}, cs{id: "faulty2", faults: []string{drop}, exit: 5, rule: true}, cs{id: "delayed", faults: []string{unavail, unavail, nack}, ms: 700})
	for k, env := range []string{"HOSTNAME=not-this-host", "HOST=not-this-host", "COMPUTERNAME=not-this-host", "MONNY_HOSTNAME=not-this-host", "MONNY_ID=other", "USER=nobody", "TZ=Pacific/Kiritimati", "LC_ALL=tr_TR.UTF-8"} {
		cases = append(cases, cs{env: []string{env}, id: "env", exit: k % 2, ms: 20, rule: true})
	}
	// hosts of other names, in namespaces of their own
	if out, err := exec.Command("unshare", renamed("Some-Host.example", "hostname")...).Output(); err == nil && string(out) == "Some-Host.example\n" {
		for k, h := range []string{"Some-Host.example", "UPPER", "localhost", "db-01.eu-west.prod.example.com", strings.Repeat("n", 64), "7"} {
			cases = append(cases, cs{host: h, id: "renamed", exit: k % 2, rule: true, env: []string{"HOSTNAME=not-this-host"}})
		}
	} else {
		rec.Add("hosts_not_renamed", 1)
	}
	for k, ms := range []int{300, 1200, 2300} {
		cases = append(cases, cs{closes: true, ms: ms, exit: k % 2, id: "closes"})
		cases = append(cases, cs{closes: true, ms: ms, sig: 15, id: "closes"})
	}
	for _, n := range []int{1000, 4000, 5000, 40000, 100000} {
		cases = append(cases, cs{args: []string{strings.Repeat("long argument ", n/14), "end"}, id: "long", ms: 10})
	}
	for _, n := range []int{10, 100, 1000} {
		var a []string
		for i := 0; i < n; i++ {
			a = append(a, fmt.Sprint("argument-", i), "")
		}
		cases = append(cases, cs{args: a, id: strings.Repeat("i", n), exit: 1})
	}
	// reached limits, alerts and warnings on the way change nothing about the facts
	for k, fl := range [][]string{{"--timeout-warn=40ms"}, {"--timeout-warn=40ms", "--timeout-kill=50m"}, {"--memory-warn", "1K"}, {"--memory-warn", "1K", "--memory-kill", "500G"}, {"--memory-warn", "1K", "--timeout-warn=700ms", "--timeout-kill=40h"}, {"--timeout-warn=2s"}, {"--timeout-warn=1s", "--rule", "bye"}, {"--creates", "/etc/passwd", "--timeout-warn=1s"}} {
		for e := 0; e < 2; e++ {
			cases = append(cases, cs{flags: fl, ms: 2200 + 300*e, exit: e * (k + 1), id: "warned", rule: k%2 == e}, cs{flags: fl, ms: 2300, exit: e * (k + 1), id: "warned", closes: true}, cs{flags: fl, ms: 2100, sig: 15 * e, id: "warned", faults: []string{unavail}})
		}
	}
	r := rec.Rng("c04")
	for i := 0; i < rec.Pick(60, 800); i++ {
		c := cs{exit: []int{0, r.Intn(256)}[r.Intn(2)], ms: r.Intn(700), id: string(bytes.ReplaceAll(randLine(r, 1+r.Intn(20), 2*r.Intn(2)), []byte{0}, []byte("0"))), rule: r.Intn(3) == 0}
		for k := r.Intn(4); k > 0; k-- {
			c.args = append(c.args, string(randLine(r, r.Intn(12), 2*r.Intn(2))))
		}
		cases = append(cases, c)
	}
	rec.Pool(2*par, len(cases), func(i int) {
		c := cases[i]
		s := NewSrv(faultPlan(c.faults))
		defer s.Close()
		st := []Step{w(1, "hello MATCH\n"), slp(c.ms), w(2, "bye\n")}
		if c.closes {
			st = []Step{w(1, "hello MATCH\n"), w(2, "bye\n"), {Op: "close", Fd: 1}, {Op: "close", Fd: 2}, slp(c.ms)}
		}
		if c.sig > 0 {
			st = append(st, Step{Op: "sig", N: c.sig})
		}
		dir := Dir()
		defer os.RemoveAll(dir)
		fl := flags(s, c.id)
		fl = append(fl, c.flags...)
		if c.rule {
			fl = append(fl, "--rule", "MATCH")
		}
		fl = append(fl, further(rec.Rng(fmt.Sprint("further", i)), fl, "--no-notify-on-success", "--no-notify-on-failure")...)
		run := Run{Flags: fl, Script: &Script{Steps: st, Exit: c.exit}, Extra: c.args, Dir: dir, Sep: true, Env: c.env}
		host := host
		if c.host != "" {
			host = c.host
			run.Bin, run.Flags = "unshare", append(renamed(host, monnyBin), run.Flags...)
		}
		res := run.Do()
		wit := map[string]interface{}{"case": vt.Trim(fmt.Sprintf("%+v", c), 1000)}
		if !res.Common(rec, "facts", wit) {
			return
		}
		wit["server_log"] = brief(s.Got())
		cmdline := strings.Join(append([]string{childBin, dir + "/script.json"}, c.args...), " ")
		final := outcome(c.exit)
		if c.sig > 0 {
			final = pb.ReportReason_Failure
		}
		nfinal := 0
		for _, g := range s.Got() {
			p := g.Rep
			bad := func(k string, f string, a ...interface{}) {
				w2 := map[string]interface{}{"report": vt.Trim(p.String(), 1500)}
				for k, v := range wit {
					w2[k] = v
				}
				rec.Violation("facts:"+k, fmt.Sprintf("%s report: ", p.ReportReason)+fmt.Sprintf(f, a...), w2)
			}
			rec.Add("reports_checked", 1)
			if p.Id != c.id {
				bad("id", "id %q, configured %q", p.Id, c.id)
			}
			if p.Hostname != host {
				bad("host", "hostname %q, real %q", p.Hostname, host)
			}
			if p.UserCommand != cmdline {
				bad("cmdline", "command line %.600q (%d bytes), real %.600q (%d bytes)", p.UserCommand, len(p.UserCommand), cmdline, len(cmdline))
			}
			if p.Killed || p.KillReason != 0 {
				bad("killed", "killed=%v reason=%v although monny killed nothing", p.Killed, p.KillReason)
			}
			if p.Start < res.Start.Unix() || p.Start > res.End.Unix() {
				bad("start", "start %d outside the run [%d,%d]", p.Start, res.Start.Unix(), res.End.Unix())
			}
			if p.CreatedAt < res.Start.Unix() || p.CreatedAt > res.End.Unix() {
				bad("created", "creation time %d outside the run [%d,%d]", p.CreatedAt, res.Start.Unix(), res.End.Unix())
			}
			if p.ReportReason != pb.ReportReason_Success && p.ReportReason != pb.ReportReason_Failure {
				continue
			}
			nfinal++
			if p.ReportReason != final {
				bad("reason", "reason %v, expected %v", p.ReportReason, final)
			}
			if c.sig > 0 {
				if p.Success {
					bad("success", "success although the command was terminated by a signal")
				}
				if p.ExitCodeValid && p.ExitCode == 0 {
					bad("exit", "exit code 0 although the command was terminated by a signal")
				}
			} else {
				if p.Success != (c.exit == 0) {
					bad("success", "success=%v, exit code was %d", p.Success, c.exit)
				}
				if !p.ExitCodeValid || int(p.ExitCode) != c.exit {
					bad("exit", "exit code %d (valid=%v), real exit code %d", p.ExitCode, p.ExitCodeValid, c.exit)
				}
			}
			d, err := time.ParseDuration(p.Duration)
			own, _ := res.ChildEnd["ns"].(float64)
			switch {
			case err != nil:
				bad("duration", "duration %q is not a duration", p.Duration)
			case d < 0:
				bad("duration", "negative duration %q", p.Duration)
			case float64(d) < own:
				bad("duration", "duration %v, but the command itself ran %v", d, time.Duration(own))
			case d > res.End.Sub(res.Start):
				bad("duration", "duration %v, but the whole run of monny took %v", d, res.End.Sub(res.Start))
			}
			if p.Finish < p.Start || p.Finish < res.Start.Unix() || p.Finish > res.End.Unix() {
				bad("finish", "finish %d, start %d, run [%d,%d]", p.Finish, p.Start, res.Start.Unix(), res.End.Unix())
			}
			if err == nil && math.Abs(float64(p.Finish-p.Start)-d.Seconds()) > 1.05 {
				bad("consistent", "start %d, finish %d and duration %v do not fit together", p.Start, p.Finish, d)
			}
			if endT, ok := res.ChildEnd["t"].(float64); ok && float64(p.Finish) < math.Floor(endT/1e9) {
				bad("finish", "finish %d lies before the command's end %.3f", p.Finish, endT/1e9)
			}
			if p.CreatedAt < p.Finish {
				bad("created", "created %d before finish %d", p.CreatedAt, p.Finish)
			}
		}
		if nfinal == 0 {
			rec.Violation("facts:none", "no outcome report arrived", wit)
		}
		rec.Case(fmt.Sprint(brief2(s.Got()), c.exit, c.sig, c.ms/50, c.id), nfinal > 0, map[string]interface{}{"case": vt.Trim(fmt.Sprintf("%+v", c), 300), "log": brief(s.Got())})
	})
	rec.Finish()
}

// normUTF8 drops what may be replaced: invalid bytes and replacement characters.
func normUTF8(b []byte) string {
	var o []byte
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		if r != utf8.RuneError {
			o = append(o, b[:n]...)
		}
		b = b[n:]
	}
	return string(o)
}

func histDiff(stream string, exp [][]byte, got []string, n int) string {
	if len(exp) > n {
		exp = exp[len(exp)-n:]
	}
	if len(exp) != len(got) {
		return fmt.Sprintf("%s: %d lines in the report, expected the last %d", stream, len(got), len(exp))
	}
	for i := range exp {
		g := []byte(got[i])
		if utf8.Valid(exp[i]) {
			if !sameLine(exp[i], g) {
				return fmt.Sprintf("%s: line %d of %d is %.80q, expected %.80q", stream, i+1, len(exp), g, exp[i])
			}
		} else if a, b := normUTF8(exp[i]), normUTF8(g); a != b && strings.TrimSuffix(a, "\r") != b {
			return fmt.Sprintf("%s: line %d of %d is %.80q, expected %.80q up to replaced bytes", stream, i+1, len(exp), g, exp[i])
		}
	}
	return ""
}

// TestC05 checks the output history in the final report.
func TestC05(t *testing.T) {
	rec := vt.New(t, "C05", "a case is one run of the real binary with history sizes (N1,N2) and a child writing known lines; the final report's stdout/stderr are compared with the last N lines written; non-trivial if anything was written; distinct by sizes, counts and content")
	type cs struct {
		n1, n2 int
		c1, c2 int
		kind   int
		exit   int
		def    bool
		unterm bool
		long   int // length of the lines
		faults []string
		rate   int // alerts for so many matches are sent meanwhile
	}
	var cases []cs
	for _, n := range []int{0, 1, 2, 3, 5, 30, 100} {
		for _, d := range []int{-n, -1, 0, 1, 2, n - 1, n, n + 1, 3*n + 2} {
			if k := n + d; k >= 0 {
				cases = append(cases, cs{n1: n, n2: (n + d) % 7, c1: k, c2: (k * 3) % 11, exit: d & 1, unterm: d%3 == 0})
			}
		}
	}
	for _, k := range []int{0, 1, 29, 30, 31, 32, 59, 60, 61, 200} {
		cases = append(cases, cs{def: true, n1: 30, n2: 30, c1: k, c2: 61 - k%61})
	}
	for kind := 1; kind < 5; kind++ {
		for _, n := range []int{1, 4, 30} {
			cases = append(cases, cs{n1: n, n2: n, c1: 2 * n, c2: n + 1, kind: kind, faults: []string{nack}})
		}
	}
	cases = append(cases, cs{n1: 1000000, n2: 3, c1: 3000, c2: 3000}, cs{n1: 2000, n2: 5000, c1: 20000, c2: 5001})
	cases = append(cases, cs{n1: 15000, n2: 20000, c1: 15003, c2: 25000}, cs{n1: 12000, n2: 40, c1: 30000, c2: 41, exit: 1, faults: []string{unavail}})
	for _, n := range []int{30000, 33000, 70000, 110000, 300000, 1100000, 1500000, 2200000} {
		cases = append(cases, cs{n1: 3, n2: 2, c1: 4, c2: 3, long: n, exit: n / 100000 % 2})
	}
	// in all more than fits into a few buffers
	cases = append(cases, cs{n1: 30, n2: 30, c1: 40, c2: 33, long: 60000}, cs{n1: 30, n2: 30, c1: 35, c2: 20, long: 200000, exit: 2}, cs{def: true, n1: 30, n2: 30, c1: 31, c2: 30, long: 300000, exit: 2})
	// lines repeated over and over, and lines that cause alerts
	for k := 0; k < 12; k++ {
		cases = append(cases, cs{n1: []int{5, 30, 100}[k%3], n2: 1 + k, c1: 20 * (1 + k), c2: 90 - k, kind: 5, exit: k % 2})
		cases = append(cases, cs{n1: []int{5, 30, 100}[k%3], n2: 3 + k, c1: 20 * (1 + k), c2: 60 - k, kind: 6, exit: k % 2, rate: k % 4 * 5})
	}
	r := rec.Rng("c05")
	for i := 0; i < rec.Pick(80, 1500); i++ {
		n1, n2 := []int{r.Intn(6), r.Intn(40)}[r.Intn(2)], []int{r.Intn(6), r.Intn(40)}[r.Intn(2)]
		cases = append(cases, cs{n1: n1, n2: n2, c1: r.Intn(2*n1 + 4), c2: r.Intn(2*n2 + 4), kind: r.Intn(5), exit: r.Intn(2), unterm: r.Intn(2) == 0})
	}
	rec.Pool(par, len(cases), func(i int) {
		c := cases[i]
		q := rec.Rng(fmt.Sprint("case", i))
		s := NewSrv(faultPlan(c.faults))
		defer s.Close()
		dir := Dir()
		defer os.RemoveAll(dir)
		mk := func(fd, n int) []byte {
			var b []byte
			for k := 0; k < n; k++ {
				switch {
				case c.long > 0:
					b = append(b, fmt.Sprintf("%d ", k)...)
					b = append(b, randLine(q, c.long-k, 0)...)
				case c.kind == 0:
					b = append(b, fmt.Sprintf("line %d of fd %d %x", k, fd, q.Intn(1000))...)
				case c.kind == 5:
					b = append(b, []string{"same", "same", "same", "", "other", "SAME", "same "}[q.Intn(7)]...)
				case c.kind == 6:
					b = append(b, []string{"ERROR again", "fine", "ERROR"}[q.Intn(3)]...)
				case c.kind == 4:
					if k%2 == 0 {
						b = append(b, randLine(q, q.Intn(5000), 1)...)
					}
				default:
					b = append(b, randLine(q, q.Intn(80), c.kind)...)
				}
				b = append(b, '\n')
			}
			if c.unterm && len(b) > 1 && b[len(b)-2] != '\n' {
				b = b[:len(b)-1]
			}
			return b
		}
		b1, b2 := mk(1, c.c1), mk(2, c.c2)
		st := mergeSteps(q, chunk(q, 1, b1, 1+q.Intn(5), false), chunk(q, 2, b2, 1+q.Intn(5), false))
		fl := flags(s, "c05")
		if !c.def {
			fl = append(fl, "--stdout-history", fmt.Sprint(c.n1), "--stderr-history", fmt.Sprint(c.n2))
		}
		fl = append(fl, further(rec.Rng(fmt.Sprint("further", i)), fl, "--no-notify-on-success", "--no-notify-on-failure", "--stdout-history", "--stderr-history")...)
		run := Run{Flags: fl, Script: &Script{Steps: st, Exit: c.exit}, Dir: dir}
		if c.kind == 6 {
			run.Flags = append(run.Flags, "--rule", "ERROR")
		}
		if c.rate > 0 {
			run = lib(dir, &Script{Steps: st, Exit: c.exit}, [][2]string{{"id", "c05"}, {"host", s.Addr}, {"insecure", ""}, {"no-error-reports", ""}, {"rule", "ERROR"}, {"quantity", fmt.Sprint(c.rate)}, {"stdout-history", fmt.Sprint(c.n1)}, {"stderr-history", fmt.Sprint(c.n2)}}, "")
		}
		res := run.Do()
		wit := map[string]interface{}{"case": fmt.Sprintf("%+v", c), "stdout": vt.Trim(fmt.Sprintf("%q", b1), 1500), "stderr": vt.Trim(fmt.Sprintf("%q", b2), 1500)}
		if !res.Common(rec, "history", wit) {
			return
		}
		got := s.Acked(outcome(c.exit))
		if len(got) == 0 {
			wit["server_log"] = brief(s.Got())
			rec.Violation("history:undelivered", "the final report was not delivered", wit)
			return
		}
		p := got[0].Rep
		for _, d := range []string{histDiff("stdout", rawLines(b1), p.Stdout, c.n1), histDiff("stderr", rawLines(b2), p.Stderr, c.n2)} {
			if d != "" {
				rec.Violation("history", d, wit)
			}
		}
		j, _ := json.Marshal([]interface{}{p.Stdout, p.Stderr})
		rec.Add("lines_in_reports", len(p.Stdout)+len(p.Stderr))
		rec.Case(fmt.Sprintf("%d %d %s", c.n1, c.n2, j), c.c1+c.c2 > 0, map[string]interface{}{"case": fmt.Sprintf("%+v", c), "stdout_lines": len(p.Stdout), "stderr_lines": len(p.Stderr)})
	})
	rec.Finish()
}
