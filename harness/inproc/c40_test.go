package inproc

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/mon"
	"verif/harness/vt"
)

// TestC40 checks how long and how often the delivery of a report is attempted.  The command and the report server are
// real, the hour passes in virtual time: it can pass while monny waits between two attempts.
func TestC40(t *testing.T) {
	rec := vt.New(t, "C40", "a case is one supervised run (real command, real report server, virtual clock) whose first attempts to send a report fail until a chosen virtual time, by nobody listening or by refusing, negative, dropped or lost answers; non-trivial if at least one attempt failed or had to fail; distinct by outage, way of failing, reports and virtual times of the attempts")
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGUSR2) // starts the signal goroutine outside of the bubbles
	type cs struct {
		name   string
		ups    map[pb.ReportReason]time.Duration // when each kind of report starts to be accepted
		up     time.Duration                     // for all others
		mode   string
		exit   int
		alerts int
		miss   int // missing files
	}
	never := 100 * time.Hour
	modes := []string{"code14", "code13", "code4", "code8", "code2", "code16", "nack", "drop", "mixed", "lost"}
	r := rec.Rng("cases")
	var cases []cs
	outage := func() time.Duration {
		switch r.Intn(5) {
		case 0:
			return time.Duration(r.Intn(60000)) * time.Millisecond
		case 1:
			return time.Duration(r.Intn(15*60)) * time.Second
		case 2:
			return 15*time.Minute + time.Duration(r.Intn(5*60))*time.Second
		default:
			return time.Duration(15*60+r.Intn(37*60)) * time.Second
		}
	}
	for i := 0; i < rec.Pick(6, 30); i++ {
		cases = append(cases, cs{name: "refused for good", mode: "refused", up: never, exit: i % 2})
	}
	for i := 0; i < rec.Pick(30, 600); i++ {
		cases = append(cases, cs{name: "refused", mode: "refused", up: outage(), exit: r.Intn(2) * 3})
	}
	for _, m := range modes {
		for i := 0; i < rec.Pick(5, 100); i++ {
			cases = append(cases, cs{name: "answered", mode: m, up: outage(), exit: r.Intn(2) * 3})
		}
		if m != "lost" {
			cases = append(cases, cs{name: "never accepted", mode: m, up: never, exit: r.Intn(2)})
		}
	}
	for _, n := range []int{1, 3, 5, 6, 7, 9, 10, 11, 12, 15} { // every other way to refuse
		for i := 0; i < rec.Pick(2, 40); i++ {
			cases = append(cases, cs{name: "answered", mode: fmt.Sprint("code", n), up: outage(), exit: r.Intn(2) * 3})
		}
		modes = append([]string{fmt.Sprint("code", n)}, modes...)
	}
	for i := 0; i < rec.Pick(40, 800); i++ {
		c := cs{name: "several", mode: append(modes, "refused", "refused")[r.Intn(len(modes)+2)], up: outage(), exit: r.Intn(2) * 3, alerts: r.Intn(4), miss: r.Intn(3)}
		if c.mode != "refused" {
			c.name = "several apart"
			c.ups = map[pb.ReportReason]time.Duration{pb.ReportReason_Alert: outage(), pb.ReportReason_FileNotCreated: outage(), pb.ReportReason_Failure: outage(), pb.ReportReason_Success: outage()}
		}
		cases = append(cases, c)
	}

	var cur atomic.Value
	cur.Store("")
	// The virtual clock cannot advance while the code under test waits for something real, for example while it keeps a
	// connection open between two attempts.  Such a case is left alone, what was seen until then counts.
	stalled, decided := 0, 0
	for i, c := range cases {
		c := c
		rr := rec.Rng(fmt.Sprint("case", i))
		cur.Store(fmt.Sprintf("%s, %s for %v, exit %d, %d alerts, %d missing files %v", c.name, c.mode, c.up, c.exit, c.alerts, c.miss, c.ups))
		rec.Current(cur.Load().(string))
		if stalled >= 3 && c.mode != "refused" || stalled >= 8 {
			rec.Add("left_out", 1)
			continue
		}
		var vnow atomic.Int64 // virtual time since the start
		var mu sync.Mutex
		var atts []attempt
		plan := func(_ int, rep *pb.Report) string {
			at := time.Duration(vnow.Load())
			up := c.up
			if u, ok := c.ups[rep.ReportReason]; ok {
				up = u
			}
			act := c.mode
			if at >= up || c.mode == "refused" {
				act = "ack"
			} else if act == "mixed" {
				act = modes[rr.Intn(len(modes)-2)] // one call at a time, under the server's lock
			}
			mu.Lock()
			atts = append(atts, attempt{at, rep, act})
			mu.Unlock()
			return act
		}
		addr := fmt.Sprintf("127.%d.%d.%d:%d", 1+os.Getpid()%250, os.Getpid()/250%250, 1+i/250%250, 20000+i%250)
		req, done := make(chan int), make(chan int)
		var srv *mon.Srv
		go func() { // outside of the bubble
			if _, ok := <-req; ok {
				sv := mon.NewSrvOn(addr, plan)
				mu.Lock()
				srv = sv
				mu.Unlock()
			}
			close(done)
		}()
		type outcome struct {
			ran, ended       bool
			took             time.Duration
			execErr, waitErr error
			panicked         string
		}
		result := make(chan outcome, 1)
		body := func(o *outcome) {
			t0 := time.Now()
			stop, over, started := make(chan bool), make(chan bool), make(chan bool)
			go func() {
				tick := time.NewTicker(100 * time.Millisecond)
				defer tick.Stop()
				for {
					select {
					case <-tick.C:
						vnow.Store(int64(time.Since(t0)))
					case <-stop:
						close(over)
						return
					}
				}
			}()
			serve := func() { req <- 1; <-done }
			switch {
			case c.mode != "refused":
				serve()
				close(started)
			case c.up < never:
				go func() {
					time.Sleep(c.up)
					vnow.Store(int64(time.Since(t0)))
					serve()
					close(started)
				}()
			default:
				close(started)
			}
			os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
			os.Stderr, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
			opts := []monny.ConfigOption{monny.ID("c40"), monny.Host(addr), monny.Insecure(), monny.NoErrorReports(), monny.Shell("/bin/sh")}
			script := ""
			if c.alerts > 0 {
				opts = append(opts, monny.Rule("ERROR"))
				for k := 0; k < c.alerts; k++ {
					script += fmt.Sprintf("echo %d ERROR; ", k)
				}
			}
			for k := 0; k < c.miss; k++ {
				opts = append(opts, monny.Creates(fmt.Sprintf("/nonexistent/c40-%d", k)))
			}
			cmd, errs := monny.New([]string{"/bin/sh", "-c", script + fmt.Sprintf("exit %d", c.exit)}, opts...)
			if len(errs) > 0 {
				panic(fmt.Sprint("configuration refused: ", errs))
			}
			o.ran = true
			o.execErr = cmd.Exec()
			o.waitErr = cmd.Wait()
			o.took = time.Since(t0)
			o.ended = true
			close(stop)
			<-over
			<-started
		}
		go func() {
			var o outcome
			o.panicked = bubbled(t, func(*testing.T) { body(&o) })
			result <- o
		}()
		var o outcome
		stall := false
		for moved, was := time.Now(), ""; !stall; {
			mu.Lock()
			now := fmt.Sprint(vnow.Load(), len(atts), srv != nil)
			mu.Unlock()
			if now != was {
				was, moved = now, time.Now()
			}
			select {
			case o = <-result:
			case <-time.After(50 * time.Millisecond):
				stall = time.Since(moved) > 6*time.Second
				continue
			}
			break
		}
		if stall {
			stalled++
			mu.Lock()
			up := srv != nil && srv.Conns() > 0
			mu.Unlock()
			if c.mode == "refused" && up && time.Duration(vnow.Load()) >= c.up-time.Second {
				decided++ // still trying when the server came up
				rec.Case(fmt.Sprint(cur.Load(), "connected"), true, nil)
			}
			continue
		}
		if srv == nil {
			close(req)
			<-done
		} else {
			srv.Close()
		}
		decided++
		ran, ended, took, execErr, waitErr, panicked := o.ran, o.ended, o.took, o.execErr, o.waitErr, o.panicked
		var log []string
		for k, a := range atts {
			if k < 40 || k >= len(atts)-10 {
				log = append(log, fmt.Sprintf("%v %s %s", a.at, a.rep.ReportReason, a.act))
			}
		}
		wit := map[string]interface{}{"case": cur.Load(), "attempts_seen_by_the_server": log, "monny_ended_after": took.String(), "exec": fmt.Sprint(execErr), "wait": fmt.Sprint(waitErr)}
		if !ran {
			rec.Inconclusive("setup: " + panicked)
			continue
		}
		if !ended {
			if strings.Contains(panicked, "deadlock") {
				rec.Violation("end:never", "monny never ends: everything that could make it go on has happened", wit)
			} else {
				rec.Inconclusive("panic: " + panicked)
			}
			continue
		}
		if execErr != nil || waitErr != nil {
			rec.Violation("end:error", fmt.Sprintf("Exec or Wait failed: %v, %v", execErr, waitErr), wit)
		}
		c40judge(rec, c.up, never, c.ups, c.mode, c.exit, c.alerts, c.miss, took, atts, wit)
		rec.Add("attempts", len(atts))
		rec.Add("virtual_minutes", int(took/time.Minute))
		rec.Seen("ways_of_failing", c.mode)
		rec.Case(fmt.Sprint(cur.Load(), took, log), true, map[string]interface{}{"case": cur.Load(), "attempts": len(atts), "ended_after": took.String()})
	}
	mon.Independent(rec)
	rec.Set("decided", decided)
	rec.Set("clock_stopped", stalled)
	if decided < 5 {
		rec.Inconclusive(fmt.Sprintf("the virtual clock stopped in %d runs, %d decided", stalled, decided))
	}
	rec.Finish()
}

type attempt struct {
	at  time.Duration
	rep *pb.Report
	act string
}

func bubbled(t *testing.T, f func(t *testing.T)) (panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprint(p)
		}
	}()
	synctest.Test(t, f)
	return ""
}

func c40judge(rec *vt.Rec, up, never time.Duration, ups map[pb.ReportReason]time.Duration, mode string, exit, alerts, miss int, took time.Duration, atts []attempt, wit map[string]interface{}) {
	upOf := func(r pb.ReportReason) time.Duration {
		if u, ok := ups[r]; ok {
			return u
		}
		return up
	}
	acked := map[pb.ReportReason][]attempt{}
	count := map[pb.ReportReason]int{}
	last := map[pb.ReportReason]time.Duration{}
	for _, a := range atts {
		count[a.rep.ReportReason]++
		last[a.rep.ReportReason] = a.at
		if a.act == "ack" {
			acked[a.rep.ReportReason] = append(acked[a.rep.ReportReason], a)
		}
	}
	if up == never {
		if took > 63*time.Minute {
			rec.Violation("end:late", fmt.Sprintf("monny gave up only after %v", took), wit)
		}
		if took < 60*time.Minute-time.Second {
			rec.Violation("end:early", fmt.Sprintf("monny gave up after %v already, although delivery is attempted for an hour", took), wit)
		}
	}
	// what has to be reported, and how many reports of it there can be
	type want struct {
		r   pb.ReportReason
		max int
	}
	var wants []want
	if alerts > 0 {
		wants = append(wants, want{pb.ReportReason_Alert, alerts})
	}
	if miss > 0 {
		wants = append(wants, want{pb.ReportReason_FileNotCreated, miss})
	}
	switch {
	case exit != 0:
		wants = append(wants, want{pb.ReportReason_Failure, 1})
	case miss == 0:
		wants = append(wants, want{pb.ReportReason_Success, 1})
	}
	for _, w := range wants {
		if n := count[w.r]; n > 400*w.max {
			rec.Violation("pace:hammering", fmt.Sprintf("%d attempts to send a %s report within %v", n, w.r, took), wit)
		}
		u := upOf(w.r)
		if u == never {
			if mode != "refused" && last[w.r] < 56*time.Minute {
				rec.Violation("pace:stopped", fmt.Sprintf("the last attempt to send the %s report was made after %v, delivery is attempted for an hour", w.r, last[w.r]), wit)
			}
			continue
		}
		if mode != "refused" && w.max == 1 && u > 5*time.Second {
			var at []time.Duration
			for _, a := range atts {
				if a.rep.ReportReason == w.r {
					at = append(at, a.at)
				}
			}
			if len(at) > 1 && at[1]-at[0] > 1500*time.Millisecond {
				rec.Violation("pace:first", fmt.Sprintf("the second attempt to send the %s report was made %v after the first one", w.r, at[1]-at[0]), wit)
			}
			if len(at) > 1 {
				rec.Add("first_pauses_measured", 1)
			}
		}
		got := acked[w.r]
		if len(got) == 0 {
			rec.Violation("lost", fmt.Sprintf("the %s report was not delivered although it would have been accepted from %v on", w.r, u), wit)
			continue
		}
		if len(got) > w.max {
			rec.Violation("repeated", fmt.Sprintf("%d %s reports were acknowledged, at most %d were due", len(got), w.r, w.max), wit)
		}
		for _, a := range got {
			// a pause is at most as long as what has passed, and never longer than two minutes
			limit := 3*u + 6*time.Second
			if m := u + 3*time.Minute; limit > m {
				limit = m
			}
			if a.at > limit {
				rec.Violation("pace:slow", fmt.Sprintf("the %s report was delivered after %v only, it would have been accepted from %v on", w.r, a.at, u), wit)
			}
		}
		// nothing is left out
		seen := map[string]bool{}
		for _, a := range got {
			var ms []struct{ Line string }
			json.Unmarshal(a.rep.Matches, &ms)
			for _, m := range ms {
				seen[m.Line] = true
			}
			for _, m := range a.rep.Messages {
				seen[m] = true
			}
		}
		if w.r == pb.ReportReason_Alert {
			for k := 0; k < alerts; k++ {
				if !seen[fmt.Sprintf("%d ERROR", k)] {
					rec.Violation("lost:match", fmt.Sprintf("match %d is in no acknowledged alert", k), wit)
				}
			}
		}
		if w.r == pb.ReportReason_FileNotCreated {
			for k := 0; k < miss; k++ {
				ok := false
				for m := range seen {
					ok = ok || strings.Contains(m, fmt.Sprintf("c40-%d", k))
				}
				if !ok {
					rec.Violation("lost:file", fmt.Sprintf("missing file %d is in no acknowledged report", k), wit)
				}
			}
		}
	}
	if exit == 0 && miss > 0 && len(acked[pb.ReportReason_Success]) > 0 {
		rec.Violation("unexpected", "a success report was sent although a file is missing", wit)
	}
}
