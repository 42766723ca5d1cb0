package mon

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// limits runs one case of a time or memory limit and checks the parts common to both.
type limitCase struct {
	name   string
	flags  []string
	steps  func(dir string) []Step
	exit   int
	faults []string
	kill   pb.KillReason // expected kill, None otherwise
	warn   bool          // exactly one warning expected
	warnR  pb.ReportReason
	limit  time.Duration // time limit in force for the kill
	wlimit time.Duration
	hold   bool // the warning is unanswered until the kill is reported, or the child has ended
	alerts bool // many alerts are unanswered until the limit was reported
	more   func(rec *vt.Rec, s *Srv, res *Res, wit map[string]interface{})
}

func runLimits(rec *vt.Rec, key string, cases []limitCase) {
	for i, c := range cases {
		if i%4 == 1 && !c.hold && (c.warn || c.kill != pb.KillReason_NotKilled) {
			c.name += ", many alerts unanswered"
			c.alerts = true
			c.flags = append([]string{"--rule=ALRT"}, c.flags...)
			cases = append(cases, c)
		}
	}
	rec.Pool(24, len(cases), func(i int) {
		c := cases[i]
		dir := Dir()
		defer os.RemoveAll(dir)
		var mu sync.Mutex
		na := map[pb.ReportReason]int{}
		s := NewSrv(func(_ int, rep *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			na[rep.ReportReason]++
			if k := na[rep.ReportReason]; k <= len(c.faults) {
				return c.faults[k-1]
			}
			return ack
		})
		defer s.Close()
		s.onGot = func(_ int, rep *pb.Report) {
			if rep.ReportReason == c.warnR && c.warnR != 0 {
				touch(filepath.Join(dir, "warned"))
			}
			if rep.ReportReason == pb.ReportReason_Killed {
				touch(filepath.Join(dir, "killed"))
			}
			if rep.ReportReason == pb.ReportReason_Alert {
				mu.Lock()
				k := na[pb.ReportReason_Alert]
				mu.Unlock()
				touch(filepath.Join(dir, fmt.Sprintf("alert%d", k)))
			}
		}
		if c.hold {
			s.holdOn = func(_ int, rep *pb.Report) string {
				switch {
				case rep.ReportReason != c.warnR:
					return ""
				case c.kill != pb.KillReason_NotKilled:
					return filepath.Join(dir, "killed")
				}
				return filepath.Join(dir, "end")
			}
		}
		steps := c.steps(dir)
		if c.alerts {
			var first []Step
			for k := 0; k < 40; k++ {
				first = append(first, w(1+k%2, fmt.Sprintf("ALRT %d\n", k)))
			}
			steps = append(first, steps...)
			s.holdOn = func(_ int, rep *pb.Report) string {
				if rep.ReportReason == pb.ReportReason_Alert {
					return filepath.Join(dir, "answer")
				}
				return ""
			}
			seen := s.onGot
			s.onGot = func(n int, rep *pb.Report) {
				seen(n, rep)
				if rep.ReportReason == pb.ReportReason_Killed || c.kill == pb.KillReason_NotKilled && rep.ReportReason == c.warnR {
					touch(filepath.Join(dir, "answer"))
				}
			}
			defer time.AfterFunc(20*time.Second, func() { touch(filepath.Join(dir, "answer")) }).Stop()
		}
		sc := &Script{Steps: steps, Exit: c.exit, Rec: filepath.Join(dir, "rec"), End: filepath.Join(dir, "end")}
		gone := true
		not := []string{"--timeout-warn", "--timeout-kill"}
		if key == "memory" { // a daemon's memory is sampled less often
			not = []string{"--memory-warn", "--memory-kill", "--daemon"}
		}
		c.flags = append(append([]string{}, c.flags...), further(rec.Rng(fmt.Sprint("further", i)), c.flags, not...)...)
		r := Run{Flags: flags(s, key, c.flags...), Script: sc, Dir: dir, Sep: true, After: func() { gone = childGone(sc.Rec, 8*time.Second) }}
		res := r.Do()
		got := s.Got()
		wit := map[string]interface{}{"case": c.name, "flags": c.flags, "steps": describe(sc.Steps), "faults": c.faults, "exit": c.exit, "server_log": brief(got), "child_end": res.ChildEnd}
		if !res.Common(rec, key, wit) {
			return
		}
		if res.ChildRec == nil {
			if c.kill == pb.KillReason_NotKilled {
				rec.Violation(key+":nostart", "the command was not run", wit)
			}
			return
		}
		warns := s.Acked(pb.ReportReason_TimeWarning, pb.ReportReason_MemoryWarning)
		if c.warn {
			if n := len(s.Acked(c.warnR)); n != 1 {
				rec.Violation(key+":warn", fmt.Sprintf("%d %s reports were acknowledged, expected exactly one", n, c.warnR), wit)
			}
			if len(warns) > 1 {
				rec.Violation(key+":warn", "more than one warning was delivered", wit)
			}
		} else if len(s.Received(pb.ReportReason_TimeWarning, pb.ReportReason_MemoryWarning)) > 0 {
			rec.Violation(key+":falsewarn", "a warning was sent although its limit was not reached or not configured", wit)
		}
		for _, g := range warns {
			if c.wlimit > 0 && g.At.Sub(res.Start) < c.wlimit {
				rec.Violation(key+":early", fmt.Sprintf("time warning after %v, the limit is %v", g.At.Sub(res.Start), c.wlimit), wit)
			}
			if g.Rep.Killed && c.kill == pb.KillReason_NotKilled {
				rec.Violation(key+":warnkilled", "a warning report is marked killed", wit)
			}
		}
		killed := s.Received(pb.ReportReason_Killed)
		if c.kill != pb.KillReason_NotKilled {
			ak := s.Acked(pb.ReportReason_Killed)
			if len(ak) != 1 {
				rec.Violation(key+":kill", fmt.Sprintf("%d reports of the kill were acknowledged, expected exactly one", len(ak)), wit)
			}
			for _, g := range killed {
				if !g.Rep.Killed || g.Rep.KillReason != c.kill || g.Rep.Success {
					rec.Violation(key+":killfacts", fmt.Sprintf("kill report has killed=%v reason=%v success=%v", g.Rep.Killed, g.Rep.KillReason, g.Rep.Success), wit)
				}
				d, err := time.ParseDuration(g.Rep.Duration)
				if err != nil || d < c.limit || d > g.At.Sub(res.Start)+time.Second || d < 0 {
					rec.Violation(key+":killtime", fmt.Sprintf("kill report has duration %q, limit %v, run so far %v", g.Rep.Duration, c.limit, g.At.Sub(res.Start)), wit)
				}
				if c.limit > 0 && g.At.Sub(res.Start) < c.limit {
					rec.Violation(key+":killearly", "killed before the limit elapsed", wit)
				}
			}
			if res.ChildEnd != nil {
				rec.Violation(key+":notkilled", "the command ran to its end although its limit was exceeded", wit)
			}
			if !gone {
				rec.Violation(key+":alive", "the command is still running after monny has reported it killed and ended", wit)
			}
			if len(s.Received(pb.ReportReason_Success)) > 0 {
				rec.Violation(key+":killsuccess", "a killed run was reported as success", wit)
			}
		} else {
			if res.ChildEnd == nil {
				rec.Violation(key+":falsekill", "the command did not run to its end although no limit was exceeded", wit)
			}
			for _, g := range got {
				if g.Rep.Killed || g.Rep.KillReason != pb.KillReason_NotKilled || g.Rep.ReportReason == pb.ReportReason_Killed {
					rec.Violation(key+":falsekill", "a report says killed although no limit was exceeded", wit)
				}
			}
			want := pb.ReportReason_Success
			if c.exit != 0 {
				want = pb.ReportReason_Failure
			}
			exp := 1
			for _, f := range c.flags {
				if f == map[bool]string{true: "--no-notify-on-failure", false: "--no-notify-on-success"}[c.exit != 0] {
					exp = 0
				}
			}
			if len(s.Acked(want)) != exp {
				rec.Violation(key+":outcome", fmt.Sprintf("%d %s reports, expected %d", len(s.Acked(want)), want, exp), wit)
			}
		}
		// the largest sample decides: at a limit it must have had its consequence, below none
		for _, g := range got {
			max, fin := g.Rep.MaxMemory, g.Rep.ReportReason
			if l := memLimit(c.flags, "--memory-warn"); l > 0 && max >= l && len(s.Received(pb.ReportReason_MemoryWarning)) == 0 {
				rec.Violation(key+":sampled", fmt.Sprintf("a %s report gives a maximum of %d kB, the warn limit is %d kB, but no warning was sent", fin, max, l), wit)
			}
			if l := memLimit(c.flags, "--memory-warn"); l > 0 && max < l && fin == pb.ReportReason_MemoryWarning {
				rec.Violation(key+":sampled", fmt.Sprintf("a memory warning gives a maximum of %d kB below the limit of %d kB", max, l), wit)
			}
			if l := memLimit(c.flags, "--memory-kill"); l > 0 && c.kill != pb.KillReason_Timeout && (max >= l) != (fin == pb.ReportReason_Killed) && (fin == pb.ReportReason_Killed || fin == outcome(c.exit)) {
				rec.Violation(key+":sampled", fmt.Sprintf("a %s report gives a maximum of %d kB, the kill limit is %d kB", fin, max, l), wit)
			}
		}
		if c.more != nil {
			c.more(rec, s, res, wit)
		}
		rec.Add("warnings_seen", len(warns))
		rec.Add("kills_seen", len(killed))
		rec.Case(fmt.Sprint(c.name, c.flags, c.exit, brief2(got)), true, map[string]interface{}{"case": c.name, "flags": c.flags, "log": brief2(got)})
	})
}

func ignoreAll() []Step {
	var st []Step
	for _, n := range []syscall.Signal{1, 2, 3, 6, 10, 12, 13, 14, 15, 16, 24, 25, 26, 29, 30} {
		st = append(st, Step{Op: "ignore", N: int(n)})
	}
	return st
}

// memLimit is the limit an option sets, in kB.
func memLimit(fl []string, opt string) uint64 {
	v := ""
	for i, f := range fl {
		if f == opt && i+1 < len(fl) {
			v = fl[i+1]
		}
		if strings.HasPrefix(f, opt+"=") {
			v = f[len(opt)+1:]
		}
	}
	n, unit := uint64(0), ""
	fmt.Sscanf(v, "%d%s", &n, &unit)
	switch unit {
	case "M":
		n *= 1000
	case "G":
		n *= 1000000
	}
	return n
}

// TestC09 checks the time limits.
func TestC09(t *testing.T) {
	rec := vt.New(t, "C09", "a case is one run with kill and/or notify time limits over a child that runs past or ends before them (also ignoring signals, writing all the time, or with closed streams), with refused, dropped or unanswered first sends; children that must be warned wait for the warning's arrival and then run on for several more limits; distinct by options, child and received log")
	long := func(pre ...Step) func(string) []Step {
		return func(string) []Step { return append(append([]Step{}, pre...), slp(40000)) }
	}
	var busy []Step
	for i := 0; i < 4000; i++ {
		busy = append(busy, w(1+i%2, fmt.Sprintf("line %d\n", i)), slp(10))
	}
	ign := ignoreAll()
	warned := func(after int, pre ...Step) func(string) []Step {
		return func(dir string) []Step {
			return append(append([]Step{}, pre...), Step{Op: "gate", Path: filepath.Join(dir, "warned"), Ms: 25000}, slp(after))
		}
	}
	var cases []limitCase
	tw := pb.ReportReason_TimeWarning
	for rep := 0; rep < rec.Pick(1, 8); rep++ {
		for _, lim := range []time.Duration{150 * time.Millisecond, 700 * time.Millisecond, 1700 * time.Millisecond} {
			l := "--timeout-kill=" + lim.String()
			k := limitCase{flags: []string{l}, limit: lim, kill: pb.KillReason_Timeout}
			add := func(name string, st func(string) []Step, mod func(*limitCase)) {
				x := k
				x.name, x.steps = "kill: "+name, st
				if mod != nil {
					mod(&x)
				}
				cases = append(cases, x)
			}
			add("sleeping", long(), nil)
			add("ignoring signals", long(ign...), nil)
			add("writing", func(string) []Step { return busy }, nil)
			add("closed streams", long(Step{Op: "close", Fd: 1}, Step{Op: "close", Fd: 2}), nil)
			add("not notified outcomes", long(), func(x *limitCase) {
				x.flags = []string{l, "--no-notify-on-failure", "--no-notify-on-success"}
			})
			add("as daemon", long(), func(x *limitCase) { x.flags = []string{l, "--daemon"} })
			add("refused twice", long(w(1, "x\n")), func(x *limitCase) { x.faults = []string{unavail, nack} })
			add("dropped", long(), func(x *limitCase) { x.faults = []string{drop} })
			add("with warning", long(), func(x *limitCase) {
				// far enough apart that a stalled monny does not find both due at once
				x.wlimit = lim / 3
				x.limit = lim + time.Second
				x.flags = []string{"--timeout-kill=" + x.limit.String(), "--timeout-warn=" + x.wlimit.String()}
				x.warn, x.warnR = true, tw
			})
			if lim > time.Second {
				add("with warning close to the limit", long(w(1, "x\n")), func(x *limitCase) {
					x.wlimit = lim * 4
					x.limit = lim * 5
					x.flags = []string{"--timeout-kill=" + x.limit.String(), "--timeout-warn=" + x.wlimit.String()}
					x.warn, x.warnR = true, tw
				})
				add("with warning in the second half", long(ign...), func(x *limitCase) {
					x.wlimit = lim / 2 * 3
					x.limit = lim / 2 * 5
					x.flags = []string{"--timeout-warn=" + x.wlimit.String(), "--timeout-kill=" + x.limit.String(), "--daemon"}
					x.warn, x.warnR = true, tw
				})
				add("limit in other units", long(), func(x *limitCase) { x.flags = []string{fmt.Sprintf("--timeout-kill=%gm", lim.Minutes())} })
			}
			add("with unanswered warning", long(w(1, "x\n")), func(x *limitCase) {
				x.wlimit = lim / 3
				x.limit = lim + time.Second
				x.flags = []string{"--timeout-kill=" + x.limit.String(), "--timeout-warn=" + x.wlimit.String()}
				x.warn, x.warnR, x.hold = true, tw, true
			})
			add("with warning after the limit", long(), func(x *limitCase) {
				x.flags = []string{l, "--timeout-warn=30s"}
			})
			add("missing file", long(), func(x *limitCase) { x.flags = []string{l, "--creates=nofile"} })
		}
		for _, lim := range []time.Duration{100 * time.Millisecond, 600 * time.Millisecond} {
			l := "--timeout-warn=" + lim.String()
			k := limitCase{flags: []string{l}, wlimit: lim, warn: true, warnR: tw}
			for e := 0; e < 2; e++ {
				for _, f := range [][]string{nil, {unavail}, {nack, drop}} {
					x := k
					x.name, x.exit, x.faults = "warn: then runs on", e*7, f
					x.steps = warned(int(lim/time.Millisecond) * 5)
					cases = append(cases, x)
				}
				x := k
				x.name, x.steps, x.exit = "warn: busy, then runs on", warned(int(lim/time.Millisecond)*4, busy[:40]...), e
				cases = append(cases, x)
				x.hold = true
				x.name = "warn: unanswered while it runs on"
				cases = append(cases, x)
				x.hold = false
				x.name, x.flags = "warn: kill limit far away", []string{l, "--timeout-kill=60s"}
				cases = append(cases, x)
				x.name, x.flags = "warn: as daemon", []string{l, "--daemon"}
				cases = append(cases, x)
			}
		}
		for e := 0; e < 2; e++ {
			for n, st := range [][]Step{{}, {w(1, "x\n")}, {slp(900)}, busy[:60]} {
				st := st
				for _, fl := range [][]string{nil, {"--timeout-kill=25s"}, {"--timeout-warn=25s"}, {"--timeout-kill=26s", "--timeout-warn=25s"}, {"--timeout-kill=0s", "--timeout-warn=0s"}} {
					cases = append(cases, limitCase{name: fmt.Sprint("within the limits ", n), flags: fl, exit: e * 3, steps: func(string) []Step { return st }})
				}
			}
		}
	}
	runLimits(rec, "time", cases)
	flushing(rec, "time", false)
	rec.Finish()
}

// TestC10 checks the memory limits.
func TestC10(t *testing.T) {
	rec := vt.New(t, "C10", "a case is one run with memory limits over a child that maps and touches 30 to 120 MiB at scripted moments; children that must be warned wait for the warning's arrival and then hold (or release and take again) the memory for several more samples; distinct by options, child and received log")
	alloc := func(n int) Step { return Step{Op: "alloc", N: n} }
	mw := pb.ReportReason_MemoryWarning
	warned := func(dir string) Step {
		return Step{Op: "gate", Path: filepath.Join(dir, "warned"), Ms: 25000}
	}
	held := func(min uint64) func(rec *vt.Rec, s *Srv, res *Res, wit map[string]interface{}) {
		return func(rec *vt.Rec, s *Srv, res *Res, wit map[string]interface{}) {
			last := uint64(0)
			for _, g := range s.Acked(pb.ReportReason_Success, pb.ReportReason_Failure) {
				if g.Rep.MaxMemory < min {
					rec.Violation("memory:max", fmt.Sprintf("the final report gives a maximum of %d kB, the command held %d kB for several seconds", g.Rep.MaxMemory, min), wit)
				}
			}
			for _, g := range s.Acked() {
				if g.Rep.MaxMemory < last && g.Rep.ReportReason != pb.ReportReason_MemoryWarning && g.Rep.ReportReason != pb.ReportReason_TimeWarning && g.Rep.ReportReason != pb.ReportReason_Alert {
					rec.Violation("memory:decreased", fmt.Sprintf("reported maximum memory went from %d to %d kB", last, g.Rep.MaxMemory), wit)
				}
				if g.Rep.ReportReason == mw && g.Rep.MaxMemory < 50000 {
					rec.Violation("memory:warnmax", fmt.Sprintf("memory warning with maximum %d kB below the limit", g.Rep.MaxMemory), wit)
				}
				if g.Rep.MaxMemory > last {
					last = g.Rep.MaxMemory
				}
			}
		}
	}
	var cases []limitCase
	for rep := 0; rep < rec.Pick(1, 6); rep++ {
		for _, lim := range []string{"60M", "60000K", "60000"} {
			k := limitCase{flags: []string{"--memory-kill", lim}, kill: pb.KillReason_Memory}
			x := k
			x.name, x.steps = "kill: at once", func(string) []Step { return []Step{alloc(120), slp(40000)} }
			cases = append(cases, x)
			x.name, x.steps = "kill: later", func(string) []Step { return []Step{alloc(30), w(1, "x\n"), slp(2300), alloc(90), slp(40000)} }
			cases = append(cases, x)
			x.name, x.steps = "kill: memory in small pieces", func(string) []Step {
				return []Step{{Op: "allocn", N: 120}, slp(40000)}
			}
			cases = append(cases, x)
			x.name, x.steps = "kill: memory in two halves", func(string) []Step {
				return []Step{alloc(45), {Op: "guard"}, alloc(45), {Op: "guard"}, slp(40000)}
			}
			cases = append(cases, x)
			x.name, x.steps = "kill: ignoring signals", func(string) []Step {
				return append(ignoreAll(), alloc(120), slp(40000))
			}
			x.faults = []string{unavail, nack}
			cases = append(cases, x)
		}
		cases = append(cases, limitCase{name: "kill: in steps, with warning", flags: []string{"--memory-kill", "100M", "--memory-warn", "50M"}, kill: pb.KillReason_Memory, warn: true, warnR: mw,
			steps: func(dir string) []Step { return []Step{alloc(70), warned(dir), slp(1500), alloc(60), slp(40000)} }})
		cases = append(cases, limitCase{name: "kill: in steps, warning unanswered", flags: []string{"--memory-kill", "100M", "--memory-warn", "50M"}, kill: pb.KillReason_Memory, warn: true, warnR: mw, hold: true,
			steps: func(dir string) []Step { return []Step{alloc(70), warned(dir), slp(500), alloc(60), slp(40000)} }})
		cases = append(cases, limitCase{name: "kill: both at once", flags: []string{"--memory-kill", "60M", "--memory-warn", "50M"}, kill: pb.KillReason_Memory, warn: true, warnR: mw,
			steps: func(dir string) []Step { return []Step{alloc(100), slp(40000)} }})
		for e := 0; e < 2; e++ {
			for _, lim := range []string{"50M", "50000K", "50000"} {
				for _, f := range [][]string{nil, {unavail}, {nack}} {
					cases = append(cases, limitCase{name: "warn: holds on", flags: []string{"--memory-warn", lim}, exit: e * 4, faults: f, warn: true, warnR: mw,
						steps: func(dir string) []Step { return []Step{alloc(100), warned(dir), slp(3600)} }, more: held(102400)})
				}
			}
			cases = append(cases, limitCase{name: "warn: memory in small pieces", flags: []string{"--memory-warn", "50M"}, exit: e, warn: true, warnR: mw,
				steps: func(dir string) []Step { return []Step{{Op: "allocn", N: 100}, warned(dir), slp(2600)} }, more: held(102400)})
			cases = append(cases, limitCase{name: "warn: releases and takes again", flags: []string{"--memory-warn", "50M", "--rule", "ALERT"}, exit: e, warn: true, warnR: mw,
				steps: func(dir string) []Step {
					al := func(n int) []Step {
						return []Step{w(1, fmt.Sprintf("ALERT %d\n", n)), {Op: "gate", Path: filepath.Join(dir, fmt.Sprintf("alert%d", n)), Ms: 20000}}
					}
					st := append([]Step{alloc(100), warned(dir), slp(2500)}, al(1)...)
					st = append(append(st, Step{Op: "free"}, slp(2200)), al(2)...)
					st = append(append(st, alloc(110), slp(2600)), al(3)...)
					return append(append(st, Step{Op: "free"}, slp(1300)), al(4)...)
				}, more: held(112640)})
			cases = append(cases, limitCase{name: "warn: kill limit above", flags: []string{"--memory-warn", "50M", "--memory-kill", "220M"}, exit: e, warn: true, warnR: mw,
				steps: func(dir string) []Step { return []Step{alloc(100), warned(dir), slp(2600)} }, more: held(102400)})
			cases = append(cases, limitCase{name: "warn: unanswered while the maximum grows", flags: []string{"--memory-warn", "50M", "--rule", "ALERT"}, exit: e, warn: true, warnR: mw, hold: true,
				steps: func(dir string) []Step {
					return []Step{alloc(70), warned(dir), alloc(60), slp(2600), w(1, "ALERT\n"), {Op: "gate", Path: filepath.Join(dir, "alert1"), Ms: 20000}}
				}, more: held(133120)})
			for n, st := range [][]Step{{alloc(100), slp(3200)}, {slp(2200)}, {}, {alloc(60), slp(1500), {Op: "free"}, alloc(100), slp(2200)}, {{Op: "allocn", N: 100}, slp(2200)}, {{Op: "reserve", N: 4000}, slp(2200)}} {
				st := st
				for _, fl := range [][]string{nil, {"--memory-warn", "220M"}, {"--memory-kill", "220M"}, {"--memory-kill", "1G", "--memory-warn", "220000K"}, {"--memory-kill", "220000"}} {
					cases = append(cases, limitCase{name: fmt.Sprint("below ", n), flags: fl, exit: e * 2, steps: func(string) []Step { return st }})
				}
			}
		}
	}
	// memory just above and just below the limit
	pss := func(n int) Step { return Step{Op: "pss", N: n} }
	for _, l := range []struct {
		lim string
		kb  int
	}{{"300M", 300000}, {"300000K", 300000}, {"300000", 300000}, {"1G", 1000000}} {
		l := l
		over, under := l.kb*101/100+500, l.kb*99/100-500
		cases = append(cases,
			limitCase{name: "kill: just above the limit", flags: []string{"--memory-kill", l.lim}, kill: pb.KillReason_Memory, steps: func(string) []Step { return []Step{pss(over), slp(40000)} }},
			limitCase{name: "warn: just above the limit", flags: []string{"--memory-warn", l.lim}, warn: true, warnR: mw, steps: func(dir string) []Step { return []Step{pss(over), warned(dir), slp(1200)} }},
			limitCase{name: "below: just below the limits", flags: []string{"--memory-warn", l.lim, "--memory-kill=" + l.lim}, exit: 1, steps: func(dir string) []Step { return []Step{pss(under), slp(2300)} }})
	}
	// a command above both limits does not get away by releasing its memory as soon as it is warned
	cases = append(cases, limitCase{name: "kill: releases the memory when warned", flags: []string{"--memory-kill", "60M", "--memory-warn", "50M"}, kill: pb.KillReason_Memory, warn: true, warnR: mw,
		steps: func(dir string) []Step {
			return []Step{alloc(100), {Op: "gate", Path: filepath.Join(dir, "warned"), Ms: 25000}, slp(300), {Op: "free"}, slp(40000)}
		}})
	// a daemon's memory is sampled less often; first, because these take longest
	daemon := []limitCase{
		{name: "kill: daemon", flags: []string{"--memory-kill", "60M", "--daemon"}, kill: pb.KillReason_Memory, steps: func(string) []Step { return []Step{alloc(120), slp(100000)} }},
		{name: "warn: daemon", flags: []string{"--memory-warn", "50M", "--daemon"}, exit: 3, warn: true, warnR: mw, faults: []string{unavail},
			steps: func(dir string) []Step {
				return []Step{alloc(100), {Op: "gate", Path: filepath.Join(dir, "warned"), Ms: 80000}, slp(1000)}
			}, more: held(102400)},
		{name: "below: daemon", flags: []string{"--memory-kill", "220M", "--daemon", "--memory-warn", "200M"}, steps: func(string) []Step { return []Step{alloc(100), slp(32000)} }},
	}
	cases = append(daemon, cases...)
	runLimits(rec, "memory", cases)
	rec.Finish()
}
