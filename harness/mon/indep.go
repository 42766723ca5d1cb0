package mon

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// Independent checks that reports under way at the same time do not wait for each other: while
// the server withholds the answer to some, all others are tried, tried again and delivered.
func Independent(rec *vt.Rec) {
	type cs struct {
		alerts int
		exit   int
		miss   int
		warn   bool
		faults []string
	}
	var cases []cs
	for rep := 0; rep < rec.Pick(1, 6); rep++ {
		for k, n := range []int{1, 2, 7, 30, 80, 200, 0, 0} {
			for j, f := range [][]string{nil, {unavail}, {nack, drop}, {intern, "code12", unavail}} {
				cases = append(cases, cs{n, (j + k) % 2 * 3, (j + rep) % 3, n == 0 || j%2 == 0, f})
			}
		}
	}
	rec.Pool(16, len(cases), func(i int) {
		c := cases[i]
		dir := Dir()
		defer os.RemoveAll(dir)
		p := func(n string) string { return filepath.Join(dir, n) }
		held := 0
		if c.warn {
			held++
		}
		held += c.alerts
		others := c.miss
		if c.exit != 0 || c.miss == 0 {
			others++
		}
		var mu sync.Mutex
		tried := map[string]int{}
		arrived, delivered := 0, 0
		isHeld := func(rep *pb.Report) bool {
			return rep.ReportReason == pb.ReportReason_Alert || rep.ReportReason == pb.ReportReason_TimeWarning
		}
		s := NewSrv(func(_ int, rep *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			if isHeld(rep) {
				if arrived++; arrived == held {
					touch(p("arrived"))
				}
				return ack
			}
			k := fmt.Sprint(rep.ReportReason, rep.Messages)
			tried[k]++
			if tried[k] <= len(c.faults) {
				return c.faults[tried[k]-1]
			}
			if delivered++; delivered == others {
				touch(p("free"))
			}
			return ack
		})
		defer s.Close()
		s.holdOn = func(_ int, rep *pb.Report) string {
			if isHeld(rep) {
				return p("free")
			}
			return ""
		}
		fl := flags(s, "independent", "--rule", "ALERT")
		if c.warn {
			fl = append(fl, "--timeout-warn=20ms")
		}
		for k := 0; k < c.miss; k++ {
			fl = append(fl, "--creates", p(fmt.Sprint("missing", k)))
		}
		var st []Step
		for k := 0; k < c.alerts; k++ {
			st = append(st, w(1+k%2, fmt.Sprintf("ALERT %d\n", k)))
		}
		st = append(st, Step{Op: "gate", Path: p("arrived"), Ms: 40000})
		stuck := make(chan bool, 1)
		over := make(chan bool)
		r := Run{Flags: fl, Script: &Script{Steps: st, Exit: c.exit}, Dir: dir, Sep: true, After: func() { close(over) }, Bg: func(*os.Process) {
			select {
			case <-over:
			case <-time.After(75 * time.Second):
				stuck <- !exists(p("free"))
				touch(p("free"))
			}
		}}
		res := r.Do()
		mu.Lock()
		wit := map[string]interface{}{"case": fmt.Sprintf("%+v", c), "unanswered": held, "arrived": arrived, "others": others, "delivered": delivered}
		all := arrived >= held
		mu.Unlock()
		if !res.Common(rec, "apart", wit) {
			return
		}
		select {
		case b := <-stuck:
			if b {
				what := "while reports were unanswered, the others were not delivered"
				if !all {
					what = "while reports were unanswered, further ones did not arrive"
				}
				rec.Violation("apart:blocked", what, wit)
			}
		default:
		}
		rec.Add("answers_withheld", held)
		rec.Case(fmt.Sprint("apart", wit["case"]), true, wit)
	})
}
