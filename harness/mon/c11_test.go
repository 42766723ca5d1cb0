package mon

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

// TestC11 checks expected files.
func TestC11(t *testing.T) {
	rec := vt.New(t, "C11", "a case is one run with 1-5 expected files (already there, created by the command, never created, removed by it, behind a file, dangling or looping links, too long, duplicated, directories, pipes, of any age and size, reached through links or with trailing slashes, relative or absolute), an exit status, no-notify options and failing first sends; which files exist is decided by stat after the run; distinct by options, file kinds and received log")
	type fk struct {
		kind string
		pre  func(dir string, p string)
		st   func(p string) []Step
		name func(i int) string
	}
	n := func(s string) func(int) string { return func(i int) string { return fmt.Sprintf("%s-%d.out", s, i) } }
	kinds := []fk{
		{"present", func(_, p string) { must(os.WriteFile(p, []byte(strings.Repeat("p", 5+len(p)%7)), 0o644)) }, nil, n("present")},
		{"created", nil, func(p string) []Step { return []Step{{Op: "file", Path: p, N: 1234}} }, n("created")},
		{"created late", nil, func(p string) []Step { return []Step{slp(60), {Op: "file", Path: p, N: 77777}} }, n("late")},
		{"grown", func(_, p string) { touch(p) }, func(p string) []Step { return []Step{{Op: "file", Path: p, N: 99}} }, n("grown")},
		{"empty", nil, func(p string) []Step { return []Step{{Op: "file", Path: p, N: 0}} }, n("empty")},
		{"directory", func(_, p string) { must(os.Mkdir(p, 0o755)) }, nil, n("directory")},
		{"link", func(d, p string) { touch(filepath.Join(d, "target")); must(os.Symlink(filepath.Join(d, "target"), p)) }, nil, n("link")},
		{"with spaces", nil, func(p string) []Step { return []Step{{Op: "file", Path: p, N: 3}} }, n("with space ü")},
		{"with odd characters", nil, func(p string) []Step { return []Step{{Op: "file", Path: p, N: 4}} }, func(i int) string {
			return []string{"a%20b.out", "~", "$HOME", "#x", "x*y?", "[a]", "{a,b}", "-i", "a:b", "a=b", "a,b", "a;b", "100%s%d", "'q'", "\"q\"", "back\\slash"}[i%16] + fmt.Sprint(i)
		}},
		{"large", nil, func(p string) []Step { return []Step{{Op: "file", Path: p, N: 5<<20 + 1}} }, n("large")},
		{"directory, trailing slash", func(_, p string) { must(os.Mkdir(strings.TrimSuffix(p, "/"), 0o755)) }, nil, func(i int) string { return fmt.Sprintf("slashdir%d/", i) }},
		{"old", func(_, p string) { touch(p); must(os.Chtimes(p, time.Unix(600000000, 0), time.Unix(600000000, 0))) }, nil, n("old")},
		{"oldest", func(_, p string) { touch(p); must(os.Chtimes(p, time.Unix(0, 0), time.Unix(0, 0))) }, nil, n("oldest")},
		{"from the future", func(_, p string) {
			touch(p)
			must(os.Chtimes(p, time.Now().Add(50*time.Hour), time.Now().Add(50*time.Hour)))
		}, nil, n("future")},
		{"huge", func(_, p string) { touch(p); must(os.Truncate(p, 6<<30+5)) }, nil, n("huge")},
		{"pipe", func(_, p string) { must(syscall.Mkfifo(p, 0o644)) }, nil, n("pipe")},
		{"no permissions", func(_, p string) { touch(p); must(os.Chmod(p, 0)) }, nil, n("closed")},
		{"hidden", nil, func(p string) []Step { return []Step{{Op: "file", Path: p, N: 8}} }, func(i int) string { return fmt.Sprintf(".hidden%d", i) }},
		{"up from a linked directory", func(d, p string) {
			must(os.MkdirAll(filepath.Join(d, "elsewhere", "sub"), 0o755))
			i := filepath.Base(p)[len("through"):]
			touch(filepath.Join(d, "elsewhere", "through"+i))
			must(os.Symlink("elsewhere/sub", filepath.Join(d, "lk"+i)))
		}, nil, func(i int) string { return fmt.Sprintf("lk%d/../through%d", i, i) }},
		{"missing", nil, nil, n("missing")},
		{"missing, up from a linked directory", func(d, p string) {
			must(os.MkdirAll(filepath.Join(d, "elsewhere", "sub"), 0o755))
			i := filepath.Base(p)[len("here"):]
			touch(filepath.Join(d, "here"+i))
			must(os.Symlink("elsewhere/sub", filepath.Join(d, "hl"+i)))
		}, nil, func(i int) string { return fmt.Sprintf("hl%d/../here%d", i, i) }},
		{"missing, up from a missing directory", func(d, p string) { touch(filepath.Join(d, filepath.Base(p))) }, nil, func(i int) string { return fmt.Sprintf("nosuch%d/../below%d", i, i) }},
		{"missing, a file but no directory", func(_, p string) { touch(strings.TrimSuffix(p, "/")) }, nil, func(i int) string { return fmt.Sprintf("slash%d/", i) }},
		{"missing here, there at home", func(d, p string) {
			must(os.MkdirAll(filepath.Join(d, "homedir"), 0o755))
			touch(filepath.Join(d, "homedir", filepath.Base(p)))
		}, nil, func(i int) string { return fmt.Sprintf("~/home%d", i) }},
		{"missing, another matches as a pattern", func(d, p string) {
			for _, x := range []string{"out1", "outA", "outab"} {
				must(os.WriteFile(filepath.Join(filepath.Dir(p), x), []byte("x"), 0o644))
			}
		}, nil, func(i int) string { return []string{"out?", "out*", "out[1A]", "out[0-9]", "out{1,A}"}[i%5] }},
		{"missing, another in other case", func(d, p string) { touch(filepath.Join(d, "CASED.OUT")) }, nil, func(i int) string { return "Cased.out" }},
		{"missing, similar exist", func(_, p string) { touch(p + ".tmp"); touch(p + "~"); touch(p + ".gz"); touch(p[:len(p)-1]) }, nil, n("similar")},
		{"missing dir", nil, nil, func(i int) string { return fmt.Sprintf("nodir%d/missing", i) }},
		{"removed", func(_, p string) { touch(p) }, func(p string) []Step { return []Step{{Op: "rm", Path: p}} }, n("removed")},
		{"behind a file", func(d, p string) { touch(filepath.Dir(p)) }, nil, func(i int) string { return fmt.Sprintf("plainfile%d/behind", i) }},
		{"dangling", func(_, p string) { must(os.Symlink("/nonexistent/x", p)) }, nil, n("dangling")},
		{"looping", func(_, p string) { must(os.Symlink(filepath.Base(p), p)) }, nil, n("looping")},
		{"too long", nil, nil, func(i int) string { return fmt.Sprintf("%d%s", i, strings.Repeat("n", 300)) }},
		{"created then removed", nil, func(p string) []Step { return []Step{{Op: "file", Path: p, N: 9}, {Op: "rm", Path: p}} }, n("gone")},
	}
	var cases [][]int
	exist := 0 // so many of the kinds exist in the end
	for i := range kinds {
		if kinds[i].kind == "missing" {
			exist = i
		}
		cases = append(cases, []int{i})
	}
	for k := 0; k < rec.Pick(110, 1500); k++ {
		q := rec.Rng(fmt.Sprint("files", k))
		var c []int
		for j := 1 + q.Intn(5); j > 0; j-- {
			x := q.Intn(len(kinds))
			if k%3 == 0 { // only existing ones
				x = q.Intn(exist)
			}
			c = append(c, x)
		}
		cases = append(cases, c)
	}
	rec.Pool(par, len(cases), func(i int) {
		q := rec.Rng(fmt.Sprint("case", i))
		dir := Dir()
		defer os.RemoveAll(dir)
		var st []Step
		var paths, names, yamlNames, kn []string
		for j, x := range cases[i] {
			k := kinds[x]
			nm := k.name(j)
			p := dir + "/" + nm
			if k.pre != nil {
				k.pre(dir, p)
			}
			if k.st != nil {
				st = append(st, k.st(p)...)
			}
			kn = append(kn, k.kind)
			given := p
			if q.Intn(2) == 0 && len(nm) < 200 {
				given = nm
			}
			for d := 1 + q.Intn(8)/7; d > 0; d-- {
				paths = append(paths, given)
				if q.Intn(3) == 0 {
					yamlNames = append(yamlNames, given)
				} else {
					names = append(names, given)
				}
			}
		}
		exit := []int{0, 0, 3, 1}[q.Intn(4)]
		if q.Intn(12) == 0 {
			st = append(st, Step{Op: "sig", N: 9})
			exit = -1
		}
		sup := [][]string{nil, nil, nil, {"--no-notify-on-success"}, {"--no-notify-on-failure"}, {"--no-notify-on-success", "--no-notify-on-failure"}, {"--daemon"}}[q.Intn(7)]
		faults := [][]string{nil, nil, {unavail}, {nack, drop}}[q.Intn(4)]
		var mu sync.Mutex
		na := map[string]int{}
		s := NewSrv(func(_ int, rep *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			k := rep.ReportReason.String() + strings.Join(rep.Messages, "\x00")
			na[k]++
			if na[k] <= len(faults) {
				return faults[na[k]-1]
			}
			return ack
		})
		defer s.Close()
		fl := flags(s, "c11", sup...)
		for _, p := range names {
			fl = append(fl, "--creates", p)
		}
		if len(yamlNames) > 0 {
			y := "creates:\n"
			for _, p := range yamlNames {
				b, _ := json.Marshal(p)
				y += "  - " + string(b) + "\n"
			}
			yp := filepath.Join(dir, "conf.yml")
			must(os.WriteFile(yp, []byte(y), 0o644))
			fl = append(fl, "-c", yp)
		}
		fl = append(fl, further(rec.Rng(fmt.Sprint("further", i)), fl, "--creates", "--no-notify-on-success", "--no-notify-on-failure")...)
		res := Run{Flags: fl, Script: &Script{Steps: st, Exit: exit}, Dir: dir, Env: []string{"HOME=" + filepath.Join(dir, "homedir")}}.Do()
		got := s.Got()
		wit := map[string]interface{}{"kinds": kn, "creates": paths, "exit": exit, "options": sup, "faults": faults, "server_log": brief(got)}
		if !res.Common(rec, "creates", wit) {
			return
		}
		var missing []string
		want := []string{}
		for _, p := range paths {
			full := p
			if !filepath.IsAbs(p) {
				full = dir + "/" + p
			}
			fi, err := os.Stat(full)
			if err != nil {
				missing = append(missing, p)
				continue
			}
			want = append(want, fmt.Sprintf("%s %d %s", filepath.Base(p), fi.Size(), fi.ModTime().UTC().Format(time.RFC3339)))
		}
		has := func(l []string, x string) bool {
			for _, s := range l {
				if s == x {
					return true
				}
			}
			return false
		}
		var msgs []string
		for _, g := range s.Acked(pb.ReportReason_FileNotCreated) {
			msgs = append(msgs, g.Rep.Messages...)
			if g.AckAt.After(res.End) {
				rec.Violation("creates:late", "a file-not-created report was acknowledged after monny's end", wit)
			}
		}
		for _, p := range missing {
			ok := false
			for _, m := range msgs {
				ok = ok || strings.Contains(m, p)
			}
			if !ok {
				rec.Violation("creates:unreported", fmt.Sprintf("expected file %s does not exist, no delivered file-not-created report names it (messages %q)", vt.Trim(p, 80), msgs), wit)
			}
		}
		for _, m := range msgs {
			for _, p := range paths {
				if !has(missing, p) && strings.HasSuffix(m, p) && (len(m) == len(p) || m[len(m)-len(p)-1] == ' ') {
					rec.Violation("creates:wrong", "a file that exists is reported as not created: "+p, wit)
				}
			}
		}
		if len(missing) > 0 {
			for _, g := range got {
				if g.Rep.Success || g.Rep.ReportReason == pb.ReportReason_Success {
					rec.Violation("creates:success", "a report claims success although an expected file is missing", wit)
				}
			}
			if exit != 0 && !has(sup, "--no-notify-on-failure") && len(s.Acked(pb.ReportReason_Failure)) != 1 {
				rec.Violation("creates:nofail", "the failure of the command itself was not reported", wit)
			}
		} else {
			if len(s.Received(pb.ReportReason_FileNotCreated)) > 0 {
				rec.Violation("creates:false", "a file-not-created report was sent although all files exist", wit)
			}
			reason, off := pb.ReportReason_Success, has(sup, "--no-notify-on-success")
			if exit != 0 {
				reason, off = pb.ReportReason_Failure, has(sup, "--no-notify-on-failure")
			}
			a := s.Acked(pb.ReportReason_Success, pb.ReportReason_Failure)
			switch {
			case off && len(a) > 0:
				rec.Violation("creates:suppressed", "a suppressed outcome was sent", wit)
			case !off && (len(a) != 1 || a[0].Rep.ReportReason != reason || a[0].Rep.Success != (exit == 0)):
				rec.Violation("creates:outcome", "the outcome was not reported normally", wit)
			case !off:
				var cr []struct {
					Path string
					Size int64
					Time time.Time
				}
				if err := json.Unmarshal(a[0].Rep.Created, &cr); err != nil {
					rec.Violation("creates:json", "list of created files is not decodable: "+err.Error(), wit)
					break
				}
				list := []string{}
				for _, c := range cr {
					list = append(list, fmt.Sprintf("%s %d %s", filepath.Base(c.Path), c.Size, c.Time.UTC().Format(time.RFC3339)))
				}
				sort.Strings(list)
				sort.Strings(want)
				if !reflect.DeepEqual(list, want) {
					rec.Violation("creates:list", fmt.Sprintf("created files are listed as %v, actual %v", list, want), wit)
				}
				rec.Add("sizes_compared", len(want))
			}
		}
		rec.Add("missing_files", len(missing))
		rec.Add("existing_files", len(want))
		rec.Case(fmt.Sprint(kn, exit, sup, brief2(got)), true, map[string]interface{}{"kinds": kn, "exit": exit, "options": sup, "log": brief2(got), "messages": len(msgs)})
	})
	rec.Finish()
}
