package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/user"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif/harness/vt"
)

type endless struct{ stop chan struct{} }

func (e endless) Read(p []byte) (int, error) {
	select {
	case <-e.stop:
		return 0, io.EOF
	default:
	}
	for i := range p {
		p[i] = "endless input\n"[i%14]
	}
	return len(p), nil
}

type idle struct{ stop chan struct{} }

func (e idle) Read(p []byte) (int, error) { <-e.stop; return 0, io.EOF }

type dribble struct {
	data []byte
	n    int
}

func (d *dribble) Read(p []byte) (int, error) {
	if len(d.data) == 0 {
		return 0, io.EOF
	}
	k := 1 + (d.n*7919)%997
	d.n++
	if k > len(d.data) {
		k = len(d.data)
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, d.data[:k])
	d.data = d.data[k:]
	time.Sleep(time.Duration(d.n%3) * time.Millisecond)
	return k, nil
}

func strs(v interface{}) []string {
	var out []string
	a, _ := v.([]interface{})
	for _, x := range a {
		out = append(out, fmt.Sprint(x))
	}
	return out
}

// TestC02 checks transparency of argv, environment and stdin, and that monny always ends.
func TestC02(t *testing.T) {
	rec := vt.New(t, "C02", "a case is one run of the real binary: argv/env/stdin content recorded by the child itself, or a hostile child/stream ending; every case is non-trivial; distinct by what the child recorded and how monny ended")
	type c struct {
		name string
		f    func(name string)
	}
	var cases []c
	r := rec.Rng("c02")
	oddArgs := [][]string{
		{}, {""}, {"", "", "x", ""}, {"a b", "c\td", "e\nf", "'q'", `"dq"`, "$HOME", "*", "|", "> out", "&", ";", "`id`", "\\", "é€𝄞", "%s%d"},
		{"--help"}, {"-i", "other", "--host", "nowhere:1"}, {"--", "-x"}, {"--rule", "x", "--", "--"}, {"-"}, {"=", "--a=b", "-c"},
		{strings.Repeat("long", 20000)}, {string([]byte{0xff, 0xfe, 'x'})},
	}
	var many []string
	for i := 0; i < 2000; i++ {
		many = append(many, fmt.Sprintf("arg %d", i))
	}
	oddArgs = append(oddArgs, many)
	// as much as the system takes
	many = nil
	for i := 0; i < 20000; i++ {
		many = append(many, fmt.Sprintf("argument number %d of very many", i))
	}
	oddArgs = append(oddArgs, many, []string{"pre", strings.Repeat("x", 131000), "", strings.Repeat("y ", 65000), "post"}, append(make([]string, 9000), "last"))
	for _, s := range []string{"a | b", "x && y", "x || y", "a > b", "a >b", "2>&1", "a < b", "a; b", "$(echo hi)", "${HOME}", "~", "~/x", "{a,b}", "#c", "!!", "-n", "a=b", "\"", "'", "a\\ b", "\\n", "%s", "@file", "-", " ", " a", "a ", "\t", "\r", "*.json", "?", "[a-z]", "&", "x &", "`id`", "A=1 env", "sh -c x", "--", "---", "-i=x", "+x", "^a", "$1", "$@", "^C", "\x1b[0m"} {
		oddArgs = append(oddArgs, []string{s}, []string{"pre", s, "post", s})
	}
	shellish := []string{"|", "&&", ">", "<", ";", " | ", " && ", " > ", "$", "(", ")", "a", "b c", "'", "\"", "\\", "*", "~", "=", "#", "`", "\n", " ", "-"}
	for i := 0; i < rec.Pick(40, 600); i++ {
		var a []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			s := ""
			for j := r.Intn(6); j > 0; j-- {
				s += shellish[r.Intn(len(shellish))]
			}
			a = append(a, s)
		}
		oddArgs = append(oddArgs, a)
	}
	for i := 0; i < rec.Pick(20, 300); i++ {
		var a []string
		for k := r.Intn(6); k >= 0; k-- {
			s := string(randLine(r, r.Intn(30), r.Intn(4)))
			a = append(a, strings.ReplaceAll(s, "\x00", "0"))
		}
		oddArgs = append(oddArgs, a)
	}
	for i, extra := range oddArgs {
		extra, i := extra, i
		cases = append(cases, c{fmt.Sprintf("argv %d", i), func(name string) {
			s := NewSrv(nil)
			defer s.Close()
			dir := Dir()
			defer os.RemoveAll(dir)
			var sep = true
			env := []string{"VT_A=1", "VT_EMPTY=", "VT_ODD=a=b c\n d", "MONNY_ID=other", "MONNY_HOST=nowhere:1", "MONNY_VERBOSE=1", "ROLLBAR_TOKEN=t", "DEBUG=1", "_X.y-z=1", "LD_VT=1", "GO111VT=off", "GRPC_VT=1", fmt.Sprintf("VT_N=%d", i), "vt_lower=x"}
			switch {
			case i%9 == 4:
				env = append(env, "VT_LONG="+strings.Repeat("long value ", 11000), "VT_LINES=a\n\nb\n", "VT_BLANK= x ", "VT_QUOTED='\"a\"'", "VT_"+strings.Repeat("N", 3000)+"=n")
			case i%9 == 5:
				for k := 0; k < 1500; k++ {
					env = append(env, fmt.Sprintf("VT_MANY_%d=value %d", k, k*k))
				}
			case i%9 == 6:
				env = append(env, "http_proxy=http://127.0.0.1:9", "HTTPS_PROXY=x", "NO_PROXY=*", "GRPC_GO_LOG_SEVERITY_LEVEL=error", "environment=development", "PWD=/nowhere", "SHLVL=7", "_=x", "LANG=xx", "LC_ALL=C", "TZ=Asia/Tokyo", "TMPDIR=/nonexistent", "IFS=x", "BASH_ENV=/nonexistent", "VT_LAST=")
			}
			res := Run{Flags: append(flags(s, "c02"), further(rec.Rng(fmt.Sprint("further", i)), nil)...), Script: &Script{}, Extra: extra, Dir: dir, Sep: sep, Env: env}.Do()
			wit := map[string]interface{}{"case": name, "extra_args": vt.Trim(fmt.Sprintf("%q", extra), 3000)}
			if !res.Common(rec, "argv", wit) {
				return
			}
			want := append([]string{childBin, filepath.Join(dir, "script.json")}, extra...)
			got := strs(res.ChildRec["args"])
			// JSON cannot carry invalid UTF-8, compare as JSON would
			wj, _ := json.Marshal(want)
			gj, _ := json.Marshal(got)
			if !bytes.Equal(wj, gj) {
				rec.Violation("argv", "the command received a different argument vector", map[string]interface{}{"case": name, "want": vt.Trim(string(wj), 2000), "got": vt.Trim(string(gj), 2000)})
			}
			if wd, _ := filepath.EvalSymlinks(dir); res.ChildRec["cwd"] != wd {
				rec.Violation("cwd", fmt.Sprintf("the command runs in %v instead of %s", res.ChildRec["cwd"], wd), wit)
			}
			var wantEnv []string
			last := map[string]string{} // of several settings of a variable the last one counts
			for _, e := range append(append([]string{}, baseEnv...), env...) {
				k, v, _ := strings.Cut(e, "=")
				last[k] = v
			}
			for k, v := range last {
				wantEnv = append(wantEnv, k+"="+v)
			}
			gotEnv := strs(res.ChildRec["env"])
			sort.Strings(wantEnv)
			sort.Strings(gotEnv)
			if !reflect.DeepEqual(wantEnv, gotEnv) {
				rec.Violation("env", "the command received a different environment", map[string]interface{}{"case": name, "want": vt.Trim(fmt.Sprintf("%q", wantEnv), 3000), "got": vt.Trim(fmt.Sprintf("%q", gotEnv), 3000)})
			}
			rec.Case("argv"+string(gj), true, map[string]interface{}{"case": name, "args": len(got)})
		}})
	}
	// options directly followed by the command, no separator
	cases = append(cases, c{"no separator", func(name string) {
		s := NewSrv(nil)
		defer s.Close()
		dir := Dir()
		defer os.RemoveAll(dir)
		res := Run{Flags: flags(s, "c02"), Script: &Script{Steps: []Step{w(1, "hi\n")}}, Extra: []string{"plain", "args"}, Dir: dir}.Do()
		if !res.Common(rec, "argv", name) {
			return
		}
		if got := strs(res.ChildRec["args"]); len(got) != 4 || got[2] != "plain" || got[3] != "args" {
			rec.Violation("argv", "the command received a different argument vector", map[string]interface{}{"got": got})
		}
		rec.Case("nosep", true, nil)
	}})
	// whatever else a process inherits reaches the command as it would without monny: the same program is
	// started directly and through monny in the same surroundings
	inherited := `import os
def show(n):
    try:
        print(n, open("/proc/self/" + n).read())
    except OSError:
        pass
for l in open("/proc/self/status"):
    if l.split(":")[0] in ("Umask", "Uid", "Gid", "Groups", "SigBlk", "SigIgn", "CapInh", "CapPrm", "CapEff", "CapBnd", "CapAmb", "NoNewPrivs", "Seccomp", "Cpus_allowed_list", "Mems_allowed_list"):
        print(l.strip())
for n in ("limits", "oom_score_adj", "coredump_filter", "cgroup", "timerslack_ns", "personality"):
    show(n)
print("root", os.readlink("/proc/self/root"), "cwd", os.readlink("/proc/self/cwd"))
f = open("/proc/self/stat").read().rsplit(")", 1)[1].split()
print("pgrp", f[2], "session", f[3], "tty", f[4], "priority", f[15], "nice", f[16], "rt", f[37], "policy", f[38])
for n in sorted(os.listdir("/proc/self/fd"), key=int):
    if int(n) > 2:
        try:
            print("fd", n, os.readlink("/proc/self/fd/" + n))
        except OSError:
            pass
`
	for _, around := range []string{":", "umask 0", "umask 027", "umask 0777", "ulimit -Sn 777", "ulimit -Sn 64", "ulimit -n 100", "ulimit -c 0", "ulimit -Sc 0", "ulimit -s 4096", "ulimit -St 100", "ulimit -l 32", "exec 3<in", "exec 5<in 7>>out 9<>both", "exec 100<in 4</", "N='nice -n 5'", "N='nice -n 19'", "N='taskset 1'", "N='chrt -b 0'", "N='setpriv --no-new-privs'", "N='setpriv --bounding-set -sys_time'", "trap '' HUP", "trap '' HUP INT", "echo 500 > /proc/$$/oom_score_adj", "echo 0x7f > /proc/$$/coredump_filter", "cd gone; rmdir ../gone", "cd link", "cd /", "umask 077; ulimit -Sn 200; exec 6<in; N='nice -n 3'"} {
		for _, more := range [][]string{nil, {"--daemon"}, {"--timeout-warn", "1h", "--timeout-kill", "2h", "--memory-kill", "900G", "--creates", "/etc/passwd", "--rule", "no such output"}} {
			around, more := around, more
			if len(more) == 1 && !strings.HasPrefix(around, "u") {
				continue
			}
			cases = append(cases, c{fmt.Sprintf("surroundings %s %v", around, more), func(what string) {
				s := NewSrv(nil)
				defer s.Close()
				look := func(args ...string) (*Res, string) {
					dir := Dir()
					defer os.RemoveAll(dir)
					must(os.Mkdir(filepath.Join(dir, "gone"), 0o755))
					must(os.Symlink("/usr", filepath.Join(dir, "link")))
					touch(filepath.Join(dir, "in"))
					var pid int
					pids := make(chan int, 1)
					res := Run{Bin: "/bin/sh", Flags: append([]string{"-c", around + `; exec $N "$@"`, "sh"}, args...), Cmd: []string{"python3", "-I", "-S", "-c", inherited}, Dir: dir, Bg: func(p *os.Process) { pids <- p.Pid }}.Do()
					pid = <-pids
					out := strings.ReplaceAll(string(res.Out), dir, "DIR")
					for _, f := range []string{"pgrp", "session"} {
						out = strings.ReplaceAll(out, fmt.Sprintf("%s %d ", f, pid), f+" LEADER ")
					}
					return res, out
				}
				direct, want := look()
				if direct.Exit != 0 || !strings.Contains(want, "policy ") {
					rec.Add("surroundings_impossible", 1) // what is looked at cannot be had in this sandbox
					return
				}
				fl := append([]string{monnyBin}, append(flags(s, "c02", more...), "--")...)
				res, got := look(fl...)
				wit := map[string]interface{}{"around": around, "settings": more, "exit": res.Exit, "stderr": vt.Trim(string(res.Err), 300)}
				if !res.Common(rec, "surroundings", wit) {
					return
				}
				if got != want {
					a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
					for i := 0; i < len(a) || i < len(b); i++ {
						var x, y string
						if i < len(a) {
							x = a[i]
						}
						if i < len(b) {
							y = b[i]
						}
						if x != y {
							rec.Violation("surroundings", fmt.Sprintf("the command finds %q instead of %q", y, x), wit)
							break
						}
					}
				}
				rec.Add("surroundings_compared", 1)
				rec.Case(fmt.Sprint("surroundings", around, more), true, map[string]interface{}{"around": around, "lines": strings.Count(got, "\n")})
			}})
		}
	}
	// the command's own name is as given, wherever it is found and wherever the configuration is
	for _, name := range []string{"vtchild", "./vtchild", "bin/vtchild", "./bin/../bin/vtchild", "bin//vtchild", "../{}/vtchild", "VT CHILD", "-child", "{abs}"} {
		for _, conf := range []string{"", "-c", "--config"} {
			name, conf := name, conf
			cases = append(cases, c{fmt.Sprintf("command name %s %s", name, conf), func(what string) {
				s := NewSrv(nil)
				defer s.Close()
				dir := Dir()
				defer os.RemoveAll(dir)
				nm := strings.ReplaceAll(strings.ReplaceAll(name, "{abs}", filepath.Join(dir, "bin/vtchild")), "{}", filepath.Base(dir))
				for _, d := range []string{"bin", "path", "conf/sub"} {
					must(os.MkdirAll(filepath.Join(dir, d), 0o755))
				}
				for _, l := range []string{"vtchild", "bin/vtchild", "path/vtchild", "path/VT CHILD", "path/-child"} {
					must(os.Symlink(childBin, filepath.Join(dir, l)))
				}
				sc := &Script{Rec: filepath.Join(dir, "rec"), End: filepath.Join(dir, "end"), Steps: []Step{{Op: "file", Path: "made", N: 3}, w(1, "x\n")}}
				writeJSON(filepath.Join(dir, "s.json"), sc)
				fl := flags(s, "c02")
				if conf != "" {
					cf := filepath.Join(dir, "conf/sub/monny.yaml")
					must(os.WriteFile(cf, []byte("rule:\n  - never-matches-xyz\nstdout-history: 5\n"), 0o644))
					fl = append(fl, conf, map[string]string{"-c": cf, "--config": "conf/sub/monny.yaml"}[conf])
				}
				res := Run{Flags: fl, Cmd: []string{nm, "s.json", "arg"}, Script: sc, Dir: dir, Sep: true, Env: []string{"PATH=" + filepath.Join(dir, "path") + ":/usr/bin:/bin"}}.Do()
				wit := map[string]interface{}{"case": what, "exit": res.Exit, "stdout": vt.Trim(string(res.Out), 300), "stderr": vt.Trim(string(res.Err), 300)}
				if !res.Common(rec, "name", wit) {
					return
				}
				got := strs(res.ChildRec["args"])
				if want := []string{nm, "s.json", "arg"}; !reflect.DeepEqual(got, want) {
					rec.Violation("argv", fmt.Sprintf("the command received the argument vector %q instead of %q", got, want), wit)
				}
				if wd, _ := filepath.EvalSymlinks(dir); res.ChildRec["cwd"] != wd || !exists(filepath.Join(dir, "made")) {
					rec.Violation("cwd", fmt.Sprintf("the command runs in %v instead of %s", res.ChildRec["cwd"], wd), wit)
				}
				rec.Case(fmt.Sprint("name", name, conf), true, map[string]interface{}{"case": what, "argv": got})
			}})
		}
	}
	// stdin content
	for i, n := range []int{0, 1, 10, 4096, 65536, 65537, 300000, 1<<20 - 1, 5 << 20, 37<<20 + 11, rec.Pick(140, 600) << 20, 200 << 10} {
		n, i := n, i
		data := make([]byte, n)
		r.Read(data)
		for k := range data {
			if k%61 == 0 {
				data[k] = '\n'
			}
		}
		for _, dr := range []bool{false, true} {
			dr := dr
			if dr && n > 100000 {
				continue
			}
			cases = append(cases, c{fmt.Sprintf("stdin %d dribble=%v", n, dr), func(name string) {
				s := NewSrv(nil)
				defer s.Close()
				dir := Dir()
				defer os.RemoveAll(dir)
				cp := filepath.Join(dir, "stdin")
				var in io.Reader = bytes.NewReader(data)
				if dr {
					in = &dribble{data: data}
				}
				st := []Step{}
				if i%2 == 1 {
					st = append(st, slp(50))
				}
				st = append(st, Step{Op: "stdin", Path: cp}, w(1, "done\n"))
				run := Run{Flags: append(flags(s, "c02"), further(rec.Rng(fmt.Sprint("further stdin", i)), nil)...), Script: &Script{Steps: st}, Dir: dir, Stdin: in, HangS: 25}
				if !dr && n%2 == 0 && n < 1<<21 {
					// a pipe with a name, and other permissions
					p := filepath.Join(dir, "fifo")
					must(syscall.Mkfifo(p, []uint32{0o600, 0o644, 0o666}[i%3]))
					f, err := os.OpenFile(p, os.O_RDWR, 0)
					must(err)
					rd, err := os.OpenFile(p, os.O_RDONLY, 0)
					must(err)
					defer rd.Close()
					run.Stdin, run.StdinF = nil, rd
					go func() { f.Write(data); f.Close() }()
				}
				res := run.Do()
				if !res.Common(rec, "stdin", name) {
					return
				}
				got := readFile(cp)
				if !bytes.Equal(got, data) || !bytes.Contains(res.Out, []byte("done")) {
					rec.Violation("stdin", fmt.Sprintf("the command read %d of %d stdin bytes (identical: %v)", len(got), n, bytes.Equal(got, data)), name)
				}
				rec.Add("stdin_bytes", len(got))
				rec.Case(fmt.Sprintf("stdin%d%v", len(got), dr), true, map[string]interface{}{"case": name, "bytes": len(got)})
			}})
		}
	}
	// hostile endings: monny must end when the command has ended
	type he struct {
		name   string
		steps  []Step
		stdin  string
		exit   int
		sig    bool
		lines  []string // must be relayed to stdout
		outF   string
		errF   string
		notify bool
	}
	hs := []he{
		{name: "ignores large stdin", stdin: "big", steps: []Step{w(1, "x\n")}, lines: []string{"x"}},
		{name: "ignores endless stdin", stdin: "endless", steps: []Step{w(1, "x\n")}, lines: []string{"x"}},
		{name: "ignores idle open stdin", stdin: "idle", steps: []Step{w(1, "x\n")}, lines: []string{"x"}},
		{name: "reads a little of endless stdin", stdin: "endless", steps: []Step{{Op: "stdin", N: 100, Path: "/dev/null"}, w(1, "x\n")}, lines: []string{"x"}},
		{name: "closes stdin while it is being written", stdin: "endless", steps: []Step{{Op: "close", Fd: 0}, slp(100), w(1, "x\n")}, lines: []string{"x"}},
		{name: "closes stdin, failing", stdin: "big", steps: []Step{{Op: "close", Fd: 0}, slp(100), w(2, "x\n")}, exit: 1},
		{name: "closes stdout first", steps: []Step{w(1, "x\n"), {Op: "close", Fd: 1}, slp(100)}, lines: []string{"x"}},
		{name: "closes stderr first", steps: []Step{{Op: "close", Fd: 2}, slp(50), w(1, "x\n")}, lines: []string{"x"}},
		{name: "closes everything", stdin: "big", steps: []Step{{Op: "close", Fd: 0}, {Op: "close", Fd: 1}, {Op: "close", Fd: 2}, slp(100)}, exit: 2},
		{name: "SIGKILL", steps: []Step{w(1, "x\n"), {Op: "sig", N: 9}}, lines: []string{"x"}, sig: true},
		{name: "SIGSEGV", steps: []Step{w(1, "x\n"), {Op: "sig", N: 11}}, lines: []string{"x"}, sig: true},
		{name: "SIGTERM", steps: []Step{w(1, "x"), {Op: "sig", N: 15}}, lines: []string{"x"}, sig: true},
		{name: "SIGPIPE", steps: []Step{w(1, "x"), {Op: "sig", N: 13}}, lines: []string{"x"}, sig: true},
		{name: "SIGKILL with endless stdin", stdin: "endless", steps: []Step{w(1, "x\n"), {Op: "sig", N: 9}}, lines: []string{"x"}, sig: true},
		{name: "immediate exit", exit: 0},
		{name: "immediate failure", exit: 9},
		{name: "stdout full", outF: "/dev/full", steps: []Step{w(1, "x\ny\n"), w(2, "e\n"), w(1, "z")}},
		{name: "stderr full", errF: "/dev/full", steps: []Step{w(2, "x\ny\n"), w(1, "x\n")}, lines: []string{"x"}},
		{name: "stdout full, much written", outF: "/dev/full", steps: []Step{{Op: "w", Fd: 1, Data: bytes.Repeat([]byte("many lines\n"), 1000), Rep: 300}, w(2, "e\n")}},
		{name: "stderr full, much written", errF: "/dev/full", steps: []Step{{Op: "w", Fd: 2, Data: bytes.Repeat([]byte("many lines\n"), 1000), Rep: 300}, w(1, "x\n")}, lines: []string{"x"}},
		{name: "both full, failing", outF: "/dev/full", errF: "/dev/full", steps: []Step{w(1, "x\ny\n"), w(2, "x")}, exit: 1},
		{name: "null bytes only", steps: []Step{wb(1, make([]byte, 100000))}},
		{name: "stdin is a file", stdin: "file", steps: []Step{w(1, "x\n")}, lines: []string{"x"}},
		{name: "slow ending", steps: []Step{w(1, "x\n"), slp(1500), w(1, "y\n"), slp(700)}, lines: []string{"x", "y"}},
		{name: "tiny history and bursts", steps: []Step{{Op: "w", Fd: 1, Data: []byte("a\nb\n"), Rep: 500}, {Op: "w", Fd: 2, Data: []byte("c\n"), Rep: 500}}},
	}
	for _, h := range hs {
		for variant := 0; variant < 2; variant++ {
			h, variant := h, variant
			cases = append(cases, c{fmt.Sprintf("%s (variant %d)", h.name, variant), func(name string) {
				s := NewSrv(nil)
				defer s.Close()
				dir := Dir()
				defer os.RemoveAll(dir)
				stop := make(chan struct{})
				defer close(stop)
				fl := flags(s, "c02")
				if variant == 1 { // error reports on (they go nowhere here), rules, short history
					fl = []string{"--id", "c02", "--host", s.Addr, "--insecure", "--rule", "x", "--rule-json", "a:b", "--stdout-history", "1", "--stderr-history", "0"}
				}
				run := Run{Flags: fl, Script: &Script{Steps: h.steps, Exit: h.exit}, Dir: dir, HangS: 25}
				switch h.stdin {
				case "big":
					run.Stdin = bytes.NewReader(make([]byte, 3<<20))
				case "endless":
					run.Stdin = endless{stop}
				case "idle":
					run.Stdin = idle{stop}
				case "file":
					f, err := os.Open("/proc/self/status")
					must(err)
					defer f.Close()
					run.StdinF = f
				}
				if h.outF != "" {
					f, err := os.OpenFile(h.outF, os.O_WRONLY, 0)
					must(err)
					defer f.Close()
					run.OutF = f
				}
				if h.errF != "" {
					f, err := os.OpenFile(h.errF, os.O_WRONLY, 0)
					must(err)
					defer f.Close()
					run.ErrF = f
				}
				res := run.Do()
				if !res.Common(rec, "end", name) {
					return
				}
				if res.Sig != 0 {
					rec.Violation("end:signal", fmt.Sprintf("monny was terminated by %v", res.Sig), name)
				}
				for _, l := range h.lines {
					ok := false
					for _, g := range lines(res.Out) {
						ok = ok || string(g) == l
					}
					if !ok {
						rec.Violation("end:output", fmt.Sprintf("line %q of the command is missing on monny's output %.200q", l, res.Out), name)
					}
				}
				if !h.sig && res.ChildEnd == nil {
					rec.Violation("end:early", "the command did not run to its own end", map[string]interface{}{"case": name, "exit": res.Exit, "stderr": vt.Trim(string(res.Err), 500)})
				}
				rec.Seen("endings", fmt.Sprintf("exit=%d child=%v", res.Exit, h.name))
				rec.Case(fmt.Sprintf("end %s exit=%d out=%q", name, res.Exit, res.Out), true, map[string]interface{}{"case": name, "monny_exit": res.Exit, "ran_ms": res.End.Sub(res.Start).Milliseconds()})
			}})
		}
	}
	// commands that cannot run
	noexec := filepath.Join(scratch, "noexec")
	must(os.WriteFile(noexec, []byte("#!/bin/sh\necho hi\n"), 0o644))
	badint := filepath.Join(scratch, "badinterp")
	must(os.WriteFile(badint, []byte("#!/nonexistent/interp\n"), 0o755))
	for i, cmd := range [][]string{{}, {"/nonexistent/command"}, {"no-such-command-anywhere", "x"}, {""}, {"/"}, {"/etc/passwd"}, {noexec}, {badint}, {"./relative-missing"}, {strings.Repeat("x", 5000)}} {
		for _, sep := range []bool{false, true} {
			cmd, i, sep := cmd, i, sep
			cases = append(cases, c{fmt.Sprintf("unstartable %d sep=%v", i, sep), func(name string) {
				s := NewSrv(nil)
				defer s.Close()
				res := Run{Flags: flags(s, "c02"), Cmd: cmd, Sep: sep}.Do()
				wit := map[string]interface{}{"command": cmd, "exit": res.Exit, "stdout": vt.Trim(string(res.Out), 500), "stderr": vt.Trim(string(res.Err), 1500)}
				if !res.Common(rec, "unstartable", wit) {
					return
				}
				if res.Exit == 0 || res.Sig != 0 || len(res.Out)+len(res.Err) == 0 {
					rec.Violation("unstartable", "a command that cannot be started is not reported as an error", wit)
				}
				for _, g := range s.Got() {
					if g.Rep.Success {
						rec.Violation("unstartable:success", "a command that never started was reported as a success", wit)
					}
				}
				rec.Case(fmt.Sprintf("unstartable %d %d %q", i, res.Exit, res.Out), true, map[string]interface{}{"command": vt.Trim(fmt.Sprint(cmd), 80), "exit": res.Exit, "message": vt.Trim(string(res.Out), 120)})
			}})
		}
	}
	// random endings
	for i := 0; i < rec.Pick(40, 600); i++ {
		seed := r.Int63()
		cases = append(cases, c{fmt.Sprintf("random ending %d", i), func(name string) {
			q := rec.Rng(fmt.Sprint("ending", seed))
			s := NewSrv(faultPlan([]string{[]string{ack, ack, unavail, drop, nack}[q.Intn(5)]}))
			defer s.Close()
			dir := Dir()
			defer os.RemoveAll(dir)
			stop := make(chan struct{})
			defer close(stop)
			var st []Step
			sig := false
			closed := map[int]bool{}
			for k := 1 + q.Intn(6); k > 0; k-- {
				switch q.Intn(6) {
				case 0, 1:
					fd := 1 + q.Intn(2)
					if !closed[fd] {
						st = append(st, wb(fd, append(randLine(q, q.Intn(3000), 0), '\n')))
					}
				case 2:
					st = append(st, slp(q.Intn(30)))
				case 3:
					fd := q.Intn(3)
					closed[fd] = true
					st = append(st, Step{Op: "close", Fd: fd})
				case 4:
					if !closed[0] {
						st = append(st, Step{Op: "stdin", N: 1 + q.Intn(200000), Path: filepath.Join(dir, "in")})
					}
				case 5:
					if q.Intn(3) == 0 {
						st = append(st, Step{Op: "sig", N: []int{9, 15, 11, 6}[q.Intn(4)]})
						sig = true
					}
				}
			}
			run := Run{Flags: flags(s, "c02", "--rule", "[xyz]{3}"), Script: &Script{Steps: st, Exit: q.Intn(3)}, Dir: dir, HangS: 25}
			kind := q.Intn(4)
			switch kind {
			case 0:
				run.Stdin = bytes.NewReader(make([]byte, q.Intn(1<<20)))
				for i := range st { // avoid waiting for more than there is: EOF ends it anyway
					_ = i
				}
			case 1:
				run.Stdin = endless{stop}
			case 2:
				hasRead := false
				for _, x := range st {
					hasRead = hasRead || x.Op == "stdin"
				}
				if hasRead {
					run.Stdin = endless{stop}
				} else {
					run.Stdin = idle{stop}
				}
			}
			res := run.Do()
			j, _ := json.Marshal(st)
			wit := map[string]interface{}{"stdin_kind": kind, "steps": vt.Trim(string(j), 3000)}
			if !res.Common(rec, "end", wit) {
				return
			}
			if res.Sig != 0 {
				rec.Violation("end:signal", fmt.Sprintf("monny was terminated by %v", res.Sig), wit)
			}
			if !sig && res.ChildEnd == nil {
				rec.Violation("end:early", "the command did not run to its own end", wit)
			}
			rec.Case(fmt.Sprintf("rnd %x %d", res.Out, res.Exit), true, nil)
		}})
	}
	rec.Pool(par, len(cases), func(i int) { cases[i].f(cases[i].name) })
	_ = user.Current
	_ = syscall.SIGTERM
	rec.Finish()
}
