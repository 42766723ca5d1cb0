package mon

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"verif/harness/vt"
)

// setting is one setting as written.
type setting struct {
	key  string
	vals []string
	kind string // str, int, bool, list
}

type effective struct {
	ID              string
	Rules           []string
	NotifyTimeout   time.Duration
	KillTimeout     time.Duration
	MemoryWarn      uint64
	MemoryKill      uint64
	Daemon          bool
	Creates         []string
	StdoutHistory   int
	StderrHistory   int
	NotifyOnSuccess bool
	NotifyOnFailure bool
	Shell           string
	NoErrorReports  bool
	Hostname        string
}

func effectiveOf(c *monny.Command) effective {
	f := c.Config
	e := effective{ID: f.ID, NotifyTimeout: f.NotifyTimeout, KillTimeout: f.KillTimeout, MemoryWarn: f.MemoryWarn, MemoryKill: f.MemoryKill, Daemon: f.Daemon,
		StdoutHistory: f.StdoutHistory, StderrHistory: f.StderrHistory, NotifyOnSuccess: f.NotifyOnSuccess, NotifyOnFailure: f.NotifyOnFailure, Shell: f.Shell,
		NoErrorReports: monny.SuppressErrorReporting, Hostname: f.Hostname, Rules: []string{}, Creates: append([]string{}, f.Creates...)}
	for _, r := range f.Rules {
		re := "<nil>"
		if r.Regex != nil {
			re = r.Regex.String()
		}
		e.Rules = append(e.Rules, r.Field+"\x00"+re)
	}
	sort.Strings(e.Rules)
	sort.Strings(e.Creates)
	return e
}

func mem(s string) uint64 {
	f := uint64(1)
	switch {
	case strings.HasSuffix(s, "K"):
		s = s[:len(s)-1]
	case strings.HasSuffix(s, "M"):
		s, f = s[:len(s)-1], 1000
	case strings.HasSuffix(s, "G"):
		s, f = s[:len(s)-1], 1000000
	}
	n, err := strconv.ParseUint(s, 10, 64)
	must(err)
	return n * f
}

func expected(set []setting) effective {
	h, _ := os.Hostname()
	e := effective{StdoutHistory: 30, StderrHistory: 30, NotifyOnSuccess: true, NotifyOnFailure: true, Shell: os.Getenv("SHELL"), Hostname: h, Rules: []string{}, Creates: []string{}}
	for _, s := range set {
		v := s.vals[0]
		on := v == "true"
		switch s.key {
		case "id":
			e.ID = v
		case "rule":
			for _, x := range s.vals {
				e.Rules = append(e.Rules, "\x00"+x)
			}
		case "rule-json":
			for _, x := range s.vals {
				p := strings.SplitN(x, ":", 2)
				e.Rules = append(e.Rules, p[0]+"\x00"+p[1])
			}
		case "creates":
			e.Creates = append(e.Creates, s.vals...)
		case "stdout-history":
			e.StdoutHistory, _ = strconv.Atoi(v)
		case "stderr-history":
			e.StderrHistory, _ = strconv.Atoi(v)
		case "no-notify-on-success":
			e.NotifyOnSuccess = !on
		case "no-notify-on-failure":
			e.NotifyOnFailure = !on
		case "daemon":
			e.Daemon = on
		case "no-error-reports":
			e.NoErrorReports = on
		case "memory-warn":
			e.MemoryWarn = mem(v)
		case "memory-kill":
			e.MemoryKill = mem(v)
		case "timeout-warn":
			e.NotifyTimeout, _ = time.ParseDuration(v)
		case "timeout-kill":
			e.KillTimeout, _ = time.ParseDuration(v)
		case "shell":
			e.Shell = v
		}
	}
	sort.Strings(e.Rules)
	sort.Strings(e.Creates)
	return e
}

var regexes = []string{"ERROR", "a:b", "^\\d+ (x|y)$", "#no comment", "- dash", "it's", `"quoted"`, "{curly}", "[a-z]+", "true", "404", "*"[:0] + "x*", "ü€", " lead", "trail ", "", " ", "(?i)a|b", "\t", "=x", "a=b", "--x", "a\\.b", "%d", "0x1F", "yes", "null", "~", "1.50", "&x", "!y", "|", "a,b", "@at", "`t"}

func genSettings(q *rand.Rand) []setting {
	pick := func(a ...string) string { return a[q.Intn(len(a))] }
	set := []setting{{"id", []string{pick("me@example.com", "abc", "x y", "1234", "true", "id: odd", "-dash", "ünï", "007x", "#1", "'", " padded ", "\ttab\t", "UPPER Case", "a,b", "two\nlines", "%s", "1.50", "null", "a: b: c", "=x", strings.Repeat("long id ", 100))}, "str"}}
	p := func() bool { return q.Intn(5) < 2 }
	list := func(key string, gen func() string) {
		if !p() {
			return
		}
		var v []string
		for i := 1 + q.Intn(4); i > 0; i-- {
			v = append(v, gen())
		}
		if len(v) > 1 && q.Intn(4) == 0 {
			v[1] = v[0]
		}
		set = append(set, setting{key, v, "list"})
	}
	list("rule", func() string { return regexes[q.Intn(len(regexes))] })
	list("rule-json", func() string {
		return pick("a", "a.b", "level", "x y", "é", "a.b.c") + ":" + regexes[q.Intn(len(regexes))]
	})
	list("creates", func() string {
		return pick("out.txt", "/tmp/a b", "x:y", "12", "ü", "./z", "true", " lead", "trail ", "a,b", "dir/", "$HOME/x", "~/y", "*", "a;b", "")
	})
	for _, k := range []string{"stdout-history", "stderr-history"} {
		if p() {
			set = append(set, setting{k, []string{pick("0", "1", "30", "7", "100000", "5000000", "29", "31", "-1")}, "int"})
		}
	}
	for _, k := range []string{"no-notify-on-success", "no-notify-on-failure", "daemon", "no-error-reports", "insecure"} {
		if p() {
			set = append(set, setting{k, []string{pick("true", "false")}, "bool"})
		}
	}
	for _, k := range []string{"memory-warn", "memory-kill"} {
		if p() {
			set = append(set, setting{k, []string{pick("100M", "1G", "5K", "12345", "0", "2048M", "1K", "4294967295", "4294967296K", "5000000M", "70000G", "0M", "007M", "999999999999")}, "str"})
		}
	}
	for _, k := range []string{"timeout-warn", "timeout-kill"} {
		if p() {
			set = append(set, setting{k, []string{pick("10s", "1h30m", "500ms", "0s", "1m", "1.5s", "100us", "1ns", "999ms", "61s", "90m", "48h", "2000h", "1h0m1s", "0.1h", "-5m", "-1ns", "+10s", ".5s", "1.h", "1h1h", "-0s", "1us", "1µs", "2562047h")}, "str"})
		}
	}
	if p() {
		set = append(set, setting{"host", []string{pick("localhost:9000", "10.0.0.1:1", "a.example.org:443")}, "str"})
	}
	if p() {
		set = append(set, setting{"shell", []string{pick("/bin/sh", "/bin/bash")}, "str"})
	}
	q.Shuffle(len(set), func(a, b int) { set[a], set[b] = set[b], set[a] })
	return set
}

// another is a different value for a setting that takes one.
func another(q *rand.Rand, s setting) (setting, bool) {
	v := map[string][]string{"id": {"earlier", "first id"}, "stdout-history": {"3", "44"}, "stderr-history": {"5", "66"}, "memory-warn": {"7M", "8"}, "memory-kill": {"9G", "10K"}, "timeout-warn": {"11s", "12m"}, "timeout-kill": {"13s", "14h"}, "shell": {"/bin/sh", "/bin/bash"}}[s.key]
	if v == nil {
		return s, false
	}
	s.vals = []string{v[q.Intn(2)]}
	return s, true
}

func flagArgs(q *rand.Rand, s setting) []string {
	var out []string
	for _, v := range s.vals {
		switch {
		case s.kind == "bool" && v == "true" && q.Intn(2) == 0:
			out = append(out, "--"+s.key)
		case s.kind == "bool":
			out = append(out, "--"+s.key+"="+v)
		case s.key == "id" && q.Intn(3) == 0:
			if q.Intn(3) == 0 && v[0] != '=' {
				out = append(out, "-i"+v)
				break
			}
			out = append(out, "-i", v)
		case q.Intn(2) == 0:
			out = append(out, "--"+s.key+"="+v)
		default:
			out = append(out, "--"+s.key, v)
		}
	}
	return out
}

func yamlStr(q *rand.Rand, v string) string {
	if q.Intn(2) == 0 && !strings.ContainsAny(v, "\n") {
		return "'" + strings.ReplaceAll(v, "'", "''") + "'"
	}
	b, _ := json.Marshal(v)
	s := strings.NewReplacer(`\u0026`, "&", `\u003c`, "<", `\u003e`, ">").Replace(string(b))
	return s
}

func isPlain(v string) bool {
	for _, c := range v {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	switch strings.ToLower(v) {
	case "true", "yes", "null", "no", "on", "off", "y", "n", "false", "":
		return false
	}
	return true
}

func yamlText(q *rand.Rand, s setting) string {
	k := s.key
	one := func(v string) string {
		if isPlain(v) && q.Intn(2) == 0 {
			return v
		}
		return yamlStr(q, v)
	}
	switch s.kind {
	case "bool":
		if q.Intn(5) == 0 {
			return fmt.Sprintf("%s: %q\n", k, s.vals[0])
		}
		return k + ": " + s.vals[0] + "\n"
	case "int":
		if q.Intn(4) == 0 {
			return fmt.Sprintf("%s: %q\n", k, s.vals[0])
		}
		return k + ": " + s.vals[0] + "\n"
	case "list":
		if len(s.vals) == 1 && q.Intn(2) == 0 {
			return k + ": " + one(s.vals[0]) + "\n"
		}
		if q.Intn(2) == 0 {
			var o []string
			for _, v := range s.vals {
				o = append(o, yamlStr(q, v))
			}
			return k + ": [" + strings.Join(o, ", ") + "]\n"
		}
		o := k + ":\n"
		for _, v := range s.vals {
			o += "  - " + one(v) + "\n"
		}
		return o
	}
	if _, err := strconv.Atoi(s.vals[0]); err == nil && s.vals[0][0] != '0' && q.Intn(2) == 0 {
		return k + ": " + s.vals[0] + "\n"
	}
	if (strings.HasPrefix(k, "memory") || strings.HasPrefix(k, "timeout") || k == "host" || k == "shell") && s.vals[0] != "0" && q.Intn(2) == 0 {
		return k + ": " + s.vals[0] + "\n"
	}
	return k + ": " + yamlStr(q, s.vals[0]) + "\n"
}

// yamlDress writes the same file in another way.
func yamlDress(q *rand.Rand, y string) string {
	switch q.Intn(8) {
	case 0:
		y = "---\n# monny's configuration\n\n" + y
	case 1:
		y = strings.ReplaceAll(y, "\n", "\r\n")
	case 2:
		y = "# id: other\n" + strings.ReplaceAll(y, "\n", "\n\n") + "  # rule: none\n"
	case 3:
		y = strings.TrimSuffix(y, "\n")
	case 4:
		y += "...\n"
	}
	return y
}

// TestC12 checks how settings take effect.
func TestC12(t *testing.T) {
	rec := vt.New(t, "C12", "a case is a generated set of settings written as flags, as YAML and split over both, parsed by the exported ParseCommandLine/New and compared with an independent evaluation of what was written; plus runs of the real binary for host, secure mode and for malformed settings, where the command must not start; non-trivial if at least two settings are given; distinct by the written text")
	os.Setenv("SHELL", "/bin/bash")
	dir := Dir()
	defer os.RemoveAll(dir)
	saved := os.Args
	defer func() { os.Args = saved }()
	parse := func(args []string) (e effective, usercmd []string, err error) {
		os.Args = append([]string{"monny"}, args...)
		monny.SuppressErrorReporting = false
		u, opts, err := monny.ParseCommandLine()
		if err != nil {
			return e, u, err
		}
		c, errs := monny.New(u, opts...)
		if len(errs) > 0 {
			return e, u, fmt.Errorf("%v", errs)
		}
		if !reflect.DeepEqual(c.UserCommand, u) {
			return e, u, fmt.Errorf("user command %q became %q", u, c.UserCommand)
		}
		return effectiveOf(c), u, nil
	}
	N := rec.Pick(6000, 200000)
	q := rec.Rng("settings")
	for i := 0; i < N && rec.NumViolations() < 6; i++ {
		set := genSettings(q)
		want := expected(set)
		user := [][]string{{"cmd"}, {"cmd", "-x", "--rule", "foo"}, {"./a b", ""}, {"x", "--", "y"}}[q.Intn(4)]
		for mode := 0; mode < 3; mode++ {
			var args, early []string
			y, y2 := "", ""
			for _, s := range set {
				a, b := s, s
				a.vals, b.vals = nil, nil
				switch {
				case mode == 0:
					a = s
				case mode == 1:
					b = s
				case s.kind == "list":
					for _, v := range s.vals {
						if q.Intn(2) == 0 {
							a.vals = append(a.vals, v)
						} else {
							b.vals = append(b.vals, v)
						}
					}
				case q.Intn(2) == 0:
					a = s
				default:
					b = s
				}
				if len(a.vals) > 0 {
					args = append(args, flagArgs(q, a)...)
				}
				if len(b.vals) > 0 {
					if t := yamlText(q, b); mode == 1 && q.Intn(8) == 0 {
						y2 += t
					} else {
						y += t
					}
				}
				// what is given later counts
				if o, ok := another(q, s); ok && q.Intn(12) == 0 {
					early = append(early, flagArgs(q, o)...)
				}
			}
			if y2 != "" { // a second file
				p := filepath.Join(dir, fmt.Sprintf("d%d.yml", i%50))
				must(os.WriteFile(p, []byte(yamlDress(q, y2)), 0o644))
				args = append(args, "--config="+p)
			}
			if y != "" {
				y = yamlDress(q, y)
				p := filepath.Join(dir, fmt.Sprintf("c%d.yml", i%50))
				must(os.WriteFile(p, []byte(y), 0o644))
				cf := []string{[]string{"-c", "--config"}[q.Intn(2)], p}
				if q.Intn(2) == 0 {
					args = append(cf, args...)
				} else {
					args = append(args, cf...)
				}
			}
			args = append(early, args...)
			args = append(append(args, "--"), user...)
			wit := map[string]interface{}{"args": args, "yaml": y, "second_yaml": y2, "mode": []string{"flags", "yaml", "both"}[mode]}
			var got effective
			var u []string
			var err error
			if !rec.Guard("config:panic", func() interface{} { return wit }, func() { got, u, err = parse(args) }) {
				continue
			}
			switch {
			case err != nil:
				rec.Violation("config:refused", "valid settings were refused: "+err.Error(), wit)
			case !reflect.DeepEqual(got, want):
				wit["got"], wit["want"] = fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want)
				rec.Violation("config:differs", diffCfg(got, want), wit)
			case !reflect.DeepEqual(u, user):
				rec.Violation("config:command", fmt.Sprintf("user command is %q, written %q", u, user), wit)
			}
			rec.Case(fmt.Sprint(mode, args, y), len(set) > 1, map[string]interface{}{"args": strings.Join(args, " "), "yaml": vt.Trim(y, 200)})
			rec.Seen("effective_configurations", fmt.Sprint(got))
		}
	}
	// malformed or unknown settings: an error, and the command is not started
	bad := []struct {
		name  string
		flags []string
		yaml  string
	}{
		{"unknown flag", []string{"--rool=x"}, ""}, {"bad regex", []string{"--rule=("}, ""}, {"bad json rule regex", []string{"--rule-json=a:("}, ""}, {"json rule without field", []string{"--rule-json=abc"}, ""},
		{"bad bool", []string{"--daemon=maybe"}, ""}, {"bad bool yes", []string{"--no-error-reports=yes"}, ""}, {"bad bool number", []string{"--no-notify-on-success=2"}, ""}, {"bad bool empty", []string{"--no-notify-on-failure="}, ""},
		{"memory with two units", []string{"--memory-warn=1MB"}, ""}, {"fractional memory", []string{"--memory-kill=1.5G"}, ""}, {"memory in small letters", []string{"--memory-kill=100m"}, ""}, {"no memory", []string{"--memory-warn="}, ""}, {"negative memory", []string{"--memory-warn=-5M"}, ""}, {"negative memory kill", []string{"--memory-kill=-1"}, ""}, {"yaml negative memory", nil, "memory-warn: -100\n"}, {"memory with a blank", []string{"--memory-kill=1 G"}, ""},
		{"no history", []string{"--stderr-history="}, ""}, {"hexadecimal history", []string{"--stdout-history=0x10"}, ""}, {"history too large", []string{"--stdout-history=99999999999999999999"}, ""}, {"no time", []string{"--timeout-kill="}, ""}, {"time without number", []string{"--timeout-warn=m"}, ""}, {"config is a directory", []string{"-c", "/tmp"}, ""}, {"second config missing", []string{"-c", "/dev/null", "-c", "/nonexistent.yml"}, ""}, {"bad first, good later", []string{"--memory-warn=x", "--memory-warn=1M"}, ""}, {"good first, bad later", []string{"--timeout-kill=1h", "--timeout-kill=x"}, ""}, {"bad rule among good ones", []string{"--rule=a", "--rule=(", "--rule=b"}, ""}, {"unknown short flag", []string{"-z"}, ""}, {"flag without value", []string{"--shell="}, "shell: /no/such\n"}, {"json rule without colon", []string{"--rule-json="}, ""},
		{"yaml bad bool list", nil, "daemon: [true]\n"}, {"yaml float history", nil, "stdout-history: 1.5\n"}, {"yaml id list", nil, "id: [a, b]\n"}, {"yaml key in capitals", nil, "Rule: x\n"}, {"yaml underscore", nil, "stdout_history: 3\n"}, {"yaml date", nil, "timeout-kill: 2020-01-01\n"}, {"bad history", []string{"--stdout-history=x"}, ""}, {"bad stderr history", []string{"--stderr-history=1.5"}, ""}, {"bad memory", []string{"--memory-warn=12Q"}, ""}, {"bad memory kill", []string{"--memory-kill=M"}, ""},
		{"bad time", []string{"--timeout-kill=5"}, ""}, {"bad time warn", []string{"--timeout-warn=soon"}, ""}, {"bad host", []string{"--host=nohost"}, ""}, {"bad host 2", []string{"--host=a:b:c"}, ""}, {"host with scheme", []string{"--host=https://127.0.0.1:1"}, ""}, {"host with port and scheme", []string{"--host=tcp://localhost:443"}, ""}, {"yaml host with scheme", nil, "host: 'http://localhost:1'\n"}, {"no host", []string{"--host="}, ""}, {"host without colon", nil, "host: 12345\n"}, {"time with a blank", []string{"--timeout-kill=1 h"}, ""}, {"time in days", []string{"--timeout-warn=1d"}, ""}, {"time in capitals", []string{"--timeout-warn=1H"}, ""}, {"history with a blank", []string{"--stdout-history= 5"}, ""}, {"history with a separator", []string{"--stderr-history=1_000"}, ""}, {"memory with a separator", []string{"--memory-kill=1_000M"}, ""}, {"memory in hexadecimal", []string{"--memory-warn=0x10M"}, ""}, {"octal", []string{"--stdout-history=0o17"}, ""}, {"memory in T", []string{"--memory-kill=1T"}, ""}, {"memory in bytes", []string{"--memory-kill=100B"}, ""}, {"memory in Ki", []string{"--memory-kill=100Ki"}, ""}, {"infinite time", []string{"--timeout-kill=inf"}, ""}, {"empty rule value in yaml map", nil, "creates: {a: b}\n"}, {"time too large", []string{"--timeout-kill=99999999h"}, ""}, {"bad shell", []string{"--shell=/no/such/shell"}, ""}, {"missing config", []string{"-c", "/nonexistent.yml"}, ""},
		{"yaml unknown", nil, "rool: x\n"}, {"yaml unknown list", nil, "rools: [a, b]\n"}, {"yaml unknown bool", nil, "verbose: true\n"}, {"yaml unknown int", nil, "port: 12\n"}, {"yaml bad regex", nil, "rule: '('\n"}, {"yaml bad regex in list", nil, "rule: [a, '(']\n"}, {"yaml bad json regex", nil, "rule-json: ['a:(']\n"}, {"yaml bad json rule in list", nil, "rule-json: ['a:b', 'ab']\n"},
		{"yaml bad bool", nil, "daemon: maybe\n"}, {"yaml insecure bool", nil, "insecure: 7\n"}, {"yaml bad history", nil, "stdout-history: many\n"}, {"yaml bad memory", nil, "memory-warn: 1X\n"}, {"yaml bad time", nil, "timeout-kill: 10 parsecs\n"}, {"yaml bad time int", nil, "timeout-warn: 10\n"}, {"yaml bad host", nil, "host: x\n"},
		{"no id", []string{"NOID"}, ""}, {"no id but a rule", []string{"NOID", "--rule=x"}, ""}, {"empty id", []string{"NOID", "--id="}, ""}, {"yaml without id", []string{"NOID"}, "rule: x\n"}, {"yaml empty id", []string{"NOID"}, "id: ''\n"},
		{"yaml broken", nil, "rule: [a\n"}, {"yaml not a map", nil, "- a\n- b\n"}, {"yaml tabs", nil, "rule:\n\t- a\n"}, {"yaml list for scalar", nil, "memory-warn: [1M, 2M]\n"}, {"yaml map", nil, "rule: {a: b}\n"}, {"yaml null", nil, "rule:\n"}, {"yaml bad shell", nil, "shell: /no/such\n"}, {"yaml good list, unknown list", nil, "rule: [a]\nrules: [b]\n"}, {"yaml unknown map", nil, "alerts: {x: 1}\n"},
	}
	for k := 0; k < rec.Pick(1, 5); k++ {
		rec.Pool(par, len(bad), func(i int) {
			b := bad[i]
			s := NewSrv(nil)
			defer s.Close()
			d := Dir()
			defer os.RemoveAll(d)
			fl := flags(s, "c12", b.flags...)
			if len(b.flags) > 0 && b.flags[0] == "NOID" {
				fl = append([]string{"--host", s.Addr, "--insecure", "--no-error-reports"}, b.flags[1:]...)
			}
			if b.yaml != "" {
				yp := filepath.Join(d, "c.yml")
				must(os.WriteFile(yp, []byte(b.yaml), 0o644))
				fl = append(fl, "-c", yp)
			}
			res := Run{Flags: fl, Sep: true, Script: &Script{Steps: []Step{mark(filepath.Join(d, "ran"))}}, Dir: d}.Do()
			wit := map[string]interface{}{"case": b.name, "flags": b.flags, "yaml": b.yaml, "exit": res.Exit, "out": vt.Trim(string(res.Out), 400), "err": vt.Trim(string(res.Err), 400)}
			if !res.Common(rec, "badconfig", wit) {
				return
			}
			if exists(filepath.Join(d, "ran")) || res.ChildRec != nil {
				rec.Violation("badconfig:started", "the command was started although a setting is malformed: "+b.name, wit)
			}
			if res.Exit == 0 || len(res.Out)+len(res.Err) == 0 {
				rec.Violation("badconfig:noerror", "a malformed setting was not reported as an error: "+b.name, wit)
			}
			if len(s.Got()) > 0 {
				rec.Violation("badconfig:report", "a report was sent", wit)
			}
			rec.Case("bad "+b.name, true, wit)
			rec.Add("malformed_settings_refused", 1)
		})
	}
	// where reports go, and the secure mode, seen from outside
	for i, y := range []string{"host: %s\ninsecure: true\n", "insecure: 'true'\nhost: '%s'\nrule: a\n", "host: %s\n", "host: %s\ninsecure: false\n"} {
		for _, viaFlags := range []bool{false, true} {
			s := NewSrv(nil)
			d := Dir()
			text := fmt.Sprintf(y, s.Addr)
			yp := filepath.Join(d, "c.yml")
			fl := []string{"-i", "c12", "--no-error-reports"}
			if viaFlags {
				for _, l := range strings.Split(strings.TrimSpace(text), "\n") {
					p := strings.SplitN(l, ": ", 2)
					fl = append(fl, "--"+p[0]+"="+strings.Trim(p[1], "'"))
				}
			} else {
				must(os.WriteFile(yp, []byte(text), 0o644))
				fl = append(fl, "-c", yp)
			}
			res := Run{Flags: fl, Sep: true, Script: &Script{}, Dir: d, Env: []string{"MONNY_VERIF_SEND_TIMEOUT=1500ms"}}.Do()
			wit := map[string]interface{}{"flags": fl, "yaml": text, "log": brief(s.Got())}
			if res.Common(rec, "transport", wit) {
				if plain := i < 2; plain != (len(s.Acked()) == 1) {
					rec.Violation("transport:insecure", fmt.Sprintf("%d reports arrived in clear text", len(s.Acked())), wit)
				}
				if s.Conns() == 0 {
					rec.Violation("transport:host", "the configured host was never contacted", wit)
				}
			}
			rec.Case(fmt.Sprint(text, viaFlags), true, nil)
			s.Close()
			os.RemoveAll(d)
		}
	}
	rec.Finish()
}

func diffCfg(a, b effective) string {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < va.NumField(); i++ {
		if !reflect.DeepEqual(va.Field(i).Interface(), vb.Field(i).Interface()) {
			return fmt.Sprintf("%s is %q, written %q", va.Type().Field(i).Name, fmt.Sprint(va.Field(i).Interface()), fmt.Sprint(vb.Field(i).Interface()))
		}
	}
	return "?"
}
