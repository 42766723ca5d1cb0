package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

type rule struct {
	Field string
	Re    string
}

func (r rule) flag() []string {
	if r.Field == "" {
		return []string{"--rule", r.Re}
	}
	return []string{"--rule-json", r.Field + ":" + r.Re}
}

// scalarText renders a decoded JSON value the way the property states.
func scalarText(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case json.Number:
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil || math.IsInf(f, 0) {
			return "", false
		}
		return strconv.FormatFloat(f, 'f', 6, 64), true
	case bool:
		return strconv.FormatBool(x), true
	}
	return "", false
}

// jsonText is the reference for the text addressed by a JSON rule.
func jsonText(line []byte, field string) string {
	d := json.NewDecoder(strings.NewReader(string(line)))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return ""
	}
	var rest interface{}
	if err := d.Decode(&rest); err == nil || err.Error() != "EOF" {
		return "" // trailing data: not a JSON object
	}
	for _, p := range strings.Split(field, ".") {
		m, ok := v.(map[string]interface{})
		if !ok {
			return ""
		}
		if v, ok = m[p]; !ok {
			return ""
		}
	}
	if a, ok := v.([]interface{}); ok {
		var out []string
		for _, x := range a {
			if t, ok := scalarText(x); ok {
				out = append(out, t)
			}
		}
		return strings.Join(out, "\n")
	}
	t, _ := scalarText(v)
	return t
}

type matchKey struct {
	Line string
	Idx  string
}

func keyOf(line []byte, idx [][]int) matchKey {
	j, _ := json.Marshal(idx)
	return matchKey{normUTF8(line), string(j)}
}

// expectMatches is the reference: all (line, rule) matches and the number of matching lines.
func expectMatches(ls [][]byte, rules []rule) (map[matchKey]int, int) {
	out := map[matchKey]int{}
	n := 0
	for _, l := range ls {
		l = []byte(strings.TrimSuffix(string(l), "\r"))
		any := false
		for _, r := range rules {
			text := string(l)
			if r.Field != "" {
				text = jsonText(l, r.Field)
			}
			if idx := regexp.MustCompile(r.Re).FindAllStringIndex(text, -1); idx != nil {
				out[keyOf(l, idx)]++
				any = true
			}
		}
		if any {
			n++
		}
	}
	return out, n
}

type repMatch struct {
	Time  time.Time
	Line  string
	Index [][]int
}

func decodeMatches(p *pb.Report) ([]repMatch, error) {
	var m []repMatch
	err := json.Unmarshal(p.Matches, &m)
	return m, err
}

func sample(m map[matchKey]int) []string {
	var o []string
	for k := range m {
		o = append(o, fmt.Sprintf("%.60q@%.60s", k.Line, k.Idx))
	}
	sort.Strings(o)
	if len(o) > 8 {
		o = o[:8]
	}
	return o
}

// checkAlerts compares the alerts of a run with the reference.
func checkAlerts(rec *vt.Rec, key string, s *Srv, res *Res, exp map[matchKey]int, matching int, lost bool, wit map[string]interface{}) {
	wit["server_log"] = brief(s.Got())
	missing := map[matchKey]int{}
	for k, n := range exp {
		missing[k] = n
	}
	alerts := 0
	for _, g := range s.Got() {
		p := g.Rep
		ms, err := decodeMatches(p)
		if err != nil && len(p.Matches) > 0 {
			rec.Violation(key+":json", fmt.Sprintf("%s report: matches are not decodable: %v", p.ReportReason, err), wit)
			continue
		}
		for _, m := range ms {
			k := keyOf([]byte(m.Line), m.Index)
			if exp[k] == 0 {
				rec.Violation(key+":unsound", fmt.Sprintf("%s report lists a match that no rule produces: line %.200q index %v", p.ReportReason, m.Line, m.Index), wit)
			}
			if m.Time.Before(res.Start.Add(-time.Second)) || m.Time.After(g.At.Add(time.Second)) {
				rec.Violation(key+":time", fmt.Sprintf("match time %v outside the run [%v, %v]", m.Time, res.Start, g.At), wit)
			}
			if g.Acked && p.ReportReason == pb.ReportReason_Alert {
				if missing[k] > 1 {
					missing[k]--
				} else {
					delete(missing, k)
				}
			}
			rec.Add("matches_in_reports", 1)
		}
		if g.Acked && p.ReportReason == pb.ReportReason_Alert {
			alerts++
			if g.AckAt.After(res.End) {
				rec.Violation(key+":late", "an alert was acknowledged only after monny had exited", wit)
			}
		}
	}
	if len(missing) > 0 {
		rec.Violation(key+":missed", fmt.Sprintf("%d of %d matches never appeared in an acknowledged alert, e.g. %v", len(missing), len(exp), sample(missing)), wit)
	}
	if !lost && alerts > matching {
		rec.Violation(key+":toomany", fmt.Sprintf("%d alerts were sent for %d matching lines", alerts, matching), wit)
	}
	if matching == 0 && len(s.Received(pb.ReportReason_Alert, pb.ReportReason_AlertRate)) > 0 {
		rec.Violation(key+":false", "an alert was sent although no line matched", wit)
	}
	rec.Add("alerts_acked", alerts)
}

// TestC06 checks that exactly the rule matches are alerted on.
func TestC06(t *testing.T) {
	rec := vt.New(t, "C06", "a case is one run of the real binary with 1-3 rules over a child writing numbered matching and non-matching lines on both streams; in the gated cases the child writes further matches while the server is holding the acknowledgement of an earlier alert; non-trivial if a line matched or an alert could falsely be sent; distinct by the received alert sequence and line pattern")
	type cs struct {
		name   string
		rules  []rule
		steps  func(dir string, q *rand.Rand) []Step
		faults []string
		hold   bool
		exit   int
		flags  []string
		giveUp int // so many alerts are never answered and given up after 2.5 s
	}
	line := func(n int, match bool, fd int) Step {
		if match {
			return w(fd, fmt.Sprintf("%d ERROR something %d\n", n, n*7))
		}
		return w(fd, fmt.Sprintf("%d all is well\n", n))
	}
	R := []rule{{"", "ERROR"}}
	plain := func(pat string, gap int) func(string, *rand.Rand) []Step {
		return func(_ string, q *rand.Rand) []Step {
			var st []Step
			for i, c := range pat {
				fd := 1 + q.Intn(2)
				st = append(st, line(i, c == 'M', fd))
				if gap > 0 {
					st = append(st, slp(q.Intn(gap)))
				}
			}
			return st
		}
	}
	var cases []cs
	for _, p := range []string{"", "n", "nnnnn", "M", "Mnnnn", "nnnnM", "MnMnM", "MMMMMMMM", strings.Repeat("Mn", 20), "nnMMMnn", "Mnnnnnnnnnnnnnnnnnnnnnnnnn", strings.Repeat("M", 60)} {
		for _, gap := range []int{0, 30} {
			cases = append(cases, cs{name: "pattern " + p, rules: R, steps: plain(p, gap)})
		}
		cases = append(cases, cs{name: "faults, pattern " + p, rules: R, steps: plain(p, 10), faults: []string{unavail, nack}, exit: 1})
	}
	// matches while earlier alerts are under way
	for k := 0; k < rec.Pick(40, 300); k++ {
		k := k
		cases = append(cases, cs{name: fmt.Sprintf("gated %d", k), rules: R, hold: true, exit: k % 2, steps: func(dir string, q *rand.Rand) []Step {
			var st []Step
			n := 0
			for i := 0; i < 1+q.Intn(4); i++ {
				st = append(st, line(n, true, 1+q.Intn(2)), Step{Op: "gate", Path: filepath.Join(dir, fmt.Sprintf("recv%d", i)), Ms: 500})
				n++
				for j := q.Intn(6); j > 0; j-- {
					st = append(st, line(n, q.Intn(2) == 0, 1+q.Intn(2)))
					n++
					if q.Intn(3) == 0 {
						st = append(st, slp(q.Intn(20)))
					}
				}
				st = append(st, mark(filepath.Join(dir, fmt.Sprintf("ack%d", i))))
				if q.Intn(2) == 0 {
					st = append(st, slp(q.Intn(30)))
				}
				for j := q.Intn(3); j > 0; j-- {
					st = append(st, line(n, q.Intn(3) == 0, 1))
					n++
				}
			}
			for i := 0; i < 200; i++ {
				st = append(st, mark(filepath.Join(dir, fmt.Sprintf("ack%d", i))))
			}
			return st
		}})
	}
	multi := []rule{{"", "ERR[A-Z]*"}, {"", "o"}, {"level", "^warn$"}}
	words := []string{"ok", "ERROR", "foo boo", "", "ERRERR", `{"level":"warn"}`, `{"level":"warning"}`, `{"level":["x","warn"]}`, `{"level":`, "\xff\xfe ERR", "o", "oooo", "größe o"}
	for k := 0; k < rec.Pick(40, 800); k++ {
		cases = append(cases, cs{name: fmt.Sprintf("multi %d", k), rules: multi[:1+k%3], faults: [][]string{nil, {unavail}, {nack, drop}}[k%3], exit: k % 2, flags: [][]string{nil, {"--stdout-history", "0"}, {"--daemon"}, {"--no-notify-on-success", "--no-notify-on-failure"}}[k%4],
			steps: func(_ string, q *rand.Rand) []Step {
				var st []Step
				for i := q.Intn(30); i >= 0; i-- {
					wd := words[q.Intn(len(words))]
					l := fmt.Sprintf("%d %s\n", i, wd)
					if strings.HasPrefix(wd, "{") {
						l = strings.Replace(wd, "{", fmt.Sprintf(`{"n":%d,`, i), 1) + "\n"
					}
					st = append(st, w(1+q.Intn(2), l))
					if q.Intn(5) == 0 {
						st = append(st, slp(q.Intn(15)))
					}
				}
				return st
			}})
	}
	// alerts that are given up: what they would have reported is still to be alerted on
	for k := 0; k < rec.Pick(6, 60); k++ {
		k := k
		cases = append(cases, cs{name: fmt.Sprintf("given up %d", k), rules: R, exit: k % 2, giveUp: 1 + k%3, steps: func(dir string, q *rand.Rand) []Step {
			var st []Step
			n := 0
			for i := 0; i <= k%3; i++ {
				for j := q.Intn(4); j >= 0; j-- {
					st = append(st, line(n, j == 0 || q.Intn(2) == 0, 1+q.Intn(2)))
					n++
					if q.Intn(2) == 0 {
						st = append(st, slp(q.Intn(400)))
					}
				}
				st = append(st, Step{Op: "gate", Path: filepath.Join(dir, fmt.Sprintf("givenup%d", i)), Ms: 30000})
			}
			for i := q.Intn(3); i >= 0; i-- {
				st = append(st, line(n, true, 1+q.Intn(2)), slp(q.Intn(200)))
				n++
			}
			return st
		}})
	}
	// a great many matches while one alert is unanswered or given up
	four := []rule{{"", "ERROR"}, {"", "some"}, {"", "[0-9]+$"}, {"", "^[0-9]+ "}}
	for k, n := range []int{150, 700, rec.Pick(2000, 8000)} {
		for _, give := range []int{0, 1} {
			if n > 1000 && give == 1 {
				continue
			}
			k, n, give := k, n, give
			cases = append(cases, cs{name: fmt.Sprintf("flood of %d while an alert is under way, given up %d", n, give), rules: four[:4-k%2*2], exit: k % 2, hold: give == 0, giveUp: give, steps: func(dir string, q *rand.Rand) []Step {
				st := []Step{line(0, true, 1), {Op: "gate", Path: filepath.Join(dir, "recv0"), Ms: 3000}}
				for i := 1; i <= n; i++ {
					st = append(st, line(i, i%7 > 0, 1+i%2))
				}
				if give > 0 {
					return append(st, Step{Op: "gate", Path: filepath.Join(dir, "givenup0"), Ms: 30000}, line(n+1, true, 1))
				}
				st = append(st, slp(300))
				for i := 0; i < 5000 && i <= n+2; i++ {
					st = append(st, mark(filepath.Join(dir, fmt.Sprintf("ack%d", i))))
				}
				return st
			}})
		}
	}
	cases = append(cases, cs{name: "no rules", steps: plain("MMMM", 0)})
	// lines and expressions of every texture: indentation, trailing blanks, many matches per line, very long lines
	tex := []string{"  indented ERROR", "\tERROR\t", "ERROR  ", " ", "\t", "", "a", strings.Repeat("a", 40), strings.Repeat("ab ", 500), strings.Repeat("x", 70000) + "ERROR" + strings.Repeat("a", 300), "ERROR\rERROR", "error", "Error", "é ERROR é", "\x00ERROR\x00", "\xffa\xfea", "..", "a.b", strings.Repeat("ERROR ", 2000), "\x1b[31mERROR\x1b[0m", "ERROR\\n", "-ERROR-", "  ", "aERRORa", "ERRORERROR"}
	texRules := [][]rule{{{"", "a"}}, {{"", "^\\s"}, {"", "\\s$"}}, {{"", "ERROR$"}}, {{"", "(?i)error"}, {"", "(?i)error"}}, {{"", "^$"}}, {{"", "."}}, {{"", "a{3}|b"}, {"", "\\bERROR\\b"}, {"", "[^ ]"}}, {{"", "ERROR"}, {"", "a"}, {"", "b"}, {"", "x$"}, {"", " $"}, {"", "\t"}, {"", "é"}, {"", "\\x1b"}, {"", "\\."}, {"", "R+"}, {"", "OR"}, {"", "nothing"}}, {{"", "(E)(R)"}}, {{"", "x*E"}}}
	for k := 0; k < rec.Pick(len(texRules)*2, len(texRules)*30); k++ {
		k := k
		cases = append(cases, cs{name: fmt.Sprintf("textures %d", k), rules: texRules[k%len(texRules)], exit: k % 2, steps: func(_ string, q *rand.Rand) []Step {
			var st []Step
			for _, i := range q.Perm(len(tex)) {
				l := tex[i]
				if strings.HasSuffix(l, "\r") {
					l += "."
				}
				st = append(st, w(1+q.Intn(2), l+"\n"))
			}
			return st
		}})
	}
	// matches anywhere in very long lines
	for k, n := range []int{1 << 20, 3 << 20, 9 << 20} {
		n := n
		cases = append(cases, cs{name: fmt.Sprintf("matches in lines of %d bytes", n), rules: []rule{{"", "ERROR"}, {"", "[0-9]$"}}, flags: []string{"--stdout-history", "0", "--stderr-history", "0"}, exit: k % 2, steps: func(_ string, q *rand.Rand) []Step {
			b := bytes.Repeat([]byte("all is well; "), n/13)
			copy(b[len(b)-9:], "ERROR 404")
			copy(b[q.Intn(len(b)/2):], "ERROR")
			c := bytes.Repeat([]byte("all is well; "), n/13)
			return []Step{wb(1, append(b, '\n')), wb(2, append(c, "ERROR\n"...)), w(1, "fine\n")}
		}})
	}
	rec.Pool(par, len(cases), func(i int) {
		c := cases[i]
		q := rec.Rng(fmt.Sprint("case", i))
		dir := Dir()
		defer os.RemoveAll(dir)
		st := c.steps(dir, q)
		var mu sync.Mutex
		na := map[string]int{}
		idx := map[*pb.Report]int{}
		nAlert := 0
		s := NewSrv(func(_ int, rep *pb.Report) string {
			mu.Lock()
			defer mu.Unlock()
			k := rep.ReportReason.String()
			if rep.ReportReason == pb.ReportReason_Alert {
				idx[rep] = nAlert
				nAlert++
			}
			na[k]++
			if c.giveUp > 0 && rep.ReportReason == pb.ReportReason_Alert && !exists(filepath.Join(dir, fmt.Sprintf("givenup%d", c.giveUp-1))) {
				return hang
			}
			if na[k] <= len(c.faults) {
				return c.faults[na[k]-1]
			}
			return ack
		})
		defer s.Close()
		if c.hold {
			s.onGot = func(_ int, rep *pb.Report) {
				if rep.ReportReason == pb.ReportReason_Alert {
					mu.Lock()
					k := idx[rep]
					mu.Unlock()
					touch(filepath.Join(dir, fmt.Sprintf("recv%d", k)))
				}
			}
			s.holdOn = func(_ int, rep *pb.Report) string {
				if rep.ReportReason == pb.ReportReason_Alert {
					mu.Lock()
					defer mu.Unlock()
					return filepath.Join(dir, fmt.Sprintf("ack%d", idx[rep]))
				}
				return ""
			}
		}
		fl := flags(s, "c06", c.flags...)
		for _, r := range c.rules {
			fl = append(fl, r.flag()...)
		}
		fl = append(fl, further(rec.Rng(fmt.Sprint("further", i)), c.flags)...)
		run := Run{Flags: fl, Script: &Script{Steps: st, Exit: c.exit}, Dir: dir}
		if c.giveUp > 0 {
			run.Env = []string{"MONNY_VERIF_SEND_TIMEOUT=2500ms"}
			givenUp(&run, s, dir, c.giveUp)
		}
		res := run.Do()
		var desc []string
		for _, x := range st {
			switch x.Op {
			case "w":
				desc = append(desc, fmt.Sprintf("w%d %.60q", x.Fd, x.Data))
			case "mark", "gate":
				desc = append(desc, x.Op+" "+filepath.Base(x.Path))
			}
		}
		if len(desc) > 120 {
			desc = desc[:120]
		}
		wit := map[string]interface{}{"case": c.name, "rules": c.rules, "faults": c.faults, "steps": desc}
		if !res.Common(rec, "alerts", wit) {
			return
		}
		ls := append(rawLines(streamOf(st, 1)), rawLines(streamOf(st, 2))...)
		exp, n := expectMatches(ls, c.rules)
		checkAlerts(rec, "alerts", s, res, exp, n, false, wit)
		rec.Case(fmt.Sprint(brief2(s.Got()), n, len(ls), c.rules), true, map[string]interface{}{"case": c.name, "lines": len(ls), "matching": n, "log": vt.Trim(fmt.Sprint(brief2(s.Got())), 400)})
	})
	rec.Finish()
}

func manyKeys(n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "\"key %d\":%d,", i, i)
	}
	return sb.String()
}

// deep is an object of n levels around a value.
func deep(n int, v string) string {
	for i := n; i > 0; i-- {
		v = fmt.Sprintf(`{"k%d":%s}`, i%3, v)
	}
	return v
}

func deepField(n int) string {
	var p []string
	for i := 1; i <= n; i++ {
		p = append(p, fmt.Sprint("k", i%3))
	}
	return strings.Join(p, ".")
}

func genJSON(q *rand.Rand, depth int) interface{} {
	switch k := q.Intn(10); {
	case k < 2:
		return []string{"x", "warn", "", "a\nb", "warn\nx", "tr\"ue", "é€𝄞", "1.000000", "\\", "404", "warn\u2028x", "x\u2029\u0085", " warn ", "warn\r", "\x00warn", "\ufeffwarn", "<warn>&", "\x1b[1mwarn", "wa\u00adrn", "WARN", "a\tb\vwarn\f"}[q.Intn(21)]
	case k < 4:
		return []interface{}{0, 1, -1, 404, 1.5, 1e-9, 1e20, 0.0000005, 123456789.987654321, json.Number("-0"), json.Number("1E+2"), json.Number("4e0")}[q.Intn(12)]
	case k < 5:
		return q.Intn(2) == 0
	case k < 6:
		return nil
	case k < 8 || depth <= 0:
		a := []interface{}{}
		for i := q.Intn(4); i > 0; i-- {
			a = append(a, genJSON(q, depth-1))
		}
		return a
	}
	m := map[string]interface{}{}
	for i := q.Intn(4); i > 0; i-- {
		m[[]string{"a", "b", "c", "level", "", "n"}[q.Intn(6)]] = genJSON(q, depth-1)
	}
	return m
}

// TestC07 checks JSON rules against an independent extractor.
func TestC07(t *testing.T) {
	rec := vt.New(t, "C07", "a case is one line (hand-written odd ones, generated objects, byte-mutated JSON) processed by the real binary under 4-6 JSON rules; the set of (line, match positions) in all alerts must equal the reference; non-trivial if the line is a JSON object addressing some rule's field or malformed JSON; distinct by the line")
	hand := []string{
		`{"a":"warn"}`, `{"a":404}`, `{"a":404.5}`, `{"a":-0}`, `{"a":1e3}`, `{"a":true}`, `{"a":false}`, `{"a":null}`, `{"a":[]}`, `{"a":[1]}`, `{"a":[1.5,2,"x",true,null,{"b":1},[2]]}`,
		`{"a":[404,"warn"]}`, `{"a":["warn",404,false]}`, `{"a":[[],[1],{}]}`, `{"a":{"b":"warn"}}`, `{"a":{"b":[1,2,3]}}`, `{"a":{"b":{"c":"warn"}}}`, `{"a":{"b":{"c":[true,1]}}}`, `{"a.b":"warn"}`, `{"A":"warn"}`, `{"a":"x","a":"warn"}`, `{"a":{"b":"warn"},"a":{"b":"x"}}`,
		`[]`, `[1,2]`, `["a"]`, `"a"`, `1`, `true`, `null`, `{}`, `{`, `}`, `{"a"`, `{"a":}`, `{"a":"warn"`, `{"a":"warn"}}`, `{"a":"warn"} trailing`, `{"a":"warn"} {"a":"warn"}`, `  {"a":"warn"}  `, `{'a':'warn'}`, `{a:"warn"}`, `{"a":warn}`, `{"a":"wa` + "\x01" + `rn"}`, `{"a":"\u0077arn"}`, `{"a":"\ud83d\ude00"}`, `{"a":"\ud83d"}`, "{\"a\":\"\xffwarn\"}", "\xef\xbb\xbf{\"a\":\"warn\"}", `{"a":{"b":null}}`, `{"a":{"b":404}}`, `{"a":[{"b":"warn"}]}`, `{"":{"":"warn"}}`, `{"level":"warn","a":{"b":[false]}}`, `{"a":0.1234567}`, `{"a":123456789012345678901234567890}`, `{"a":[123456789012345678901234567890,1]}`,
		strings.Repeat("[", 20000), strings.Repeat(`{"a":`, 20000), `{"a":` + strings.Repeat("[", 3000) + strings.Repeat("]", 3000) + `}`, `{"a":"` + strings.Repeat("warn ", 30000) + `"}`,
		`{"x":"` + strings.Repeat("padding ", 200000) + `","a":"warn"}`, `{"a":[` + strings.Repeat("0,", 150) + `404]}`, `{"a":[` + strings.Repeat(`"x",`, 3000) + `"warn"]}`, `{"a":[` + strings.Repeat(`null,{},`, 1500) + `"warn",404]}`, `{` + manyKeys(5000) + `"a":{"b":{"c":"warn"}},"level":"warn"}`, "", " ", "warn", "\x00", `{"a":["` + "x" + `",["warn"]]}`, `{"a":{"b":{"c":{"d":1}}}}`, `{"a":"","level":""}`,
	}
	sets := [][]rule{
		{{"a", "warn"}, {"a.b", "warn|404|1"}, {"a.b.c", "."}, {"level", "^warn$"}},
		{{"a", `^404\.000000$`}, {"a", "true|false"}, {"a", `(?m)^warn$`}, {"n", `\.`}},
		{{"a", ".*"}, {"b.", "x"}, {"a..b", "x|1"}, {".a", "warn"}, {"missing", "^$"}, {"c.level.n", "[0-9]"}},
		{{"a", "é|x"}, {"a", "\n"}, {"b", `^\S*$`}, {"level", `\s|\x1b|\x00`}, {"a", "[<>&\u2028\u2029\ufeff]"}, {"n", `(?i)^warn.`}, {"c", "x"}, {"", "literal"}},
		{{deepField(10), "warn"}, {deepField(12), "warn|404"}, {deepField(25), "."}, {deepField(9), "true"}, {deepField(60), "[0-9a-z]"}, {"a", "warn|404"}},
	}
	q := rec.Rng("gen")
	nRuns := rec.Pick(24, 400)
	rec.Pool(par, nRuns, func(i int) {
		rules := sets[i%len(sets)]
		q := rec.Rng(fmt.Sprint("run", i))
		var ls []string
		if i < len(sets)*2 {
			ls = append(ls, hand...)
			for _, n := range []int{8, 9, 10, 11, 12, 13, 24, 25, 26, 59, 60, 61} {
				ls = append(ls, deep(n, `"warn"`), deep(n, `404`), deep(n, `["x",true,"warn"]`), deep(n, `{}`))
			}
			q.Shuffle(len(ls), func(a, b int) { ls[a], ls[b] = ls[b], ls[a] })
		}
		for k := 0; k < 120; k++ {
			m := map[string]interface{}{"_": k}
			for j := 1 + q.Intn(4); j > 0; j-- {
				m[[]string{"a", "b", "c", "level", "", "n"}[q.Intn(6)]] = genJSON(q, 3)
			}
			b, err := json.Marshal(m)
			must(err)
			if q.Intn(4) == 0 { // damage it
				p := q.Intn(len(b))
				switch q.Intn(3) {
				case 0:
					b = b[:p]
				case 1:
					b[p] = "{}[]\",:x0\xff"[q.Intn(10)]
				case 2:
					b = append(b[:p:p], append([]byte{"{}[]\",:x0 "[q.Intn(10)]}, b[p:]...)...)
				}
			}
			if strings.ContainsAny(string(b), "\n\r") || strings.Contains(string(b), "e308") {
				continue
			}
			ls = append(ls, string(b))
		}
		s := NewSrv(nil)
		defer s.Close()
		dir := Dir()
		defer os.RemoveAll(dir)
		fl := flags(s, "c07", "--stdout-history", "1")
		for _, r := range rules {
			fl = append(fl, r.flag()...)
		}
		var st []Step
		var raw [][]byte
		for k, l := range ls {
			st = append(st, w(1+i%2, l+"\n"))
			raw = append(raw, []byte(l))
			if k%25 == 24 {
				st = append(st, slp(5))
			}
		}
		wit := map[string]interface{}{"rules": rules, "run": i, "lines": len(ls)}
		fl = append(fl, further(rec.Rng(fmt.Sprint("further", i)), nil, "--no-notify-on-success")...)
		res := Run{Flags: fl, Script: &Script{Steps: st}, Dir: dir}.Do()
		if !res.Common(rec, "json", wit) {
			return
		}
		exp, n := expectMatches(raw, rules)
		checkAlerts(rec, "json", s, res, exp, n, false, wit)
		// monitoring went on to the end
		if got := lines(append(append([]byte{}, res.Out...), res.Err...)); len(got) != len(ls) {
			rec.Violation("json:stopped", fmt.Sprintf("%d of %d lines were relayed", len(got), len(ls)), wit)
		}
		if len(s.Acked(pb.ReportReason_Success)) != 1 {
			rec.Violation("json:noend", "no success report at the end", map[string]interface{}{"case": wit, "log": brief2(s.Got())})
		}
		for _, l := range raw {
			obj := false
			for _, r := range rules {
				obj = obj || (r.Field != "" && jsonText(l, r.Field) != "")
			}
			rec.Case(fmt.Sprint(i%len(sets))+string(l), obj || !json.Valid(l), vt.Trim(string(l), 200))
		}
		rec.Add("expected_matches", len(exp))
	})
	_ = q
	rec.Finish()
}
