package mon

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"verif/harness/vt"
)

type relayCase struct {
	Name   string
	Flags  []string
	Steps  []Step
	Exit   int
	Slow   bool   // slow reader on monny's stdout
	Killed bool   // monny kills the command
	Shared string // both of monny's streams lead to the same pipe or file
	Faults []string
}

// streamOf concatenates what the script writes to fd.
func streamOf(st []Step, fd int) []byte {
	var b []byte
	for _, s := range st {
		if s.Op == "w" && s.Fd == fd {
			n := s.Rep
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				b = append(b, s.Data...)
			}
		}
	}
	return b
}

func rawLines(b []byte) [][]byte {
	if len(b) == 0 {
		return nil
	}
	p := bytes.Split(b, []byte{'\n'})
	if len(p[len(p)-1]) == 0 {
		p = p[:len(p)-1]
	}
	return p
}

func sameLine(exp, got []byte) bool {
	return bytes.Equal(exp, got) || bytes.Equal(bytes.TrimSuffix(exp, []byte{'\r'}), got)
}

// relayDiff compares what was written with what came out; empty if equal up to the line terminator.
func relayDiff(exp, got []byte) string {
	e, g := rawLines(exp), rawLines(got)
	n := len(e)
	if len(g) < n {
		n = len(g)
	}
	for i := 0; i < n; i++ {
		if !sameLine(e[i], g[i]) {
			return fmt.Sprintf("line %d of %d differs: written %d bytes %.80q, relayed %d bytes %.80q (%d lines relayed)", i+1, len(e), len(e[i]), e[i], len(g[i]), g[i], len(g))
		}
	}
	if len(e) != len(g) {
		more := ""
		if len(g) > len(e) {
			more = fmt.Sprintf("; first additional line %.120q", g[len(e)])
		} else {
			more = fmt.Sprintf("; first missing line (%d bytes) %.80q", len(e[len(g)]), e[len(g)])
		}
		return fmt.Sprintf("%d lines written, %d relayed%s", len(e), len(g), more)
	}
	return ""
}

func randLine(r *rand.Rand, n, kind int) []byte {
	b := make([]byte, n)
	switch kind {
	case 0: // ascii
		for i := range b {
			b[i] = byte(' ' + r.Intn(95))
		}
	case 1: // any byte but newline
		for i := range b {
			b[i] = byte(r.Intn(256))
			if b[i] == '\n' {
				b[i] = 0
			}
		}
	case 2: // utf-8
		var o []byte
		for len(o) < n {
			o = append(o, string([]rune("aé€𝄞ß\u2028")[r.Intn(6)])...)
		}
		b = o
	case 3:
		for i := range b {
			b[i] = "\r\r \t\x00\x1b%"[r.Intn(7)]
		}
	}
	return b
}

func chunk(r *rand.Rand, fd int, data []byte, pieces int, pauses bool) []Step {
	var st []Step
	for pieces > 1 && len(data) > 1 {
		k := 1 + r.Intn(len(data)-1)
		if r.Intn(3) == 0 { // cut right after / before a newline
			if i := bytes.IndexByte(data[k:], '\n'); i >= 0 && k+i+1 < len(data) {
				k += i + r.Intn(2)
				if k == 0 {
					k = 1
				}
			}
		}
		st = append(st, wb(fd, data[:k]))
		if pauses && r.Intn(3) == 0 {
			st = append(st, slp(1+r.Intn(4)))
		}
		data = data[k:]
		pieces--
	}
	return append(st, wb(fd, data))
}

func mergeSteps(r *rand.Rand, a, b []Step) []Step {
	var out []Step
	for len(a) > 0 || len(b) > 0 {
		if len(b) == 0 || (len(a) > 0 && r.Intn(len(a)+len(b)) < len(a)) {
			out = append(out, a[0])
			a = a[1:]
		} else {
			out = append(out, b[0])
			b = b[1:]
		}
	}
	return out
}

func relayCases(rec *vt.Rec) []relayCase {
	var cs []relayCase
	one := func(name string, data []byte, more ...string) {
		for _, fd := range []int{1, 2} {
			cs = append(cs, relayCase{Name: fmt.Sprintf("%s fd%d", name, fd), Steps: []Step{wb(fd, data)}, Flags: more})
		}
	}
	rep := func(n int) []byte { return bytes.Repeat([]byte{'x'}, n) }
	r := rec.Rng("relay")
	one("nothing", nil)
	one("one empty line", []byte("\n"))
	one("no final newline", []byte("abc"))
	one("last line unterminated", []byte("abc\ndef"))
	one("many empty lines", bytes.Repeat([]byte("\n"), 30000))
	one("byte order marks", []byte("\ufeff\n\ufefffirst\nplain\n\ufeff\ufefftwice\nin\ufeffside\nend\ufeff\n\xff\xfea\n\xfe\xffb\n\xef\xbb\nlast\ufeff"))
	one("control characters first", []byte("\x00a\n\x00\n\x1b[2Ja\n\x04\n\x1a\nb\x1a\n\x7f\n\x08\x08\n\x0c\n\x0bv\n  lead\ntrail  \n\ttab\t\n\u200b\n\u2028a\u2029\n\u0085\n"))
	one("thousands of identical lines", bytes.Repeat([]byte("the same line again\n"), 30000))
	one("thousands of identical lines twice", append(append(bytes.Repeat([]byte("tick\n"), 12000), "tock\n"...), bytes.Repeat([]byte("tick\n"), 12000)...))
	one("thousands of identical long lines", bytes.Repeat(append(randLine(r, 700, 0), '\n'), 6000))
	var term []byte
	bits := []string{"\x1b[0m", "\x1b[0m", "\x1b[31m", "\x1b[1;32;40m", "\x1b[K", "\x1b[2K\r", "\x1b]0;title\x07", "\x1b[?25l", "\x1b(B", "\x08", "\x07", "\x0c", "\x0b", "\ufeff", "\u200b", "\u2028", "\u0085", "\u00a0", "\x00", "\x04", "\x1a", "\x7f", " ", "  ", "\t", "\r", "word", "%d%s%n", "\\n", "\\", "\"", "<b>", "&amp;", "{", "}", "é", "e\u0301", "\xff", "\xc3", "50%\r51%\r52%"}
	for i := 0; i < 3000; i++ {
		for k := r.Intn(5); k > 0; k-- {
			b := bits[r.Intn(len(bits))]
			term = append(term, strings.Repeat(b, 1+r.Intn(3)*r.Intn(2))...)
		}
		term = append(term, '\n')
	}
	one("terminal sequences", term)
	one("progress", append(bytes.Repeat([]byte("12%\r"), 30000), "done\nnext\r\n100%"...))
	for i, end := range []string{"\r", "a\r", "a\n\r", "a\n\r\r", "\r\r", "a\n ", "a\n\x00", "a\n\x1a", "\n\n\r\n\r"} {
		one(fmt.Sprintf("odd end %d", i), []byte(end))
	}
	one("crlf", []byte("a\r\nb\r\n\r\nc\r\r\nd\r"))
	var edge []byte
	for _, n := range []int{0, 1, 2, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 32767, 32768} {
		edge = append(append(edge, randLine(r, n, 0)...), '\n')
	}
	one("edge lengths up to 32K", edge)
	for _, n := range []int{65533, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 1 << 20} {
		b := append([]byte("before\n"), append(randLine(r, n, 0), []byte("\nafter\nlast")...)...)
		cs = append(cs, relayCase{Name: fmt.Sprintf("line of %d", n), Steps: []Step{wb(1+n%2, b)}})
	}
	cs = append(cs, relayCase{Name: "long unterminated line at the end", Steps: []Step{w(1, "a\n"), wb(1, rep(200000))}})
	cs = append(cs, relayCase{Name: "long lines on both", Steps: []Step{wb(1, append(rep(70000), '\n')), wb(2, append(rep(300000), '\n')), w(1, "x\n"), w(2, "y\n")}})
	var bin []byte
	for i := 0; i < 300; i++ {
		bin = append(append(bin, randLine(r, r.Intn(300), 1+i%3)...), '\n')
	}
	one("binary", bin)
	// volume
	vol := make([]byte, 0, 4<<20)
	for i := 0; i < 60000; i++ {
		vol = append(vol, fmt.Sprintf("line %d %x\n", i, r.Int63())...)
	}
	cs = append(cs, relayCase{Name: "volume both streams", Steps: mergeSteps(r, chunk(r, 1, vol, 400, false), chunk(r, 2, vol[:len(vol)/2], 300, false))})
	cs = append(cs, relayCase{Name: "slow reader", Slow: true, Steps: mergeSteps(r, chunk(r, 1, vol[:400000], 60, false), chunk(r, 2, vol[:100000], 60, false))})
	cs = append(cs, relayCase{Name: "byte at a time", Steps: chunk(r, 1, []byte("a\nbc\n\n\ndef\r\nlast"), 60, true)})
	cs = append(cs, relayCase{Name: "failing exit", Exit: 3, Steps: []Step{w(1, "o\n"), w(2, "e\n"), w(1, "tail")}})
	cs = append(cs, relayCase{Name: "close stdout early", Steps: []Step{w(1, "first\nsecond\n"), {Op: "close", Fd: 1}, slp(50), w(2, "later\n"), slp(20), w(2, "end")}})
	cs = append(cs, relayCase{Name: "alerts while server is failing", Faults: []string{unavail, drop, nack, intern}, Flags: []string{"--rule", "line"}, Steps: chunk(r, 1, vol[:30000], 40, true)})
	cs = append(cs, relayCase{Name: "json rule on junk", Flags: []string{"--rule-json", "a.b:x", "--rule-json", "n:1", "--stdout-history", "2"}, Steps: []Step{w(1, "{}\n{\"a\":{\"b\":\"x\"}}\n[1,2]\nnull\n{\"n\":[1,true,null,\"z\"]}\n{bad\n"), wb(2, bin)}})
	// a single very long line, not part of any report
	cs = append(cs, relayCase{Name: "line of 150 MiB", Flags: []string{"--stdout-history", "0"}, Steps: []Step{w(1, "before\n"), {Op: "w", Fd: 1, Data: randLine(r, 1<<20, 0), Rep: rec.Pick(150, 500)}, w(1, "\nafter\n")}})
	cs = append(cs, relayCase{Name: "line of 160 MiB", Flags: []string{"--stderr-history", "0", "--stdout-history", "0"}, Steps: []Step{w(2, "before\n"), {Op: "w", Fd: 2, Data: randLine(r, 1<<20, 0), Rep: rec.Pick(160, 700)}, w(2, "\nafter\n")}})
	// a process left in the background by the command goes on writing after it has ended
	for _, fd := range []int{1, 2} {
		st := []Step{w(fd, "first\n"), {Op: "spawn"}, w(fd, "last of the command\n"), {Op: "spawned"}, gate("end"), slp(20)}
		for k := 0; k < 50; k++ {
			st = append(st, w(fd, fmt.Sprintf("background %d\n", k)))
		}
		cs = append(cs, relayCase{Name: fmt.Sprintf("background process fd%d", fd), Steps: st, Exit: fd - 1})
	}
	// killed while it writes
	for k := 0; k < rec.Pick(8, 60); k++ {
		var st []Step
		for i := 0; i < 3000; i++ {
			st = append(st, w(1+i%2, fmt.Sprintf("line %d %s\n", i, randLine(r, r.Intn(200)*(k%3), 0))))
			if k%2 == 0 || i == 400 {
				st = append(st, slp(1+(k+1)%2*r.Intn(3)))
			}
		}
		st = append(st, slp(60000))
		cs = append(cs, relayCase{Name: fmt.Sprint("killed ", k), Killed: true, Flags: []string{fmt.Sprintf("--timeout-kill=%dms", 1500+r.Intn(300))}, Steps: st})
	}
	// 2>&1: lines that a pipe or file takes in one piece stay whole
	for k := 0; k < rec.Pick(12, 100); k++ {
		var a, b []byte
		for i := 0; i < 1500; i++ {
			n := r.Intn(120)
			if r.Intn(10) == 0 {
				n = r.Intn(3900)
			}
			a = append(a, fmt.Sprintf("out %d %s\n", i, randLine(r, n, 0))...)
			b = append(b, fmt.Sprintf("err %d %s\n", i, randLine(r, n/2, 0))...)
		}
		cs = append(cs, relayCase{Name: fmt.Sprint("common destination ", k), Shared: []string{"pipe", "file"}[k%2], Steps: mergeSteps(r, chunk(r, 1, a, 100, false), chunk(r, 2, b, 100, false))})
	}
	n := rec.Pick(150, 3000)
	for i := 0; i < n; i++ {
		var s1, s2 []byte
		mk := func() []byte {
			var b []byte
			for k := r.Intn(40); k >= 0; k-- {
				ln := r.Intn(60)
				switch r.Intn(12) {
				case 0:
					ln = 0
				case 1:
					ln = 4090 + r.Intn(12)
				case 2:
					ln = 65530 + r.Intn(12)
				case 3:
					ln = r.Intn(200000)
				}
				b = append(append(b, randLine(r, ln, r.Intn(4))...), '\n')
			}
			if r.Intn(3) == 0 {
				b = b[:len(b)-1]
			}
			return b
		}
		s1 = mk()
		if r.Intn(3) > 0 {
			s2 = mk()
		}
		st := mergeSteps(r, chunk(r, 1, s1, 1+r.Intn(12), r.Intn(2) == 0), chunk(r, 2, s2, 1+r.Intn(12), r.Intn(2) == 0))
		c := relayCase{Name: fmt.Sprintf("random %d", i), Steps: st, Exit: r.Intn(2)}
		if r.Intn(3) == 0 {
			c.Flags = append(c.Flags, "--rule", "[aeiou]{2}")
		}
		if r.Intn(3) == 0 {
			c.Flags = append(c.Flags, "--stdout-history", "3", "--stderr-history", "1")
		}
		if r.Intn(4) == 0 {
			c.Faults = []string{[]string{unavail, nack, drop}[r.Intn(3)]}
		}
		cs = append(cs, c)
	}
	return cs
}

func or(a, b *os.File) *os.File {
	if a != nil {
		return a
	}
	return b
}

func faultPlan(f []string) func(int, *pb.Report) string {
	return func(i int, _ *pb.Report) string {
		if i < len(f) {
			return f[i]
		}
		return ack
	}
}

// TestC01 checks that both streams are relayed completely, in order and exactly once.
func TestC01(t *testing.T) {
	rec := vt.New(t, "C01", "a case is one run of the real monny binary over a scripted child writing fixed bytes to stdout/stderr in fixed chunks; non-trivial if at least one byte was written; distinct by the bytes relayed and the chunking")
	cs := relayCases(rec)
	rec.Pool(par, len(cs), func(i int) {
		c := cs[i]
		s := NewSrv(faultPlan(c.Faults))
		defer s.Close()
		dir := Dir()
		defer os.RemoveAll(dir)
		run := Run{Flags: append(flags(s, "c01", c.Flags...), further(rec.Rng(fmt.Sprint("further", i)), c.Flags)...), Script: &Script{Steps: c.Steps, Exit: c.Exit}, Dir: dir}
		var slow buf
		var slowDone chan struct{}
		if c.Slow {
			pr, pw, err := os.Pipe()
			must(err)
			run.OutF = pw
			slowDone = make(chan struct{})
			go func() {
				defer close(slowDone)
				b := make([]byte, 3000)
				for {
					n, err := pr.Read(b)
					slow.Write(b[:n])
					if err == io.EOF || err != nil {
						return
					}
					time.Sleep(time.Millisecond)
				}
			}()
		}
		var both *os.File
		bothDone := make(chan struct{})
		switch c.Shared {
		case "pipe":
			pr, pw, err := os.Pipe()
			must(err)
			both = pw
			go func() { defer close(bothDone); io.Copy(&slow, pr); pr.Close() }()
		case "file":
			f, err := os.OpenFile(filepath.Join(dir, "both.log"), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o644)
			must(err)
			both = f
			close(bothDone)
		}
		run.OutF, run.ErrF = or(both, run.OutF), both
		res := run.Do()
		if c.Shared != "" {
			both.Close()
			<-bothDone
			all := slow.Bytes()
			if c.Shared == "file" {
				all = readFile(filepath.Join(dir, "both.log"))
			}
			// every line here begins with the name of its stream
			var rest []byte
			for _, l := range rawLines(all) {
				l = append(append([]byte{}, l...), '\n')
				switch {
				case bytes.HasPrefix(l, []byte("out ")):
					res.Out = append(res.Out, l...)
				case bytes.HasPrefix(l, []byte("err ")):
					res.Err = append(res.Err, l...)
				default:
					rest = append(rest, l...)
				}
			}
			if len(rest) > 0 {
				rec.Violation("mixed", fmt.Sprintf("lines come out mixed or altered: %.200q", rest), map[string]interface{}{"case": c.Name})
				return
			}
		}
		if c.Slow {
			run.OutF.Close()
			<-slowDone
			res.Out = slow.Bytes()
		}
		wit := func() interface{} {
			keep := filepath.Join(os.Getenv("VT_KEEP"), fmt.Sprintf("C01-case%d-script.json", i))
			os.WriteFile(keep, readFile(filepath.Join(dir, "script.json")), 0o644)
			return map[string]interface{}{"case": c.Name, "flags": c.Flags, "faults": c.Faults, "script": keep}
		}
		if res.Crash != "" || res.Hung != "" {
			res.Common(rec, "relay", wit())
			return
		}
		if !res.Common(rec, "relay", nil) {
			return
		}
		e1, e2 := streamOf(c.Steps, 1), streamOf(c.Steps, 2)
		if c.Name == "close stdout early" {
			e1 = []byte("first\nsecond\n")
		}
		if c.Killed {
			for k, x := range [][2][]byte{{e1, res.Out}, {e2, res.Err}} {
				e, g := rawLines(x[0]), rawLines(x[1])
				for i := range g {
					if i >= len(e) || !(sameLine(e[i], g[i]) || i == len(g)-1 && bytes.HasPrefix(e[i], g[i])) {
						rec.Violation("killed", fmt.Sprintf("the output of the killed command on stream %d is not a prefix of what it wrote: line %d is %.100q", k+1, i+1, g[i]), wit())
						break
					}
				}
			}
			rec.Add("lines_of_killed_commands", len(rawLines(res.Out)))
			rec.Case(fmt.Sprintf("%x/%x", res.Out, res.Err), true, map[string]interface{}{"case": c.Name, "stdout_lines": len(rawLines(res.Out))})
			return
		}
		if d := relayDiff(e1, res.Out); d != "" {
			rec.Violation("stdout", "stdout not relayed faithfully: "+d, wit())
		}
		if d := relayDiff(e2, res.Err); d != "" {
			rec.Violation("stderr", "stderr not relayed faithfully: "+d, wit())
		}
		rec.Add("bytes_relayed", len(res.Out)+len(res.Err))
		rec.Add("lines_relayed", len(rawLines(res.Out))+len(rawLines(res.Err)))
		rec.Case(fmt.Sprintf("%x/%x/%d/%v", sha256.Sum256(res.Out), sha256.Sum256(res.Err), len(c.Steps), c.Faults), len(e1)+len(e2) > 0,
			map[string]interface{}{"case": c.Name, "writes": len(c.Steps), "stdout_lines": len(rawLines(res.Out)), "stderr_lines": len(rawLines(res.Err)), "stdout_bytes": len(res.Out), "stderr_bytes": len(res.Err)})
	})
	rec.Finish()
}
