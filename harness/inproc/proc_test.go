package inproc

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/anishathalye/porcupine"

	"verif/harness/vt"
)

func genLine(r *rand.Rand, big bool) []byte {
	n := r.Intn(80)
	if big {
		switch r.Intn(12) {
		case 0:
			n = 60000 + r.Intn(12000)
		case 1:
			n = 65530 + r.Intn(12)
		case 2:
			n = r.Intn(700000)
		case 3:
			n = 4090 + r.Intn(12)
		}
	}
	if r.Intn(6) == 0 {
		n = 0
	}
	b := make([]byte, n)
	text := r.Intn(2) == 0
	for i := range b {
		if text {
			b[i] = byte('a' + (i*7+n)%26)
		} else {
			b[i] = byte(r.Intn(256))
		}
		if b[i] == '\n' || b[i] == '\r' {
			b[i] = '_'
		}
	}
	if n > 1 && r.Intn(5) == 0 {
		b[r.Intn(n-1)] = '\r'
	}
	if r.Intn(40) == 0 {
		b = append(b, "x\r\r\r"...)
	}
	return b
}

func lineKey(b []byte) string {
	// a line ends in \n or in \r\n, so up to one \r does not count; generated lines end in none or in three
	if bytes.HasSuffix(b, []byte("\r\r")) {
		b = append(bytes.Clone(bytes.TrimRight(b, "\r")), "<CR>"...)
	} else {
		b = bytes.TrimSuffix(b, []byte("\r"))
	}
	if len(b) > 60 {
		return fmt.Sprintf("%q…(%d bytes, hash %x)", b[:20], len(b), hash(b))
	}
	return fmt.Sprintf("%q", b)
}

func hash(b []byte) uint64 {
	var h uint64 = 14695981039346656037
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

type optSpec struct {
	name string
	mk   func(cmd *exec.Cmd) proc.LogProcessorOption
}

// C20
func TestC20(t *testing.T) {
	rec := vt.New(t, "C20", "a case runs the real log processor over generated sources (wrapped command's two pipes, or stdin) with a generated set of options in random order, and compares events on the log topic and bytes written to monny's stdout and stderr with the source; also the moment Wait returns; distinct by options, their order and content, non-trivial when at least one line was processed")
	defer rec.Finish()
	var desc atomic.Value
	desc.Store("")
	watch(rec, func() string { return desc.Load().(string) })
	rng := rec.Rng("cases")
	dir, err := os.MkdirTemp(os.Getenv("VT_SCRATCH"), "c20")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	n := rec.Pick(500, 12000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		seed := rng.Int63()
		d := fmt.Sprintf("case %d seed %d", i, seed)
		desc.Store(d)
		rec.Current(d)
		logCase(rec, dir, seed, d, i < 2 || i%2000 == 0)
		step()
	}
	for i := 0; i < rec.Pick(10, 100) && rec.NumViolations() < 5; i++ {
		sharedSink(rec, dir, rng.Int63())
		step()
		readTimes(rec, dir, rng.Int63())
		step()
		brokenSink(rec, dir, rng.Int63())
		step()
	}
}

// readTimes compares the time of each line with the moments between which it was read.
func readTimes(rec *vt.Rec, dir string, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	saveO, saveE := os.Stdout, os.Stderr
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout, os.Stderr = null, null
	defer func() {
		null.Close()
		os.Stdout, os.Stderr = saveO, saveE
	}()
	cmd := exec.Command("/bin/true")
	defer runtime.KeepAlive(cmd)
	bus := eventbus.New()
	c, done := bus.Subscribe(proc.LogTopic)
	defer done()
	wit := map[string]interface{}{"case": "times of single lines", "seed": seed}
	lp, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd))
	if err != nil {
		rec.Violation("construct", "the log processor could not be created: "+err.Error(), wit)
		return
	}
	w := []*os.File{cmd.Stdout.(*os.File), cmd.Stderr.(*os.File)}
	for i := 0; i < 8; i++ {
		time.Sleep(time.Duration(5+rng.Intn(40)) * time.Millisecond)
		line := fmt.Sprintf("line %d of %d", i, seed)
		begin := time.Now()
		io.WriteString(w[rng.Intn(2)], line+"\n")
		select {
		case e := <-c:
			var le proc.LogEvent
			if err := e.Decode(&le); err != nil || string(le.Line) != line {
				rec.Violation("events", fmt.Sprintf("received %q, %v instead of %q", le.Line, err, line), wit)
				return
			}
			// with some tolerance for coarse clocks
			if le.Timestamp.Before(begin.Add(-2*time.Millisecond)) || le.Timestamp.After(time.Now().Add(2*time.Millisecond)) {
				rec.Violation("time", fmt.Sprintf("a line written at %v and received at %v is said to have been read at %v", begin, time.Now(), le.Timestamp), wit)
				return
			}
			rec.Add("times_compared", 1)
		case <-time.After(60 * time.Second):
			rec.Violation("lost", "a line was not published within a minute", wit)
			return
		}
	}
	w[0].Close()
	w[1].Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if err := lp.Wait(ctx); err != nil {
		rec.Violation("wait", "waiting failed: "+err.Error(), wit)
	}
	rec.Case(fmt.Sprint("times ", seed), true, wit)
}

// brokenSink lets one of monny's streams lead to a full disk.
func brokenSink(rec *vt.Rec, dir string, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	saveO, saveE := os.Stdout, os.Stderr
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	path := filepath.Join(dir, fmt.Sprint("working", seed))
	defer os.Remove(path)
	good, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	broken := rng.Intn(2)
	os.Stdout, os.Stderr = full, good
	if broken == 1 {
		os.Stdout, os.Stderr = good, full
	}
	defer func() {
		full.Close()
		good.Close()
		os.Stdout, os.Stderr = saveO, saveE
	}()
	cmd := exec.Command("/bin/true")
	defer runtime.KeepAlive(cmd)
	bus := eventbus.New()
	wit := map[string]interface{}{"case": "a sink that cannot be written to", "seed": seed, "stream": broken}
	lines, finL := bus.Subscribe(proc.LogTopic)
	errs, finE := bus.Subscribe(eventbus.OnErrorTopic())
	got := [2]map[string]int{{}, {}}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, c := range []chan eventbus.Event{lines, errs} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for e := range c {
				key := ""
				var le proc.LogEvent
				if e.Type() == proc.LogLine && e.Decode(&le) == nil {
					key = string(le.Line)
				} else if err := e.Decode(&key); err != nil {
					key = "undecodable: " + err.Error()
				}
				mu.Lock()
				got[i][key]++
				mu.Unlock()
			}
			[]eventbus.ShutdownFunc{finL, finE}[i]()
		}()
	}
	lp, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd))
	if err != nil {
		rec.Violation("construct", "the log processor could not be created: "+err.Error(), wit)
		return
	}
	want := map[string]int{}
	var echoed bytes.Buffer
	var ww sync.WaitGroup
	lost := 0
	for k, w := range []*os.File{cmd.Stdout.(*os.File), cmd.Stderr.(*os.File)} {
		var b bytes.Buffer
		for i, n := 0, 1+rng.Intn(60); i < n; i++ {
			l := fmt.Sprintf("%d %d %s", k, i, strings.Repeat("y", rng.Intn(100)))
			want[l]++
			fmt.Fprintln(&b, l)
			if k == broken {
				lost++
			} else {
				fmt.Fprintln(&echoed, l)
			}
		}
		ww.Add(1)
		go func() {
			defer ww.Done()
			w.SetWriteDeadline(time.Now().Add(20 * time.Second))
			if _, err := w.Write(b.Bytes()); err != nil {
				rec.Violation("stopped", "the processor stopped reading a source: "+err.Error(), wit)
			}
			w.Close()
		}()
	}
	ww.Wait()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if err := lp.Wait(ctx); err != nil {
		rec.Violation("wait-error", "waiting for the processor failed although all sources ended: "+err.Error(), wit)
		return
	}
	// deliveries take place in the background
	for dl := time.Now().Add(20 * time.Second); time.Now().Before(dl); time.Sleep(time.Millisecond) {
		step()
		n := [2]int{}
		mu.Lock()
		for i := range got {
			for _, c := range got[i] {
				n[i] += c
			}
		}
		mu.Unlock()
		if n[0] >= len(want) && n[1] >= lost {
			break
		}
	}
	if err := bus.Shutdown(ctx); err != nil {
		rec.Violation("shutdown", err.Error(), wit)
		return
	}
	wg.Wait()
	if d := eqCounts(want, got[0]); d != "" {
		rec.Violation("events", "with a sink that cannot be written to, a subscriber of the log topic received "+vt.Trim(d, 600), wit)
	}
	reported := 0
	for text, n := range got[1] {
		if !strings.Contains(text, "no space left on device") {
			rec.Violation("errors", fmt.Sprintf("an unknown error is reported: %q", vt.Trim(text, 200)), wit)
		}
		reported += n
	}
	if reported != lost {
		rec.Violation("errors", fmt.Sprintf("%d errors were reported for %d lines that could not be written", reported, lost), wit)
	}
	if b, _ := os.ReadFile(path); !bytes.Equal(b, echoed.Bytes()) {
		rec.Violation("sink:other", fmt.Sprintf("the sink that works has %d bytes instead of %d", len(b), echoed.Len()), wit)
	}
	rec.Add("lines_not_written", lost)
	rec.Case(fmt.Sprint("broken ", seed), true, wit)
}

// sharedSink lets monny's stdout and stderr lead to the same file, as with 2>&1.
func sharedSink(rec *vt.Rec, dir string, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	saveO, saveE := os.Stdout, os.Stderr
	path := filepath.Join(dir, fmt.Sprint("both", seed))
	defer os.Remove(path)
	open := func() *os.File {
		f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		if err != nil {
			panic(err)
		}
		return f
	}
	os.Stdout, os.Stderr = open(), open()
	defer func() {
		os.Stdout.Close()
		os.Stderr.Close()
		os.Stdout, os.Stderr = saveO, saveE
	}()
	cmd := exec.Command("/bin/true")
	defer runtime.KeepAlive(cmd)
	bus := eventbus.New()
	wit := map[string]interface{}{"case": "stdout and stderr lead to the same file", "seed": seed}
	lp, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd))
	if err != nil {
		rec.Violation("construct", "the log processor could not be created: "+err.Error(), wit)
		return
	}
	var want [2][]string
	var wg sync.WaitGroup
	for k := range want {
		for i := 0; i < 400; i++ {
			want[k] = append(want[k], fmt.Sprintf("%d %d %s", k, i, strings.Repeat("x", rng.Intn([]int{200, 200, 4000}[rng.Intn(3)]))))
		}
	}
	for k, w := range []*os.File{cmd.Stdout.(*os.File), cmd.Stderr.(*os.File)} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.Close()
			for _, l := range want[k] {
				io.WriteString(w, l+"\n")
			}
		}()
	}
	wg.Wait()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if err := lp.Wait(ctx); err != nil {
		rec.Violation("wait", "waiting failed: "+err.Error(), wit)
		return
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var got [2][]string
	for _, l := range strings.Split(strings.TrimSuffix(string(raw), "\n"), "\n") {
		if len(l) < 2 || (l[:2] != "0 " && l[:2] != "1 ") {
			rec.Violation("mixed", fmt.Sprintf("lines of the two streams are mixed: %.100q", l), wit)
			return
		}
		got[l[0]-'0'] = append(got[l[0]-'0'], l)
	}
	for k := range want {
		if strings.Join(got[k], "\n") != strings.Join(want[k], "\n") {
			rec.Violation("sink", fmt.Sprintf("stream %d: %d lines read, %d written to the common file, or altered", k+1, len(want[k]), len(got[k])), wit)
			return
		}
	}
	rec.Add("lines_to_common_file", 800)
	rec.Case(fmt.Sprint("common file ", seed), true, wit)
}

// logCase runs one case; with huge, a source has a line of more than 16 MiB.
func logCase(rec *vt.Rec, dir string, seed int64, desc string, huge bool) {
	t0 := time.Now()
	rng := rand.New(rand.NewSource(seed))
	saveO, saveE, saveI := os.Stdout, os.Stderr, os.Stdin
	outF, _ := os.Create(filepath.Join(dir, "out"))
	errF, _ := os.Create(filepath.Join(dir, "err"))
	logR, logW, _ := os.Pipe()
	var logged bytes.Buffer
	logDone := make(chan struct{})
	go func() { io.Copy(&logged, logR); close(logDone) }()
	os.Stdout, os.Stderr = outF, errF
	log.SetOutput(logW)
	defer func() {
		os.Stdout, os.Stderr, os.Stdin = saveO, saveE, saveI
		log.SetOutput(saveE)
		outF.Close()
		errF.Close()
		logR.Close()
	}()
	stdinMode := rng.Intn(5) == 0
	var inR, inW *os.File
	if stdinMode {
		inR, inW, _ = os.Pipe()
		os.Stdin = inR
		defer inR.Close()
	}
	cmd := &exec.Cmd{}
	defer func() { runtime.KeepAlive(cmd) }()
	if !stdinMode {
		cmd = exec.Command("/bin/true")
	}
	set := map[string]bool{}
	specs := []optSpec{{"command", func(c *exec.Cmd) proc.LogProcessorOption { return proc.WithCommand(c) }}}
	if rng.Intn(2) == 0 {
		h := []int{0, 1, 2, 3, 30, 1000}[rng.Intn(6)]
		specs = append(specs, optSpec{fmt.Sprintf("history %d", h), func(*exec.Cmd) proc.LogProcessorOption { return proc.WithHistory(h) }})
	}
	for _, o := range []optSpec{
		{"no output", func(*exec.Cmd) proc.LogProcessorOption { return proc.WithNoOutput() }},
		{"no stdout output", func(*exec.Cmd) proc.LogProcessorOption { return proc.WithNoStdoutOutput() }},
		{"no stderr output", func(*exec.Cmd) proc.LogProcessorOption { return proc.WithNoStderrOutput() }},
		{"no stdout input", func(*exec.Cmd) proc.LogProcessorOption { return proc.WithNoStdoutInput() }},
		{"no stderr input", func(*exec.Cmd) proc.LogProcessorOption { return proc.WithNoStderrInput() }},
	} {
		if rng.Intn(4) == 0 {
			specs = append(specs, o)
			set[o.name] = true
		}
	}
	rng.Shuffle(len(specs), func(i, j int) { specs[i], specs[j] = specs[j], specs[i] })
	var opts []proc.LogProcessorOption
	var names []string
	for _, s := range specs {
		opts = append(opts, s.mk(cmd))
		names = append(names, s.name)
	}
	bus := eventbus.New()
	type coll struct {
		mu  sync.Mutex
		m   map[string]int
		n   int
		end chan struct{}
	}
	collect := func(topics ...eventbus.Topic) *coll {
		c, done := bus.Subscribe(topics...)
		k := &coll{m: map[string]int{}, end: make(chan struct{})}
		go func() {
			defer close(k.end)
			defer done()
			for e := range c {
				key := ""
				if e.Type() == proc.LogLine {
					var le proc.LogEvent
					if err := e.Decode(&le); err != nil {
						key = "undecodable: " + err.Error()
					} else {
						key = lineKey(le.Line)
						// with some tolerance for coarse clocks
						if le.Timestamp.Before(t0.Add(-2*time.Millisecond)) || le.Timestamp.After(time.Now().Add(2*time.Millisecond)) {
							key += fmt.Sprintf(", read at %v in a case that began at %v, received at %v", le.Timestamp, t0, time.Now())
						}
					}
				} else {
					var s string
					_ = e.Decode(&s)
					key = "other event: " + string(e.Type()) + " " + s
				}
				k.mu.Lock()
				k.m[key]++
				k.n++
				k.mu.Unlock()
			}
		}()
		return k
	}
	onTopic := collect(proc.LogTopic)
	onDefault := collect()
	other := collect("unrelated")
	wit := func() map[string]interface{} {
		return map[string]interface{}{"case": desc, "options": names, "stdin_mode": stdinMode}
	}
	var lp *proc.LogProcessor
	var nerr error
	if !rec.Guard("panic", func() interface{} { return wit() }, func() { lp, nerr = proc.NewLogProcessor(bus, opts...) }) {
		return
	}
	if nerr != nil {
		rec.Violation("construct", "the log processor could not be created: "+nerr.Error(), wit())
		return
	}
	// sources
	type source struct {
		w     *os.File
		lines [][]byte
		data  []byte
		off   bool
	}
	mk := func(w *os.File, off bool) *source {
		s := &source{w: w, off: off}
		nl := rng.Intn(40)
		for k := 0; k < nl; k++ {
			l := genLine(rng, !off)
			if huge && !off && k == nl/2 {
				l = bytes.Repeat([]byte{byte('a' + rng.Intn(26))}, 17<<20+rng.Intn(20<<20))
				rec.Add("huge_lines", 1)
			}
			s.lines = append(s.lines, l)
			s.data = append(append(s.data, l...), '\n')
		}
		if off && len(s.data) > 30000 {
			s.lines, s.data = nil, nil
		}
		if nl > 0 && len(s.lines) > 0 && len(s.lines[len(s.lines)-1]) > 0 && rng.Intn(3) == 0 {
			s.data = s.data[:len(s.data)-1] // final line without newline
		}
		return s
	}
	var srcs []*source
	if stdinMode {
		srcs = []*source{mk(inW, false)}
	} else {
		srcs = []*source{mk(cmd.Stdout.(*os.File), set["no stdout input"]), mk(cmd.Stderr.(*os.File), set["no stderr input"])}
	}
	waiting := rng.Intn(2) == 0
	abort := rng.Intn(12) == 0
	var closedAll atomic.Bool
	var wg sync.WaitGroup
	hold := make(chan struct{})
	for _, s := range srcs {
		s := s
		wseed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(wseed))
			d := s.data
			for len(d) > 0 {
				k := 1 + r.Intn(len(d))
				switch r.Intn(3) {
				case 0:
					if k > 7 {
						k = 7
					}
				case 1:
					if k > 5000 {
						k = 5000
					}
				}
				chunk, stalls := d[:k], 0
				for len(chunk) > 0 {
					s.w.SetWriteDeadline(time.Now().Add(4 * time.Second))
					m, err := s.w.Write(chunk)
					chunk = chunk[m:]
					step()
					if m > 0 {
						stalls = 0
					}
					if err == nil {
						continue
					}
					if s.off {
						return
					}
					if stalls++; stalls >= 3 || !os.IsTimeout(err) {
						rec.Violation("stopped", fmt.Sprintf("the processor stopped reading a source with %d bytes left: %v", len(d), err), wit())
						return
					}
				}
				d = d[k:]
				if r.Intn(8) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
		}()
	}
	closeAll := func() {
		wg.Wait()
		closedAll.Store(true)
		for _, s := range srcs {
			s.w.Close()
		}
	}
	active := 0
	for _, s := range srcs {
		if !s.off {
			active++
		}
	}
	type wres struct {
		err   error
		early bool
	}
	res := make(chan wres, 1)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	wait := func(c context.Context) {
		e := lp.Wait(c)
		res <- wres{e, !closedAll.Load()}
	}
	if abort && active > 0 {
		// the context ends while a source is still open
		c2, cc := context.WithTimeout(context.Background(), time.Duration(1+rng.Intn(15))*time.Millisecond)
		go wait(c2)
		var r wres
		select {
		case r = <-res:
		case <-time.After(20 * time.Second):
			rec.Violation("wait-hang", "waiting with a deadline did not return 20 s after it", wit())
		}
		cc()
		close(hold)
		if r.err == nil {
			rec.Violation("wait-early", "waiting for the processor succeeded although a source was still open", wit())
		}
		closeAll()
		time.Sleep(2 * time.Millisecond)
		logW.Close()
		<-logDone
		sctx, sc := context.WithTimeout(context.Background(), 20*time.Second)
		bus.Shutdown(sctx)
		sc()
		rec.Add("aborted_waits", 1)
		rec.Case("abort "+strings.Join(names, ","), true, nil)
		return
	}
	close(hold)
	if waiting {
		go wait(ctx)
		if rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
		}
		closeAll()
	} else {
		closeAll()
		go wait(ctx)
	}
	var r wres
	select {
	case r = <-res:
	case <-time.After(65 * time.Second):
		rec.Violation("wait-hang", "waiting for the processor does not return although all sources ended", wit())
		return
	}
	if r.err != nil {
		rec.Violation("wait-error", "waiting for the processor failed although all sources ended: "+r.err.Error(), wit())
		return
	}
	if r.early && active > 0 {
		rec.Violation("wait-early", "waiting for the processor succeeded before its sources ended", wit())
	}
	gotOut, _ := os.ReadFile(filepath.Join(dir, "out"))
	gotErr, _ := os.ReadFile(filepath.Join(dir, "err"))
	want := map[string]int{}
	lines := 0
	var wantOut, wantErr []byte
	for k, s := range srcs {
		if s.off {
			continue
		}
		for _, l := range s.lines {
			want[lineKey(l)]++
			lines++
			toOut := k == 0 && !set["no output"] && !set["no stdout output"]
			toErr := k == 1 && !set["no output"] && !set["no stderr output"]
			if toOut {
				wantOut = append(append(wantOut, l...), '\n')
			}
			if toErr {
				wantErr = append(append(wantErr, l...), '\n')
			}
		}
	}
	norm := func(b []byte) []byte {
		b = bytes.ReplaceAll(b, []byte("\r\r\r\n"), []byte("\r\r\n"))
		b = bytes.ReplaceAll(b, []byte("\r\r\n"), []byte("<CR>\n"))
		return bytes.ReplaceAll(b, []byte("\r\n"), []byte("\n"))
	}
	cmp := func(name string, got, want []byte) {
		got, want = norm(got), norm(want)
		if bytes.Equal(got, want) {
			return
		}
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		w := wit()
		w["difference_at"] = i
		w["got"] = vt.Trim(fmt.Sprintf("%q", got[i:min(len(got), i+80)]), 300)
		w["want"] = vt.Trim(fmt.Sprintf("%q", want[i:min(len(want), i+80)]), 300)
		rec.Violation("sink:"+name, fmt.Sprintf("monny's %s has %d bytes instead of %d, first difference at %d", name, len(got), len(want), i), w)
	}
	cmp("stdout", gotOut, wantOut)
	cmp("stderr", gotErr, wantErr)
	// all events delivered?
	dl := time.Now().Add(20 * time.Second)
	for {
		done := true
		for _, c := range []*coll{onTopic, onDefault} {
			c.mu.Lock()
			if c.n < lines {
				done = false
			}
			c.mu.Unlock()
		}
		if done || time.Now().After(dl) {
			break
		}
		step()
		runtime.Gosched()
		time.Sleep(50 * time.Microsecond)
	}
	time.Sleep(200 * time.Microsecond)
	sctx, sc := context.WithTimeout(context.Background(), 20*time.Second)
	if err := bus.Shutdown(sctx); err == nil {
		<-onTopic.end
		<-onDefault.end
		<-other.end
	}
	sc()
	for nm, c := range map[string]*coll{"log topic": onTopic, "default": onDefault} {
		c.mu.Lock()
		if d := eqCounts(want, c.m); d != "" {
			rec.Violation("events", fmt.Sprintf("a subscriber of the %s received %s", nm, vt.Trim(d, 600)), wit())
		}
		c.mu.Unlock()
	}
	other.mu.Lock()
	if other.n > 0 {
		rec.Violation("events", fmt.Sprintf("a subscriber of another topic received %s", sorted(other.m)), wit())
	}
	other.mu.Unlock()
	logW.Close()
	<-logDone
	if logged.Len() > 0 {
		rec.Violation("noise", fmt.Sprintf("something else was written to monny's stderr: %q", vt.Trim(logged.String(), 200)), wit())
	}
	rec.Add("lines", lines)
	rec.Seen("option_sets", fmt.Sprint(names))
	rec.Case(fmt.Sprintf("%v %v %x %x", names, stdinMode, hash(wantOut), hash(wantErr)), lines > 0, map[string]interface{}{"options": names, "stdin": stdinMode, "lines": lines, "stdout_bytes": len(gotOut), "stderr_bytes": len(gotErr)})
}

// C21
func TestC21(t *testing.T) {
	rec := vt.New(t, "C21", "sequential cases: generated add/copy/clear programs on queues of generated capacity against a list model, with all returned copies kept, altered and re-examined; concurrent cases: recorded histories of 3-4 goroutines under the race detector, decided by a linearizability checker; distinct by the observed history, non-trivial when the queue overflowed or operations overlapped")
	defer rec.Finish()
	watch(rec, func() string { return "queue" })
	rng := rec.Rng("seq")
	n := rec.Pick(4000, 200000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		step()
		seed := rng.Int63()
		r := rand.New(rand.NewSource(seed))
		capn := []int{0, 1, 2, 3, 5, 30, 64, r.Intn(200)}[r.Intn(8)]
		var tr []string
		rec.Guard("panic", func() interface{} { return map[string]interface{}{"capacity": capn, "ops": tail(tr)} }, func() {
			q := proc.NewQueue(capn)
			var model []string
			type held struct{ got, want []string }
			var hs []held
			over := false
			for k := 1 + r.Intn(4*capn+20); k > 0; k-- {
				switch r.Intn(20) {
				case 0:
					q.Clear()
					model = nil
					tr = append(tr, "clear")
				case 1, 2, 3:
					g := q.Copy()
					tr = append(tr, "copy")
					if !eqs(g, model) {
						rec.Violation("content", fmt.Sprintf("a queue of capacity %d holds %q instead of %q", capn, g, model), map[string]interface{}{"ops": tail(tr)})
						return
					}
					h := held{g, append([]string{}, model...)}
					if r.Intn(3) == 0 && len(g) > 0 {
						g[r.Intn(len(g))] = "altered"
						h.want = append([]string{}, g...)
					}
					hs = append(hs, h)
				default:
					s := fmt.Sprintf("%d", len(tr))
					switch r.Intn(16) {
					case 0, 1:
						s = ""
					case 2: // equal neighbours
						if len(model) > 0 {
							s = model[len(model)-1]
						}
					case 3:
						s = strings.Repeat(s, 1+r.Intn(300))
					case 4:
						if r.Intn(10) == 0 {
							s = strings.Repeat("x", r.Intn(3<<20))
						}
					}
					q.Add(s)
					tr = append(tr, "add "+vt.Trim(s, 100))
					model = append(model, s)
					if len(model) > capn {
						model = append([]string{}, model[len(model)-capn:]...)
						over = true
					}
				}
			}
			if g := q.Copy(); !eqs(g, model) {
				rec.Violation("content", fmt.Sprintf("a queue of capacity %d holds %q instead of %q", capn, g, model), map[string]interface{}{"ops": tail(tr)})
			}
			for _, h := range hs {
				if !eqs(h.got, h.want) {
					rec.Violation("copy-changed", fmt.Sprintf("a returned copy changed from %q to %q", h.want, h.got), map[string]interface{}{"ops": tail(tr)})
				}
			}
			rec.Case(fmt.Sprint(capn, tr), over, map[string]interface{}{"capacity": capn, "ops": tail(tr)})
		})
	}
	// large capacities, many additions
	for _, capn := range []int{10000 + rng.Intn(10000), 50000 + rng.Intn(50000), 1 << 20, 1 + rng.Intn(50)} {
		adds := capn/2 + rng.Intn(capn)
		if capn < 100 {
			adds = 2000000
		}
		if adds > 1500000 {
			adds = 1500000
		}
		wit := fmt.Sprintf("capacity %d, %d additions", capn, adds)
		rec.Guard("panic", func() interface{} { return wit }, func() {
			q := proc.NewQueue(capn)
			for k := 0; k < adds; k++ {
				q.Add(fmt.Sprint(k))
				if k&0xffff == 0 {
					step()
				}
			}
			g := q.Copy()
			n := min(capn, adds)
			ok := len(g) == n
			for k := 0; ok && k < n; k++ {
				ok = g[k] == fmt.Sprint(adds-n+k)
			}
			if !ok {
				rec.Violation("content", fmt.Sprintf("after %d additions a queue of capacity %d holds %d strings instead of the last %d, or others: %.200q", adds, capn, len(g), n, g), wit)
			}
			rec.Case(wit, adds > capn, wit)
		})
	}
	// concurrent
	type in struct {
		op int
		s  string
	}
	rng = rec.Rng("conc")
	m := rec.Pick(1500, 40000)
	for i := 0; i < m && rec.NumViolations() < 5; i++ {
		step()
		capn := []int{0, 1, 2, 3, 6}[rng.Intn(5)]
		model := porcupine.Model{
			Init: func() interface{} { return "" },
			Step: func(st, input, output interface{}) (bool, interface{}) {
				x := input.(in)
				var l []string
				if st.(string) != "" {
					l = strings.Split(strings.TrimSuffix(st.(string), ","), ",")
				}
				switch x.op {
				case 0:
					l = append(l, x.s)
					if len(l) > capn {
						l = l[len(l)-capn:]
					}
					return true, join(l)
				case 1:
					return true, ""
				default:
					return output.(string) == st.(string), st
				}
			},
			Equal:             func(a, b interface{}) bool { return a == b },
			DescribeOperation: func(i, o interface{}) string { return fmt.Sprintf("%v -> %v", i, o) },
		}
		q := proc.NewQueue(capn)
		g := 3 + rng.Intn(2)
		var mu sync.Mutex
		var ops []porcupine.Operation
		var wg sync.WaitGroup
		start := make(chan struct{})
		for c := 0; c < g; c++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			c := c
			go func() {
				defer wg.Done()
				<-start
				var mine []porcupine.Operation
				for k := 0; k < 5; k++ {
					x := in{op: []int{0, 0, 0, 2, 2, 1}[r.Intn(6)], s: fmt.Sprintf("%d.%d", c, k)}
					if x.op == 1 && r.Intn(2) == 0 {
						x.op = 0
					}
					var out string
					a := int64(time.Since(epoch))
					switch x.op {
					case 0:
						q.Add(x.s)
					case 1:
						q.Clear()
					default:
						out = join(q.Copy())
					}
					mine = append(mine, porcupine.Operation{ClientId: c, Input: x, Output: out, Call: a, Return: int64(time.Since(epoch))})
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
				mu.Lock()
				ops = append(ops, mine...)
				mu.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		overlap := overlaps(ops)
		switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
		case porcupine.Illegal:
			rec.Violation("linearizability", fmt.Sprintf("a concurrent history on a queue of capacity %d has no sequential explanation", capn), describeOps(model, ops))
		case porcupine.Unknown:
			rec.Add("histories_undecided", 1)
		default:
			rec.Add("histories_linearizable", 1)
		}
		rec.Add("overlapping_operations", overlap)
		rec.Case(fmt.Sprint(capn, describeOps(model, ops)), overlap > 0, nil)
	}
}

var epoch = time.Now()

func join(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return strings.Join(l, ",") + ","
}

func overlaps(ops []porcupine.Operation) int {
	n := 0
	for i := range ops {
		for j := range ops {
			if i != j && ops[i].ClientId != ops[j].ClientId && ops[i].Call <= ops[j].Call && ops[j].Call < ops[i].Return {
				n++
				break
			}
		}
	}
	return n
}

func describeOps(m porcupine.Model, ops []porcupine.Operation) []string {
	var out []string
	for _, o := range ops {
		out = append(out, fmt.Sprintf("[%d..%d] client %d: %s", o.Call, o.Return, o.ClientId, m.DescribeOperation(o.Input, o.Output)))
	}
	return out
}

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func tail(s []string) []string {
	if len(s) > 60 {
		return append([]string{fmt.Sprintf("… %d more", len(s)-60)}, s[len(s)-60:]...)
	}
	return append([]string{}, s...)
}

// C22
func TestC22(t *testing.T) {
	rec := vt.New(t, "C22", "a case runs one to three tickers of generated periods on the real bus under a virtual clock, beside other traffic and stuck subscribers, for a generated time, then shuts the bus down; every emission time, the acknowledgement of the shutdown, emissions afterwards and goroutines left behind are compared with the model; distinct by periods, run time and observed ticks, non-trivial when at least one tick was seen or a zero period was used")
	defer rec.Finish()
	var desc atomic.Value
	desc.Store("")
	watch(rec, func() string { return desc.Load().(string) })
	rng := rec.Rng("prog")
	n := rec.Pick(1000, 30000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		seed := rng.Int63()
		d := fmt.Sprintf("program %d seed %d", i, seed)
		desc.Store(d)
		rec.Current(d)
		bubble(t, func(t *testing.T) { tickerProgram(rec, seed, d) })
		step()
	}
}

func tickerProgram(rec *vt.Rec, seed int64, desc string) {
	rng := rand.New(rand.NewSource(seed))
	bus := eventbus.New()
	info := map[string]interface{}{"case": desc}
	fail := func(key, what string) { rec.Violation(key, what, info) }
	type obs struct {
		typ string
		at  time.Time
	}
	var mu sync.Mutex
	var seen []obs
	c, done := bus.Subscribe()
	go func() {
		for e := range c {
			mu.Lock()
			seen = append(seen, obs{string(e.Type()), time.Now()})
			mu.Unlock()
			step()
		}
		done()
	}()
	stuck := rng.Intn(3) == 0
	var stuckDone eventbus.ShutdownFunc
	if stuck {
		_, stuckDone = bus.Subscribe()
	}
	type tk struct {
		typ    string
		d      time.Duration
		at     time.Time
		placed int
	}
	var tks []tk
	for k := rng.Intn(3); k >= 0; k-- {
		d := []time.Duration{0, time.Nanosecond * 999983, 7 * time.Millisecond, time.Second, 13 * time.Second, time.Duration(1+rng.Intn(100000)) * time.Millisecond, time.Duration(1+rng.Intn(80)) * time.Hour, time.Duration(1+rng.Intn(900)) * 24 * time.Hour}[[]int{0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 6, 7}[rng.Intn(14)]]
		x := tk{typ: fmt.Sprintf("tick%d", len(tks)), d: d, at: time.Now()}
		a := time.Now()
		proc.NewTicker(d, bus, eventbus.EventType(x.typ))
		if time.Since(a) > 0 {
			fail("blocked", "creating a ticker blocked")
		}
		tks = append(tks, x)
		if rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(5000)) * time.Millisecond)
		}
	}
	traffic := rng.Intn(3) == 0
	stop := make(chan struct{})
	sentOther := 0
	var ow sync.WaitGroup
	if traffic {
		ow.Add(1)
		go func() {
			defer ow.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(501 * time.Millisecond):
					e, _ := eventbus.NewEvent("other", 5)
					bus.Dispatch(e, "a")
					sentOther++
				}
				if sentOther > 300 {
					return
				}
			}
		}()
	}
	const none = 1e6 * time.Hour
	min := time.Duration(none)
	for _, x := range tks {
		if x.d > 0 && x.d < min {
			min = x.d
		}
	}
	run := time.Duration(rng.Intn(1000)) * time.Second
	if min != none {
		run = time.Duration(rng.Int63n(int64(min)*int64(1+rng.Intn(60)))) + 1
	}
	time.Sleep(run)
	// keep away from the boundary, where a tick and the shutdown may come in either order
	for again := true; again; {
		again = false
		for _, x := range tks {
			if x.d > 1 && time.Since(x.at)%x.d == 0 {
				time.Sleep(1)
				again = true
			}
		}
	}
	close(stop)
	ow.Wait()
	synctest.Wait()
	end := time.Now()
	mu.Lock()
	before := append([]obs{}, seen...)
	mu.Unlock()
	info["tickers"] = fmt.Sprint(tks)
	info["run"] = end.Sub(tks[0].at).String()
	ticks := 0
	for _, x := range tks {
		var times []time.Duration
		for _, o := range before {
			if o.typ == x.typ {
				times = append(times, o.at.Sub(x.at))
			}
		}
		ticks += len(times)
		want := 0
		if x.d > 0 {
			want = int(end.Sub(x.at) / x.d)
		}
		if len(times) != want {
			fail("count", fmt.Sprintf("a ticker of period %v emitted %d events within %v instead of %d", x.d, len(times), end.Sub(x.at), want))
			break
		}
		for k, at := range times {
			if at != time.Duration(k+1)*x.d {
				fail("moment", fmt.Sprintf("event %d of a ticker of period %v was emitted after %v", k+1, x.d, at))
				break
			}
		}
	}
	for _, o := range before {
		if o.typ != "other" && !strings.HasPrefix(o.typ, "tick") {
			fail("type", "an event of type "+o.typ+" was emitted")
		}
	}
	if stuckDone != nil {
		stuckDone()
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	a := time.Now()
	err := bus.Shutdown(ctx)
	cancel()
	if err != nil || time.Since(a) > 0 {
		fail("ack", fmt.Sprintf("a shutdown with tickers returned %v after %v: the tickers did not acknowledge it at once", err, time.Since(a)))
	}
	time.Sleep(1000 * time.Second)
	synctest.Wait()
	mu.Lock()
	after := len(seen) - len(before)
	mu.Unlock()
	if after > 0 {
		fail("after", fmt.Sprintf("%d events were emitted after shutdown", after))
	}
	if l := leftovers("pkg/monny/proc"); len(l) > 0 {
		fail("goroutines", "a ticker's goroutine remains after shutdown:\n"+vt.Trim(l[0], 1500))
	}
	zero := 0
	for _, x := range tks {
		if x.d == 0 {
			zero++
		}
	}
	rec.Add("ticks", ticks)
	rec.Add("zero_period_tickers", zero)
	rec.Case(fmt.Sprint(tks, run, ticks), ticks > 0 || zero > 0, map[string]interface{}{"tickers": fmt.Sprint(tks), "run": run.String(), "ticks": ticks})
}
