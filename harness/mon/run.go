package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verif/harness/vt"
)

// Step and Script mirror the child's.
type Step struct {
	Op   string `json:"op"`
	Fd   int    `json:"fd,omitempty"`
	Data []byte `json:"data,omitempty"`
	Rep  int    `json:"rep,omitempty"`
	Ms   int    `json:"ms,omitempty"`
	Path string `json:"path,omitempty"`
	N    int    `json:"n,omitempty"`
}

type Script struct {
	Rec   string `json:"rec,omitempty"`
	End   string `json:"end,omitempty"`
	Steps []Step `json:"steps"`
	Exit  int    `json:"exit"`
}

func w(fd int, s string) Step  { return Step{Op: "w", Fd: fd, Data: []byte(s)} }
func wb(fd int, b []byte) Step { return Step{Op: "w", Fd: fd, Data: b} }
func slp(ms int) Step          { return Step{Op: "sleep", Ms: ms} }
func gate(p string) Step       { return Step{Op: "gate", Path: p} }
func mark(p string) Step       { return Step{Op: "mark", Path: p} }
func must(err error) {
	if err != nil {
		panic(err)
	}
}
func exists(p string) bool { _, err := os.Lstat(p); return err == nil }
func touch(p string)       { must(os.WriteFile(p, []byte("x"), 0o644)) }

var (
	monnyBin = os.Getenv("VT_MONNY")
	childBin = os.Getenv("VT_CHILD")
	libBin   = os.Getenv("VT_LIB")
	scratch  = os.Getenv("VT_SCRATCH")
	caseNo   int64
)

// Dir makes a fresh case directory.
func Dir() string {
	d := filepath.Join(scratch, fmt.Sprintf("c%05d", atomic.AddInt64(&caseNo, 1)))
	must(os.MkdirAll(d, 0o755))
	return d
}

// Run is one supervised execution.
type Run struct {
	Bin    string   // default monnyBin
	Flags  []string // monny's own flags
	Cmd    []string // full user command; default: child with Script
	Script *Script
	Extra  []string // extra args after the script path
	Env    []string // additional environment
	Stdin  io.Reader
	StdinF *os.File // takes precedence: passed as is
	OutF   *os.File // replaces captured stdout
	ErrF   *os.File
	Dir    string
	Sep    bool                // put "--" before the command
	Pend   func() bool         // true while something outside legitimately keeps monny waiting
	Bg     func(p *os.Process) // called once started
	HardS  int                 // seconds after which the whole run is looked at, default 90
	HangS  int                 // seconds of grace, default 40
	After  func()              // called when monny has ended, before stragglers are ended
}

// Res is what was observed.
type Res struct {
	Exit     int
	Sig      syscall.Signal
	Out, Err []byte
	Start    time.Time
	End      time.Time
	Hung     string // non-empty: provably stuck, with the evidence
	Unknown  string // inconclusive
	Crash    string // Go runtime crash text
	ChildRec map[string]interface{}
	ChildEnd map[string]interface{}
}

var baseEnv = []string{"SHELL=/bin/bash", "PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME=/root", "LANG=C.UTF-8", "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0 log_path=" + os.Getenv("VT_RACELOG")}

type procStat struct {
	state byte
	ticks int64
}

func readProc(pid int) (threads []procStat) {
	ents, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil {
		return nil
	}
	for _, e := range ents {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, e.Name()))
		if err != nil {
			continue
		}
		s := string(b)
		if i := strings.LastIndexByte(s, ')'); i > 0 {
			f := strings.Fields(s[i+1:])
			if len(f) > 13 {
				u, _ := strconv.ParseInt(f[11], 10, 64)
				k, _ := strconv.ParseInt(f[12], 10, 64)
				threads = append(threads, procStat{f[0][0], u + k})
			}
		}
	}
	return
}

func procState(pid int) byte {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	if i < 0 || i+2 >= len(s) {
		return 0
	}
	return s[i+2]
}

// children lists live (non-zombie) children of pid.
func liveChildren(pid int) int {
	n := 0
	ents, _ := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	for _, e := range ents {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/children", pid, e.Name()))
		for _, c := range strings.Fields(string(b)) {
			cp, _ := strconv.Atoi(c)
			if st := procState(cp); st != 0 && st != 'Z' {
				n++
			}
		}
	}
	return n
}

type buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}
func (b *buf) Bytes() []byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]byte{}, b.b.Bytes()...)
}

// Do executes the run and watches it until monny ended or is provably stuck.
func (r Run) Do() *Res {
	if r.Dir == "" {
		r.Dir = Dir()
	}
	bin := r.Bin
	if bin == "" {
		bin = monnyBin
	}
	args := append([]string{}, r.Flags...)
	if r.Sep {
		args = append(args, "--")
	}
	if r.Cmd == nil && r.Script != nil {
		if r.Script.Rec == "" {
			r.Script.Rec = filepath.Join(r.Dir, "rec")
		}
		if r.Script.End == "" {
			r.Script.End = filepath.Join(r.Dir, "end")
		}
		sp := filepath.Join(r.Dir, "script.json")
		writeJSON(sp, r.Script)
		args = append(args, childBin, sp)
		args = append(args, r.Extra...)
	} else {
		args = append(args, r.Cmd...)
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(append([]string{}, baseEnv...), r.Env...)
	cmd.Dir = r.Dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var ob, eb buf
	rd := make([]*os.File, 0, 2)
	var wg sync.WaitGroup
	pump := func(dst *buf) *os.File {
		pr, pw, err := os.Pipe()
		must(err)
		rd = append(rd, pr)
		wg.Add(1)
		go func() { defer wg.Done(); io.Copy(dst, pr); pr.Close() }()
		return pw
	}
	if r.OutF != nil {
		cmd.Stdout = r.OutF
	} else {
		f := pump(&ob)
		cmd.Stdout = f
		defer f.Close()
	}
	if r.ErrF != nil {
		cmd.Stderr = r.ErrF
	} else {
		f := pump(&eb)
		cmd.Stderr = f
		defer f.Close()
	}
	switch {
	case r.StdinF != nil:
		cmd.Stdin = r.StdinF
	case r.Stdin != nil:
		pr, pw, err := os.Pipe()
		must(err)
		cmd.Stdin = pr
		go func() {
			defer pw.Close()
			io.Copy(pw, r.Stdin)
		}()
		defer pr.Close()
	}
	res := &Res{Start: time.Now()}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pid := cmd.Process.Pid
	if p, ok := cmd.Stdin.(*os.File); ok && r.Stdin != nil {
		p.Close()
	}
	if r.Bg != nil {
		go r.Bg(cmd.Process)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hangS := r.HangS
	if hangS == 0 {
		hangS = 40
	}
	var idleSince time.Time
	hard := r.HardS
	if hard == 0 {
		hard = 90
	}
	hardDeadline := time.Now().Add(time.Duration(hard) * time.Second)
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-time.After(250 * time.Millisecond):
		}
		if liveChildren(pid) > 0 || (r.Pend != nil && r.Pend()) {
			idleSince = time.Time{}
		} else if idleSince.IsZero() {
			idleSince = time.Now()
		}
		if (!idleSince.IsZero() && time.Since(idleSince) > time.Duration(hangS)*time.Second) || time.Now().After(hardDeadline) {
			busy, t0, t1 := 0, int64(0), int64(0)
			for k := 0; k < 20; k++ {
				sum := int64(0)
				awake := false
				for _, t := range readProc(pid) {
					sum += t.ticks
					awake = awake || t.state != 'S' && t.state != 'D'
				}
				if awake {
					busy++
				}
				if k == 0 {
					t0 = sum
				}
				t1 = sum
				time.Sleep(250 * time.Millisecond)
			}
			select {
			case werr = <-done:
				break loop
			default:
			}
			// it may look at the memory of the command once a second
			sleeping := busy == 0 || busy <= 5 && t1-t0 <= 5
			childGone := liveChildren(pid) == 0
			syscall.Kill(pid, syscall.SIGQUIT)
			select {
			case werr = <-done:
			case <-time.After(5 * time.Second):
				syscall.Kill(-pid, syscall.SIGKILL)
				werr = <-done
			}
			desc := fmt.Sprintf("monny did not end; child running=%v, asleep=%v, cpu ticks in 5 s=%d", !childGone, sleeping, t1-t0)
			if sleeping || t1-t0 > 300 {
				res.Hung = desc
			} else {
				res.Unknown = desc
			}
			break loop
		}
	}
	res.End = time.Now()
	if r.After != nil {
		r.After()
	}
	syscall.Kill(-pid, syscall.SIGKILL)
	for _, f := range []io.Writer{cmd.Stdout, cmd.Stderr} {
		if p, ok := f.(*os.File); ok && p != r.OutF && p != r.ErrF {
			p.Close()
		}
	}
	pumped := make(chan struct{})
	go func() { wg.Wait(); close(pumped) }()
	select {
	case <-pumped:
	case <-time.After(10 * time.Second): // somebody still holds the pipe
		for _, f := range rd {
			f.Close()
		}
		<-pumped
	}
	res.Out, res.Err = ob.Bytes(), eb.Bytes()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		if ws.Signaled() {
			res.Sig = ws.Signal()
			res.Exit = -1
		} else {
			res.Exit = ws.ExitStatus()
		}
	}
	_ = werr
	if res.Hung != "" {
		res.Hung += "\n" + vt.Trim(string(res.Err), 6000)
	} else if i := crashAt(res.Err); i >= 0 && res.Exit == 2 && (bytes.Contains(res.Err[i:], []byte("github.com/BTBurke/monny/")) || bytes.Contains(res.Err[i:], []byte("/repo/"))) {
		res.Crash = vt.Trim(string(res.Err[i:]), 3000)
	}
	if r.Script != nil {
		json.Unmarshal(readFile(r.Script.Rec), &res.ChildRec)
		json.Unmarshal(readFile(r.Script.End), &res.ChildEnd)
	}
	return res
}

func crashAt(b []byte) int {
	for _, pat := range []string{"panic: ", "fatal error: ", "SIGSEGV: ", "unexpected fault address"} {
		i := bytes.Index(b, []byte(pat))
		if i >= 0 && bytes.Contains(b[i:], []byte("\ngoroutine ")) {
			return i
		}
	}
	return -1
}

func readFile(p string) []byte {
	b, _ := os.ReadFile(p)
	return b
}

// Common reports crashes and hangs of a run, which break the given property; it returns false when the run is unusable.
func (res *Res) Common(rec *vt.Rec, key string, witness interface{}) bool {
	switch {
	case res.Crash != "":
		rec.Violation(key+":crash", "monny crashed", map[string]interface{}{"case": witness, "crash": res.Crash})
		return false
	case res.Hung != "":
		rec.Violation(key+":hang", "monny is stuck: it neither ends nor gets on", map[string]interface{}{"case": witness, "state": res.Hung})
		return false
	case res.Unknown != "":
		rec.Inconclusive(key + ": " + res.Unknown)
		return false
	}
	return true
}

func lines(b []byte) [][]byte {
	if len(b) == 0 {
		return nil
	}
	parts := bytes.Split(b, []byte{'\n'})
	if len(parts[len(parts)-1]) == 0 {
		parts = parts[:len(parts)-1]
	}
	for i := range parts {
		parts[i] = bytes.TrimSuffix(parts[i], []byte{'\r'})
	}
	return parts
}

func flags(s *Srv, id string, more ...string) []string {
	return append([]string{"--id", id, "--host", s.Addr, "--insecure", "--no-error-reports"}, more...)
}

func TestMain(m *testing.M) {
	if monnyBin == "" {
		fmt.Println("run through ./check")
		os.Exit(2)
	}
	os.Exit(m.Run())
}

func recPid(path string) int {
	var r struct{ Pid int }
	json.Unmarshal(readFile(path), &r)
	return r.Pid
}

// childGone waits until the process whose record is at path has ended.
func childGone(path string, max time.Duration) bool {
	pid := recPid(path)
	if pid == 0 {
		return true
	}
	lim := time.Now().Add(max)
	for time.Now().Before(lim) {
		if st := procState(pid); st == 0 || st == 'Z' || st == 'X' {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// lib makes a run of libmonny with the given options around a scripted child.
func lib(dir string, sc *Script, opts [][2]string, rollbar string, extra ...string) Run {
	sp := filepath.Join(dir, "script.json")
	if sc.Rec == "" {
		sc.Rec = filepath.Join(dir, "rec")
	}
	if sc.End == "" {
		sc.End = filepath.Join(dir, "end")
	}
	writeJSON(sp, sc)
	conf := filepath.Join(dir, "conf.json")
	writeJSON(conf, map[string]interface{}{"Opts": opts, "Cmd": append([]string{childBin, sp}, extra...), "Rollbar": rollbar, "Probe": dir})
	return Run{Bin: libBin, Cmd: []string{conf}, Script: sc, Dir: dir}
}

func describe(st []Step) []string {
	var desc []string
	for _, x := range st {
		switch x.Op {
		case "w":
			desc = append(desc, fmt.Sprintf("w%d %.60q", x.Fd, x.Data))
		case "mark", "gate", "file", "rm":
			desc = append(desc, x.Op+" "+filepath.Base(x.Path))
		default:
			desc = append(desc, fmt.Sprintf("%s %d", x.Op, x.N+x.Ms))
		}
		if len(desc) > 100 {
			break
		}
	}
	return desc
}

var par = 8

// further returns settings that do not concern what a case is about: options it does not use
// itself, set to values without effect on it.  Nothing it observes may depend on them.
func further(r *rand.Rand, have []string, no ...string) []string {
	var out []string
	if r.Intn(2) == 0 {
		return nil
	}
next:
	for _, f := range [][]string{{"--daemon"}, {"--rule", "NeVeR mAtChEs"}, {"--rule-json", "no.such.field:x"}, {"--stdout-history", "0"}, {"--stderr-history", "7"}, {"--memory-warn", "500G"}, {"--memory-kill=600G"}, {"--timeout-warn", "50h"}, {"--timeout-kill=60h"}, {"--creates", "/etc/passwd"}, {"--creates", "/"}, {"--shell", "/bin/sh"}, {"--no-notify-on-success"}, {"--no-notify-on-failure"}} {
		name := strings.SplitN(f[0], "=", 2)[0]
		if r.Intn(3) != 0 {
			continue
		}
		for _, h := range append(append([]string{}, have...), no...) {
			if strings.SplitN(h, "=", 2)[0] == name {
				continue next
			}
		}
		out = append(out, f...)
	}
	return out
}
