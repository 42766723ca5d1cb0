// child is the command that monny supervises: it carries out a script and keeps a record of its own.
package main

import (
	"bytes"
	"encoding/json"
	"io"
	"os"
	"os/signal"
	"strconv"
	"syscall"
	"time"
	"unsafe"
)

// Step is one scripted action.
type Step struct {
	Op   string `json:"op"`
	Fd   int    `json:"fd,omitempty"`
	Data []byte `json:"data,omitempty"`
	Rep  int    `json:"rep,omitempty"`
	Ms   int    `json:"ms,omitempty"`
	Path string `json:"path,omitempty"`
	N    int    `json:"n,omitempty"`
}

// Script is the whole life of the child.
type Script struct {
	Rec   string `json:"rec,omitempty"`
	End   string `json:"end,omitempty"`
	Steps []Step `json:"steps"`
	Exit  int    `json:"exit"`
}

var (
	ballast [][]byte
	missed  []string

	deadline time.Time
)

func put(path string, v interface{}) {
	b, _ := json.Marshal(v)
	os.WriteFile(path+".tmp", b, 0o644)
	os.Rename(path+".tmp", path)
}

func writeAll(fd int, b []byte) error {
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err == syscall.EINTR || err == syscall.EAGAIN {
			continue
		}
		if err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func main() {
	t0 := time.Now()
	raw, err := os.ReadFile(os.Args[1])
	if err != nil {
		os.Exit(97)
	}
	var s Script
	if err := json.Unmarshal(raw, &s); err != nil {
		os.Exit(98)
	}
	signal.Ignore(syscall.SIGPIPE)
	if s.Rec != "" && (len(os.Args) < 3 || os.Args[2] != "BACKGROUND") {
		cwd, _ := os.Getwd()
		put(s.Rec, map[string]interface{}{"pid": os.Getpid(), "cwd": cwd, "args": os.Args, "env": os.Environ(), "t": t0.UnixNano()})
	}
	var werr, rdN string
	end := func() {
		if s.End != "" {
			put(s.End, map[string]interface{}{"pid": os.Getpid(), "ns": time.Since(t0).Nanoseconds(), "t": time.Now().UnixNano(), "werr": werr, "missed": missed, "read": rdN})
		}
	}
	// steps after "spawned" are carried out by a process left in the background
	front := len(s.Steps)
	for i, st := range s.Steps {
		if st.Op == "spawned" {
			front = i
		}
	}
	steps := s.Steps[:front]
	if len(os.Args) > 2 && os.Args[2] == "BACKGROUND" {
		steps = s.Steps[front:]
		s.End = ""
	}
	for _, st := range steps {
		switch st.Op {
		case "spawn":
			exe, _ := os.Executable()
			if _, err := os.StartProcess(exe, []string{os.Args[0], os.Args[1], "BACKGROUND"}, &os.ProcAttr{Files: []*os.File{nil, os.Stdout, os.Stderr}}); err != nil {
				os.Exit(95)
			}
		case "w":
			n := st.Rep
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				if err := writeAll(st.Fd, st.Data); err != nil {
					werr = err.Error()
				}
			}
		case "sleep":
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		case "gate": // wait for a file to appear (gives up after a minute)
			max := st.Ms
			if max == 0 {
				max = 60000
			}
			lim, ok := time.Now().Add(time.Duration(max)*time.Millisecond), false
			if !deadline.IsZero() && deadline.Before(lim) {
				lim = deadline
			}
			for !ok && time.Now().Before(lim) {
				if _, err := os.Stat(st.Path); err == nil {
					ok = true
				} else {
					time.Sleep(2 * time.Millisecond)
				}
			}
			if !ok {
				missed = append(missed, st.Path)
			}
		case "deadline": // no gate is waited for beyond it
			deadline = time.Now().Add(time.Duration(st.Ms) * time.Millisecond)
		case "mark":
			put(st.Path, time.Now().UnixNano())
		case "file":
			os.WriteFile(st.Path, make([]byte, st.N), 0o644)
		case "rm":
			os.Remove(st.Path)
		case "alloc":
			b, err := syscall.Mmap(-1, 0, st.N<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
			if err != nil {
				os.Exit(96)
			}
			for i := 0; i < len(b); i += 512 {
				b[i] = byte(i>>9) | 1
			}
			ballast = append(ballast, b)
		case "allocn": // N MiB in pieces of 512 KiB that stay separate mappings
			for k := 0; k < 2*st.N; k++ {
				b, err := syscall.Mmap(-1, 0, 512<<10+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
				if err != nil {
					os.Exit(96)
				}
				for i := 0; i < 512<<10; i += 512 {
					b[i] = 1
				}
				syscall.Mprotect(b[512<<10:], syscall.PROT_NONE)
				ballast = append(ballast, b)
			}
		case "pss": // take memory until N kB are held in all
			held := func() int {
				b, _ := os.ReadFile("/proc/self/smaps_rollup")
				for _, l := range bytes.Split(b, []byte("\n")) {
					if bytes.HasPrefix(l, []byte("Pss:")) {
						n, _ := strconv.Atoi(string(bytes.Fields(l)[1]))
						return n
					}
				}
				return -1
			}
			for k := 0; k < 50; k++ {
				h := held()
				if h < 0 {
					os.Exit(94)
				}
				if h >= st.N-100 {
					break
				}
				b, err := syscall.Mmap(-1, 0, (st.N-h)<<10, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
				if err != nil {
					os.Exit(96)
				}
				for i := 0; i < len(b); i += 512 {
					b[i] = byte(i>>9) | 1
				}
				ballast = append(ballast, b)
			}
		case "maps": // N mappings and as many between them
			b, err := syscall.Mmap(-1, 0, st.N*2*4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
			if err != nil {
				os.Exit(96)
			}
			for i := 0; i < st.N; i++ {
				if syscall.Mprotect(b[2*i*4096:(2*i+1)*4096], syscall.PROT_NONE) != nil {
					break // as many as there may be
				}
			}
		case "guard": // keeps the mappings around it apart
			if _, err := syscall.Mmap(-1, 0, 1<<20, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE); err != nil {
				os.Exit(96)
			}
		case "reserve": // N MiB of address space without memory
			if _, err := syscall.Mmap(-1, 0, st.N<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE); err != nil {
				os.Exit(96)
			}
		case "free":
			for _, b := range ballast {
				syscall.Munmap(b)
			}
			ballast = nil
		case "close":
			syscall.Close(st.Fd)
		case "stdin": // copy stdin until EOF (or N bytes) to a file
			f, _ := os.Create(st.Path)
			var n int64
			if st.N > 0 {
				n, err = io.CopyN(f, os.Stdin, int64(st.N))
			} else {
				n, err = io.Copy(f, os.Stdin)
			}
			f.Close()
			put(st.Path+".n", map[string]interface{}{"n": n})
		case "ignore":
			signal.Ignore(syscall.Signal(st.N))
		case "default": // the signal's default action, where the Go runtime has a handler too
			var act [4]uintptr
			syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(st.N), uintptr(unsafe.Pointer(&act)), 0, 8, 0, 0)
		case "catch": // wait for a signal, record it
			ch := make(chan os.Signal, 1)
			signal.Notify(ch, syscall.Signal(st.N))
			put(st.Path+".ready", 1)
			select {
			case sg := <-ch:
				put(st.Path, sg.String())
			case <-time.After(30 * time.Second):
			}
		case "sig":
			end()
			var act [4]uintptr // SIG_DFL, also where the Go runtime has a handler
			syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(st.N), uintptr(unsafe.Pointer(&act)), 0, 8, 0, 0)
			syscall.Kill(os.Getpid(), syscall.Signal(st.N))
			time.Sleep(5 * time.Second)
		}
	}
	end()
	syscall.Exit(s.Exit)
}
