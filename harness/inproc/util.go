// Package inproc runs monny's libraries inside the worker, most of them in bubbles with a virtual clock.
package inproc

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vt"
)

var progress atomic.Int64

func step() { progress.Add(1) }

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var gor = regexp.MustCompile(`(?m)^goroutine (\d+)(?: gp=\S+)?(?: m=\S+)?(?: mp=\S+)? \[([^\]]*)\]:`)

type gr struct{ id, state, text string }

func goroutines() []gr {
	var out []gr
	for _, b := range strings.Split(vt.AllStacks(), "\n\n") {
		if m := gor.FindStringSubmatch(b); m != nil {
			out = append(out, gr{m[1], m[2], b})
		}
	}
	return out
}

// inMonny reports whether the goroutine was started by, or is inside, monny's code.
func inMonny(text string) bool { return vt.MonnyFrames(text) }

func shortState(s string) string {
	if i := strings.IndexByte(s, ','); i >= 0 {
		s = s[:i]
	}
	return strings.TrimSpace(strings.ReplaceAll(s, "(durable)", ""))
}

func active(s string) bool {
	s = shortState(s)
	return s == "running" || s == "runnable" || s == "syscall" || strings.HasPrefix(s, "GC")
}

// watch starts the hang monitor: it looks for a standstill with goroutines blocked inside monny's code, and for
// monny's code running without end while the virtual clock stands still.
func watch(rec *vt.Rec, describe func() string) {
	go func() {
		last, since, c0 := progress.Load(), time.Now(), cpu()
		for {
			time.Sleep(500 * time.Millisecond)
			if n := progress.Load(); n != last {
				last, since, c0 = n, time.Now(), cpu()
				continue
			}
			if time.Since(since) < 15*time.Second {
				continue
			}
			var samples [][]gr
			for i := 0; i < 8; i++ {
				samples = append(samples, goroutines())
				time.Sleep(250 * time.Millisecond)
			}
			if progress.Load() != last {
				continue
			}
			used := cpu() - c0
			busy := map[string]int{}
			idle := true
			for _, s := range samples {
				for _, g := range s {
					if active(g.state) && !strings.Contains(g.text, "inproc.watch") && !strings.Contains(g.text, "inproc.goroutines") {
						idle = false
						if inMonny(g.text) {
							busy[g.id]++
						}
					}
				}
			}
			if idle && used < 8*time.Second {
				for _, g := range samples[7] {
					if inMonny(g.text) && !active(g.state) {
						rec.Violation("standstill", "monny's code blocks forever: no goroutine can run any more", map[string]interface{}{"case": describe(), "goroutines": dump(samples[7])})
						rec.Finish()
						os.Exit(0)
					}
				}
				rec.Inconclusive("standstill without monny's code: " + describe() + "\n" + dump(samples[7]))
				rec.Finish()
				os.Exit(0)
			}
			for id, n := range busy {
				if n >= 6 && used > 8*time.Second {
					rec.Violation("busy", "monny's code runs without end while nothing else can happen", map[string]interface{}{"case": describe(), "goroutine": id, "goroutines": dump(samples[7])})
					rec.Finish()
					os.Exit(0)
				}
			}
			if time.Since(since) > 120*time.Second {
				rec.Inconclusive("no progress for two minutes: " + describe() + "\n" + dump(samples[7]))
				rec.Finish()
				os.Exit(0)
			}
		}
	}()
}

func dump(g []gr) string {
	var b strings.Builder
	for _, x := range g {
		b.WriteString(x.text + "\n\n")
		if b.Len() > 6000 {
			break
		}
	}
	return vt.Trim(b.String(), 7000)
}

// leftovers returns the goroutines started by monny's code that still exist.  Call it after synctest.Wait.
func leftovers(pkg string) []string {
	var out []string
	for _, g := range goroutines() {
		i := strings.LastIndex(g.text, "created by ")
		if i >= 0 && strings.HasPrefix(g.text[i+len("created by "):], "github.com/BTBurke/monny/"+pkg) {
			out = append(out, g.text)
		}
	}
	return out
}

// bubble runs f with a virtual clock.
func bubble(t *testing.T, f func(t *testing.T)) {
	synctest.Test(t, f)
}

func sorted(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s:%d ", k, m[k])
	}
	return b.String()
}

func eqCounts(a, b map[string]int) string {
	var d []string
	for k, n := range a {
		if b[k] != n {
			d = append(d, fmt.Sprintf("%s: %d instead of %d", k, b[k], n))
		}
	}
	for k, n := range b {
		if _, ok := a[k]; !ok {
			d = append(d, fmt.Sprintf("%s: %d instead of 0", k, n))
		}
	}
	sort.Strings(d)
	if len(d) > 6 {
		d = append(d[:6], "…")
	}
	return strings.Join(d, "; ")
}
