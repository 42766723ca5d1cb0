// libmonny drives the exported API of pkg/monny for what the command line cannot configure.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/stvp/rollbar"
)

type conf struct {
	Opts     [][2]string
	Cmd      []string
	Rollbar  string
	Rollback bool
	Args     []string // command line to be parsed by the library, in place of Opts and Cmd
	Probe    string   // directory in which files ask for the program's own measurements
}

// probe answers every file <dir>/ask<N> with <dir>/got<N>.
func probe(dir string) {
	for n := 0; ; n++ {
		for {
			if _, err := os.Stat(fmt.Sprintf("%s/ask%d", dir, n)); err == nil {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		fds, _ := os.ReadDir("/proc/self/fd")
		b, _ := json.Marshal(map[string]int{"goroutines": runtime.NumGoroutine(), "heap": int(m.HeapAlloc), "objects": int(m.HeapObjects), "fds": len(fds)})
		os.WriteFile(fmt.Sprintf("%s/got%d.tmp", dir, n), b, 0o644)
		os.Rename(fmt.Sprintf("%s/got%d.tmp", dir, n), fmt.Sprintf("%s/got%d", dir, n))
	}
}

func main() {
	raw, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var c conf
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	if c.Rollbar != "" {
		rollbar.Endpoint = c.Rollbar
	}
	var opts []monny.ConfigOption
	f := map[string]func(string) monny.ConfigOption{
		"id": monny.ID, "rule": monny.Rule, "quantity": monny.RuleQuantity, "period": monny.RulePeriod, "host": monny.Host,
		"stdout-history": monny.StdoutHistory, "stderr-history": monny.StderrHistory, "creates": monny.Creates,
		"memory-warn": monny.MemoryWarn, "memory-kill": monny.MemoryKill, "timeout-warn": monny.NotifyTimeout, "timeout-kill": monny.KillTimeout,
	}
	for _, o := range c.Opts {
		switch o[0] {
		case "insecure":
			opts = append(opts, monny.Insecure())
		case "no-error-reports":
			opts = append(opts, monny.NoErrorReports())
		case "no-notify-on-success":
			opts = append(opts, monny.NoNotifyOnSuccess())
		case "no-notify-on-failure":
			opts = append(opts, monny.NoNotifyOnFailure())
		case "daemon":
			opts = append(opts, monny.Daemon())
		case "rule-json":
			p := strings.SplitN(o[1], ":", 2)
			opts = append(opts, monny.JSONRule(p[0], p[1]))
		default:
			opts = append(opts, f[o[0]](o[1]))
		}
	}
	if c.Args != nil {
		os.Args = append([]string{"monny"}, c.Args...)
		var err error
		if c.Cmd, opts, err = monny.ParseCommandLine(); err != nil {
			fmt.Println("command line:", err)
			if c.Rollbar != "" {
				rollbar.Wait()
			}
			os.Exit(10)
		}
	}
	cmd, errs := monny.New(c.Cmd, opts...)
	if len(errs) > 0 {
		fmt.Println("config:", errs)
		if c.Rollbar != "" {
			rollbar.Wait()
		}
		os.Exit(11)
	}
	if c.Probe != "" {
		go probe(c.Probe)
	}
	rc := 0
	if err := cmd.Exec(); err != nil {
		fmt.Println("exec:", err)
		rc = 12
	} else {
		if ms, _ := strconv.Atoi(os.Getenv("LIBMONNY_PAUSE_MS")); ms > 0 {
			time.Sleep(time.Duration(ms) * time.Millisecond) // a program may do other things first
		}
		if err := cmd.Wait(); err != nil {
			fmt.Println("wait:", err)
			rc = 13
		}
	}
	if c.Rollbar != "" {
		rollbar.Wait()
	}
	os.Exit(rc)
}
