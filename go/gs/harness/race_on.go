//go:build gensim && race

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
)

// The race detector reports into a file that the harness reads back: reports
// about the simulator's own structures, which the detector cannot know to be
// guarded by the scheduler, do not count.

var raceLog string
var raceSeen int

func initRace() {
	if os.Getenv("VSIM_RACE") == "" {
		f, err := os.CreateTemp("", "vsim-race-*")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f.Close()
		os.Setenv("VSIM_RACE", f.Name())
		os.Setenv("GORACE", "exitcode=0 atexit_sleep_ms=0 history_size=3 log_path="+f.Name())
		err = syscall.Exec("/proc/self/exe", os.Args, os.Environ())
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	raceLog = os.Getenv("VSIM_RACE")
	os.Unsetenv("VSIM_RACE")
}

func endRace() {
	os.Remove(raceLog)
	os.Remove(fmt.Sprintf("%s.%d", raceLog, os.Getpid()))
}

// newRaces returns the races reported since the last call.
func newRaces() []string {
	if runtime.RaceErrors() == 0 {
		return nil
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", raceLog, os.Getpid()))
	if err != nil {
		fmt.Fprintln(os.Stderr, "race log:", err)
		os.Exit(2)
	}
	if len(b) == raceSeen {
		return nil
	}
	text := string(b[raceSeen:])
	raceSeen = len(b)
	var out []string
	for _, rep := range strings.Split(text, "WARNING: DATA RACE\n")[1:] {
		// Two accesses, each "... at 0x... by ...:" and its stack.
		paras := strings.Split(rep, "\n\n")
		if len(paras) < 2 {
			continue
		}
		var sites []string
		for _, p := range paras[:2] {
			site := ""
			lines := strings.Split(p, "\n")
			for _, l := range lines[1:] {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "runtime.") || strings.Contains(l, ".go:") || l == "" {
					continue
				}
				site = l
				break
			}
			sites = append(sites, site)
		}
		if strings.HasPrefix(sites[0], "vsim/") || strings.HasPrefix(sites[1], "vsim/") || strings.HasPrefix(sites[0], "main.") || strings.HasPrefix(sites[1], "main.") {
			continue
		}
		if sites[1] < sites[0] {
			sites[0], sites[1] = sites[1], sites[0]
		}
		out = append(out, sites[0]+" and "+sites[1])
	}
	return out
}
