package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
)

type engine struct {
	level   string
	run     func(r *Run)
	sharded bool
}

// subcommands run in child processes of the harness.
var subcommands = map[string]func(args []string) int{}

var engines = map[string]engine{}

func register(prop, level string, f func(r *Run)) { engines[prop] = engine{level: level, run: f} }

// registerSharded is for checks that are explored by several processes.
func registerSharded(prop, level string, f func(r *Run)) {
	engines[prop] = engine{level: level, run: f, sharded: true}
}

func propLevel(p string) string { return engines[p].level }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh PROPERTY")
		os.Exit(2)
	}
	if os.Args[1] == "list" {
		var ks []string
		for k := range engines {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(ks)
		return
	}
	if f, ok := subcommands[os.Args[1]]; ok {
		setupLogging()
		setupCast()
		os.Exit(f(os.Args[2:]))
	}
	e, ok := engines[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[1])
		os.Exit(2)
	}
	setupLogging()
	setupCast()
	if p := os.Getenv("VH_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	r := newRun(os.Args[1])
	if out := os.Getenv("VH_SHARD_OUT"); out != "" {
		e.run(r)
		pprof.StopCPUProfile()
		os.Exit(r.dump(out))
	}
	if e.sharded {
		r.spawn(runtime.NumCPU())
	} else {
		e.run(r)
	}
	rc := r.finish()
	pprof.StopCPUProfile()
	os.Exit(rc)
}
