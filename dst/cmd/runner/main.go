// runner executes simulated runs: a supervisor that spreads seeds over worker
// processes, the workers, the minimiser and the replayer.
package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

func main() {
	time.Local = time.UTC
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: runner check|worker|replay|try ...")
		os.Exit(2)
	}
	cmd, args := os.Args[1], os.Args[2:]
	if cmd != "check" {
		runtime.GOMAXPROCS(2)
		debug.SetGCPercent(400)
	}
	switch cmd {
	case "check":
		os.Exit(check(args))
	case "worker":
		os.Exit(worker(args))
	case "replay":
		os.Exit(replay(args))
	case "minimise":
		os.Exit(minimiseCmd(args))
	case "one":
		os.Exit(one(args))
	case "try":
		os.Exit(try(args))
	}
	fmt.Fprintln(os.Stderr, "runner: unknown command", cmd)
	os.Exit(2)
}
