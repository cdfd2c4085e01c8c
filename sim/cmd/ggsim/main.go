// Command ggsim runs simulated executions of ggfnt and decides properties.
package main

import (
	"fmt"
	"os"

	"verif.local/sim/core"
	_ "verif.local/sim/world"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: ggsim check|worker|replay|list ...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "hashes":
		hashes(os.Args[2:])
	case "list":
		for _, id := range core.IDs() {
			fmt.Println(id)
		}
	default:
		fatal("unknown command " + os.Args[1])
	}
}

func fatal(msg string) {
	fmt.Fprintln(os.Stderr, "ggsim: "+msg)
	os.Exit(2)
}
