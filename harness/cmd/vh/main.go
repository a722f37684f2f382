package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID | worker ID | replay FILE | gen ID N")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(driverMain(os.Args[2], os.Args[3:]))
	case "worker":
		workerMain(os.Args[2])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "script":
		os.Exit(scriptMain(os.Args[2]))
	case "gen":
		ck := checks[os.Args[2]]
		for i := 0; i < envInt("VH_CASES", 3); i++ {
			fmt.Println(genCase(ck, uint64(envInt("VERIF_SEED", 1)), i, "quick").JSON())
		}
	default:
		os.Exit(2)
	}
}
