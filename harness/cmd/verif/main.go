// Command verif runs the checks: verif check ID, verif replay FILE, verif list.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/checks"
	"verif/fw"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check ID | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		fw.Main(os.Args[2])
	case "worker":
		at := func(i int) int { n, _ := strconv.Atoi(os.Args[i]); return n }
		fw.Worker(os.Args[2], at(3), at(4), at(5), os.Args[6])
	case "cold":
		seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
		os.Exit(checks.Cold(seed))
	case "replay":
		fw.Replay(os.Args[2])
	case "list":
		for _, id := range fw.IDs() {
			fmt.Println(id)
		}
	}
}
