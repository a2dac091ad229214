package main

import (
	"fmt"
	"os"

	"vsim/scen"
	"vsim/sim"
)

func main() {
	if len(os.Args) == 2 && os.Args[1] == "identities" {
		if err := scen.WriteIdentities(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	sim.Main()
}
