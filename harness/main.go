package main

import (
	"os"
	_ "time/tzdata"

	"verifharness/fw"
)

var checks []*fw.Check

func register(c *fw.Check) { checks = append(checks, c) }

func main() {
	if len(os.Args) > 1 && os.Args[1] == "trace" {
		traceMain()
		return
	}
	fw.Main(checks)
}
