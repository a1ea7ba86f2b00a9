package main

import (
	"os"
	"runtime/debug"

	"gsa/check"
)

func main() {
	debug.SetMaxStack(256 << 20)
	os.Exit(check.Many(os.Args[1], os.Args[2:]))
}
