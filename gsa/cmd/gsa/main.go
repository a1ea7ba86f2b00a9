package main

import (
	"os"
	"runtime/debug"

	"gsa/check"
)

func main() {
	debug.SetMaxStack(256 << 20)
	os.Exit(check.Main(os.Args[1:]))
}
