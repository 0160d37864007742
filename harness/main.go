package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh check PROP [REPLAYFILE] | worker ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		rp := ""
		if len(os.Args) > 3 {
			rp = os.Args[3]
		}
		os.Exit(runCheckMain(os.Args[2], rp))
	case "worker":
		runWorkerMain(os.Args[2:])
	case "sub":
		subMain(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// sub-programs that workers start as processes of their own
var subs = map[string]func(args []string){}

func subMain(args []string) {
	f := subs[args[0]]
	if f == nil {
		os.Exit(2)
	}
	f(args[1:])
	os.Exit(0)
}
