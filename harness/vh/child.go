package main

import (
	"fmt"
	"os"
)

var children = map[string]func(args []string){}

func childMain(args []string) {
	f, ok := children[args[0]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown child", args)
		os.Exit(2)
	}
	f(args[1:])
}
