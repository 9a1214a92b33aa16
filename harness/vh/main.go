// vh is the verification harness binary: it runs the generators and oracles of one property.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
)

var env *pbt.Env

var registry = map[string]func() *pbt.Property{}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		childMain(os.Args[2:])
		return
	}
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	scratch := flag.String("scratch", "", "scratch directory")
	hx := flag.String("hx", "", "horcrux binary")
	repo := flag.String("repo", "/repo", "repository")
	only := flag.String("part", "", "run only this part")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	env = &pbt.Env{Tier: *tier, Seed: *seed, Scratch: *scratch, HX: *hx, Repo: *repo}
	mk, ok := registry[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	pbt.CurrentFile = *scratch + "/current.txt"
	go func() {
		for {
			time.Sleep(150 * time.Millisecond)
			pbt.DumpCurrent()
		}
	}()
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGTERM)
	go func() { <-c; os.Exit(3) }()
	var res *pbt.Result
	if *replay != "" {
		res = pbt.Replay(mk(), env, *replay)
	} else {
		res = pbt.Run(mk(), env, *only)
	}
	pbt.WriteJSON(*out, res)
	switch {
	case res.Violation != nil:
		os.Exit(1)
	case res.HarnessErr != "":
		fmt.Fprintln(os.Stderr, res.HarnessErr)
		os.Exit(2)
	}
}
